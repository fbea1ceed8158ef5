From 9f5e7bbec4665d22860b0afb6bfdba8fb29ba00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:58 +0000
Subject: [PATCH 1/8] fix: hyperelastic C functions claimed slices longer than
 the arrays passed to them

---
 src/constitutive/hyperelastic/buche_silberstein/ex.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/constitutive/hyperelastic/buche_silberstein/ex.rs b/src/constitutive/hyperelastic/buche_silberstein/ex.rs
index 8e4b6c6..1574cd8 100644
--- a/src/constitutive/hyperelastic/buche_silberstein/ex.rs
+++ b/src/constitutive/hyperelastic/buche_silberstein/ex.rs
@@ -1,14 +1,14 @@
 #[no_mangle]
 pub unsafe extern fn constitutive_hyperelastic_buche_silberstein_uniaxial_tension(raw_element: *const [[f64; super::NUMGRID]; super::NUMGRID], factor: f64, raw_grid: *const [f64; super::NUMGRID], normalization: f64, method: u8, nondimensional_link_stiffness: f64, number_of_links: u8, stretch: f64) -> f64
 {
-    let grid = std::slice::from_raw_parts(raw_grid, super::NUMGRID)[0];
-    let element = std::slice::from_raw_parts(raw_element, super::NUMGRID * super::NUMGRID)[0];
+    let grid = std::slice::from_raw_parts(raw_grid, 1)[0];
+    let element = std::slice::from_raw_parts(raw_element, 1)[0];
     super::uniaxial_tension(&element, &factor, &grid, &normalization, &method, &nondimensional_link_stiffness, &number_of_links, &stretch)
 }
 #[no_mangle]
 pub unsafe extern fn constitutive_hyperelastic_buche_silberstein_equibiaxial_tension(raw_element: *const [[f64; super::NUMGRID]; super::NUMGRID], factor: f64, raw_grid: *const [f64; super::NUMGRID], normalization: f64, method: u8, nondimensional_link_stiffness: f64, number_of_links: u8, stretch: f64) -> f64
 {
-    let grid = std::slice::from_raw_parts(raw_grid, super::NUMGRID)[0];
-    let element = std::slice::from_raw_parts(raw_element, super::NUMGRID * super::NUMGRID)[0];
+    let grid = std::slice::from_raw_parts(raw_grid, 1)[0];
+    let element = std::slice::from_raw_parts(raw_element, 1)[0];
     super::equibiaxial_tension(&element, &factor, &grid, &normalization, &method, &nondimensional_link_stiffness, &number_of_links, &stretch)
 }
\ No newline at end of file
-- 
2.43.0


From d5302830a6f791bc211420762853f78558afee8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:34 +0000
Subject: [PATCH 2/8] fix: EFJC isotensional end-to-end length is the
 derivative of the Gibbs free energy

The correction term for finite link stiffness lacked one error function and was
divided by 1 + fraction instead of 0.5 + fraction, so that the end-to-end length
disagreed with -dG/df for soft links.
---
 .../efjc/thermodynamics/isotensional/legendre/mod.rs            | 2 +-
 .../single_chain/efjc/thermodynamics/isotensional/mod.rs        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/physics/single_chain/efjc/thermodynamics/isotensional/legendre/mod.rs b/src/physics/single_chain/efjc/thermodynamics/isotensional/legendre/mod.rs
index dbf87c5..f0e0262 100644
--- a/src/physics/single_chain/efjc/thermodynamics/isotensional/legendre/mod.rs
+++ b/src/physics/single_chain/efjc/thermodynamics/isotensional/legendre/mod.rs
@@ -66,7 +66,7 @@ pub fn nondimensional_helmholtz_free_energy_per_link(link_length: &f64, hinge_ma
 {
     let denominator = 4.0*nondimensional_force.sinh()*(1.0 + nondimensional_force/nondimensional_force.tanh()/nondimensional_link_stiffness);
     let fraction = ((nondimensional_force/nondimensional_link_stiffness + 1.0)*nondimensional_force.exp()*erf(&((nondimensional_force + nondimensional_link_stiffness)/(2.0*nondimensional_link_stiffness).sqrt())) - (nondimensional_force/nondimensional_link_stiffness - 1.0)/nondimensional_force.exp()*erf(&((nondimensional_force - nondimensional_link_stiffness)/(2.0*nondimensional_link_stiffness).sqrt())))/denominator;
-    -(nondimensional_force.sinh()/nondimensional_force).ln() - 0.5*nondimensional_force.powi(2)/nondimensional_link_stiffness - (1.0 + nondimensional_force/nondimensional_force.tanh()/nondimensional_link_stiffness).ln() - (0.5 + ((nondimensional_force/nondimensional_link_stiffness + 1.0)*nondimensional_force.exp()*erf(&((nondimensional_force + nondimensional_link_stiffness)/(2.0*nondimensional_link_stiffness).sqrt())) - (nondimensional_force/nondimensional_link_stiffness - 1.0)/nondimensional_force.exp()*erf(&((nondimensional_force - nondimensional_link_stiffness)/(2.0*nondimensional_link_stiffness).sqrt())))/(4.0*nondimensional_force.sinh()*(1.0 + nondimensional_force/nondimensional_force.tanh()/nondimensional_link_stiffness))).ln() - 0.5*(2.0*PI*link_length.powi(2)/nondimensional_link_stiffness).ln() - (8.0*PI.powi(2)*hinge_mass*link_length.powi(2)*BOLTZMANN_CONSTANT*temperature/PLANCK_CONSTANT.powi(2)).ln() + nondimensional_force*(1.0/nondimensional_force.tanh() - 1.0/nondimensional_force + nondimensional_force/nondimensional_link_stiffness*(1.0 + (nondimensional_force.tanh() - 1.0/nondimensional_force.tanh() + 1.0/nondimensional_force)/(nondimensional_force.tanh() + nondimensional_force/nondimensional_link_stiffness)) + (nondimensional_force.exp()*((2.0/PI/nondimensional_link_stiffness).sqrt()*(nondimensional_force/nondimensional_link_stiffness + 1.0)*(-(nondimensional_force + nondimensional_link_stiffness).powi(2)/2.0/nondimensional_link_stiffness).exp() + (1.0 + (1.0 + nondimensional_force)/nondimensional_link_stiffness)) - 1.0/nondimensional_force.exp()*((2.0/PI/nondimensional_link_stiffness).sqrt()*(nondimensional_force/nondimensional_link_stiffness - 1.0)*(-(nondimensional_force - nondimensional_link_stiffness).powi(2)/2.0/nondimensional_link_stiffness).exp() + (1.0 + (1.0 - nondimensional_force)/nondimensional_link_stiffness)*erf(&((nondimensional_force - nondimensional_link_stiffness)/(2.0*nondimensional_link_stiffness).sqrt()))) - fraction*(4.0*(nondimensional_force.cosh()*(1.0 + (1.0 + nondimensional_force/nondimensional_force.tanh())/nondimensional_link_stiffness) - nondimensional_force/nondimensional_link_stiffness/nondimensional_force.sinh())))/denominator/(1.0 + fraction))
+    -(nondimensional_force.sinh()/nondimensional_force).ln() - 0.5*nondimensional_force.powi(2)/nondimensional_link_stiffness - (1.0 + nondimensional_force/nondimensional_force.tanh()/nondimensional_link_stiffness).ln() - (0.5 + ((nondimensional_force/nondimensional_link_stiffness + 1.0)*nondimensional_force.exp()*erf(&((nondimensional_force + nondimensional_link_stiffness)/(2.0*nondimensional_link_stiffness).sqrt())) - (nondimensional_force/nondimensional_link_stiffness - 1.0)/nondimensional_force.exp()*erf(&((nondimensional_force - nondimensional_link_stiffness)/(2.0*nondimensional_link_stiffness).sqrt())))/(4.0*nondimensional_force.sinh()*(1.0 + nondimensional_force/nondimensional_force.tanh()/nondimensional_link_stiffness))).ln() - 0.5*(2.0*PI*link_length.powi(2)/nondimensional_link_stiffness).ln() - (8.0*PI.powi(2)*hinge_mass*link_length.powi(2)*BOLTZMANN_CONSTANT*temperature/PLANCK_CONSTANT.powi(2)).ln() + nondimensional_force*(1.0/nondimensional_force.tanh() - 1.0/nondimensional_force + nondimensional_force/nondimensional_link_stiffness*(1.0 + (nondimensional_force.tanh() - 1.0/nondimensional_force.tanh() + 1.0/nondimensional_force)/(nondimensional_force.tanh() + nondimensional_force/nondimensional_link_stiffness)) + (nondimensional_force.exp()*((2.0/PI/nondimensional_link_stiffness).sqrt()*(nondimensional_force/nondimensional_link_stiffness + 1.0)*(-(nondimensional_force + nondimensional_link_stiffness).powi(2)/2.0/nondimensional_link_stiffness).exp() + (1.0 + (1.0 + nondimensional_force)/nondimensional_link_stiffness)*erf(&((nondimensional_force + nondimensional_link_stiffness)/(2.0*nondimensional_link_stiffness).sqrt()))) - 1.0/nondimensional_force.exp()*((2.0/PI/nondimensional_link_stiffness).sqrt()*(nondimensional_force/nondimensional_link_stiffness - 1.0)*(-(nondimensional_force - nondimensional_link_stiffness).powi(2)/2.0/nondimensional_link_stiffness).exp() + (1.0 + (1.0 - nondimensional_force)/nondimensional_link_stiffness)*erf(&((nondimensional_force - nondimensional_link_stiffness)/(2.0*nondimensional_link_stiffness).sqrt()))) - fraction*(4.0*(nondimensional_force.cosh()*(1.0 + (1.0 + nondimensional_force/nondimensional_force.tanh())/nondimensional_link_stiffness) - nondimensional_force/nondimensional_link_stiffness/nondimensional_force.sinh())))/denominator/(0.5 + fraction))
 }
 
 /// The nondimensional relative Helmholtz free energy as a function of the applied nondimensional force, parameterized by the number of links and nondimensional link stiffness.
diff --git a/src/physics/single_chain/efjc/thermodynamics/isotensional/mod.rs b/src/physics/single_chain/efjc/thermodynamics/isotensional/mod.rs
index 80cbc73..96c1a13 100644
--- a/src/physics/single_chain/efjc/thermodynamics/isotensional/mod.rs
+++ b/src/physics/single_chain/efjc/thermodynamics/isotensional/mod.rs
@@ -66,7 +66,7 @@ pub fn nondimensional_end_to_end_length_per_link(nondimensional_link_stiffness:
 {
     let denominator = 4.0*nondimensional_force.sinh()*(1.0 + nondimensional_force/nondimensional_force.tanh()/nondimensional_link_stiffness);
     let fraction = ((nondimensional_force/nondimensional_link_stiffness + 1.0)*nondimensional_force.exp()*erf(&((nondimensional_force + nondimensional_link_stiffness)/(2.0*nondimensional_link_stiffness).sqrt())) - (nondimensional_force/nondimensional_link_stiffness - 1.0)/nondimensional_force.exp()*erf(&((nondimensional_force - nondimensional_link_stiffness)/(2.0*nondimensional_link_stiffness).sqrt())))/denominator;
-    1.0/nondimensional_force.tanh() - 1.0/nondimensional_force + nondimensional_force/(nondimensional_link_stiffness)*(1.0 + (nondimensional_force.tanh() - 1.0/nondimensional_force.tanh() + 1.0/nondimensional_force)/(nondimensional_force.tanh() + nondimensional_force/(nondimensional_link_stiffness))) + (nondimensional_force.exp()*((2.0/PI/nondimensional_link_stiffness).sqrt()*(nondimensional_force/nondimensional_link_stiffness + 1.0)*(-(nondimensional_force + nondimensional_link_stiffness).powi(2)/2.0/nondimensional_link_stiffness).exp() + (1.0 + (1.0 + nondimensional_force)/nondimensional_link_stiffness)) - 1.0/nondimensional_force.exp()*((2.0/PI/nondimensional_link_stiffness).sqrt()*(nondimensional_force/nondimensional_link_stiffness - 1.0)*(-(nondimensional_force - nondimensional_link_stiffness).powi(2)/2.0/nondimensional_link_stiffness).exp() + (1.0 + (1.0 - nondimensional_force)/nondimensional_link_stiffness)*erf(&((nondimensional_force - nondimensional_link_stiffness)/(2.0*nondimensional_link_stiffness).sqrt()))) - fraction*(4.0*(nondimensional_force.cosh()*(1.0 + (1.0 + nondimensional_force/nondimensional_force.tanh())/nondimensional_link_stiffness) - nondimensional_force/nondimensional_link_stiffness/nondimensional_force.sinh())))/denominator/(1.0 + fraction)
+    1.0/nondimensional_force.tanh() - 1.0/nondimensional_force + nondimensional_force/(nondimensional_link_stiffness)*(1.0 + (nondimensional_force.tanh() - 1.0/nondimensional_force.tanh() + 1.0/nondimensional_force)/(nondimensional_force.tanh() + nondimensional_force/(nondimensional_link_stiffness))) + (nondimensional_force.exp()*((2.0/PI/nondimensional_link_stiffness).sqrt()*(nondimensional_force/nondimensional_link_stiffness + 1.0)*(-(nondimensional_force + nondimensional_link_stiffness).powi(2)/2.0/nondimensional_link_stiffness).exp() + (1.0 + (1.0 + nondimensional_force)/nondimensional_link_stiffness)*erf(&((nondimensional_force + nondimensional_link_stiffness)/(2.0*nondimensional_link_stiffness).sqrt()))) - 1.0/nondimensional_force.exp()*((2.0/PI/nondimensional_link_stiffness).sqrt()*(nondimensional_force/nondimensional_link_stiffness - 1.0)*(-(nondimensional_force - nondimensional_link_stiffness).powi(2)/2.0/nondimensional_link_stiffness).exp() + (1.0 + (1.0 - nondimensional_force)/nondimensional_link_stiffness)*erf(&((nondimensional_force - nondimensional_link_stiffness)/(2.0*nondimensional_link_stiffness).sqrt()))) - fraction*(4.0*(nondimensional_force.cosh()*(1.0 + (1.0 + nondimensional_force/nondimensional_force.tanh())/nondimensional_link_stiffness) - nondimensional_force/nondimensional_link_stiffness/nondimensional_force.sinh())))/denominator/(0.5 + fraction)
 }
 
 /// The Gibbs free energy as a function of the applied force and temperature, parameterized by the number of links, link length, hinge mass, and link stiffness.
-- 
2.43.0


From e08061d40e6aee9f159807f28ecf993d7722cc2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:35 +0000
Subject: [PATCH 3/8] fix: modified Bessel functions at negative arguments

The polynomial for small arguments was used for every negative argument, which is wrong below -7.75; I0 is even and I1 is odd.
---
 src/math/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math/mod.rs b/src/math/mod.rs
index 0b66ce9..d97056c 100644
--- a/src/math/mod.rs
+++ b/src/math/mod.rs
@@ -96,11 +96,11 @@ pub fn bessel_i(nu: &u8, x: &f64) -> f64
 {
     if nu == &0
     {
-        bessel_i0(x)
+        bessel_i0(&x.abs())
     }
     else if nu == &1
     {
-        bessel_i1(x)
+        x.signum()*bessel_i1(&x.abs())
     }
     else
     {
-- 
2.43.0


From 477a189bc4b06347e230d2c5bcdc9dc73f46e31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:23 +0000
Subject: [PATCH 4/8] fix: FJC Treloar sums overflowed u128 for more than 26
 links and underflowed at full extension

---
 src/physics/single_chain/fjc/thermodynamics/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/physics/single_chain/fjc/thermodynamics/mod.rs b/src/physics/single_chain/fjc/thermodynamics/mod.rs
index 6b1cb99..884451d 100644
--- a/src/physics/single_chain/fjc/thermodynamics/mod.rs
+++ b/src/physics/single_chain/fjc/thermodynamics/mod.rs
@@ -61,7 +61,7 @@ fn treloar_sums(number_of_links: &u8, nondimensional_end_to_end_length_per_link:
     let p: i32 = (number_of_links - 2).into();
     let m = -*nondimensional_end_to_end_length_per_link*0.5 + 0.5;
     let k = (number_of_links_f64*m).ceil() as u128;
-    orders.iter().map(|order| (0..=k-1).collect::<Vec::<u128>>().iter().map(|s| (-1.0_f64).powf(*s as f64)*(((1..=n).product::<u128>()/(1..=*s).product::<u128>()/(1..=n-s).product::<u128>()) as f64)*(m - (*s as f64)/number_of_links_f64).powi(p - order)).sum()).collect()
+    orders.iter().map(|order| (0..k).collect::<Vec::<u128>>().iter().map(|s| (-1.0_f64).powf(*s as f64)*(1..=*s).map(|i| ((n - s + i) as f64)/(i as f64)).product::<f64>()*(m - (*s as f64)/number_of_links_f64).powi(p - order)).sum()).collect()
 }
 
 fn treloar_sum_0_with_prefactor(number_of_links: &u8, nondimensional_end_to_end_length_per_link: &f64) -> f64
@@ -71,5 +71,5 @@ fn treloar_sum_0_with_prefactor(number_of_links: &u8, nondimensional_end_to_end_
     let p: i32 = (number_of_links - 2).into();
     let m = -*nondimensional_end_to_end_length_per_link*0.5 + 0.5;
     let k = (number_of_links_f64*m).ceil() as u128;
-    0.125/PI/nondimensional_end_to_end_length_per_link*(n.pow(n as u32) as f64)/((1..=n-2).product::<u128>() as f64)*(0..=k-1).collect::<Vec::<u128>>().iter().map(|s| (-1.0_f64).powf(*s as f64)*(((1..=n).product::<u128>()/(1..=*s).product::<u128>()/(1..=n-s).product::<u128>()) as f64)*(m - (*s as f64)/number_of_links_f64).powi(p)).sum::<f64>()
+    0.125/PI/nondimensional_end_to_end_length_per_link*number_of_links_f64.powi(2)*(1..=n-2).map(|i| number_of_links_f64/(i as f64)).product::<f64>()*(0..k).collect::<Vec::<u128>>().iter().map(|s| (-1.0_f64).powf(*s as f64)*(1..=*s).map(|i| ((n - s + i) as f64)/(i as f64)).product::<f64>()*(m - (*s as f64)/number_of_links_f64).powi(p)).sum::<f64>()
 }
\ No newline at end of file
-- 
2.43.0


From 49ef8d853f6e7b03a02ee84a1f66b295ad27bfc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:11 +0000
Subject: [PATCH 5/8] fix: damage model's second method ignored the swelling in
 the equilibrium distribution

---
 src/constitutive/hyperelastic_damage/buche_silberstein/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/constitutive/hyperelastic_damage/buche_silberstein/mod.rs b/src/constitutive/hyperelastic_damage/buche_silberstein/mod.rs
index 89682db..1a21557 100644
--- a/src/constitutive/hyperelastic_damage/buche_silberstein/mod.rs
+++ b/src/constitutive/hyperelastic_damage/buche_silberstein/mod.rs
@@ -91,7 +91,7 @@ pub fn uniaxial_tension(element: &[[f64; NUMGRID]], factor: &f64, grid: &[f64],
             cauchy_stress = element.iter().zip(grid.iter()).flat_map(|(element_i, z_i)|
                 element_i.iter().zip(grid.iter()).map(|(element_ij, r_j)|
                     element_ij / nondimensional_relative_helmholtz_free_energy(
-                        number_of_links, nondimensional_link_stiffness, &((*z_i / stretch).powi(2) + stretch * r_j.powi(2)).sqrt()
+                        number_of_links, nondimensional_link_stiffness, &(((*z_i / stretch).powi(2) + stretch * r_j.powi(2)).sqrt() / j_1_3)
                     ).exp() * ((
                         ((*z_i * maximum_previous_stretch / stretch).powi(2) + stretch / maximum_previous_stretch * r_j.powi(2)).sqrt()
                         <= *nondimensional_critical_extension
@@ -101,7 +101,7 @@ pub fn uniaxial_tension(element: &[[f64; NUMGRID]], factor: &f64, grid: &[f64],
             total_probability = grid.iter().flat_map(|z_i|
                 grid.iter().map(|r_j|
                     r_j / nondimensional_relative_helmholtz_free_energy(
-                        number_of_links, nondimensional_link_stiffness, &((*z_i / stretch).powi(2) + stretch * r_j.powi(2)).sqrt()
+                        number_of_links, nondimensional_link_stiffness, &(((*z_i / stretch).powi(2) + stretch * r_j.powi(2)).sqrt() / j_1_3)
                     ).exp() * ((
                         ((*z_i * maximum_previous_stretch / stretch).powi(2) + stretch / maximum_previous_stretch * r_j.powi(2)).sqrt()
                         <= *nondimensional_critical_extension
-- 
2.43.0


From cacfa555e812b8a58521b6524b09422af6fc2507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:41 +0000
Subject: [PATCH 6/8] fix: erfc of large negative arguments

erfcx overflows below -26.6, so erfc returned 0 (and erf returned 1) instead of 2 (and -1).
---
 src/math/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/math/mod.rs b/src/math/mod.rs
index d97056c..e72968c 100644
--- a/src/math/mod.rs
+++ b/src/math/mod.rs
@@ -250,7 +250,14 @@ pub fn erf(x: &f64) -> f64
 
 pub fn erfc(x: &f64) -> f64
 {
-    erfcx(x)/(x.powi(2)).exp()
+    if x < &-6.1
+    {
+        2.0
+    }
+    else
+    {
+        erfcx(x)/(x.powi(2)).exp()
+    }
 }
 
 pub fn erfcx(x: &f64) -> f64
-- 
2.43.0


From 172430793df5ad3669ab97b61cb88149d42dbbc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:03 +0000
Subject: [PATCH 7/8] fix: inverse_newton_raphson_powered returned NaN when an
 iterate is the root

The step divided f_adj^power by f_adj^(power - 1), which is 0/0 once f(x) equals y exactly; the quotient is f_adj.
---
 src/math/mod.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/math/mod.rs b/src/math/mod.rs
index e72968c..123afc7 100644
--- a/src/math/mod.rs
+++ b/src/math/mod.rs
@@ -2,14 +2,12 @@ pub fn inverse_newton_raphson_powered(y: &f64, f: &dyn Fn(&f64) -> f64, fp: &dyn
 {
     let mut x = *guess;
     let mut f_adj: f64;
-    let mut y_minus_f: f64;
     let mut iters = 0;
     let mut residual_rel = 1.0;
     while residual_rel > rel_tol && &iters < max_iters
     {
         f_adj = f(&x) - y;
-        y_minus_f = -f_adj.powi(power);
-        x += y_minus_f/f_adj.powi(power - 1)/fp(&x)/(power as f64);
+        x -= f_adj/fp(&x)/(power as f64);
         iters += 1;
         residual_rel = (f_adj/y).abs();
     }
-- 
2.43.0


From fd9fc5b7f828bed23e01d1f510ffa9daab35eb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:43 +0000
Subject: [PATCH 8/8] fix: FRC Monte Carlo distribution for an odd number of
 links

The largest extension of a chain with an odd number of links exceeds that
of an even number, so sampling panicked for odd numbers of links.
---
 .../frc/thermodynamics/isometric/monte_carlo/mod.rs      | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/physics/single_chain/frc/thermodynamics/isometric/monte_carlo/mod.rs b/src/physics/single_chain/frc/thermodynamics/isometric/monte_carlo/mod.rs
index edf1dad..c5d7001 100644
--- a/src/physics/single_chain/frc/thermodynamics/isometric/monte_carlo/mod.rs
+++ b/src/physics/single_chain/frc/thermodynamics/isometric/monte_carlo/mod.rs
@@ -57,7 +57,14 @@ pub fn nondimensional_equilibrium_radial_distribution<const NUMBER_OF_BINS: usiz
 {
     let mut rng = rand::thread_rng();
     let number_of_links_f64 = NUMBER_OF_LINKS as f64;
-    let gamma_max = (2.0 - 2.0*(PI - theta).cos()).sqrt()/2.0;
+    let gamma_max = if NUMBER_OF_LINKS % 2 == 0
+    {
+        (2.0 - 2.0*(PI - theta).cos()).sqrt()/2.0
+    }
+    else
+    {
+        (1.0 + (1.0 + theta.cos())*(number_of_links_f64.powi(2) - 1.0)/2.0).sqrt()/number_of_links_f64
+    };
     let mut bin_edges = [0.0_f64; NUMBER_OF_BINS];
     bin_edges.iter_mut().enumerate().for_each(|(bin_index, bin_edge)|
         *bin_edge = gamma_max * (bin_index as f64 + 1.0)/(NUMBER_OF_BINS as f64)
-- 
2.43.0

