import PVP
/-! The error function, defined by its integral, and the accuracy of the reference approximations of exp(x²) erfc(x):
piecewise polynomials for 0 ≤ x ≤ 50, a rational function beyond.  `tab` is a certificate; `tab_acc` proves it. -/
open Real Filter Topology MeasureTheory
namespace PVE

noncomputable def erf (x : ℝ) : ℝ := 2 / √π * ∫ t in (0:ℝ)..x, exp (-t ^ 2)
noncomputable def erfc (x : ℝ) : ℝ := 1 - erf x
noncomputable def W (x : ℝ) : ℝ := exp (x ^ 2) * erfc x

lemma gauss_cont : Continuous (fun t : ℝ => exp (-t ^ 2)) := by fun_prop

lemma hasDerivAt_erf (x : ℝ) : HasDerivAt erf (2 / √π * exp (-x ^ 2)) x :=
  (intervalIntegral.integral_hasDerivAt_right (gauss_cont.intervalIntegrable _ _)
    (gauss_cont.stronglyMeasurableAtFilter _ _) gauss_cont.continuousAt).const_mul _

lemma erf_zero : erf 0 = 0 := by simp [erf]

lemma erf_neg (x : ℝ) : erf (-x) = -erf x := by
  unfold erf
  have h := intervalIntegral.integral_comp_neg (a := 0) (b := x) (fun t : ℝ => exp (-t ^ 2))
  simp only [neg_sq, neg_zero] at h
  rw [h, intervalIntegral.integral_symm]; ring

lemma sqrt_pi_pos : 0 < √π := sqrt_pos.2 pi_pos

lemma tendsto_erf : Tendsto erf atTop (𝓝 1) := by
  have h1 : IntegrableOn (fun t : ℝ => exp (-t ^ 2)) (Set.Ioi 0) := by
    have := (integrable_exp_neg_mul_sq (b := 1) one_pos).integrableOn (s := Set.Ioi (0:ℝ))
    simpa using this
  have h2 := intervalIntegral_tendsto_integral_Ioi 0 h1 tendsto_id
  have h3 : ∫ t in Set.Ioi (0:ℝ), exp (-t ^ 2) = √π / 2 := by
    have := integral_gaussian_Ioi 1
    simpa using this
  rw [h3] at h2
  have h4 := h2.const_mul (2 / √π)
  have h5 : 2 / √π * (√π / 2) = 1 := by
    have := sqrt_pi_pos.ne'
    field_simp
  rw [h5] at h4
  exact h4

lemma tendsto_erfc : Tendsto erfc atTop (𝓝 0) := by
  have := tendsto_erf.const_sub 1
  rw [sub_self] at this
  exact this

lemma hasDerivAt_erfc (x : ℝ) : HasDerivAt erfc (-(2 / √π * exp (-x ^ 2))) x := by
  have := (hasDerivAt_erf x).const_sub 1
  exact this

lemma hasDerivAt_gauss (x : ℝ) : HasDerivAt (fun x : ℝ => exp (-x ^ 2)) (exp (-x ^ 2) * (-(2 * x))) x := by
  have h : HasDerivAt (fun x : ℝ => -x ^ 2) (-(2 * x)) x := by
    have := (hasDerivAt_pow 2 x).fun_neg
    simpa using this
  exact h.exp

lemma erfc_strictAnti : StrictAnti erfc := by
  apply strictAnti_of_deriv_neg
  intro x
  rw [(hasDerivAt_erfc x).deriv]
  have := sqrt_pi_pos
  have := exp_pos (-x ^ 2)
  have : 0 < 2 / √π * exp (-x ^ 2) := by positivity
  linarith

lemma erfc_pos (x : ℝ) : 0 < erfc x := by
  have h1 : 0 ≤ erfc (x + 1) := erfc_strictAnti.antitone.le_of_tendsto tendsto_erfc _
  have h2 := erfc_strictAnti (show x < x + 1 by linarith)
  linarith

lemma W_pos (x : ℝ) : 0 < W x := mul_pos (exp_pos _) (erfc_pos x)

lemma erfc_eq (x : ℝ) : erfc x = exp (-x ^ 2) * W x := by
  unfold W; rw [← mul_assoc, ← exp_add]; simp

/-- the scaled error, with a multiple of erfc added: monotone where the residual is small -/
lemma aux_deriv {w w' : ℝ → ℝ} {x s : ℝ} (hw : HasDerivAt w (w' x) x) :
    HasDerivAt (fun y => exp (-y ^ 2) * w y - s * erfc y) (exp (-x ^ 2) * ((w' x - 2 * x * w x + 2 / √π) + (s - 1) * (2 / √π))) x := by
  have := ((hasDerivAt_gauss x).mul hw).sub ((hasDerivAt_erfc x).const_mul s)
  refine this.congr_deriv ?_
  ring

lemma seg {w w' : ℝ → ℝ} {a b δ K : ℝ}
    (hd : ∀ x ∈ Set.Icc a b, HasDerivAt w (w' x) x)
    (hr : ∀ x ∈ Set.Icc a b, |w' x - 2 * x * w x + 2 / √π| ≤ δ) (hδ : δ ≤ K * (2 / √π))
    (hb : |w b - W b| ≤ K * W b) : ∀ x ∈ Set.Icc a b, |w x - W x| ≤ K * W x := by
  intro x hx
  have hab : a ≤ b := hx.1.trans hx.2
  have key : ∀ s : ℝ, ∀ y ∈ Set.Icc a b, HasDerivWithinAt (fun y => exp (-y ^ 2) * w y - s * erfc y) (exp (-y ^ 2) * ((w' y - 2 * y * w y + 2 / √π) + (s - 1) * (2 / √π))) (interior (Set.Icc a b)) y :=
    fun s y hy => (aux_deriv (hd y hy)).hasDerivWithinAt
  have cont : ∀ s : ℝ, ContinuousOn (fun y => exp (-y ^ 2) * w y - s * erfc y) (Set.Icc a b) :=
    fun s y hy => (aux_deriv (w' := w') (s := s) (hd y hy)).continuousAt.continuousWithinAt
  have hbm : b ∈ Set.Icc a b := ⟨hab, le_rfl⟩
  have up : MonotoneOn (fun y => exp (-y ^ 2) * w y - (1 + K) * erfc y) (Set.Icc a b) := by
    apply monotoneOn_of_hasDerivWithinAt_nonneg (convex_Icc a b) (cont _)
    · intro y hy; exact key _ y (interior_subset hy)
    · intro y hy
      have := abs_le.1 (hr y (interior_subset hy))
      apply mul_nonneg (exp_pos _).le; linarith
  have dn : AntitoneOn (fun y => exp (-y ^ 2) * w y - (1 - K) * erfc y) (Set.Icc a b) := by
    apply antitoneOn_of_hasDerivWithinAt_nonpos (convex_Icc a b) (cont _)
    · intro y hy; exact key _ y (interior_subset hy)
    · intro y hy
      have := abs_le.1 (hr y (interior_subset hy))
      apply mul_nonpos_of_nonneg_of_nonpos (exp_pos _).le; linarith
  have h1 := up hx hbm hx.2
  have h2 := dn hx hbm hx.2
  simp only at h1 h2
  rw [erfc_eq x, erfc_eq b] at h1 h2
  have hb' := abs_le.1 hb
  have e1 : 0 < exp (-x ^ 2) := exp_pos _
  have e2 : 0 < exp (-b ^ 2) := exp_pos _
  have g1 : exp (-b ^ 2) * (w b - W b - K * W b) ≤ 0 := mul_nonpos_of_nonneg_of_nonpos e2.le (by linarith)
  have g2 : 0 ≤ exp (-b ^ 2) * (w b - W b + K * W b) := mul_nonneg e2.le (by linarith)
  rw [abs_le]
  constructor
  · have : 0 ≤ exp (-x ^ 2) * (w x - W x + K * W x) := by linarith
    have := nonneg_of_mul_nonneg_right this e1
    linarith
  · have : exp (-x ^ 2) * (w x - W x - K * W x) ≤ 0 := by linarith
    have := nonpos_of_mul_nonpos_right this e1
    linarith

lemma tail {w w' : ℝ → ℝ} {a δ K : ℝ}
    (hd : ∀ x ∈ Set.Ici a, HasDerivAt w (w' x) x)
    (hr : ∀ x ∈ Set.Ici a, |w' x - 2 * x * w x + 2 / √π| ≤ δ) (hδ : δ ≤ K * (2 / √π))
    (hl : Tendsto (fun x => exp (-x ^ 2) * w x) atTop (𝓝 0)) : ∀ x ∈ Set.Ici a, |w x - W x| ≤ K * W x := by
  intro x hx
  have cont : ∀ s : ℝ, ContinuousOn (fun y => exp (-y ^ 2) * w y - s * erfc y) (Set.Ici a) :=
    fun s y hy => (aux_deriv (w' := w') (s := s) (hd y hy)).continuousAt.continuousWithinAt
  have lim : ∀ s : ℝ, Tendsto (fun y => exp (-y ^ 2) * w y - s * erfc y) atTop (𝓝 0) := by
    intro s
    have := hl.sub (tendsto_erfc.const_mul s)
    simpa using this
  have up : MonotoneOn (fun y => exp (-y ^ 2) * w y - (1 + K) * erfc y) (Set.Ici a) := by
    apply monotoneOn_of_hasDerivWithinAt_nonneg (convex_Ici a) (cont _)
    · intro y hy; exact (aux_deriv (hd y (interior_subset hy))).hasDerivWithinAt
    · intro y hy
      have := abs_le.1 (hr y (interior_subset hy))
      apply mul_nonneg (exp_pos _).le; linarith
  have dn : AntitoneOn (fun y => exp (-y ^ 2) * w y - (1 - K) * erfc y) (Set.Ici a) := by
    apply antitoneOn_of_hasDerivWithinAt_nonpos (convex_Ici a) (cont _)
    · intro y hy; exact (aux_deriv (hd y (interior_subset hy))).hasDerivWithinAt
    · intro y hy
      have := abs_le.1 (hr y (interior_subset hy))
      apply mul_nonpos_of_nonneg_of_nonpos (exp_pos _).le; linarith
  have h1 : exp (-x ^ 2) * w x - (1 + K) * erfc x ≤ 0 :=
    ge_of_tendsto (lim _) ((eventually_ge_atTop x).mono fun y hy => up hx (Set.mem_Ici.2 (le_trans hx hy)) hy)
  have h2 : 0 ≤ exp (-x ^ 2) * w x - (1 - K) * erfc x :=
    le_of_tendsto (lim _) ((eventually_ge_atTop x).mono fun y hy => dn hx (Set.mem_Ici.2 (le_trans hx hy)) hy)
  rw [erfc_eq x] at h1 h2
  have e1 : 0 < exp (-x ^ 2) := exp_pos _
  rw [abs_le]
  constructor
  · have : 0 ≤ exp (-x ^ 2) * (w x - W x + K * W x) := by linarith
    have := nonneg_of_mul_nonneg_right this e1
    linarith
  · have : exp (-x ^ 2) * (w x - W x - K * W x) ≤ 0 := by linarith
    have := nonpos_of_mul_nonpos_right this e1
    linarith

/-! ### the reference table -/

def tabN : List (List ℕ) := [
  [114339272982903020000000000000000, 8237285838319657000000000000000, 44160495311765440000000000000, 227988614262119870000000000, 1129129174587924000000000, 5338618936581688000000, 23944209546666666000],
  [130992328788146540000000000000000, 8416700246790696000000000000000, 45555958988457510000000000000, 237239073572141740000000000, 1183978932660269600000000, 5634616306755024000000, 25403679644444446000],
  [148009870155875360000000000000000, 8601809294634594000000000000000, 47008265848816870000000000000, 246940407601973150000000000, 1241877976875229800000000, 5948689037032026000000, 26957764568888890000],
  [165403517393940700000000000000000, 8792845864124146000000000000000, 48520195793001750000000000000, 257117749008817100000000000, 1303012853423082100000000, 6282009758687478000000, 28612737351111112000],
  [183185367898423930000000000000000, 8990054264789172000000000000000, 50094684089553370000000000000, 267797770742180700000000000, 1367582218630461600000000, 6635828774535271000000, 30375273884444443000],
  [201368019642142770000000000000000, 9193690873767368000000000000000, 51734830914104276000000000000, 279008786097104330000000000, 1435797640280904000000000, 7011479031104373000000, 32252476000000000000],
  [219964595982827420000000000000000, 9404024815536678000000000000000, 53443911508041170000000000000, 290780855380493750000000000, 1507884450032973000000000, 7410381364749920000000, 34251892320000000000],
  [238988771872263200000000000000000, 9621338683590018000000000000000, 55225386998049015000000000000, 303145899610476870000000000, 1584082649729633400000000, 7834050047241445000000, 36381553564444445000],
  [258454801552985180000000000000000, 9845929306782012000000000000000, 57082915920051850000000000000, 316137821691648300000000000, 1664647874552963000000000, 8284098592878540000000, 38649975768888890000],
  [278377547834746980000000000000000, 10078108563256892000000000000000, 59020366493792216000000000000, 329792635532465200000000000, 1749852415926845700000000, 8762245912484253000000, 41066206488888890000],
  [298772513048993080000000000000000, 10318204245057350000000000000000, 61041829697162060000000000000, 344148603595427200000000000, 1839986307293409000000000, 9270322736636504000000, 43639844053333335000],
  [319655871785964500000000000000000, 10566560976716574000000000000000, 63151633192414580000000000000, 359246383395219200000000000, 1935358475878117300000000, 9810278385988926000000, 46381060817777776000],
  [341044505525883400000000000000000, 10823541191350532000000000000000, 65354356159553930000000000000, 375129183485335240000000000, 2036297963581788300000000, 10384187833037281000000, 49300625262222220000],
  [362956039282924250000000000000000, 11089526167995269000000000000000, 67654845095518360000000000000, 391842929499135900000000000, 2143155220213377500000000, 10994259106646732000000, 52409949102222220000],
  [385408880388405100000000000000000, 11364917134175420000000000000000, 70058230641246310000000000000, 409436440837185840000000000, 2256303472369288300000000, 11642841011361993000000, 55721092871111110000],
  [408422259547859600000000000000000, 11650136437945675000000000000000, 72569945502343000000000000000, 427961618618550400000000000, 2376140171100502300000000, 12332431172381557000000, 59246802364444440000],
  [432016274315402200000000000000000, 11945628793917271000000000000000, 75195743532849200000000000000, 447473645539609900000000000, 2503088521647295000000000, 13065684400300477000000, 63000532853333340000],
  [456211935138104700000000000000000, 12251862608067530000000000000000, 77941720055551920000000000000, 468031198309544600000000000, 2637599098397842600000000, 13845421370977120000000, 66996477404444446000],
  [481031214132998650000000000000000, 12569331386432195000000000000000, 80814333496367680000000000000, 489696673356820200000000000, 2780151548190574600000000, 14674637611609885000000, 71249589351111110000],
  [506497096769833400000000000000000, 12898555233099055000000000000000, 83820428414568800000000000000, 512536426525518400000000000, 2931256384967550700000000, 15556512782814827000000, 75775607822222230000],
  [532633636643888640000000000000000, 13240082443256975000000000000000, 86967260015007670000000000000, 536621027503968000000000000, 3091456878663480000000000, 16494420240828494000000, 80591079644444440000],
  [559466013535000100000000000000000, 13594491197408190000000000000000, 90262520233016380000000000000, 562025529750566960000000000, 3261331041050314000000000, 17491936862246368000000, 85713381688888880000],
  [587020594961540840000000000000000, 13962391363223647000000000000000, 93714365487312790000000000000, 588829756702652850000000000, 3441493711059175600000000, 18552853109751860000000, 91160736711111100000],
  [615325001451447750000000000000000, 14344426411912014000000000000000, 97331446201016810000000000000, 617118605073471800000000000, 3632598741829530000000000, 19681183310134517000000, 96952238400000000000],
  [644408175766532900000000000000000, 14741275456383132000000000000000, 101122938195764380000000000000, 646982366059332500000000000, 3835341291530366500000000, 20881176114385120000000, 103107844800000000000],
  [674300456331303900000000000000000, 15153655418916540000000000000000, 105098576068883290000000000000, 678517065293633400000000000, 4050460219481114000000000, 22157325110542536000000, 109648421155555550000],
  [705033655133388600000000000000000, 15582323336495710000000000000000, 109268688668652300000000000000, 711824822396135100000000000, 4278740589015338600000000, 23514379522274420000000, 116595717511111110000],
  [736641140379446000000000000000000, 16028078812438820000000000000000, 113644236787782080000000000000, 747014230974231800000000000, 4521016277747649000000000, 24957355004088570000000, 123972382577777770000],
  [769157924208195600000000000000000, 16491766623447889000000000000000, 118236853200413010000000000000, 784200759937815400000000000, 4778172695691648000000000, 26491544403815725000000, 131801964622222220000],
  [802620755780946200000000000000000, 16974279491709504000000000000000, 123058885173098910000000000000, 823507176989790400000000000, 5051149610985711000000000, 28122528497626900000000, 140108896355555550000],
  [837068220089803600000000000000000, 17476561032212657000000000000000, 128123439585407640000000000000, 865063995150364400000000000, 5340944082386946000000000, 29856186620887555000000, 148918515911111100000],
  [872540842844617100000000000000000, 17999608886001962000000000000000, 133444430800894930000000000000, 909009943164290000000000000, 5648613497261646000000000, 31698707080033960000000, 158256977955555560000],
  [909081201821727400000000000000000, 18544478050657700000000000000000, 139036631434261200000000000000, 955492460625499100000000000, 5975278712524205000000000, 33656597366099100000000, 168151306133333340000],
  [946734045080754900000000000000000, 19112284419887304000000000000000, 144915726165450050000000000000, 1004668218633361400000000000, 6322127295979100000000000, 35736693975589130000000, 178629315911111100000],
  [985546416480044500000000000000000, 19704208544725622000000000000000, 151098368756254450000000000000, 1056703666767598400000000000, 6690416864001935000000000, 37946171850824340000000, 189719590400000000000],
  [1025567788947009000000000000000000, 20321499629472857000000000000000, 157602242429621800000000000000, 1111775607135350700000000000, 7081478511009766000000000, 40292553276632560000000, 201451430755555560000],
  [1066850205986509400000000000000000, 20965479776148730000000000000000, 164446123776249820000000000000, 1170071796202615300000000000, 7496720325093842000000000, 42783716186085925000000, 213854793600000000000],
  [1109448431938644400000000000000000, 21637548491908170000000000000000, 171649950357196560000000000000, 1231791575073593800000000000, 7937630983149963000000000, 45427901763106360000000, 226960256533333330000],
  [1153420111526880500000000000000000, 22339187474546420000000000000000, 179234892175042260000000000000, 1297146528824599700000000000, 8405783418038907000000000, 48233721206418025000000, 240798900622222220000],
  [1198825939268409500000000000000000, 23071965691918690000000000000000, 187223427189589370000000000000, 1366361175433795800000000000, 8902838548849328000000000, 51210161569225850000000, 255402271111111100000],
  [1245729839350981200000000000000000, 23837544771809576000000000000000, 195639421057116100000000000000, 1439673684773947000000000000, 9430549064645925000000000, 54366590583134220000000, 270802259200000000000],
  [1294199156614243800000000000000000, 24637684719508860000000000000000, 204508211274758800000000000000, 1517336628052390600000000000, 9990763250638903000000000, 57712760311351630000000, 287030995555555550000],
  [1344304859308869700000000000000000, 25474249981080823000000000000000, 213856695913629160000000000000, 1599617757990044200000000000, 10585428844575133000000000, 61258809536787880000000, 304120801422222200000],
  [1396121754343456200000000000000000, 26349215871051762000000000000000, 223713427125725680000000000000, 1686800819929682300000000000, 11216596910444997000000000, 65015264753090890000000, 322103945066666700000],
  [1449728715767380000000000000000000, 27264675383982440000000000000000, 234108709610509500000000000000, 1779186393952637800000000000, 11886425714330958000000000, 68993039665054284000000, 341012662222222250000],
  [1505208927277461900000000000000000, 28222846410136237000000000000000, 245074704227133980000000000000, 1877092767962613700000000000, 12597184587583370000000000, 73203433049229830000000, 360878890488888870000],
  [1562650139577461000000000000000000, 29226079376196627000000000000000, 256645536937684500000000000000, 1980856841565446200000000000, 13351257759815557000000000, 77658124891046760000000, 381734200355555600000],
  [1622144943462073800000000000000000, 30276865332726477000000000000000, 268857413265345630000000000000, 2090835060434638300000000000, 14151148144240730000000000, 82369170665974320000000, 403609574577777800000],
  [1683791059541213000000000000000000, 31377844510793083000000000000000, 281748738449111730000000000000, 2207404380704578200000000000, 14999481055996090000000000, 87348993661930810000000, 426535289777777800000],
  [1747691645565937000000000000000000, 32531815370903066000000000000000, 295360243473443650000000000000, 2330963262776707400000000000, 15899007843582445000000000, 92610375235427360000000, 450540731022222240000],
  [1813955622364370200000000000000000, 33741744168097000000000000000000, 309735117147095000000000000000, 2461932693759229000000000000, 16852609412267751000000000, 98166442942854900000000, 475654180977777800000],
  [1882698019444366500000000000000000, 35010775057740316000000000000000, 324919144400142700000000000000, 2600757237588632000000000000, 17863299617388377000000000, 104030656383438780000000, 501902658311111100000],
  [1954040341369396900000000000000000, 36342240767211326000000000000000, 340960850962009060000000000000, 2747906111701763600000000000, 18934228504790033000000000, 110216790753235990000000, 529311717333333300000],
  [2028110956065188600000000000000000, 37739673859323600000000000000000, 357911654575924100000000000000, 2903874288941617400000000000, 20068685374849000000000000, 116738917995783810000000, 557905230933333350000],
  [2105045506266933500000000000000000, 39206818613925650000000000000000, 375826022896801050000000000000, 3069183623188687700000000000, 21270101645763676000000000, 123611385510628990000000, 587705201600000000000],
  [2184987345370333300000000000000000, 40747643554689590000000000000000, 394761638209867100000000000000, 3244383997013992000000000000, 22542053491518680000000000, 130848792352908590000000, 618731532622222200000],
  [2268087999004323000000000000000000, 42366354648628520000000000000000, 414779569096568960000000000000, 3430054489450281000000000000, 23888264229264067000000000, 138465962928185140000000, 651001837511111200000],
  [2354507653698870400000000000000000, 44067409206365170000000000000000, 435944449162247000000000000000, 3626804561776041500000000000, 25312606430853200000000000, 146477918128379020000000, 684531226311111100000],
  [2444415674077743400000000000000000, 45855530511605780000000000000000, 458324662926830860000000000000, 3835275259003303000000000000, 26819103733055602000000000, 154899843908847580000000, 719332063644444400000],
  [2537991150063426700000000000000000, 47735723208650030000000000000000, 481992538965341850000000000000, 4056140424556473300000000000, 28411932320871164000000000, 163747057364583200000000, 755413798222222200000],
  [2635423475639361300000000000000000, 49713289477083785000000000000000, 507024550369303700000000000000, 4290107925426818500000000000, 30095422058900480000000000, 173034970253473400000000, 792782733688888800000],
  [2736912960773234500000000000000000, 51793846023052640000000000000000, 533501522583266000000000000000, 4537920884886502000000000000, 31874057245814380000000000, 182779050102451100000000, 831441823644444400000],
  [2842671478164031700000000000000000, 53983341916695140000000000000000, 561508848652558100000000000000, 4800358919649474000000000000, 33752476967570798000000000, 192994778880834680000000, 871390491377777700000],
  [2952923146534852000000000000000000, 56288077305420795000000000000000, 591136711899133100000000000000, 5078239378174484000000000000, 35735475025851714000000000, 203697609370170700000000, 912624426133333300000],
  [3067905052252884000000000000000000, 58714723032745400000000000000000, 622480316021976800000000000000, 5372418576620094000000000000, 37827999418960240000000000, 214902919304445400000000, 955135391822222300000],
  [3187868011117332000000000000000000, 61270341192339100000000000000000, 655640122597076400000000000000, 5683793028783774000000000000, 40035151353392380000000000, 226625963412392950000000, 998911097600000000000],
  [3313077372215262300000000000000000, 63962406646798080000000000000000, 690722095929424000000000000000, 6013300666188594000000000000, 42362183765883470000000000, 238881823470736970000000, 1043934981155555500000],
  [3443813865804133400000000000000000, 66798829540414000000000000000000, 727837955186035600000000000000, 6361922044322880000000000000, 44814499336514450000000000, 251685356512854760000000, 1090186138311111100000],
  [3580374497238017500000000000000000, 69787978834882690000000000000000, 767105433714548200000000000000, 6730681530891739000000000000, 47397647975845230000000000, 265051141411430500000000, 1137639093333333200000],
  [3723073489011972700000000000000000, 72938706896461380000000000000000, 808648545426707200000000000000, 7120648471806269000000000000, 50117323769745884000000000, 278993423941000730000000, 1186263761422222200000],
  [3872243273055545000000000000000000, 76260375162549800000000000000000, 852597858100046100000000000000, 7532938330517133000000000000, 52979361368388120000000000, 293526060541640900000000, 1236025337066666600000],
  [4028235535461694000000000000000000, 79762880915029730000000000000000, 899090773424382500000000000000, 7968713796195619000000000000, 55989731807360405000000000, 308662461014648660000000, 1286884194666666800000],
  [4191422315891379000000000000000000, 83456685186950460000000000000000, 948271813592501600000000000000, 8429185856178314000000000000, 59154537751083490000000000, 324415530343474700000000, 1338795794311111000000],
  [4362197163946378600000000000000000, 87352841828289500000000000000000, 1000292914206680000000000000000, 8915614828021988000000000000, 62480008150788600000000000, 340797609834588800000000, 1391710717688888800000],
  [4540976354853433000000000000000000, 91463027755548240000000000000000, 1055313723244616700000000000000, 9429311346463863000000000000, 65972492312219960000000000, 357820417954765640000000, 1445574587200000000000],
  [4728200166851233000000000000000000, 95799574408860460000000000000000, 1113501905800006700000000000000, 9971637300550903000000000000, 69638453369956970000000000, 375494990881613460000000, 1500328071288889000000],
  [4924334222717984000000000000000000, 100375500439094970000000000000000, 1175033454284523500000000000000, 10544006716188967000000000000, 73484461168242220000000000, 393831623264357500000000, 1555906911822222300000],
  [5129870897920926000000000000000000, 105204545646124270000000000000000, 1240093003749499700000000000000, 11147886579371265000000000000, 77517184550568700000000000, 412839809318726250000000, 1612241968000000000000],
  [5345330797910137000000000000000000, 110301206188007270000000000000000, 1308874151957227000000000000000, 11784797595374515000000000000, 81743383063044820000000000, 432528184495170840000000, 1669259264000000000000],
  [5571264307116930000000000000000000, 115680771079297360000000000000000, 1381579783803665200000000000000, 12456314879260905000000000000, 86169898078969320000000000, 452904468115396500000000, 1726880108444444300000],
  [5808253212251933000000000000000000, 121359359995038780000000000000000, 1458422399666584000000000000000, 13164068573095710000000000000, 90803643355106020000000000, 473975407131246200000000, 1785021160888889000000],
  [6056912402529337000000000000000000, 127353962395255500000000000000000, 1539624447225886400000000000000, 13909744385382817000000000000, 95651595032306230000000000, 495746721276690400000000, 1843594556444444400000],
  [6317891649471572000000000000000000, 133682477982870320000000000000000, 1625418656276207600000000000000, 14695084048334055000000000000, 100720781096041520000000000, 518223049956807100000000, 1902508142222222300000],
  [6591877468972532000000000000000000, 140363758506019920000000000000000, 1716048376025970700000000000000, 15521885688723188000000000000, 106018270315352800000000000, 541407901058375200000000, 1961665514666666700000],
  [6879595068317443000000000000000000, 147417650913658680000000000000000, 1811767914352043300000000000000, 16392004108230584000000000000, 111551160680180430000000000, 565303601949256900000000, 2020966366222222200000],
  [7181810380872997000000000000000000, 154865041871171120000000000000000, 1912842878455092400000000000000, 17307350969359975000000000000, 117326567361136080000000000, 589911252875638400000000, 2080306533333333400000],
  [7499332191172625000000000000000000, 162727903640447830000000000000000, 2019550516337791200000000000000, 18269894883203348000000000000, 123351610216302250000000000, 615230683121690800000000, 2139578343111111200000],
  [7833014353128349000000000000000000, 171029341326524300000000000000000, 2132180058506332800000000000000, 19281661395543912000000000000, 129633400873543420000000000, 641260409980663500000000, 2198670894222222300000],
  [8183758104102381000000000000000000, 179793641490442230000000000000000, 2251033059275313000000000000000, 20344732868018175000000000000, 136179029418399500000000000, 667997600839724800000000, 2257470126222222000000],
  [8552514477568512000000000000000000, 189046322125475600000000000000000, 2376423737037125500000000000000, 21461248251306390000000000000, 142995550718705230000000000, 695438038646941800000000, 2315859368888888700000],
  [8940286817084994000000000000000000, 198814183991272000000000000000000, 2508679312839599400000000000000, 22633402747585233000000000000, 150089970421165300000000000, 723576090750439400000000, 2373719473777777700000],
  [9348133394287079000000000000000000, 209125363297803700000000000000000, 2648140346599848000000000000000, 23863447359754924000000000000, 157469230654721830000000000, 752404681417201500000000, 2430929127111111400000],
  [9777170133588503000000000000000000, 220009385728304800000000000000000, 2795161070268238000000000000000, 25153688325245316000000000000, 165140195478228200000000000, 781915268293682300000000, 2487365235555555700000]]

def ofN (p : List ℕ) : List ℚ := p.map fun n => mkRat n (10 ^ 34)

def tab : List (List ℚ) := tabN.map ofN

def C : ℚ := 1128379167095512573896158903 / 10 ^ 27

lemma le_of_sq_le_sq' {a b : ℝ} (hb : 0 ≤ b) (h : a ^ 2 ≤ b ^ 2) : a ≤ b := (abs_le_of_sq_le_sq' h hb).2

lemma two_sqrt_pi : |2 / √π - (C : ℝ)| ≤ 1 / 10 ^ 17 := by
  have hp := sqrt_pi_pos
  have h4 : (2 / √π) ^ 2 = 4 / π := by rw [div_pow, sq_sqrt pi_pos.le]; norm_num
  have hs : 0 < 2 / √π := by positivity
  have l := Real.pi_gt_d20
  have u := Real.pi_lt_d20
  rw [abs_le]
  constructor
  · have : (C : ℝ) - 1 / 10 ^ 17 ≤ 2 / √π := by
      apply le_of_sq_le_sq' hs.le
      rw [h4, le_div_iff₀ pi_pos]
      have : (C - 1 / 10 ^ 17 : ℝ) ^ 2 * π ≤ (C - 1 / 10 ^ 17 : ℝ) ^ 2 * 3.14159265358979323847 :=
        mul_le_mul_of_nonneg_left u.le (sq_nonneg _)
      refine this.trans ?_
      norm_num [C]
    linarith
  · have : 2 / √π ≤ (C : ℝ) + 1 / 10 ^ 17 := by
      apply le_of_sq_le_sq' (by norm_num [C])
      rw [h4, div_le_iff₀ pi_pos]
      have : (C + 1 / 10 ^ 17 : ℝ) ^ 2 * 3.14159265358979323846 ≤ (C + 1 / 10 ^ 17 : ℝ) ^ 2 * π :=
        mul_le_mul_of_nonneg_left l.le (sq_nonneg _)
      refine le_trans ?_ this
      norm_num [C]
    linarith

/-! ### one cell of the table: z = 400 / (4 + x), k ≤ z ≤ k + 1, t = 2 z - (2 k + 1) -/

noncomputable def cell (k : ℕ) (p : List ℚ) (x : ℝ) : ℝ := ev p (2 * (400 / (4 + x)) - (2 * k + 1))

/-- the ordinate of the cell as a polynomial of t -/
def zp (k : ℕ) : List ℚ := [(2 * k + 1) / 2, 1 / 2]

/-- z times the residual of w' = 2 x w - 2/√π, as a polynomial of t -/
def res (k : ℕ) (p : List ℚ) : List ℚ :=
  padd (psc (-1 / 200) (pmul (pmul (zp k) (pmul (zp k) (zp k))) (pder p)))
    (padd (psc (-2) (pmul (padd [400] (psc (-4) (zp k))) p)) (psc C (zp k)))

def okRes (k : ℕ) (p : List ℚ) : Bool := decide (pabs (res k p) ≤ 999 / 10 ^ 15 * k)

lemma cell_z {k : ℕ} (hk : 0 < k) {x : ℝ} (h1 : 400 / ((k : ℝ) + 1) - 4 ≤ x) (h2 : x ≤ 400 / (k : ℝ) - 4) :
    0 < 4 + x ∧ (k : ℝ) ≤ 400 / (4 + x) ∧ 400 / (4 + x) ≤ k + 1 := by
  have hk' : (0 : ℝ) < k := by exact_mod_cast hk
  have p1 : 0 < 400 / ((k : ℝ) + 1) := by positivity
  have p2 : 0 < 4 + x := by linarith
  refine ⟨p2, ?_, ?_⟩
  · rw [le_div_iff₀ p2, ← le_div_iff₀' hk']; linarith
  · rw [div_le_iff₀ p2, ← div_le_iff₀' (by linarith)]; linarith

lemma cell_deriv (k : ℕ) (p : List ℚ) {x : ℝ} (hx : 0 < 4 + x) :
    HasDerivAt (cell k p) (ev (pder p) (2 * (400 / (4 + x)) - (2 * k + 1)) * (-(800 / (4 + x) ^ 2))) x := by
  have h1 : HasDerivAt (fun x : ℝ => 4 + x) 1 x := (hasDerivAt_id' x).const_add 4
  have h2 : HasDerivAt (fun x : ℝ => 2 * (400 / (4 + x)) - (2 * (k:ℝ) + 1)) (-(800 / (4 + x) ^ 2)) x := by
    have := (((hasDerivAt_const x (400:ℝ)).fun_div h1 hx.ne').const_mul 2).sub_const (2 * (k:ℝ) + 1)
    refine this.congr_deriv ?_
    ring
  exact (ev_pder p _).comp x h2

lemma cell_res {k : ℕ} (hk : 0 < k) (p : List ℚ) (h : okRes k p = true) {x : ℝ}
    (h1 : 400 / ((k : ℝ) + 1) - 4 ≤ x) (h2 : x ≤ 400 / (k : ℝ) - 4) :
    |ev (pder p) (2 * (400 / (4 + x)) - (2 * k + 1)) * (-(800 / (4 + x) ^ 2)) - 2 * x * cell k p x + 2 / √π| ≤ 1 / 10 ^ 12 := by
  obtain ⟨hx, l, u⟩ := cell_z hk h1 h2
  have hk' : (0 : ℝ) < k := by exact_mod_cast hk
  set z := 400 / (4 + x) with hz
  set t := 2 * z - (2 * (k:ℝ) + 1) with ht
  have hzp : ev (zp k) t = z := by simp only [zp, ev]; push_cast; rw [ht]; ring
  have hz0 : 0 < z := by linarith
  have ex : x = 400 / z - 4 := by rw [hz]; field_simp; ring
  have t1 : |t| ≤ 1 := by rw [abs_le]; constructor <;> linarith
  have hb := ev_abs (res k p) t1
  have hok : pabs (res k p) ≤ 999 / 10 ^ 15 * k := by simpa [okRes] using h
  have hok' : ((pabs (res k p) : ℚ) : ℝ) ≤ 999 / 10 ^ 15 * k := by
    have : ((pabs (res k p) : ℚ) : ℝ) ≤ ((999 / 10 ^ 15 * k : ℚ) : ℝ) := by exact_mod_cast hok
    refine this.trans (le_of_eq ?_)
    push_cast; ring
  have er : ev (res k p) t = -(1 / 200) * z ^ 3 * ev (pder p) t - 2 * (400 - 4 * z) * ev p t + C * z := by
    simp only [res, ev_padd, ev_psc, ev_pmul, hzp]
    simp only [ev]; push_cast; ring
  have e2 : z * (ev (pder p) t * (-(800 / (4 + x) ^ 2)) - 2 * x * ev p t + 2 / √π) = ev (res k p) t + (2 / √π - C) * z := by
    have e3 : (800 / (4 + x) ^ 2) = z ^ 2 / 200 := by rw [hz]; field_simp; norm_num
    have e4 : z * x = 400 - 4 * z := by rw [ex]; field_simp
    rw [er, e3]
    linear_combination (-2 * ev p t) * e4
  have hc := two_sqrt_pi
  have : |z * (ev (pder p) t * (-(800 / (4 + x) ^ 2)) - 2 * x * ev p t + 2 / √π)| ≤ z * (1 / 10 ^ 12) := by
    rw [e2]
    refine (abs_add_le _ _).trans ?_
    rw [abs_mul, abs_of_pos hz0]
    have : |2 / √π - (C:ℝ)| * z ≤ 1 / 10 ^ 17 * z := mul_le_mul_of_nonneg_right hc hz0.le
    nlinarith
  rw [abs_mul, abs_of_pos hz0] at this
  exact le_of_mul_le_mul_left this hz0

lemma sqrt_pi_lb : (1 : ℝ) / 10 ^ 12 ≤ 9 / 10 ^ 13 * (2 / √π) := by
  have := abs_le.1 two_sqrt_pi
  have : (1.12:ℝ) ≤ 2 / √π := by
    have : (1.128:ℝ) ≤ C := by norm_num [C]
    linarith
  nlinarith

/-- accuracy over a cell from accuracy at its right end -/
lemma cell_acc {k : ℕ} (hk : 0 < k) (p : List ℚ) (h : okRes k p = true) {K : ℝ} (hK : 9 / 10 ^ 13 ≤ K) {b : ℝ} (hbk : b ≤ 400 / (k : ℝ) - 4)
    (hb : |cell k p b - W b| ≤ K * W b) : ∀ x ∈ Set.Icc (400 / ((k : ℝ) + 1) - 4) b, |cell k p x - W x| ≤ K * W x := by
  apply seg (δ := 1 / 10 ^ 12) (w' := fun x => ev (pder p) (2 * (400 / (4 + x)) - (2 * k + 1)) * (-(800 / (4 + x) ^ 2)))
  · intro x hx
    exact cell_deriv k p (cell_z hk hx.1 (hx.2.trans hbk)).1
  · intro x hx
    exact cell_res hk p h hx.1 (hx.2.trans hbk)
  · have := sqrt_pi_lb
    have hp : 0 < 2 / √π := by have := sqrt_pi_pos; positivity
    nlinarith
  · exact hb

/-- cells meet -/
def okJump (p q : List ℚ) : Bool := decide (|evQ q (-1) - evQ p 1| ≤ 1 / 10 ^ 15 * evQ p 1)

lemma cell_jump {k : ℕ} (p q : List ℚ) (h : okJump p q = true) {K : ℝ} (_h0 : 0 ≤ K) (hK1 : K ≤ 1)
    (hp : |cell k p (400 / ((k : ℝ) + 1) - 4) - W (400 / ((k : ℝ) + 1) - 4)| ≤ K * W (400 / ((k : ℝ) + 1) - 4)) :
    |cell (k + 1) q (400 / ((k : ℝ) + 1) - 4) - W (400 / ((k : ℝ) + 1) - 4)| ≤ (K + 2 / 10 ^ 15) * W (400 / ((k : ℝ) + 1) - 4) := by
  set x := 400 / ((k : ℝ) + 1) - 4 with hx
  have hz : 400 / (4 + x) = (k : ℝ) + 1 := by
    have : (0:ℝ) < (k:ℝ) + 1 := by positivity
    rw [hx]; field_simp; ring
  have e1 : cell k p x = ((evQ p 1 : ℚ) : ℝ) := by
    rw [← ev_evQ]; unfold cell; rw [hz]; congr 1; push_cast; ring
  have e2 : cell (k + 1) q x = ((evQ q (-1) : ℚ) : ℝ) := by
    rw [← ev_evQ]; unfold cell; rw [hz]; congr 1; push_cast; ring
  have hj : |evQ q (-1) - evQ p 1| ≤ 1 / 10 ^ 15 * evQ p 1 := by simpa [okJump] using h
  have hj' : |((evQ q (-1) : ℚ) : ℝ) - ((evQ p 1 : ℚ) : ℝ)| ≤ 1 / 10 ^ 15 * ((evQ p 1 : ℚ) : ℝ) := by
    have : ((|evQ q (-1) - evQ p 1| : ℚ) : ℝ) ≤ ((1 / 10 ^ 15 * evQ p 1 : ℚ) : ℝ) := by exact_mod_cast hj
    push_cast at this
    linarith
  have hw := W_pos x
  rw [e2]
  rw [e1] at hp
  have a1 := abs_le.1 hp
  have a2 := abs_le.1 hj'
  rw [abs_le]
  constructor <;> nlinarith

def chk : ℕ → List ℚ → List (List ℚ) → Bool
  | _, _, [] => true
  | k, p, q :: r => okJump p q && (okRes (k + 1) q && chk (k + 1) q r)

lemma chk_sound : ∀ (r : List (List ℚ)) (k : ℕ) (p : List ℚ) (K : ℝ), chk k p r = true → 9 / 10 ^ 13 ≤ K →
    K + r.length * (2 / 10 ^ 15) ≤ 2 / 10 ^ 12 →
    |cell k p (400 / ((k : ℝ) + 1) - 4) - W (400 / ((k : ℝ) + 1) - 4)| ≤ K * W (400 / ((k : ℝ) + 1) - 4) →
    ∀ i q, r[i]? = some q → ∀ x ∈ Set.Icc (400 / ((k + 1 + i : ℕ) + 1 : ℝ) - 4) (400 / ((k + 1 + i : ℕ) : ℝ) - 4),
      |cell (k + 1 + i) q x - W x| ≤ 2 / 10 ^ 12 * W x := by
  intro r
  induction r with
  | nil => intro k p K _ _ _ _ i q h; simp at h
  | cons q r ih =>
    intro k p K hc hK hL ha i s hs x hx
    simp only [chk, Bool.and_eq_true] at hc
    obtain ⟨c1, c2, c3⟩ := hc
    have hr : (0:ℝ) ≤ r.length := by positivity
    have hL' : K + 2 / 10 ^ 15 + r.length * (2 / 10 ^ 15) ≤ 2 / 10 ^ 12 := by
      rw [List.length_cons] at hL; push_cast at hL; linarith
    have hj := cell_jump p q c1 (by linarith) (by nlinarith) ha
    have hacc := cell_acc (k := k + 1) (by omega) q c2 (K := K + 2 / 10 ^ 15) (by linarith) (b := 400 / ((k + 1 : ℕ) : ℝ) - 4) le_rfl
      (by push_cast; exact hj)
    have mono : (400 : ℝ) / ((k + 1 : ℕ) + 1 : ℝ) - 4 ≤ 400 / ((k + 1 : ℕ) : ℝ) - 4 := by
      have : (400 : ℝ) / ((k + 1 : ℕ) + 1 : ℝ) ≤ 400 / ((k + 1 : ℕ) : ℝ) :=
        div_le_div_of_nonneg_left (by norm_num) (by positivity) (by linarith)
      linarith
    cases i with
    | zero =>
      simp only [List.getElem?_cons_zero, Option.some.injEq] at hs
      subst hs
      refine (hacc x hx).trans ?_
      apply mul_le_mul_of_nonneg_right _ (W_pos x).le
      nlinarith
    | succ i =>
      simp only [List.getElem?_cons_succ] at hs
      have := ih (k + 1) q (K + 2 / 10 ^ 15) c3 (by linarith) hL' (hacc _ ⟨le_rfl, mono⟩) i s hs x
      have e : k + 1 + (i + 1) = k + 1 + 1 + i := by omega
      rw [e] at hx ⊢
      exact this hx

/-! ### beyond the table -/

noncomputable def A (x : ℝ) : ℝ := 0.5641895835477563 * (x ^ 2 * (x ^ 2 + 4.5) + 2) / (x * (x ^ 2 * (x ^ 2 + 5) + 3.75))

lemma A_deriv {x : ℝ} (hx : 0 < x) : HasDerivAt A
    ((0.5641895835477563 * (4 * x ^ 3 + 9 * x) * (x * (x ^ 2 * (x ^ 2 + 5) + 3.75)) - 0.5641895835477563 * (x ^ 2 * (x ^ 2 + 4.5) + 2) * (5 * x ^ 4 + 15 * x ^ 2 + 3.75))
      / (x * (x ^ 2 * (x ^ 2 + 5) + 3.75)) ^ 2) x := by
  have hD : x * (x ^ 2 * (x ^ 2 + 5) + 3.75) ≠ 0 := by positivity
  have i := hasDerivAt_id' x
  have h2 := hasDerivAt_pow 2 x
  have hn : HasDerivAt (fun x : ℝ => 0.5641895835477563 * (x ^ 2 * (x ^ 2 + 4.5) + 2)) (0.5641895835477563 * (4 * x ^ 3 + 9 * x)) x := by
    refine (((h2.fun_mul (h2.add_const 4.5)).add_const 2).const_mul 0.5641895835477563).congr_deriv ?_
    norm_num; ring
  have hd : HasDerivAt (fun x : ℝ => x * (x ^ 2 * (x ^ 2 + 5) + 3.75)) (5 * x ^ 4 + 15 * x ^ 2 + 3.75) x := by
    refine (i.fun_mul ((h2.fun_mul (h2.add_const 5)).add_const 3.75)).congr_deriv ?_
    norm_num; ring
  exact hn.fun_div hd hD

lemma A_res {x : ℝ} (hx : 50 ≤ x) :
    |((0.5641895835477563 * (4 * x ^ 3 + 9 * x) * (x * (x ^ 2 * (x ^ 2 + 5) + 3.75)) - 0.5641895835477563 * (x ^ 2 * (x ^ 2 + 4.5) + 2) * (5 * x ^ 4 + 15 * x ^ 2 + 3.75))
      / (x * (x ^ 2 * (x ^ 2 + 5) + 3.75)) ^ 2) - 2 * x * A x + 2 / √π| ≤ 1 / 10 ^ 12 := by
  obtain ⟨y, rfl⟩ : ∃ y, x = 50 + y := ⟨x - 50, by ring⟩
  have hy : 0 ≤ y := by linarith
  generalize hX : 50 + y = x at *
  have hx0 : 0 < x := by linarith
  have hD : 0 < x * (x ^ 2 * (x ^ 2 + 5) + 3.75) := by positivity
  have h1 := abs_le.1 two_sqrt_pi
  have e : ((0.5641895835477563 * (4 * x ^ 3 + 9 * x) * (x * (x ^ 2 * (x ^ 2 + 5) + 3.75)) - 0.5641895835477563 * (x ^ 2 * (x ^ 2 + 4.5) + 2) * (5 * x ^ 4 + 15 * x ^ 2 + 3.75))
      / (x * (x ^ 2 * (x ^ 2 + 5) + 3.75)) ^ 2) - 2 * x * A x + 2 * 0.5641895835477563
      = 0.5641895835477563 * ((4 * x ^ 3 + 9 * x) * (x * (x ^ 2 * (x ^ 2 + 5) + 3.75)) - (x ^ 2 * (x ^ 2 + 4.5) + 2) * (5 * x ^ 4 + 15 * x ^ 2 + 3.75)
        - 2 * x * (x ^ 2 * (x ^ 2 + 4.5) + 2) * (x * (x ^ 2 * (x ^ 2 + 5) + 3.75)) + 2 * (x * (x ^ 2 * (x ^ 2 + 5) + 3.75)) ^ 2) / (x * (x ^ 2 * (x ^ 2 + 5) + 3.75)) ^ 2 := by
    unfold A; field_simp
  have e2 : |0.5641895835477563 * ((4 * x ^ 3 + 9 * x) * (x * (x ^ 2 * (x ^ 2 + 5) + 3.75)) - (x ^ 2 * (x ^ 2 + 4.5) + 2) * (5 * x ^ 4 + 15 * x ^ 2 + 3.75)
        - 2 * x * (x ^ 2 * (x ^ 2 + 4.5) + 2) * (x * (x ^ 2 * (x ^ 2 + 5) + 3.75)) + 2 * (x * (x ^ 2 * (x ^ 2 + 5) + 3.75)) ^ 2) / (x * (x ^ 2 * (x ^ 2 + 5) + 3.75)) ^ 2|
      ≤ 9 / 10 ^ 13 := by
    rw [abs_div, abs_of_pos (show 0 < (x * (x ^ 2 * (x ^ 2 + 5) + 3.75)) ^ 2 by positivity), div_le_iff₀ (by positivity), abs_le]
    rw [← hX]
    constructor
    · rw [← sub_nonneg]
      ring_nf
      positivity
    · rw [← sub_nonneg]
      ring_nf
      positivity
  rw [← e] at e2
  have h3 := abs_le.1 e2
  have hc : |(C:ℝ) - 2 * 0.5641895835477563| ≤ 1 / 10 ^ 14 := by norm_num [C, abs_le]
  have h4 := abs_le.1 hc
  rw [abs_le]
  constructor <;> linarith

lemma A_pos {x : ℝ} (hx : 0 < x) : 0 < A x := by unfold A; positivity

lemma A_le {x : ℝ} (hx : 1 ≤ x) : A x ≤ 1 := by
  unfold A
  have h0 : 0 < x := by linarith
  rw [div_le_one (by positivity)]
  nlinarith [pow_pos h0 2, pow_pos h0 3, pow_pos h0 4, pow_pos h0 5, mul_pos (pow_pos h0 4) h0, mul_nonneg (pow_pos h0 4).le (sub_nonneg.2 hx), mul_nonneg (pow_pos h0 2).le (sub_nonneg.2 hx)]

lemma tendsto_gauss : Tendsto (fun x : ℝ => exp (-x ^ 2)) atTop (𝓝 0) :=
  Real.tendsto_exp_neg_atTop_nhds_zero.comp (tendsto_pow_atTop two_ne_zero)

lemma A_acc : ∀ x ∈ Set.Ici (50:ℝ), |A x - W x| ≤ 9 / 10 ^ 13 * W x := by
  apply tail (δ := 1 / 10 ^ 12)
    (w' := fun x => ((0.5641895835477563 * (4 * x ^ 3 + 9 * x) * (x * (x ^ 2 * (x ^ 2 + 5) + 3.75)) - 0.5641895835477563 * (x ^ 2 * (x ^ 2 + 4.5) + 2) * (5 * x ^ 4 + 15 * x ^ 2 + 3.75))
      / (x * (x ^ 2 * (x ^ 2 + 5) + 3.75)) ^ 2))
  · intro x hx
    have : (50:ℝ) ≤ x := hx
    exact A_deriv (by linarith)
  · intro x hx; exact A_res hx
  · exact sqrt_pi_lb
  · apply tendsto_of_tendsto_of_tendsto_of_le_of_le' tendsto_const_nhds tendsto_gauss
    · filter_upwards [eventually_ge_atTop (1:ℝ)] with x hx
      exact mul_nonneg (exp_pos _).le (A_pos (by linarith)).le
    · filter_upwards [eventually_ge_atTop (1:ℝ)] with x hx
      have := mul_le_mul_of_nonneg_left (A_le hx) (exp_pos (-x ^ 2)).le
      simpa using this

def tab0 : List ℚ := ofN (tabN.headD [])

lemma tab_eq : tab = tab0 :: tab.tail := by rfl

lemma start : |cell 7 tab0 50 - W 50| ≤ (9 / 10 ^ 13 + 1 / 10 ^ 14) * W 50 := by
  have hA := A_acc 50 (Set.mem_Ici.2 le_rfl)
  have e1 : cell 7 tab0 50 = ((evQ tab0 (2 * (400 / 54) - 15) : ℚ) : ℝ) := by
    rw [← ev_evQ]; unfold cell; congr 1; push_cast; norm_num
  have hq : |evQ tab0 (2 * (400 / 54) - 15) - 5641895835477563 / 10 ^ 16 * (50 ^ 2 * (50 ^ 2 + 9 / 2) + 2) / (50 * (50 ^ 2 * (50 ^ 2 + 5) + 15 / 4))| ≤ 1 / 10 ^ 17 := by
    decide +kernel
  have hq' : |cell 7 tab0 50 - A 50| ≤ 1 / 10 ^ 17 := by
    rw [e1]
    have : ((|evQ tab0 (2 * (400 / 54) - 15) - 5641895835477563 / 10 ^ 16 * (50 ^ 2 * (50 ^ 2 + 9 / 2) + 2) / (50 * (50 ^ 2 * (50 ^ 2 + 5) + 15 / 4))| : ℚ) : ℝ) ≤ ((1 / 10 ^ 17 : ℚ) : ℝ) := by
      exact_mod_cast hq
    rw [Rat.cast_abs] at this
    refine le_trans (le_of_eq ?_) (this.trans (le_of_eq (by norm_num)))
    congr 1
    unfold A
    push_cast
    norm_num
  have hA1 : (1:ℝ) / 100 ≤ A 50 := by unfold A; norm_num
  have hw := W_pos 50
  have a1 := abs_le.1 hA
  have a2 := abs_le.1 hq'
  have : (1:ℝ) / 200 ≤ W 50 := by nlinarith
  rw [abs_le]
  constructor <;> nlinarith

lemma chk_tab : chk 7 tab0 tab.tail = true := by decide +kernel

lemma ok_tab0 : okRes 7 tab0 = true := by decide +kernel

lemma len_tab : tab.tail.length = 92 := by decide +kernel

/-- every cell of the reference table is accurate -/
theorem tab_acc (i : ℕ) (q : List ℚ) (h : tab[i]? = some q) {x : ℝ} (h1 : 400 / ((7 + i : ℕ) + 1 : ℝ) - 4 ≤ x) (h2 : x ≤ 400 / ((7 + i : ℕ) : ℝ) - 4)
    (h3 : x ≤ 50) : |cell (7 + i) q x - W x| ≤ 2 / 10 ^ 12 * W x := by
  have first : ∀ x ∈ Set.Icc (400 / (((7:ℕ) : ℝ) + 1) - 4) 50, |cell 7 tab0 x - W x| ≤ (9 / 10 ^ 13 + 1 / 10 ^ 14) * W x :=
    cell_acc (by norm_num) tab0 ok_tab0 (by norm_num) (by norm_num) start
  rw [tab_eq] at h
  cases i with
  | zero =>
    simp only [List.getElem?_cons_zero, Option.some.injEq] at h
    subst h
    refine (first x ⟨by simpa using h1, h3⟩).trans ?_
    apply mul_le_mul_of_nonneg_right _ (W_pos x).le
    norm_num
  | succ i =>
    simp only [List.getElem?_cons_succ] at h
    have h0 := first (400 / (((7:ℕ) : ℝ) + 1) - 4) ⟨le_rfl, by norm_num⟩
    have := chk_sound tab.tail 7 tab0 _ chk_tab (by norm_num) (by rw [len_tab]; norm_num) h0 i q h x
    have e : 7 + 1 + i = 7 + (i + 1) := by omega
    rw [e] at this
    exact this ⟨h1, h2⟩

/-- the polynomial q is close to the reference of cell 7 + i -/
def okQ (i : ℕ) (q : List ℚ) : Bool :=
  match tab[i]? with
  | some p => decide (pabs (padd q (psc (-1) p)) ≤ 5 / 10 ^ 12 * (p.headD 0 - pabs p.tail))
  | none => false

theorem pos_cell (i : ℕ) (q : List ℚ) (h : okQ i q = true) {x : ℝ} (h1 : 400 / ((7 + i : ℕ) + 1 : ℝ) - 4 ≤ x) (h2 : x ≤ 400 / ((7 + i : ℕ) : ℝ) - 4)
    (h3 : x ≤ 50) : |cell (7 + i) q x - W x| ≤ 1 / 10 ^ 11 * W x := by
  unfold okQ at h
  split at h
  · rename_i p hp
    have hr := tab_acc i p hp h1 h2 h3
    have hq : pabs (padd q (psc (-1) p)) ≤ 5 / 10 ^ 12 * (p.headD 0 - pabs p.tail) := by simpa using h
    have hq' : ((pabs (padd q (psc (-1) p)) : ℚ) : ℝ) ≤ 5 / 10 ^ 12 * ((p.headD 0 : ℚ) - (pabs p.tail : ℚ)) := by
      have : ((pabs (padd q (psc (-1) p)) : ℚ) : ℝ) ≤ ((5 / 10 ^ 12 * (p.headD 0 - pabs p.tail) : ℚ) : ℝ) := by exact_mod_cast hq
      push_cast at this
      exact this
    obtain ⟨hx, l, u⟩ := cell_z (k := 7 + i) (by omega) h1 h2
    have t1 : |2 * (400 / (4 + x)) - (2 * ((7 + i : ℕ) : ℝ) + 1)| ≤ 1 := by rw [abs_le]; constructor <;> linarith
    have hd := ev_abs (padd q (psc (-1) p)) t1
    rw [ev_padd, ev_psc] at hd
    have low : ((p.headD 0 : ℚ) : ℝ) - (pabs p.tail : ℚ) ≤ cell (7 + i) p x := by
      unfold cell
      cases p with
      | nil => simp [ev, pabs]
      | cons a r =>
        simp only [List.headD_cons, List.tail_cons, ev]
        have := ev_abs r t1
        set t := 2 * (400 / (4 + x)) - (2 * ((7 + i : ℕ) : ℝ) + 1)
        have h5 : |t * ev r t| ≤ 1 * |ev r t| := by rw [abs_mul]; exact mul_le_mul_of_nonneg_right t1 (abs_nonneg _)
        have := (abs_le.1 (h5.trans (by simpa using this))).1
        linarith
    have hc : |cell (7 + i) q x - cell (7 + i) p x| ≤ 5 / 10 ^ 12 * cell (7 + i) p x := by
      have : cell (7 + i) q x - cell (7 + i) p x = ev q (2 * (400 / (4 + x)) - (2 * ((7 + i : ℕ) : ℝ) + 1)) + ((-1 : ℚ) : ℝ) * ev p (2 * (400 / (4 + x)) - (2 * ((7 + i : ℕ) : ℝ) + 1)) := by
        unfold cell; push_cast; ring
      rw [this]
      refine hd.trans (hq'.trans ?_)
      linarith
    have hw := W_pos x
    have a1 := abs_le.1 hr
    have a2 := abs_le.1 hc
    rw [abs_le]
    constructor <;> nlinarith
  · simp at h

lemma erfc_neg (x : ℝ) : erfc (-x) = 2 - erfc x := by unfold erfc; rw [erf_neg]; ring

lemma W_neg (x : ℝ) : W (-x) = 2 * exp (x ^ 2) - W x := by unfold W; rw [erfc_neg, neg_sq]; ring

lemma W_zero : W 0 = 1 := by simp [W, erfc, erf_zero]

lemma W_le_neg {x : ℝ} (hx : x ≤ 0) : W (-x) ≤ W x := by
  unfold W
  rw [neg_sq]
  exact mul_le_mul_of_nonneg_left (erfc_strictAnti.antitone (by linarith)) (exp_pos _).le

theorem neg_cell (i : ℕ) (q : List ℚ) (h : okQ i q = true) {x : ℝ} (h1 : 400 / ((7 + i : ℕ) + 1 : ℝ) - 4 ≤ -x) (h2 : -x ≤ 400 / ((7 + i : ℕ) : ℝ) - 4)
    (h3 : -x ≤ 50) (h0 : x ≤ 0) : |2 * exp (x ^ 2) - cell (7 + i) q (-x) - W x| ≤ 1 / 10 ^ 11 * W x := by
  have hc := pos_cell i q h h1 h2 h3
  have e : 2 * exp (x ^ 2) - cell (7 + i) q (-x) - W x = -(cell (7 + i) q (-x) - W (-x)) := by rw [W_neg]; ring
  rw [e, abs_neg]
  refine hc.trans ?_
  exact mul_le_mul_of_nonneg_left (W_le_neg h0) (by norm_num)

lemma erfc_le {x : ℝ} (hx : 0 ≤ x) : erfc x ≤ exp (-x ^ 2) := by
  have h : AntitoneOn (fun y => exp (-y ^ 2) * (fun _ : ℝ => (1:ℝ)) y - 1 * erfc y) (Set.Ici (1 / √π)) := by
    apply antitoneOn_of_hasDerivWithinAt_nonpos (convex_Ici _)
      (f' := fun y => exp (-y ^ 2) * ((0 - 2 * y * 1 + 2 / √π) + (1 - 1) * (2 / √π)))
    · intro y _
      exact (aux_deriv (w := fun _ => (1:ℝ)) (w' := fun _ => 0) (s := 1) (hasDerivAt_const y (1:ℝ))).continuousAt.continuousWithinAt
    · intro y _
      exact (aux_deriv (w := fun _ => (1:ℝ)) (w' := fun _ => 0) (s := 1) (hasDerivAt_const y (1:ℝ))).hasDerivWithinAt
    · intro y hy
      have h1 : 1 / √π ≤ y := interior_subset hy
      apply mul_nonpos_of_nonneg_of_nonpos (exp_pos _).le
      have : 2 / √π = 2 * (1 / √π) := by ring
      linarith
  have h' : MonotoneOn (fun y => exp (-y ^ 2) * (fun _ : ℝ => (1:ℝ)) y - 1 * erfc y) (Set.Icc 0 (1 / √π)) := by
    apply monotoneOn_of_hasDerivWithinAt_nonneg (convex_Icc _ _)
      (f' := fun y => exp (-y ^ 2) * ((0 - 2 * y * 1 + 2 / √π) + (1 - 1) * (2 / √π)))
    · intro y _
      exact (aux_deriv (w := fun _ => (1:ℝ)) (w' := fun _ => 0) (s := 1) (hasDerivAt_const y (1:ℝ))).continuousAt.continuousWithinAt
    · intro y _
      exact (aux_deriv (w := fun _ => (1:ℝ)) (w' := fun _ => 0) (s := 1) (hasDerivAt_const y (1:ℝ))).hasDerivWithinAt
    · intro y hy
      have h1 : y ≤ 1 / √π := (interior_subset hy).2
      apply mul_nonneg (exp_pos _).le
      have : 2 / √π = 2 * (1 / √π) := by ring
      linarith
  rcases le_total x (1 / √π) with hl | hl
  · have := h' (Set.left_mem_Icc.2 (hx.trans hl)) ⟨hx, hl⟩ hx
    simp [erfc, erf_zero] at this
    unfold erfc
    linarith
  · have lim : Tendsto (fun y => exp (-y ^ 2) * (fun _ : ℝ => (1:ℝ)) y - 1 * erfc y) atTop (𝓝 0) := by
      have := tendsto_gauss.sub tendsto_erfc
      simpa using this
    have : 0 ≤ exp (-x ^ 2) * (fun _ : ℝ => (1:ℝ)) x - 1 * erfc x :=
      le_of_tendsto lim ((eventually_ge_atTop x).mono fun y hy => h hl (Set.mem_Ici.2 (le_trans hl hy)) hy)
    simp at this
    exact this

lemma exp_small {x : ℝ} (hx : 6 ≤ x) : exp (-x ^ 2) ≤ 1 / 10 ^ 15 := by
  have h1 : exp (-x ^ 2) ≤ exp (-(36 : ℕ)) := exp_le_exp.2 (by push_cast; nlinarith)
  refine h1.trans ?_
  rw [exp_neg, ← one_div, one_div_le_one_div (exp_pos _) (by norm_num)]
  have : (2.7:ℝ) ^ 36 ≤ exp 1 ^ 36 := pow_le_pow_left₀ (by norm_num) (by have := Real.exp_one_gt_d9; linarith) 36
  rw [← Real.exp_nat_mul] at this
  simp only [mul_one] at this
  refine le_trans ?_ this
  norm_num

theorem neg_far {x : ℝ} (hx : x ≤ -6) : |2 * exp (x ^ 2) - W x| ≤ 1 / 10 ^ 12 * W x := by
  have h1 := erfc_le (x := -x) (by linarith)
  have h2 := exp_small (x := -x) (by linarith)
  have h3 := erfc_pos (-x)
  have e : W x = exp (x ^ 2) * (2 - erfc (-x)) := by unfold W; rw [erfc_neg]; ring
  have e2 : 2 * exp (x ^ 2) - W x = exp (x ^ 2) * erfc (-x) := by rw [e]; ring
  rw [e2, abs_of_pos (mul_pos (exp_pos _) h3), e, ← mul_assoc, mul_comm (1 / 10 ^ 12 : ℝ), mul_assoc]
  apply mul_le_mul_of_nonneg_left _ (exp_pos _).le
  nlinarith

theorem mid {x : ℝ} (hx : 50 ≤ x) : |A x - W x| ≤ 1 / 10 ^ 11 * W x :=
  (A_acc x hx).trans (mul_le_mul_of_nonneg_right (by norm_num) (W_pos x).le)

theorem far {x : ℝ} (hx : 10 ^ 7 ≤ x) : |0.5641895835477563 / x - W x| ≤ 1 / 10 ^ 11 * W x := by
  have hA := A_acc x (Set.mem_Ici.2 (by linarith))
  have h0 : 0 < x := by linarith
  have hp := A_pos h0
  have hw := W_pos x
  have : |0.5641895835477563 / x - A x| ≤ 1 / 10 ^ 13 * A x := by
    have e : 0.5641895835477563 / x - A x = A x * ((0.5 * x ^ 2 + 1.75) / (x ^ 2 * (x ^ 2 + 4.5) + 2)) := by
      unfold A; field_simp; ring
    rw [e, abs_of_pos (by positivity), mul_comm]
    apply mul_le_mul_of_nonneg_right _ hp.le
    rw [div_le_iff₀ (by positivity)]
    have : (10:ℝ) ^ 14 ≤ x ^ 2 := by nlinarith
    nlinarith
  have a1 := abs_le.1 hA
  have a2 := abs_le.1 this
  rw [abs_le]
  constructor <;> nlinarith

theorem erfc_of {v x κ : ℝ} (h : |v - W x| ≤ κ * W x) : |v / exp (x ^ 2) - erfc x| ≤ κ * erfc x := by
  have e : v / exp (x ^ 2) - erfc x = exp (-x ^ 2) * (v - W x) := by
    rw [erfc_eq x, exp_neg]; field_simp
  rw [e, abs_mul, abs_of_pos (exp_pos _), erfc_eq x]
  calc exp (-x ^ 2) * |v - W x| ≤ exp (-x ^ 2) * (κ * W x) := mul_le_mul_of_nonneg_left h (exp_pos _).le
    _ = _ := by ring

theorem erfc_far {x : ℝ} (hx : x ≤ -6) : |2 - erfc x| ≤ 1 / 10 ^ 12 * erfc x := by
  have h1 := erfc_le (x := -x) (by linarith)
  have h2 := exp_small (x := -x) (by linarith)
  have h3 := erfc_pos (-x)
  rw [erfc_neg] at h1 h3
  rw [abs_le]
  constructor <;> nlinarith

theorem erf_of {v x κ : ℝ} (hκ : 0 ≤ κ) (h : |v - erfc x| ≤ κ * erfc x) : |1 - v - erf x| ≤ 2 * κ := by
  have h1 := erfc_pos (-x)
  rw [erfc_neg] at h1
  have e : 1 - v - erf x = -(v - erfc x) := by unfold erfc; ring
  rw [e, abs_neg]
  refine h.trans ?_
  nlinarith

end PVE
