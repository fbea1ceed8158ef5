"""Runs functions of the real crate (compiled from /repo's current source) for replay and fidelity checks."""
import os
import re
import shutil
import struct
import subprocess
import threading
from mpmath import mpf
from .crate import WORK, cargo_env

MAIN = r'''
#![allow(warnings)]
use std::io::{BufRead, Write};
fn call(i: usize, a: &[f64]) -> f64 {
    match i {
@ARMS@
        _ => panic!("no such function"),
    }
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let inp = std::io::stdin();
    let out = std::io::stdout();
    for line in inp.lock().lines() {
        let line = line.unwrap();
        let mut it = line.split_whitespace();
        let i: usize = it.next().unwrap().parse().unwrap();
        let a: Vec<f64> = it.map(|x| f64::from_bits(u64::from_str_radix(x, 16).unwrap())).collect();
        let r = std::panic::catch_unwind(|| call(i, &a));
        let mut o = out.lock();
        match r {
            Ok(v) => writeln!(o, "{:016x}", v.to_bits()).unwrap(),
            Err(_) => writeln!(o, "panic").unwrap(),
        }
        o.flush().unwrap();
    }
}
'''


class Panic:
    def __repr__(self):
        return "panic"


PANIC = Panic()


def copy_tree(repo, dst):
    """scratch copy of the crate; the modules that cannot compile here are left out as /opt/vp/build.sh does"""
    if os.path.exists(os.path.join(dst, "src")):
        shutil.rmtree(os.path.join(dst, "src"))
    os.makedirs(dst, exist_ok=True)
    shutil.copytree(os.path.join(repo, "src"), os.path.join(dst, "src"))
    toml = open(os.path.join(repo, "Cargo.toml")).read()
    toml = re.sub(r'crate-type\s*=\s*\[[^\]]*\]', 'crate-type = ["rlib"]', toml)
    open(os.path.join(dst, "Cargo.toml"), "w").write(toml)
    for f in os.listdir(repo):
        p = os.path.join(repo, f)
        if os.path.isfile(p) and f != "Cargo.toml" and not f.endswith(".py") and os.path.getsize(p) < 1 << 20:
            shutil.copy(p, os.path.join(dst, f))
    left = []
    for m in ("efjc", "efrc"):
        iso = os.path.join(dst, "src/physics/single_chain", m, "thermodynamics/isometric")
        mc = os.path.join(iso, "monte_carlo")
        named = False
        for d, _, fs in os.walk(mc):
            for f in fs:
                named |= "rand_distr" in open(os.path.join(d, f)).read()
        mod = os.path.join(iso, "mod.rs")
        if named and os.path.exists(mod):
            s = open(mod).read()
            s = re.sub(r"(?m)^pub mod monte_carlo;", "#[cfg(any())] pub mod monte_carlo;", s)
            open(mod, "w").write(s)
            left.append(m)
    return left


def arg_text(ty, i):
    t = ty.replace(" ", "").replace("'static", "")
    ref = t.startswith("&")
    t = t.lstrip("&")
    if t == "f64":
        return ("&a[%d]" if ref else "a[%d]") % i
    if t in ("u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "usize", "isize", "u128", "i128"):
        return ("&(a[%d] as %s)" if ref else "(a[%d] as %s)") % (i, t)
    if t == "bool":
        return ("&(a[%d] != 0.0)" if ref else "(a[%d] != 0.0)") % i
    return None


class Harness:
    def __init__(self, name, repo="/repo"):
        self.name, self.repo = name, repo
        self.dir = os.path.join(WORK, "tree-" + name)
        self.arms = []
        self.index = {}
        self.exe = None
        self.err = None
        self.proc = None
        self.thread = None
        self.lock = threading.Lock()

    def add(self, key, expr):
        """expr: Rust expression of type f64 over a: &[f64]"""
        if key not in self.index:
            self.index[key] = len(self.arms)
            self.arms.append(expr)
        return self.index[key]

    def add_fn(self, fn, crate_name="polymers"):
        """fn: crate.Fn with scalar parameters"""
        if fn.owner or not fn.pub:
            return None
        ts = [arg_text(p["ty"], i) for i, p in enumerate(fn.params)]
        if None in ts:
            return None
        r = (fn.ret or "").replace(" ", "")
        call = "%s::%s(%s)" % (crate_name, fn.path, ", ".join(ts))
        if r == "f64":
            e = call
        elif r in ("u8", "u16", "u32", "u64", "usize", "i32", "i64", "u128"):
            e = "(%s) as f64" % call
        elif r == "bool":
            e = "if %s {1.0} else {0.0}" % call
        else:
            return None
        return self.add(fn.path, e)

    def start(self, features=("extern",)):
        self.thread = threading.Thread(target=self._build, args=(features,))
        self.thread.start()

    def _build(self, features):
        try:
            self.left_out = copy_tree(self.repo, self.dir)
            os.makedirs(os.path.join(self.dir, "src/bin"), exist_ok=True)
            arms = "\n".join("        %d => { %s }" % (i, e) for i, e in enumerate(self.arms))
            open(os.path.join(self.dir, "src/bin/pv_harness.rs"), "w").write(MAIN.replace("@ARMS@", arms))
            env = cargo_env()
            env["CARGO_TARGET_DIR"] = os.path.join(WORK, "target-" + self.name)
            env["CARGO_PROFILE_DEV_OPT_LEVEL"] = "1"
            env["CARGO_PROFILE_DEV_DEBUG"] = "false"
            r = subprocess.run(["cargo", "build", "--offline", "-q", "--bin", "pv_harness"] + (["--features", ",".join(features)] if features else []),
                               cwd=self.dir, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
            if r.returncode != 0:
                self.err = "the harness does not build: " + r.stdout[-2000:]
                return
            self.exe = os.path.join(env["CARGO_TARGET_DIR"], "debug/pv_harness")
        except Exception as e:
            self.err = "the harness does not build: %s" % e

    def ready(self):
        if self.thread:
            self.thread.join()
            self.thread = None
        return self.exe is not None

    def call(self, key, args, timeout=20):
        """value (float), PANIC, or None when it cannot run or does not finish"""
        if not self.ready() or key not in self.index:
            return None
        return self.ask("proc", [self.exe], self.index[key], args, timeout)

    def ask(self, slot, cmd, i, args, timeout):
        with self.lock:
            p = getattr(self, slot)
            if p is None or p.poll() is not None:
                p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, bufsize=1)
                setattr(self, slot, p)
            line = "%d %s\n" % (i, " ".join("%016x" % struct.unpack(">Q", struct.pack(">d", float(x)))[0] for x in args))
            timer = threading.Timer(timeout, p.kill)
            timer.start()
            try:
                p.stdin.write(line)
                p.stdin.flush()
                out = p.stdout.readline().strip()
            except (BrokenPipeError, ValueError):
                out = ""
            timer.cancel()
            if out == "panic":
                return PANIC
            if not out:
                setattr(self, slot, None)
                return None
            return struct.unpack(">d", struct.pack(">Q", int(out, 16)))[0]

    def close(self):
        self.end(self.proc)

    def end(self, p):
        if p is not None and p.poll() is None:
            p.stdin.close()
            try:
                p.wait(5)
            except subprocess.TimeoutExpired:
                p.kill()


PYMAIN = r"""
import sys, struct
sys.path.insert(0, sys.argv[1])
import numpy as np
import polymers


def mismatch(o, d):
    m = 0.0
    for n in dir(o):
        if n.startswith("_"):
            continue
        v = getattr(o, n)
        if callable(v):
            continue
        if isinstance(v, (int, float)):
            if n in d:
                m = max(m, abs(v - d[n]))
        else:
            m = max(m, mismatch(v, d))
    return m


FNS = [
@ARMS@
]
for line in sys.stdin:
    t = line.split()
    a = [struct.unpack(">d", struct.pack(">Q", int(x, 16)))[0] for x in t[1:]]
    try:
        r = float(FNS[int(t[0])](a))
        print("%016x" % struct.unpack(">Q", struct.pack(">d", r))[0], flush=True)
    except BaseException as e:
        print("panic", flush=True)
"""


class PyHarness(Harness):
    """the library functions as in Harness; keys "py:..." are Python expressions over a, evaluated with the Python module built from the current source"""

    def __init__(self, name, repo="/repo"):
        Harness.__init__(self, name, repo)
        self.py, self.pyproc, self.pyexe, self.pythread, self.pyerr = [], None, None, None, ""

    def add(self, key, expr):
        if not key.startswith("py:"):
            return Harness.add(self, key, expr)
        if key not in self.index:
            self.index[key] = len(self.py)
            self.py.append(expr)
        return self.index[key]

    def start(self, features=("extern",)):
        Harness.start(self, features)
        self.pythread = threading.Thread(target=self._build_py)
        self.pythread.start()

    def _build_py(self):
        try:
            d = self.dir + "-py"
            copy_tree(self.repo, d)
            toml = open(os.path.join(d, "Cargo.toml")).read()
            open(os.path.join(d, "Cargo.toml"), "w").write(toml.replace('crate-type = ["rlib"]', 'crate-type = ["cdylib"]'))
            env = cargo_env()
            env["CARGO_TARGET_DIR"] = os.path.join(WORK, "target-" + self.name + "-py")
            env["CARGO_PROFILE_DEV_OPT_LEVEL"] = "1"
            env["CARGO_PROFILE_DEV_DEBUG"] = "false"
            py = shutil.which("python3-vt") or "/opt/veriftools/pyvenv/bin/python"
            env["PYO3_PYTHON"] = py
            r = subprocess.run(["cargo", "build", "--offline", "-q", "--lib", "--features", "python"], cwd=d, env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
            if r.returncode != 0:
                self.pyerr = "the Python module does not build: " + r.stdout[-2000:]
                return
            out = os.path.join(WORK, "pymodule-" + self.name)
            os.makedirs(out, exist_ok=True)
            shutil.copy(os.path.join(env["CARGO_TARGET_DIR"], "debug/libpolymers.so"), os.path.join(out, "polymers.so"))
            main = os.path.join(out, "pv_server.py")
            open(main, "w").write(PYMAIN.replace("@ARMS@", "\n".join("    lambda a: %s," % e for e in self.py)))
            self.pyexe = [py, main, out]
        except Exception as e:
            self.pyerr = "the Python module does not build: %s" % e

    def call(self, key, args, timeout=20):
        if not key.startswith("py:"):
            return Harness.call(self, key, args, timeout)
        if self.pythread:
            self.pythread.join()
            self.pythread = None
        if self.pyexe is None or key not in self.index:
            return None
        return self.ask("pyproc", self.pyexe, self.index[key], args, timeout)

    def close(self):
        if self.pythread:
            self.pythread.join()
        Harness.close(self)
        self.end(self.pyproc)
