"""Loads the syntax trees of /repo/src and resolves names the way rustc does."""
import json
import os
import subprocess

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = os.environ.get("PV_WORK", os.path.join(VERIF, ".work"))


class LostAnchor(Exception):
    """the verifier cannot read something it needs (never an alarm by itself)"""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def cargo_env():
    env = dict(os.environ)
    env.update(RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
               RUSTC_WRAPPER="", RUSTFLAGS="-Awarnings")
    env.setdefault("HOME", "/root")
    env["PATH"] = "/root/.cargo/bin:/usr/local/cargo/bin:" + env.get("PATH", "")
    return env


def build_rsdump():
    exe = os.path.join(WORK, "rsdump-target/debug/rsdump")
    env = cargo_env()
    env["CARGO_TARGET_DIR"] = os.path.join(WORK, "rsdump-target")
    r = sh(["cargo", "build", "--offline", "-q"], cwd=os.path.join(VERIF, "extract"), env=env)
    if r.returncode != 0 or not os.path.exists(exe):
        raise LostAnchor("cannot build the extractor front end:\n" + r.stdout[-3000:])
    return exe


class Module:
    def __init__(self, crate, path, parent):
        self.crate, self.path, self.parent = crate, path, parent
        self.mods, self.fns, self.consts, self.structs, self.impls = {}, {}, {}, {}, {}
        self.uses, self.globs, self.reexport = {}, [], set()
        self.file = None
        self.aliases = {}
        self.other = []

    def name(self):
        return "::".join(self.path)


class Fn:
    def __init__(self, module, node, owner=None):
        self.module, self.node, self.owner = module, node, owner
        self.name = node["sig"]["name"]
        self.params = node["sig"]["params"]
        self.ret = node["sig"]["ret"]
        self.body = node["body"]
        self.pub = node["pub"]
        self.line = node["line"]
        self.path = module.name() + ("::" + owner if owner else "") + "::" + self.name

    def where(self):
        return "%s:%d" % (self.module.file, self.line)

    def param_names(self):
        return [p.get("name", p.get("k")) if p.get("k") != "refpat" else p["p"].get("name") for p in self.params]


class Crate:
    def __init__(self, repo="/repo", features=("extern", "python")):
        self.repo = repo
        self.features = set(features)
        exe = build_rsdump()
        src = os.path.join(repo, "src")
        files = []
        for d, _, fs in os.walk(src):
            for f in fs:
                if f.endswith(".rs"):
                    files.append(os.path.join(d, f))
        files.sort()
        # test modules are behind cfg(test): not part of the library
        files = [f for f in files if not self._is_test(f)]
        r = subprocess.run([exe] + files, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if r.returncode != 0:
            raise LostAnchor("rsdump failed: " + r.stderr.decode()[-2000:])
        self.ast = json.loads(r.stdout)
        self.modules = {}
        self.errors = []
        self.root = self._load(os.path.join(src, "lib.rs"), [], None, src)

    @staticmethod
    def _is_test(f):
        b = os.path.basename(f)
        if b != "test.rs" and not (b == "mod.rs" and os.path.basename(os.path.dirname(f)) == "test"):
            return False
        try:
            head = open(f).read(400)
        except OSError:
            return False
        return "#![cfg(test)]" in head.replace(" ", "")

    def cfg_on(self, attrs):
        for a in attrs:
            t = a.replace(" ", "")
            if t.startswith("cfg("):
                inner = t[4:-1]
                if inner.startswith("feature="):
                    if inner[8:].strip('"') not in self.features:
                        return False
                elif inner.startswith("not(feature="):
                    if inner[12:-1].strip('"') in self.features:
                        return False
                elif inner == "test":
                    return False
                elif inner == "not(test)":
                    pass
                else:
                    self.errors.append("cfg not understood: " + a)
                    return False
        return True

    def _load(self, file, path, parent, dirpath):
        m = Module(self, path, parent)
        m.file = os.path.relpath(file, self.repo)
        self.modules["::".join(path)] = m
        tree = self.ast.get(file)
        if tree is None or "error" in tree:
            self.errors.append("cannot read %s: %s" % (file, tree and tree.get("error")))
            m.broken = True
            return m
        self._items(m, tree["items"], dirpath)
        return m

    def _items(self, m, items, dirpath):
        for it in items:
            k = it["k"]
            if not self.cfg_on(it.get("attrs", [])):
                continue
            if k == "fn":
                m.fns[it["sig"]["name"]] = Fn(m, it)
            elif k == "const":
                m.consts[it["name"]] = it
            elif k == "structdef":
                m.structs[it["name"]] = it
            elif k == "typealias":
                m.aliases[it["name"]] = it["ty"]
            elif k == "impl":
                if it["trait"] is None:
                    d = m.impls.setdefault(it["ty"].replace(" ", ""), {})
                    for f in it["items"]:
                        if f["k"] == "fn":
                            d[f["sig"]["name"]] = Fn(m, f, it["ty"].replace(" ", ""))
                else:
                    m.other.append(it)
            elif k == "use":
                self._use(m, it["tree"], [], it.get("pub"))
            elif k == "mod":
                name = it["name"]
                sub = m.path + [name]
                if it["items"] is not None:
                    c = Module(self, sub, m)
                    c.file = m.file
                    self.modules["::".join(sub)] = c
                    m.mods[name] = c
                    self._items(c, it["items"], os.path.join(dirpath, name))
                else:
                    for cand in (os.path.join(dirpath, name, "mod.rs"), os.path.join(dirpath, name + ".rs")):
                        if os.path.exists(cand) and not self._is_test(cand):
                            m.mods[name] = self._load(cand, sub, m, os.path.join(dirpath, name))
                            break
            else:
                m.other.append(it)

    def _use(self, m, t, pre, pub):
        k = t["k"]
        if k == "path":
            self._use(m, t["t"], pre + [t["id"]], pub)
        elif k == "name":
            if t["id"] == "self":
                m.uses[pre[-1]] = pre
            else:
                m.uses[t["id"]] = pre + [t["id"]]
        elif k == "rename":
            m.uses[t["as"]] = pre + ([] if t["id"] == "self" else [t["id"]])
        elif k == "glob":
            m.globs.append(pre)
        elif k == "group":
            for s in t["ts"]:
                self._use(m, s, pre, pub)

    # resolution ---------------------------------------------------------
    def resolve(self, m, path, ns="value", depth=0):
        """returns ('fn',Fn) ('const',(module,node)) ('mod',Module) ('struct',(module,name)) ('ext',path) or None"""
        if depth > 20:
            return None
        first = path[0]
        if first == "crate":
            return self._descend(self.root, path[1:], ns, depth)
        if first == "self":
            return self._descend(m, path[1:], ns, depth)
        if first == "super":
            return self._descend2(m.parent, path[1:], ns, depth)
        if first in ("std", "core"):
            return ("ext", path)
        if len(path) == 1:
            r = self._in_module(m, first, ns, depth)
            return r
        # multi segment: first is a module / type / use
        if first in m.mods:
            return self._descend(m.mods[first], path[1:], ns, depth)
        if first in m.structs or first in m.impls:
            return self._assoc(m, first, path[1:])
        if first in m.uses:
            return self.resolve(m, m.uses[first] + path[1:], ns, depth + 1) if m.uses[first] != path else ("ext", path)
        for g in m.globs:
            r = self.resolve(m, g + path, ns, depth + 1)
            if r is not None and r[0] != "ext":
                return r
        return ("ext", path)

    def _descend2(self, m, path, ns, depth):
        while path and path[0] == "super":
            m = m.parent
            path = path[1:]
        return self._descend(m, path, ns, depth)

    def _assoc(self, m, tname, rest):
        if not rest:
            return ("struct", (m, tname))
        if len(rest) == 1:
            f = m.impls.get(tname, {}).get(rest[0])
            if f is not None:
                return ("fn", f)
        return None

    def _descend(self, m, path, ns, depth):
        if m is None:
            return None
        if not path:
            return ("mod", m)
        if path[0] == "super":
            return self._descend(m.parent, path[1:], ns, depth)
        if len(path) == 1:
            return self._in_module(m, path[0], ns, depth)
        if path[0] in m.mods:
            return self._descend(m.mods[path[0]], path[1:], ns, depth)
        if path[0] in m.structs or path[0] in m.impls:
            return self._assoc(m, path[0], path[1:])
        if path[0] in m.uses:
            return self.resolve(m, m.uses[path[0]] + path[1:], ns, depth + 1)
        return None

    def _in_module(self, m, name, ns, depth):
        if ns == "value":
            if name in m.fns:
                return ("fn", m.fns[name])
            if name in m.consts:
                return ("const", (m, m.consts[name]))
        else:
            if name in m.structs:
                return ("struct", (m, name))
            if name in m.mods:
                return ("mod", m.mods[name])
        if name in m.structs:
            return ("struct", (m, name))
        if name in m.uses:
            p = m.uses[name]
            if p[0] in ("std", "core"):
                return ("ext", p)
            r = self.resolve(m, p, ns, depth + 1)
            if r is not None:
                return r
            return ("ext", p)
        if name in m.mods:
            return ("mod", m.mods[name])
        for g in m.globs:
            if g[0] in ("std", "core"):
                continue
            r = self.resolve(m, g + [name], ns, depth + 1)
            if r is not None and r[0] != "ext":
                return r
        return None

    def fn(self, path):
        """'a::b::f' or 'a::b::Type::f'"""
        parts = path.split("::")
        m = self.modules.get("::".join(parts[:-1]))
        if m is not None and parts[-1] in m.fns:
            return m.fns[parts[-1]]
        m = self.modules.get("::".join(parts[:-2]))
        if m is not None:
            f = m.impls.get(parts[-2], {}).get(parts[-1]) if len(parts) > 1 else None
            if f is not None:
                return f
        raise LostAnchor("function %s not found" % path)

    def all_fns(self):
        for mn, m in self.modules.items():
            for f in m.fns.values():
                yield f
            for t in m.impls.values():
                for f in t.values():
                    yield f
