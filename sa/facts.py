"""Builds /repo with the MIR-facts driver (a rustc_private front end) and loads what it wrote."""
import fcntl
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(ROOT, "build")
CRATES = ["bitcoin_cash_base", "bitcoin_cash_ecc", "bitcoin_cash_code", "bitcoin_cash_script_macro", "bitcoin_cash", "bitcoin_cash_slp"]


class BuildError(Exception):
    pass


def _hash_files(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:24]


def repo_sources():
    out = []
    for base, dirs, files in os.walk(REPO):
        dirs[:] = [d for d in dirs if d not in ("target", ".git", "node_modules")]
        for f in files:
            if f.endswith((".rs", ".toml", ".lock")):
                out.append(os.path.join(base, f))
    return out


def _env():
    e = dict(os.environ)
    e["HOME"] = "/root"
    e["CARGO_NET_OFFLINE"] = "true"
    e.pop("RUSTC_WRAPPER", None)
    return e


def _run(cmd, env, cwd, log):
    with open(log, "ab") as f:
        f.write(("\n$ " + " ".join(cmd) + "\n").encode())
        f.flush()
        return subprocess.run(cmd, cwd=cwd, env=env, stdout=f, stderr=subprocess.STDOUT).returncode


def sysroot():
    return subprocess.check_output(["rustc", "+nightly", "--print", "sysroot"], env=_env(), text=True).strip()


def build_driver(log):
    drv = os.path.join(BUILD, "driver")
    exe = os.path.join(drv, "release", "mirfacts")
    srcs = [os.path.join(ROOT, "driver", p) for p in ("Cargo.toml", "src/main.rs", "src/js.rs")]
    stamp = os.path.join(BUILD, "driver.stamp")
    h = _hash_files(srcs)
    if not (os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == h):
        e = _env()
        e["CARGO_TARGET_DIR"] = drv
        e.pop("RUSTFLAGS", None)
        if _run(["cargo", "+nightly", "build", "--release", "--offline"], e, os.path.join(ROOT, "driver"), log):
            raise BuildError("driver does not build; see " + log)
        with open(stamp, "w") as f:
            f.write(h)
    return exe, h


def forget(tgt):
    """make cargo check the workspace's own crates again (old and new layouts of its build directory)"""
    for sub in (".fingerprint", "build"):
        d = os.path.join(tgt, "debug", sub)
        if os.path.isdir(d):
            for x in os.listdir(d):
                if x.startswith("bitcoin-cash"):
                    shutil.rmtree(os.path.join(d, x), ignore_errors=True)


def build_facts(want_rust_ecc=True):
    """facts directory for /repo's current working tree (cached by content hash)"""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    log = os.path.join(BUILD, "build.log")
    exe, dh = build_driver(log)
    rh = _hash_files(repo_sources())
    out = os.path.join(BUILD, "facts", rh + "-" + dh[:8])
    done = os.path.join(out, "done")
    if os.path.exists(done) and all(os.path.exists(os.path.join(out, "main", c + ".json")) for c in CRATES):
        os.utime(out)
        return out
    # keep a few past facts only
    fd = os.path.join(BUILD, "facts")
    if os.path.isdir(fd):
        olds = sorted((os.path.join(fd, d) for d in os.listdir(fd)), key=os.path.getmtime)
        for d in olds[:-6]:
            shutil.rmtree(d, ignore_errors=True)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    sr = sysroot()
    e = _env()
    e["RUSTFLAGS"] = "-Alegacy_derive_helpers -Awarnings"
    e["RUSTFMT"] = os.path.join(sr, "bin", "rustfmt")
    e["LD_LIBRARY_PATH"] = os.path.join(sr, "lib")
    e["RUSTC_WORKSPACE_WRAPPER"] = exe
    e["CARGO_INCREMENTAL"] = "0"
    jobs = [("main", ["--workspace", "--lib"])]
    if want_rust_ecc:
        jobs.append(("rust_ecc", ["-p", "bitcoin-cash-ecc", "--lib", "--no-default-features", "--features", "rust_ecc"]))
    lockfile = os.path.join(REPO, "Cargo.lock")
    before = open(lockfile, "rb").read() if os.path.exists(lockfile) else None
    for name, args in jobs:
        tgt = os.path.join(BUILD, "target-" + name)
        forget(tgt)
        e2 = dict(e)
        e2["CARGO_TARGET_DIR"] = tgt
        o = os.path.join(out, name)
        os.makedirs(o)
        e2["MIRFACTS_OUT"] = o
        need = CRATES if name == "main" else ["bitcoin_cash_ecc"]
        for attempt in (0, 1):
            if _run(["cargo", "+nightly", "check", "--offline"] + args, e2, REPO, log):
                shutil.rmtree(out, ignore_errors=True)
                raise BuildError("/repo does not build with the facts driver; see " + log)
            if all(os.path.exists(os.path.join(o, c + ".json")) for c in need):
                break
            # cargo thought a crate was fresh: start over
            shutil.rmtree(tgt, ignore_errors=True)
        else:
            shutil.rmtree(out, ignore_errors=True)
            raise BuildError("the facts of %s are missing" % [c for c in need if not os.path.exists(os.path.join(o, c + ".json"))])
    if before is not None and open(lockfile, "rb").read() != before:
        with open(lockfile, "wb") as f:
            f.write(before)
    open(done, "w").write("ok")
    return out


# ------------------------------------------------------------------ loading
def tup(x):
    if isinstance(x, list):
        return tuple(tup(y) for y in x)
    return x


_subst = {}


def subst_ty(t, args):
    if not isinstance(t, tuple) or not t:
        return t
    try:
        r = _subst.get((t, args))
    except TypeError:
        return _subst_ty(t, args)
    if r is None:
        r = _subst[t, args] = _subst_ty(t, args)
    return r


def _subst_ty(t, args):
    if t[0] == "param":
        i = t[1]
        return args[i] if i < len(args) else t
    if t[0] in ("p", "other", "lt", "const"):
        return t
    return tuple(subst_ty(x, args) if isinstance(x, tuple) else x for x in t)


def has_param(t):
    if not isinstance(t, tuple) or not t:
        return False
    if t[0] == "param":
        return True
    return any(has_param(x) for x in t if isinstance(x, tuple))


def simp(name):
    """std::option::Option::<T>::is_some -> Option::is_some;  core::slice::<impl [T]>::len -> [T]::len"""
    m = re.match(r"^<(.*)>::(\w+)$", name)
    if m and " as " in name:
        inner, meth = m.group(1), m.group(2)
        # split at the top-level ' as '
        depth = 0
        for i in range(len(inner)):
            if inner[i] in "<([":
                depth += 1
            elif inner[i] in ">)]" and inner[i - 1] != "-":
                depth -= 1
            elif depth == 0 and inner.startswith(" as ", i):
                tr = inner[i + 4:]
                return simp(strip_generics(tr) + "::" + meth)
    m = re.search(r"<impl (.*?)>::(\w+)$", name)
    if m:
        inner = m.group(1)
        if " for " in inner:
            return simp(strip_generics(inner.split(" for ")[0]) + "::" + m.group(2))
        inner = inner.replace("const ", "")
        return strip_generics(inner) + "::" + m.group(2) if inner[0] != "[" else "[T]::" + m.group(2)
    name = strip_generics(name)
    ps = [p for p in name.split("::") if p]
    return "::".join(ps[-2:])


def strip_generics(s):
    out, depth = [], 0
    i = 0
    while i < len(s):
        c = s[i]
        if c == "<":
            depth += 1
        elif c == ">" and s[i - 1] != "-":
            depth -= 1
        elif depth == 0:
            out.append(c)
        i += 1
    return re.sub(r":::+", "::", "".join(out)).rstrip(":")


class Facts:
    def __init__(self, path, crates=None):
        self.defs, self.adts, self.fns, self.impls = {}, {}, {}, []
        self.unsafes, self.items = [], {}
        self.crates = []
        for c in crates or CRATES:
            p = os.path.join(path, c + ".json")
            if not os.path.exists(p):
                continue
            self.crates.append(c)
            with open(p) as f:
                d = json.load(f)
            self.defs.update(d["defs"])
            for k, v in d["adts"].items():
                if k not in self.adts or v.get("local"):
                    self.adts[k] = v
            for k, v in d["fns"].items():
                self.fns[k] = v
                v["crate"] = c
            for im in d["impls"]:
                im = {k: tup(v) if k in ("self", "trait_args") else v for k, v in im.items()}
                im["crate"] = c
                self.impls.append(im)
            self.unsafes += [(c,) + tuple(u) for u in d["unsafes"]]
            self.items[c] = d.get("items")
        self.impl_by_trait = {}
        self.impl_by_id = {}
        for im in self.impls:
            self.impl_by_id[im["id"]] = im
            if im["trait"]:
                self.impl_by_trait.setdefault(im["trait"], []).append(im)
        self._simp = {}
        for v in self.fns.values():
            b = v.get("body")
            if b:
                b["blocks"] = [dict(bl, s=tup(bl["s"]), t=tup_t(bl["t"])) for bl in b["blocks"]]
                b["locals"] = tup(b["locals"])
                b["names"] = tup(b["names"])
            for k in ("sig_in", "sig_out", "impl_self", "trait_args", "val"):
                if k in v:
                    v[k] = tup(v[k])
        self.by_name = {}
        for k, v in self.fns.items():
            self.by_name.setdefault(v["name"], []).append(k)

    def name(self, id):
        f = self.fns.get(id)
        if f:
            return f["name"]
        d = self.defs.get(id)
        return d["name"] if d else id

    def simp_name(self, id):
        s = self._simp.get(id)
        if s is None:
            s = self._simp[id] = simp(self.name(id))
        return s

    def local_key(self, id):
        """'Type::method' / 'function' for a function of the workspace"""
        f = self.fns.get(id)
        if not f:
            return None
        item = f.get("item") or ""
        s = f.get("impl_self")
        if s:
            return ty_short(s) + "::" + item
        if f.get("default_of"):
            return f["default_of"].split("::")[-1] + "::" + item
        return item

    # ---- trait resolution over the workspace's impls
    def resolve(self, trait_item, trait, args):
        """(fn id, substituted args) of the impl item that trait_item resolves to, or None"""
        best = None
        for im in self.impl_by_trait.get(trait, ()):
            m = {}
            ta = im["trait_args"]
            if len(args) < len(ta):
                continue
            if all(unify(p, a, m) for p, a in zip(ta, args)):
                generic = ta[0][0] == "param"
                if best is None or (best[2] and not generic):
                    best = (im, m, generic)
        if best is None:
            return None
        im, m, generic = best
        n_trait = len(im["trait_args"])
        own = tuple(args[n_trait:])
        for it in im["items"]:
            if it[0] == trait_item:
                ng = len(im["generics"])
                iargs = tuple(m.get(i, ("param", i, im["generics"][i])) for i in range(ng))
                iargs = tuple(("lt",) if (im["generics"][i].startswith("'") and i not in m) else a for i, a in enumerate(iargs))
                return it[1], iargs + own, im
        return "default", tuple(args), im


def tup_t(t):
    """terminators keep the callee dict"""
    def go(x):
        if isinstance(x, list):
            return tuple(go(y) for y in x)
        if isinstance(x, dict):
            return {k: go(v) for k, v in x.items()}
        return x
    return go(t)


def unify(p, a, m):
    if p == a:
        return True
    if not isinstance(p, tuple) or not p:
        return False
    if p[0] == "param":
        if p[1] in m:
            return m[p[1]] == a or m[p[1]][0] == "lt" or a[0] == "lt"
        m[p[1]] = a
        return True
    if p[0] == "lt":
        return True
    if not isinstance(a, tuple) or len(a) != len(p) or a[0] != p[0]:
        return False
    for x, y in zip(p[1:], a[1:]):
        if isinstance(x, tuple) and isinstance(y, tuple):
            if x and isinstance(x[0], str):
                if not unify(x, y, m):
                    return False
            else:
                if len(x) != len(y) or not all(unify(u, v, m) for u, v in zip(x, y)):
                    return False
        elif x != y:
            return False
    return True


def ty_short(t):
    if t[0] == "adt":
        return t[1].split("::")[-1]
    if t[0] == "p":
        return t[1]
    if t[0] == "ref":
        return ty_short(t[2])
    if t[0] == "slice":
        return "[T]"
    if t[0] == "array":
        return "[T;N]"
    if t[0] == "param":
        return t[2]
    return t[0]


if __name__ == "__main__":
    print(build_facts())
