"""Builds the MIR-facts driver, runs it over /repo's current tree and loads the facts."""
import glob, json, os, re, shutil, subprocess, sys, tempfile, time, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SA_REPO", "/repo")

class AnalysisError(Exception):
    """The analysis cannot give an answer (build failure, missing anchor)."""

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def sysroot():
    r = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], stdout=subprocess.PIPE, text=True, check=True)
    return r.stdout.strip()

def build_driver():
    src = os.path.join(VERIF, "driver")
    out = os.environ.get("SA_DRIVER_TARGET", os.path.join(VERIF, ".cache", "driver"))
    r = sh(["cargo", "+nightly", "build", "--release", "--offline", "--manifest-path",
            os.path.join(src, "Cargo.toml"), "--target-dir", out])
    exe = os.path.join(out, "release", "mirfacts")
    if r.returncode != 0 or not os.path.exists(exe):
        raise AnalysisError("driver does not build:\n" + r.stdout[-3000:])
    return exe

def tree_hash(repo=REPO):
    h = hashlib.sha256()
    n = 0
    for root, dirs, files in os.walk(repo):
        dirs[:] = sorted(d for d in dirs if d not in ("target", ".git", "node_modules", ".cache"))
        for f in sorted(files):
            if not f.endswith((".rs", ".toml", ".lock", ".h", ".cu", ".cuh", ".c", ".cpp", ".hpp")):
                continue
            p = os.path.join(root, f)
            if os.path.islink(p):
                continue
            h.update(os.path.relpath(p, repo).encode())
            h.update(open(p, "rb").read())
            n += 1
    for root, dirs, files in os.walk(os.path.join(VERIF, "driver")):
        dirs[:] = [d for d in dirs if d != "target"]
        for f in sorted(files):
            h.update(open(os.path.join(root, f), "rb").read())
    h.update((FEATURES + "|" + FLAGS).encode())
    return h.hexdigest(), n

FLAGS = ""      # no CPU feature assumed: run-time CPU detection stays visible in the MIR
FEATURES = "x86_64,concrete-core/backend_ntt,concrete-core/backend_fft_parallel,concrete-core/backend_cuda"

def collect(repo=REPO):
    """Returns a directory holding one facts file per compiled crate of the current tree."""
    cache = os.environ.get("SA_CACHE", os.path.join(VERIF, ".cache"))
    os.makedirs(cache, exist_ok=True)
    th, nfiles = tree_hash(repo)
    out = os.path.join(cache, "facts-" + th[:24])
    if os.path.exists(os.path.join(out, "DONE")):
        return out, {"tree": th, "source_files": nfiles, "cached": True}
    exe = build_driver()
    # a fresh target directory: cargo skips the wrapper for crates it believes up to date
    tgt = tempfile.mkdtemp(prefix="sa-tgt-", dir=cache)
    tmp = tempfile.mkdtemp(prefix="sa-facts-", dir=cache)
    env = dict(os.environ)
    for k in ("RUSTC_WRAPPER", "CARGO_TARGET_DIR", "RUSTUP_TOOLCHAIN"):
        env.pop(k, None)
    env.update({
        "LD_LIBRARY_PATH": os.path.join(sysroot(), "lib"),
        "RUSTC_WORKSPACE_WRAPPER": exe,
        "MIRFACTS_OUT": tmp,
        "RUSTFLAGS": FLAGS,
        "CMAKE": "/bin/true",          # concrete-cuda's build script only has to succeed: nothing is linked
        "CARGO_INCREMENTAL": "0",
    })
    # build scripts regenerate tracked headers: keep the bytes
    saved = {}
    for p in glob.glob(os.path.join(repo, "*", "*.h")) + [os.path.join(repo, "Cargo.lock")]:
        if os.path.exists(p):
            st = os.stat(p)
            saved[p] = (open(p, "rb").read(), st.st_atime_ns, st.st_mtime_ns)
    before = set(glob.glob(os.path.join(repo, "*", "*.h")))
    try:
        r = sh(["cargo", "+nightly", "check", "--offline", "--release", "--workspace", "--features", FEATURES,
                "--target-dir", tgt], cwd=repo, env=env)
    finally:
        for p, (b, a, m) in saved.items():
            if not os.path.exists(p) or open(p, "rb").read() != b:
                open(p, "wb").write(b)
                os.utime(p, ns=(a, m))
        for p in set(glob.glob(os.path.join(repo, "*", "*.h"))) - before:
            os.remove(p)
        shutil.rmtree(tgt, ignore_errors=True)
    if r.returncode != 0:
        shutil.rmtree(tmp, ignore_errors=True)
        raise AnalysisError("cargo check failed:\n" + r.stdout[-4000:])
    open(os.path.join(tmp, "DONE"), "w").write(th)
    for old in glob.glob(os.path.join(cache, "facts-*")):
        shutil.rmtree(old, ignore_errors=True)
    try:
        os.rename(tmp, out)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return out, {"tree": th, "source_files": nfiles, "cached": False}


class World:
    """All facts, with types interned as structural tuples."""

    def __init__(self, d, crates=None):
        self.bodies = {}
        self.adts = {}
        self.impls = []
        self.traits = {}
        self.foreign = {}
        self.crates = {}
        self.failed = []
        self._tcache = {}
        for f in sorted(glob.glob(os.path.join(d, "*.json"))):
            name = os.path.basename(f).rsplit("-", 1)[0]
            if name in ("build_script_build",) or (crates and name not in crates):
                continue
            if name == "concrete_core_representation" and name in self.crates:
                continue
            j = json.load(open(f))
            self.crates[name] = j
            self._load(name, j)
        self.impl_index = {}
        for im in self.impls:
            if im.get("trait"):
                self.impl_index.setdefault(im["trait"], []).append(im)

    # ---- types
    def _types(self, j):
        raw = j["types"]
        out = [None] * len(raw)

        def conv(i):
            if out[i] is not None:
                return out[i]
            t = raw[i]
            k = t["k"]
            out[i] = ("str", t["s"])          # cut recursion
            if k == "adt":
                r = ("adt", t["d"], tuple(conv(a) if isinstance(a, int) else ("const", a) for a in t["a"]))
            elif k == "ref":
                r = ("ref", t["m"], conv(t["a"][0]))
            elif k == "ptr":
                r = ("ptr", t["m"], conv(t["a"][0]))
            elif k == "slice":
                r = ("slice", conv(t["a"][0]))
            elif k == "array":
                r = ("array", conv(t["a"][0]), t["n"])
            elif k == "tuple":
                r = ("tuple", tuple(conv(a) for a in t["a"]))
            elif k in ("fndef",):
                r = ("fndef", t["d"], tuple(conv(a) if isinstance(a, int) else ("const", a) for a in t["a"]))
            elif k == "closure":
                r = ("closure", t["d"])
            elif k == "param":
                r = ("param", t["n"])
            else:
                r = (k, t["s"])
            out[i] = r
            return r
        sys.setrecursionlimit(20000)
        for i in range(len(raw)):
            conv(i)
        return out

    def _load(self, name, j):
        T = self._types(j)
        j["T"] = T
        for b in j["bodies"]:
            b["crate"] = name
            b["T"] = T
            i = b["id"]
            if i in self.bodies:
                i = i + "@" + str(b.get("hash", len(self.bodies)))
                b["id"] = i
            self.bodies[i] = b
        for a in j["adts"]:
            a["crate"] = name
            for v in a["variants"]:
                v["f"] = [(n, T[t], vis) for n, t, vis in v["f"]]
            self.adts.setdefault(a["id"], a)
        for im in j["impls"]:
            im["crate"] = name
            im["self"] = T[im["self"]]
            if "targs" in im:
                im["targs"] = tuple(T[a] if isinstance(a, int) else ("const", a) for a in im["targs"])
            self.impls.append(im)
        for t in j["traits"]:
            self.traits[t["id"]] = t
        for f in j["foreign"]:
            f["crate"] = name
            f["ins"] = [T[t] for t in f["ins"]]
            f["out"] = T[f["out"]]
            self.foreign[f["id"]] = f
        self.failed += j["failed"]

    # ---- helpers
    def find(self, pred):
        return [b for b in self.bodies.values() if pred(b)]

    def need(self, bid):
        b = self.bodies.get(bid)
        if b is None:
            raise AnalysisError("anchor missing: " + bid)
        return b

    def impls_of(self, trait):
        return self.impl_index.get(trait, [])

    def resolve(self, trait, method, targs):
        """Find the impl body of trait::method for concrete trait args (Self first)."""
        key = (trait, method, targs)
        c = self._tcache.get(key)
        if c is not None or key in self._tcache:
            return c
        hit = None
        for im in self.impls_of(trait):
            sub = {}
            if all(unify(p, a, sub) for p, a in zip(im["targs"], targs)):
                for it in im["items"]:
                    if it.rsplit("::", 1)[-1] == method and it in self.bodies:
                        hit = (it, sub, im)
                break
        self._tcache[key] = hit
        return hit


def unify(pat, t, sub):
    if pat[0] == "param":
        if pat[1] in sub:
            return sub[pat[1]] == t
        sub[pat[1]] = t
        return True
    if pat[0] != t[0]:
        return False
    if len(pat) != len(t):
        return False
    for a, b in zip(pat[1:], t[1:]):
        if isinstance(a, tuple) and isinstance(b, tuple):
            if a and isinstance(a[0], tuple) or (b and isinstance(b[0], tuple)) or a == () or b == ():
                if len(a) != len(b) or not all(unify(x, y, sub) for x, y in zip(a, b)):
                    return False
            elif not unify(a, b, sub):
                return False
        elif a != b:
            return False
    return True


def subst(t, s):
    if not s or not isinstance(t, tuple):
        return t
    if t and t[0] == "param" and len(t) == 2:
        return s.get(t[1], t)
    return tuple(subst(x, s) if isinstance(x, tuple) else x for x in t)


def tstr(t):
    k = t[0]
    if k == "adt":
        return t[1].rsplit("::", 1)[-1] + ("<" + ",".join(tstr(a) for a in t[2]) + ">" if t[2] else "")
    if k in ("ref", "ptr"):
        return ("&" if k == "ref" else "*") + ("mut " if t[1] else "") + tstr(t[2])
    if k == "slice":
        return "[" + tstr(t[1]) + "]"
    if k == "array":
        return "[" + tstr(t[1]) + ";" + str(t[2]) + "]"
    if k == "tuple":
        return "(" + ",".join(tstr(a) for a in t[1]) + ")"
    if k == "closure":
        return "closure"
    return str(t[1])


def concrete(t):
    if not isinstance(t, tuple):
        return True
    if t and t[0] in ("param", "alias"):
        return False
    return all(concrete(x) for x in t if isinstance(x, tuple))
