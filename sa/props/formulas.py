"""What the operations of the default engines compute: checks over their canonical formulas."""
import json, os, re, sys
from ..core import Ctx, is_test_body, SPEC
from ..facts import tstr
from .. import formulas as F
from ..machine import make_interp
from ..interp import TooManyTraces

ENG = re.compile(r"^concrete_core::<impl concrete_core::specification::engines|^concrete_core::<backends::default::.*Engine as |^concrete_core::.*default(_parallel)?_engine::Default(Parallel)?Engine>::")
UNCHECKED = re.compile(r"backends::default::.*Default(Parallel)?Engine>?>::(\w+_unchecked|new)$")


def shorten(t):
    return re.sub(r"(\w+::)+", "", t)


def norm_type(t):
    t = shorten(t)
    t = re.sub(r"\bu(32|64)\b", "uN", t)
    return re.sub(r"(Mut)?(View)?(32|64)\b", "", t)


def norm_line(l):
    """widths do not matter"""
    return re.sub(r"\bas_i32\((32|64)\)", "as_i32(BITS)", l)


class Ops:
    def __init__(self, c):
        self.c = c
        w = c.w
        sys.setrecursionlimit(100000)
        self.I = make_interp(w)
        self.ops = []
        for bid, b in sorted(w.bodies.items()):
            if is_test_body(b) or b["crate"] != "concrete_core" or "{closure" in bid or not UNCHECKED.search(bid):
                continue
            eng = re.search(r"(Default(?:Parallel)?Engine)>?>::\w+$", bid)
            m = bid.rsplit("::", 1)[-1]
            ins = [norm_type(tstr(b["T"][i])) for i in b["ins"]]
            raw = [shorten(tstr(b["T"][i])) for i in b["ins"]]
            if m != "new":
                ins, raw = ins[1:], raw[1:]
            out = norm_type(tstr(b["T"][b["out"]])) if "out" in b else ""
            self.ops.append(dict(eng=eng.group(1), name=m.replace("_unchecked", ""), sig="%s(%s)" % (m.replace("_unchecked", ""), ", ".join(ins)), raw=raw, b=b,
                                 out_param=next((i + 2 for i, t in enumerate(raw) if t.startswith("&mut")), None)))
        self.failed = []

    def summary(self, o):
        if "S" not in o:
            try:
                o["S"] = F.summary(self.c.w, self.I, o["b"])
                o["lines"] = [norm_line(l) for l in F.lines(o["S"])]
            except TooManyTraces:
                o["S"] = None
                o["lines"] = None
                self.failed.append(o["sig"])
        return o["lines"]


_ops = {}


def ops(c):
    k = id(c.w)
    if k not in _ops:
        _ops[k] = Ops(c)
    return _ops[k]


# ---------------------------------------------------------------------- reference formulas
META = re.compile(r"^(OUT|P\d+)(\.\w+)+ ")
IDENT = re.compile(r"[A-Za-z_]\w*")
VARS = re.compile(r"(P\d+|new\d+|OUT|self)$")
EXTRA_WORDS = {"skip", "take", "step_by", "rev", "if", "draw", "call", "len", "div", "rem", "SELF", "MASK", "NOISE", "dot", "polymul", "lt", "eq", "le", "gt", "ge", "ne", "min", "max", "reversed", "fmadd_each", "loop"}


def is_meta(l):
    return l.startswith("len(") or bool(META.match(l)) and not re.match(r"^OUT\.(body|compression_seed)", l)


def is_rand(l):
    return bool(re.search(r"MASK<|NOISE<|^draw |^call |seed#", l))


def words(ls):
    return {x for l in ls for x in IDENT.findall(l) if not VARS.match(x)}


def base(l):
    return l.split("  {if ")[0]


def data_guard(l):
    """does the guard of this line look at anything but counts and sizes"""
    if "  {if " not in l:
        return False
    g = l.split("  {if ", 1)[1]
    g = re.sub(r"len\([^()]*\)", "", g)
    g = re.sub(r"(P\d+|OUT|new\d+)(\.\w+)*\.\w*(size|count|dimension|level)\w*", "", g)
    return bool(re.search(r"\bP\d+|new\d+|OUT|MASK|NOISE|variant|#", g))


LOOPVAL = re.compile(r"loop\([^()]*(?:\([^()]*\)[^()]*)*\)")
RANGE = re.compile(r"@\w+~?(:\w+(?:\([^()]*\))?\.\.)")


def unresolved(l, ref):
    """does the line speak of something the formulas have no name for (in the reference neither)"""
    known = {x for r in ref for x in RANGE.findall(r)}
    l = RANGE.sub(lambda m: "@" if m.group(1) in known else m.group(0), LOOPVAL.sub("loop", l))
    return bool(re.search(r"@\w+~?:|\blv\b|\bclosure\b|\?\(|cases\(|array\{", l))


class Table:
    def __init__(self, name="formulas"):
        self.t = json.load(open(os.path.join(SPEC, name + ".json")))
        self.words = words([l for ls in self.t.values() for l in ls]) | EXTRA_WORDS

    def compare(self, o, lines):
        """(missing, added) lines against the reference, or a reason why that cannot be decided"""
        ref = self.t.get("%s|%s" % (o["eng"], o["sig"]))
        if ref is None:
            return None, None, "not in the reference table"
        cur, ref = set(lines), set(ref)
        if cur == ref:
            return [], [], None
        if any("NOISE<" in l for l in ref):
            # clearing what is encrypted over right after
            cur, ref = ({l for l in x if not re.fullmatch(r"P\d+ := 0", l)} for x in (cur, ref))
        added, missing = sorted(cur - ref), sorted(ref - cur)
        unknown = words(added) - self.words
        if unknown:
            return missing, added, "uses %s" % ", ".join(sorted(unknown)[:4])
        for l in added:
            if unresolved(l, ref):
                return missing, added, "a part of it is not resolved"
        tmp = lambda ls: {x for l in ls for x in re.findall(r"new\d+", l)}
        if tmp(cur) - tmp(ref):
            return missing, added, "works through other temporaries"
        bases = {base(l) for l in ref}
        for l in added:
            if base(l) in bases and not data_guard(l):
                return missing, added, "skips work on a count"
        return missing, added, None


def fmt(ls):
    return "; ".join(x[:160] for x in ls[:3]) or "nothing"


def judge(c, want, relevant, what, key, min_ops, O=None, T=None):
    """compare the lines that matter of the operations that matter with their reference formulas"""
    O, T = O or ops(c), T or Table()
    n, und = 0, []
    for o in O.ops:
        ref = T.t.get("%s|%s" % (o["eng"], o["sig"]))
        if ref is None or not want(o, ref):
            continue
        ls = O.summary(o)
        if ls is None:
            und.append("%s: too many paths" % o["sig"])
            continue
        n += 1
        missing, added, why = T.compare(o, ls)
        if why:
            und.append("%s %s: %s" % (o["eng"], o["sig"], why))
            continue
        missing, added = [l for l in missing if relevant(l)], [l for l in added if relevant(l)]
        c.check(not missing and not added, "%s:%s:%s" % (key, o["eng"], o["sig"]),
                "%s of %s %s: %s instead of %s" % (what, o["eng"], o["sig"], fmt(added), fmt(missing)), o["b"],
                sample="%s %s: %s" % (o["eng"], o["sig"], "; ".join(l for l in ref if relevant(l))[:300]),
                expected=missing[:8], found=added[:8])
    c.floor("operations", n + len(und), min_ops)
    c.stats["undecided"] = und


def encrypts(o, ref):
    return any(is_rand(l) for l in ref) and not o["name"].startswith("transform_") and o["name"] != "new"


def c10(c):
    judge(c, encrypts, lambda l: not is_meta(l), "ciphertext formula", "formula", 70)


def c16(c):
    judge(c, lambda o, ref: "seeded" in o["name"] and o["name"].startswith("transform_"), lambda l: True, "expansion", "expand", 12)


def c24(c):
    judge(c, lambda o, ref: not any(is_rand(l) for l in ref), lambda l: not is_meta(l), "formula", "formula", 150)


def c22(c):
    judge(c, lambda o, ref: any(is_meta(l) for l in ref), is_meta, "dimensions", "dims", 100)


GEN = re.compile(r"(MASK|NOISE)<([^<>]*(?:>fork_\w+(?:\[@\w+\])?)*)")


def randomness(l):
    """what a line says about where randomness comes from"""
    out = set()
    if l.startswith("draw "):
        x = l[5:]
        x = re.sub(r", [^,<>]*>($|  \{)", r">\1", x) if x.startswith("NOISE") else x
        out.add(re.sub(r"\[@\w+\]", "[@]", base(x)))
    elif l.startswith("call "):
        out.add(base(l))
    elif "seed#" in l and (META.match(l) or ".compression_seed" in l):
        out.add(base(l))
    return out


def c11(c):
    O, T = ops(c), Table()
    n, und = 0, []
    for o in O.ops:
        ref = T.t.get("%s|%s" % (o["eng"], o["sig"]))
        ls = O.summary(o)
        if ref is None or ls is None:
            und.append(o["sig"])
            continue
        n += 1
        cur = set().union(*[randomness(l) for l in ls]) if ls else set()
        exp = set().union(*[randomness(l) for l in ref]) if ref else set()
        unknown = words(cur - exp) - T.words
        if unknown and not any(re.search(r"[Rr]andom|seed|rng|getrandom", x) for x in cur - exp):
            und.append("%s: %s" % (o["sig"], sorted(unknown)[:3]))
            continue
        c.check(cur == exp, "source:%s:%s" % (o["eng"], o["sig"]), "randomness of %s %s: %s instead of %s" % (o["eng"], o["sig"], fmt(sorted(cur - exp)), fmt(sorted(exp - cur))),
                o["b"], sample="%s %s: %s" % (o["eng"], o["sig"], "; ".join(sorted(exp)) or "no randomness"), expected=sorted(exp - cur)[:8], found=sorted(cur - exp)[:8])
    c.floor("operations", n, 250)
    c.stats["undecided"] = und


def seqtext(l):
    l = re.sub(r">fork_\w+(\[@\w+\])?", "", l)
    l = re.sub(r"P1\.encryption_generator>", "P1.encryption_generator", l)
    l = l.replace("generator>>", "generator>")
    return l


def c15(c):
    O = ops(c)
    seq = {}
    for o in O.ops:
        if o["eng"] == "DefaultEngine":
            seq.setdefault((o["sig"], tuple(o["raw"])), o)
    n, und = 0, []
    T = Table()
    for o in O.ops:
        if o["eng"] != "DefaultParallelEngine" or o["name"] == "new":
            continue
        s = seq.get((o["sig"], tuple(o["raw"])))
        if s is None:
            und.append("no sequential %s" % o["sig"])
            continue
        a, b = O.summary(s), O.summary(o)
        if a is None or b is None:
            und.append(o["sig"])
            continue
        n += 1
        f = lambda ls: {re.sub(r"<(EncryptionRandomGenerator\([^()]*(\([^()]*\))?[^()]*\)|P1\.encryption_generator)[^<,]*?(, [^<>]*)?>+", r"<\1\3>", seqtext(l)) for l in ls}
        x, y = f(a), f(b)
        if x != y:
            unknown = words((x | y) - (x & y)) - T.words
            if unknown or any(unresolved(l, x & y) for l in x ^ y) or {t for l in x for t in re.findall(r"new\d+", l)} != {t for l in y for t in re.findall(r"new\d+", l)}:
                und.append("%s: %s" % (o["sig"], fmt(sorted(x ^ y))))
                continue
        c.check(x == y, "par:" + o["sig"] + ":" + ",".join(o["raw"]), "DefaultParallelEngine %s computes %s where DefaultEngine computes %s" % (o["sig"], fmt(sorted(y - x)), fmt(sorted(x - y))), o["b"],
                sample="%s: equal to the sequential engine (%d facts)" % (o["sig"], len(x)))
    c.floor("parallel_operations", n + len(und), 10)
    c.stats["undecided"] = und


KNOWN_SEL = re.compile(r"^P\d+(/?\[(@\w*|last|first|!last|!first|-[^\[\]]*\.\.|\.\.-[^\[\]]*)\])*$")


def c17(c):
    O = ops(c)
    n, und = 0, []
    for o in O.ops:
        if not o["name"].startswith("discard_") or o["out_param"] is None:
            continue
        if O.summary(o) is None:
            und.append(o["sig"])
            continue
        n += 1
        root = "P%d" % o["out_param"]
        bad = o["S"].stale.get(root, {})
        if bad and not all(KNOWN_SEL.match(k) for k in o["S"].state if k.startswith(root)) and any(x.a for k, x in o["S"].state.items() if k.startswith(root)):
            und.append("%s: written piecewise" % o["sig"])
            continue
        left = [k for k, x in o["S"].state.items() if k.startswith(root)]
        c.check(not bad and left, "stale:%s:%s" % (o["eng"], o["sig"]), "%s %s %s" % (o["eng"], o["sig"], "leaves its output unwritten" if not bad else "uses the previous contents of its output: %s" % ", ".join(
            "%s (into %s)" % x for x in sorted(bad.items()))), o["b"], sample="%s %s writes %s from its inputs only" % (o["eng"], o["sig"], ", ".join(left)[:120]))
    c.floor("discarding_operations", n, 40)
    c.stats["undecided"] = und


def c04(c):
    O, T = ops(c), Table()
    groups = {}
    for o in O.ops:
        if O.summary(o) is not None:
            groups.setdefault((o["eng"], o["sig"]), []).append(o)
    n, und = 0, []
    for (eng, sig), os_ in sorted(groups.items()):
        if len(os_) < 2:
            continue
        n += 1
        first = set(os_[0]["lines"])
        for o in os_[1:]:
            cur = set(o["lines"])
            if cur != first and (words(cur ^ first) - T.words or any(unresolved(l, cur & first) for l in cur ^ first) or {t for l in cur for t in re.findall(r"new\d+", l)} != {t for l in first for t in re.findall(r"new\d+", l)}):
                und.append("%s %s" % (eng, sig))
                continue
            c.check(cur == first, "twin:%s:%s" % (eng, sig), "%s %s on (%s) computes %s, on (%s) %s" % (eng, sig, ", ".join(o["raw"]), fmt(sorted(cur - first)), ", ".join(os_[0]["raw"]), fmt(sorted(first - cur))),
                    o["b"], sample="%s %s: %d variants agree" % (eng, sig, len(os_)))
    c.floor("operation_families", n, 80)
    c.stats["undecided"] = und
