"""C05-C07: the C API (concrete-core-ffi)."""
import json, os, re, collections
from ..core import *
from ..interp import Interp, TooManyTraces, show, show_eff, agg_get, mrefs
from ..canon import Canon, method

CRATE = "concrete_core_ffi"


class FCanon(Canon):
    """tells a pointer (&p2) from what it points to (p2)"""

    def atom(self, t):
        if t[0] == "mref":
            return "&" + Canon.atom(self, t)
        return Canon.atom(self, t)


def extern_fns(w):
    return [b for bid, b in sorted(w.bodies.items()) if b["crate"] == CRATE and str(b.get("abi", "")).startswith("C") and b["kind"] == "Fn"]


def unwrap_clo(c):
    while c[0] == "agg" and "AssertUnwindSafe" in c[1]:
        c = agg_get(c, "0")
    return c


def m_catch(I, st, f, fn, targs, args, dest, target, line):
    return I.call_closure(st, f, unwrap_clo(args[0]), [], dest, target,
                          wrap=lambda v: ("agg", "std::result::Result", "Ok", (("0", v),)))


def isnull(p):
    return ("call", "ptr::is_null", (), (p,))


def m_is_null(I, st, f, fn, targs, args, dest, target, line):
    I.write(st, f, dest, isnull(args[0]))
    return True


def m_as_ref(I, st, f, fn, targs, args, dest, target, line):
    """<*const T>::as_ref / <*mut T>::as_mut"""
    p = args[0]
    I.on_deref(st, f, p)
    if st.known.get(isnull(p)) == 0:
        I.write(st, f, dest, ("agg", "std::option::Option", "Some", (("0", p),)))
        return True
    return None


def build(w, catch=True):
    models = {"std::panic::catch_unwind": m_catch} if catch else {}
    for k, q in (("const_ptr", "*const T"), ("mut_ptr", "*mut T")):
        pre = "std::ptr::%s::<impl %s>::" % (k, q)
        models[pre + "is_null"] = m_is_null
        models[pre + "as_ref"] = m_as_ref
        models[pre + "as_mut"] = m_as_ref
    I = Interp(w, transparent=transparent_params(w), inline=lambda fn, st: fn.startswith(CRATE + "::"), models=models, max_depth=16)
    return I


def events_interp(w):
    """catch_unwind spliced; every use of a raw pointer recorded with the tests passed before it"""
    I = build(w)
    base = I.call

    def on_deref(st, f, v):
        st.effects.append(("deref", len(st.conds), v, f.body["id"]))
    I.on_deref = on_deref
    I.ptr_hooks = True
    from .. import interp as IM
    orig_opaque = I.opaque

    def opaque(st, f, fn, gfn, targs, gargs, args, dest, target, line):
        for a, ty in zip(args, I.argtys):
            if ty[0] == "ptr" and not HARMLESS.search(fn):
                st.effects.append(("deref", len(st.conds), a, f.body["id"]))
        if I.destty[0] == "adt" and I.destty[1] == "std::result::Result":
            I.fallible.add(fn)
        return orig_opaque(st, f, fn, gfn, targs, gargs, args, dest, target, line)
    I.opaque = opaque
    I.fallible = set()

    def call(st, f, t, line):
        T = f.body["T"]
        I.argtys = [operand_type(f, a) for a in t[2]]
        I.destty = operand_type(f, ("m", t[3]))
        return base(st, f, t, line)
    I.call = call
    return I


HARMLESS = re.compile(r"(::is_null|::fmt|::cast|::cast_mut|::cast_const|::addr|::expose_provenance|new_pointer|Argument.*::new\w*)$")


def operand_type(f, a):
    if a[0] in ("c", "m") and not a[1][1]:
        return f.body["T"][f.body["locals"][a[1][0]]]
    return ("?",)


def foreign_ptr(t):
    """is this raw pointer value supplied by the C caller?"""
    if t[0] == "param":
        return True
    if t[0] == "mref":
        return t[1][0] == "P" and t[2] == () or (t[1][0] == "T" and foreign_ptr(t[1][1]))
    if t[0] in ("field", "as", "index", "cast"):
        x = t[2] if t[0] == "cast" else t[1]
        return foreign_ptr(x)
    return False


CASTS = re.compile(r"::(cast|cast_mut|cast_const|as_ptr|as_mut_ptr|add|offset|wrapping_add|wrapping_offset|byte_add|read|read_unaligned)$")


def strip_casts(t):
    """the pointer received, behind casts and offsets of it"""
    while True:
        if t[0] == "cast":
            t = t[2]
        elif t[0] == "call" and "ptr" in t[1] and CASTS.search(t[1]) and t[3]:
            t = t[3][0]
        else:
            return t


def aligned_literal(c, v, p):
    """does this path literal establish that p is aligned?  (p as usize) % align_of == 0"""
    s = str(c)
    if "align_of" not in s and "is_aligned" not in s:
        return False
    return contains(c, p)


def contains(t, x):
    if t == x:
        return True
    if isinstance(t, tuple):
        return any(contains(y, x) for y in t if isinstance(y, tuple))
    return False


def returns_int(b):
    return b["T"][b["locals"][0]] != ("tuple", ())


# ------------------------------------------------------------------ C05
def c05(ctx):
    w = ctx.w
    fns = extern_fns(w)
    I0 = build(w, catch=False)
    I1 = events_interp(w)
    n = 0
    for b in fns:
        name = method(b["id"])
        n += 1
        # (a) nothing but the panic barrier runs outside it, and the code tells success from failure
        try:
            tr = I0.run(b)
        except TooManyTraces:
            ctx.bad(name + ":size", "too many paths", b)
            continue
        bad = None
        for t in tr:
            eff = [e for e in t.effects if not (e[0] == "pure" and HARMLESS_OUT.search(e[1]))]
            other = [e for e in eff if not (e[0] in ("call", "pure") and method(e[2] if e[0] == "call" else e[1]) == "catch_unwind")]
            barrier = [e for e in eff if e not in other]
            if t.status != "return":
                bad = bad or "can panic outside the barrier (%s)" % t.where
            if other:
                bad = bad or "does work outside the panic barrier: %s" % "; ".join(show_eff(e) for e in other)[:300]
            if len(barrier) != 1:
                bad = bad or "has no panic barrier"
                continue
            code = outcome(t)
            if code is None:
                bad = bad or "does not test whether the barrier caught a panic"
                continue
            if t.ret is None or t.ret[0] != "int" or (t.ret[1] == 0) != code:
                bad = bad or "returns %s when the operation %s" % (show(t.ret), "succeeded" if code else "panicked")
        ctx.check(bad is None, name + ":barrier", bad, b, sample={"entry point": name, "paths": len(tr)})
        # (b) success is reported only if every fallible operation succeeded
        try:
            tr = I1.run(b)
        except TooManyTraces:
            ctx.bad(name + ":size", "too many paths", b)
            continue
        bad, okn = None, 0
        for t in tr:
            if t.status != "return" or t.ret is None or t.ret != ("int", 0):
                continue
            okn += 1
            lits = {c: v for c, v, *_ in t.conds}
            for e in t.effects:
                if e[0] == "call":
                    term, fn = ("res", e[1], e[2], tuple(e[3]), tuple(e[4])), e[2]
                elif e[0] == "pure":
                    term, fn = ("call", e[1], tuple(e[2]), tuple(e[3])), e[1]
                else:
                    continue
                if fn not in I1.fallible and not fallible(w, fn):
                    continue
                if lits.get(("discr", term)) != 0:
                    bad = bad or "reports success without %s having succeeded" % method(fn)
            for c, v, *_ in t.conds:
                if c[0] == "discr" and c[1][0] in ("res", "call") and v != 0 and (c[1][2] if c[1][0] == "res" else c[1][1]) in I1.fallible:
                    bad = bad or "reports success although %s failed" % method(c[1][2] if c[1][0] == "res" else c[1][1])
        ctx.check(bad is None and okn > 0, name + ":success", bad or "never reports success", b)
    ctx.floor("C entry points", n, 190)


HARMLESS_OUT = re.compile(r"(AssertUnwindSafe|size_of|align_of)")


def fallible(w, fn):
    b = w.bodies.get(fn)
    if b is None:
        return bool(re.search(r"::(create_seeder)$", fn))
    t = b["T"][b["locals"][0]]
    return t[0] == "adt" and t[1] == "std::result::Result"


def outcome(t):
    """True: barrier returned normally, False: caught a panic, None: not tested"""
    for c, v, *_ in t.conds:
        if c[0] == "discr" and "catch_unwind" in str(c[1][1:3]):
            return v == 0
        if c[0] in ("call", "der") and method(c[1]) in ("is_ok", "is_err") and "catch_unwind" in str(c[3]):
            return bool(v) == (method(c[1]) == "is_ok")
    return None


# ------------------------------------------------------------------ C06
def c06(ctx):
    w = ctx.w
    I = events_interp(w)
    nf = np = 0
    for b in extern_fns(w):
        name = method(b["id"])
        if "unchecked" in name:
            continue
        nf += 1
        try:
            tr = I.run(b)
        except TooManyTraces:
            ctx.bad(name + ":size", "too many paths", b)
            continue
        uses = {}
        for t in tr:
            for e in t.effects:
                if e[0] != "deref":
                    continue
                e = (e[0], e[1], strip_casts(e[2]), e[3])
                if not foreign_ptr(e[2]):
                    continue
                key = FCanon(names(b)).num(e[2])
                pre = t.conds[: e[1]]
                nonnull = any(c == isnull(e[2]) and v == 0 for c, v, *_ in pre)
                al = any(aligned_literal(c, v, e[2]) for c, v, *_ in pre) or align1(b, e[2])
                uses.setdefault(key, [True, True, 0])
                uses[key][0] &= nonnull
                uses[key][1] &= al
                uses[key][2] += 1
        # every pointer parameter is used or at least validated
        for key, (nn, al, cnt) in sorted(uses.items()):
            np += 1
            ctx.check(nn, "%s:%s:null" % (name, key), "uses pointer %s without a null check on every path to the use" % key, b,
                      sample={"entry point": name, "pointer": key, "uses": cnt})
            ctx.check(al, "%s:%s:align" % (name, key), "uses pointer %s without an alignment check on every path to the use" % key, b)
        # a refused pointer leaves no trace: nothing but the nulling of results happened before a pointer error
        # checked entry points only use checked engine operations
        bad = None
        for t in tr:
            if t.status == "return" and t.ret == ("int", 0):
                for e in t.effects:
                    fn = e[2] if e[0] == "call" else e[1] if e[0] == "pure" else ""
                    if method(fn).endswith("_unchecked") and fn.split("::")[0].strip("<") in ("concrete_core",):
                        bad = "calls the unchecked operation %s" % method(fn)
        ctx.check(bad is None, name + ":engine", bad, b)
    ctx.floor("checked C entry points", nf, 95)
    ctx.floor("pointer arguments used", np, 250)


def names(b):
    return {i: "p%d" % i for i in range(1, b["argc"] + 1)}


def align1(b, p):
    """pointers to bytes need no alignment check"""
    x = p
    path = []
    while x[0] in ("field", "as"):
        path.append(x)
        x = x[1]
    if p[0] == "field" and p[2] == "pointer":
        return True          # Buffer / BufferView pointers are *u8
    return False


# ------------------------------------------------------------------ C07
STORE = [None]


def norm(t):
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == "mref" and t[1][0] != "P" and STORE[0] is not None:
        v = STORE[0].get(t[1])
        seen = 0
        while v is not None and v[0] in ("mod", "upd") and seen < 50:
            v, seen = (v[3] if v[0] == "mod" else v[1]), seen + 1
        if v is not None and v[0] in ("res", "call", "field", "agg", "param"):
            return norm(v)
    if t[0] == "field" and len(t) == 3 and t[2] == "0":
        x = t[1]
        while x[0] == "as":
            x = x[1]
        if x[0] in ("res", "call", "der"):
            return norm(x)
    if t[0] == "as":
        return norm(t[1])
    if t[0] == "res":
        return ("call", sfn(t[2]), (), tuple(norm(a) for a in t[4]))
    if t[0] in ("call", "der"):
        return ("call", sfn(t[1]), (), tuple(norm(a) for a in t[3]))
    if t[0] == "mod":
        return norm(t[3])
    return tuple(norm(x) if isinstance(x, tuple) else x for x in t)


def sfn(fn):
    return re.sub(r"_unchecked$", "", fn)


def success_summary(I, b):
    """set of canonical effects on success paths"""
    out = set()
    order_bad = None
    for t in I.run(b):
        if t.status != "return" or t.ret != ("int", 0):
            continue
        cn = FCanon(names(b))
        s = []
        STORE[0] = t.store
        for e in t.effects:
            if e[0] == "call":
                m = re.sub(r"_unchecked$", "", method(e[2]))
                if m in ("drop", "drop_in_place"):
                    continue
                s.append("%s(%s)" % (m, ", ".join(cn.num(norm(a)) for a in e[4])))
            elif e[0] == "write":
                s.append("%s%s := %s" % (cn.num(("mref", e[1], ())), "".join("." + str(x) for x in e[2]), cn.num(norm(e[3]))))
        out.add(tuple(sorted(s)))
    return out


def root_ptr_ptr(b, i):
    t = b["T"][b["locals"][i]]
    return t[0] == "ptr" and t[2][0] == "ptr"


def about_out(b, c):
    """does this path literal test a result pointer itself?"""
    return any(root_ptr_ptr(b, i) and (contains(c, ("P", i)) or any_param(c, i)) for i in range(1, b["argc"] + 1))


def any_param(c, i):
    return isinstance(c, tuple) and (c[:2] == ("param", i) or any(any_param(x, i) for x in c if isinstance(x, tuple)))


def c07(ctx):
    w = ctx.w
    I = build(w)
    I.on_deref = lambda st, f, v: None
    spec = ctx.spec("ffi.json")
    fns = {method(b["id"]): b for b in extern_fns(w)}
    summ = {}
    for name, b in fns.items():
        try:
            summ[name] = success_summary(I, b)
        except TooManyTraces:
            ctx.bad(name + ":size", "too many paths", b)
            continue
        # result pointers are nulled before anything can fail
        for i in range(1, b["argc"] + 1):
            if not root_ptr_ptr(b, i):
                continue
            bad = None
            traces = I.run(b)
            content = ("param", i)
            inout = any(e[0] == "call" and method(e[2]) == "from_raw" and any(a[:2] == content for a in e[4]) for t in traces for e in t.effects)
            for t in traces:
                nulled = inout
                for e in t.effects:
                    if inout and e[0] == "call" and method(e[2]) == "from_raw" and any(a[:2] == content for a in e[4]):
                        nulled = False
                    if e[0] == "write" and e[1] == ("P", i) and e[2] == ():
                        nulled = "null" in show(e[3])
                    elif e[0] == "call" or e[0] == "pure":
                        fn = e[2] if e[0] == "call" else e[1]
                        if fn.lstrip("<").startswith("concrete_core::") and not nulled:
                            bad = "%s runs before the %s pointer is nulled" % (method(fn), "consumed" if inout else "result")
                if t.status == "panic":
                    w_ = [e for e in t.effects if e[0] == "write" and e[1] == ("P", i)]
                    if w_ and "null" not in show(w_[-1][3]):
                        bad = "fails leaving a non-null result pointer"
                    if not w_ and not inout and not (t.conds and about_out(b, t.conds[-1][0])):
                        bad = "can fail before the result pointer is nulled (%s)" % (show(t.conds[-1][0])[:120] if t.conds else "always")
            ctx.check(bad is None, "%s:out%d" % (name, i), bad, b)
    for name, want in sorted(spec.items()):
        if name not in fns:
            ctx.bad("missing:" + name, "the C entry point %s is gone" % name)
            continue
        got = sorted(sorted(x) for x in summ.get(name, []))
        ctx.check(got == want, name + ":effects", "does, on success, %s; documented: %s" % (diff(got, want), diff(want, got)), fns[name],
                  sample={"entry point": name, "success effects": got[0] if got else []})
    pairs = 0
    for name in sorted(fns):
        if "unchecked" in name:
            twin = name.replace("_unchecked", "")
            if twin in fns and name in summ and twin in summ:
                pairs += 1
                a = {tuple(x for x in s) for s in summ[name]}
                c = {tuple(x for x in s) for s in summ[twin]}
                ctx.check(a == c, name + ":twin", "differs from %s: %s vs %s" % (twin, diff(sorted(map(list, a)), sorted(map(list, c))), diff(sorted(map(list, c)), sorted(map(list, a)))), fns[name])
    for name in fns:
        if name not in spec and "unchecked" not in name and (name + "_unchecked") not in fns and not any(n.replace("_unchecked", "") == name for n in fns if "unchecked" in n):
            ctx.bad(name + ":unknown", "new C entry point without documented effect and without twin", fns[name])
    ctx.floor("C entry points", len(fns), 190)
    ctx.floor("checked/unchecked pairs", pairs, 90)


def diff(a, b):
    fb = {x for s in b for x in s}
    d = [x for s in a for x in s if x not in fb]
    return "; ".join(d)[:400] if d else "(%d paths)" % len(a)


def write_spec(w):
    I = build(w)
    I.on_deref = lambda st, f, v: None
    out = {method(b["id"]): sorted(sorted(x) for x in success_summary(I, b)) for b in extern_fns(w)}
    json.dump(out, open(os.path.join(SPEC, "ffi.json"), "w"), indent=0, sort_keys=True)
    return out
