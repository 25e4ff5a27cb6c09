"""C01-C03: checked engine operations.

A checked method is summarised by the set of its paths: which tests of its operands each path
passed, which error it returns or which calls it makes.  The generic check functions are spliced
in, so the comparison is between what the method tests about *its own* operands and the documented
condition of every error variant (spec/checks.json), as formulas, in any order and any spelling.
"""
import json, os, re, collections
from ..core import *
from ..interp import Interp, TooManyTraces, show, show_eff, agg_get
from ..canon import Canon, ev, expand, atoms, fstr, method

ENG = "concrete_core::specification::engines::"
ENT = "concrete_core::specification::entities"


def inline_policy(w):
    def inl(fn, st):
        if not fn.startswith("concrete_core::"):
            return False
        if method(fn).endswith("_unchecked") or "::commons::" in fn or "::cuda::" in fn:
            return False
        return not w.bodies[fn].get("trait", "").startswith(ENT)
    return inl


def make_interp(w):
    return Interp(w, transparent=transparent_params(w), inline=inline_policy(w))


def checked_methods(w):
    for bid in sorted(w.bodies):
        b = w.bodies[bid]
        t = b.get("trait", "")
        if b["kind"] != "AssocFn" or not t.startswith(ENG) or t.endswith("AbstractEngine"):
            continue
        m = method(bid)
        if m.endswith("_unchecked") or m in ("new", "fmt", "source", "description"):
            continue
        if not any(str(i[0] if isinstance(i, (list, tuple)) else i).rsplit("::", 1)[-1] == m + "_unchecked" for i in w.traits[t]["items"]):
            continue
        yield b, t, m


def generic_checks(w):
    for bid in sorted(w.bodies):
        b = w.bodies[bid]
        if b["kind"] == "AssocFn" and method(bid) == "perform_generic_checks" and bid.startswith(ENG):
            yield b


def owner_of(b):
    """name of the error type whose check function this is"""
    return re.sub(r"(::)?<[^<>]*>", "", b["id"]).split("::")[-2]


def names_of(b):
    return {i: "p%d" % i for i in range(1, b["argc"] + 1)}


def err_name(e):
    """identity of an error value"""
    if e[0] == "agg":
        v = e[2] or e[1].rsplit("::", 1)[-1]
        inner = agg_get(e, "0")
        return v + ("(" + err_name(inner) + ")" if inner is not None else "")
    if e[0] in ("call", "der") and method(e[1]) in ("from", "into") and len(e[3]) == 1 and e[3][0][0] == "agg":
        # From<EngineError> wraps an engine's own error
        return "Engine(" + err_name(e[3][0]) + ")"
    return "?" + show(e)[:80]


def summarise(I, b):
    """(errs: {variant: [list of path literals]}, oks: traces, others)"""
    traces = I.run(b)
    cn = Canon(names_of(b))
    if "::cuda::" in b["id"]:
        traces = cuda_view(traces)
    errs, oks, other = collections.OrderedDict(), [], []
    for t in traces:
        lits = [cn.literal(c, v) for c, v, *_ in t.conds]
        if t.status == "return" and t.ret is not None and t.ret[0] == "agg" and t.ret[2] == "Err":
            errs.setdefault(err_name(agg_get(t.ret, "0")), []).append((lits, t))
        elif t.status == "return":
            oks.append((lits, t))
        else:
            other.append((lits, t))
    return traces, errs, oks, other


def cuda_view(traces):
    """Device-memory availability is tested in loops over GPUs and reported with engine errors whose
    outcome no operand decides: those paths and loop marks are set aside for the CUDA engines."""
    out = []
    for t in traces:
        t.effects = [e for e in t.effects if e[0] != "loop"]
        t.conds = [c for c in t.conds if "device_memory" not in str(c[0]) and "exhausted" not in str(c[0])]
        if t.status in ("back", "panic"):
            continue
        if t.status == "return" and t.ret is not None and t.ret[0] == "agg" and t.ret[2] == "Err" and err_name(agg_get(t.ret, "0")).startswith("?"):
            continue
        out.append(t)
    return out


def derive_spec(I, b):
    """condition of each variant (used only to write spec/checks.json, never by a check)"""
    traces, errs, oks, other = summarise(I, b)
    cn = Canon(names_of(b))
    out = {}
    for v, lst in errs.items():
        f = None
        for lits, t in lst:
            g = ("true",)
            for i, (c, val, *_) in enumerate(t.conds):
                opp = [u for u in traces if len(u.conds) > i and all(u.conds[k][:2] == t.conds[k][:2] for k in range(i)) and u.conds[i][0] == c and u.conds[i][1] != val]
                if opp and all(u.status == "return" and u.ret[0] == "agg" and u.ret[2] == "Err" for u in opp):
                    continue
                l = cn.literal(c, val)
                g = l if g == ("true",) else ("and", g, l)
            f = g if f is None else ("or", f, g)
        out[v] = f
    return out


def tup(x):
    return tuple(tup(y) if isinstance(y, list) else y for y in x)


def impl_key(w, b, m):
    im = [i for i in w.impls if b["id"] in i["items"]]
    targs = ",".join(re.sub(r"concrete_core::[a-z_0-9:]*::", "", tstr(a) if a[0] != "const" else str(a[1])) for a in im[0]["targs"]) if im else engine_of(b)
    return "%s [%s]" % (m, targs)


def judge(ctx, which, key, b, errs, oks, other, want):
    """which: 'pre' (C01) or 'err' (C02)"""
    if which == "err":
        for v, lst in errs.items():
            if v not in want:
                ctx.bad("%s:unlisted:%s" % (key, v), "returns error %s, which has no documented condition here" % v, b)
                continue
            bad = None
            for lits, t in lst:
                envs = expand(lits)
                if any(ev(want[v], e) is not True for e in envs):
                    bad = lits
                    break
            ctx.check(bad is None, "%s:%s" % (key, v),
                      "reports %s although its condition %s is not established; path: %s" % (v, fstr(want[v]), " & ".join(fstr(l) for l in bad or [])), b,
                      sample={"site": key, "error": v, "condition": fstr(want[v]), "paths": len(lst)})
        for v in want:
            if v not in errs:
                ctx.bad("%s:never:%s" % (key, v), "never reports %s (condition %s)" % (v, fstr(want[v])), b)
    else:
        paths = oks + [(l, t) for l, t in other if t.status != "panic" or any(e[0] == "call" for e in t.effects)]
        for lits, t in other:
            if t.status == "panic":
                ctx.bad("%s:panic" % key, "panics instead of reporting an error; path: %s" % " & ".join(fstr(l) for l in lits), b)
        for v, f in sorted(want.items()):
            bad = None
            for lits, t in paths:
                envs = expand(lits)
                if any(ev(f, e) is not False for e in envs):
                    bad = lits
                    break
            ctx.check(bad is None, "%s:%s" % (key, v),
                      "proceeds although %s is not excluded (condition %s); path: %s" % (v, fstr(f), " & ".join(fstr(l) for l in bad or [])), b,
                      sample={"site": key, "error": v, "condition_excluded_before_acting": fstr(f), "paths": len(paths)})


def _run(ctx, which):
    w = ctx.w
    spec = ctx.spec("checks.json")
    I = make_interp(w)
    n = 0
    seen = set()
    for b in generic_checks(w):
        key = "generic " + owner_of(b)
        _, errs, oks, other = summarise(I, b)
        if key not in spec["generic"]:
            ctx.bad(key, "no documented condition set for this check function", b)
            continue
        seen.add(key)
        n += 1
        judge(ctx, which, key, b, errs, oks, other, {k: tup(v) for k, v in spec["generic"][key].items()})
    for k in spec["generic"]:
        if k not in seen:
            ctx.bad("missing:" + k, "the public check function %s is gone" % k)
    ctx.floor("generic check functions", n, 85)
    n = 0
    for b, t, m in checked_methods(w):
        if "erializ" in m:
            continue
        key = impl_key(w, b, m)
        try:
            _, errs, oks, other = summarise(I, b)
        except TooManyTraces:
            ctx.bad(key + ":size", "too many paths to enumerate", b)
            continue
        n += 1
        want = spec["impl"].get(key)
        if want is None:
            # an implementation unknown to the specification: any sibling's conditions will do
            cands = [v for k, v in spec["impl"].items() if k.split(" ")[0] == m]
            okc = False
            for c in cands:
                c2 = Ctx(ctx.prop)
                judge(c2, which, key, b, errs, oks, other, {k: tup(v) for k, v in c.items()})
                if not c2.violations:
                    okc = True
            ctx.check(okc, key + ":new", "new implementation whose checks agree with no documented sibling", b)
            continue
        judge(ctx, which, key, b, errs, oks, other, {k: tup(v) for k, v in want.items()})
    ctx.floor("checked engine methods", n, 400)


def c01(ctx):
    _run(ctx, "pre")


def c02(ctx):
    _run(ctx, "err")
    # every documented variant of every generic check function is reachable
    w = ctx.w
    I = make_interp(w)
    for b in generic_checks(w):
        _, errs, _, _ = summarise(I, b)
        owner = owner_of(b)
        a = [a for a in w.adts.values() if a["id"].rsplit("::", 1)[-1] == owner and a["id"].startswith(ENG)]
        for x in a[:1]:
            for v in x["variants"]:
                if v["n"] != "Engine":
                    ctx.check(v["n"] in errs, "variant %s::%s" % (owner, v["n"]), "no path of the check function ever reports this documented error", b)


def c03(ctx):
    w = ctx.w
    I = make_interp(w)
    n = 0
    for b, t, m in checked_methods(w):
        if "erializ" in m:
            continue
        key = impl_key(w, b, m)
        try:
            _, errs, oks, other = summarise(I, b)
        except TooManyTraces:
            ctx.bad(key + ":size", "too many paths to enumerate", b)
            continue
        n += 1
        for v, lst in errs.items():
            for lits, tr in lst:
                eff = [e for e in tr.effects if e[0] != "pure"]
                ctx.check(not eff, "%s:effect-before-%s" % (key, v), "has an effect on a path that reports %s: %s" % (v, "; ".join(show_eff(e) for e in eff)[:300]), b)
        bad = None
        if not oks:
            bad = "never succeeds"
        for lits, tr in oks:
            bad = bad or forward_defect(b, m, tr, I)
        ctx.check(bad is None, key + ":forward", bad, b,
                  sample={"site": key, "success_paths": len(oks), "effect": "; ".join(show_eff(e) for e in oks[0][1].effects if e[0] != "pure") if oks else ""})
    ctx.floor("checked engine methods", n, 400)


def strip_result(r):
    if r is not None and r[0] == "agg" and r[2] == "Ok":
        return agg_get(r, "0")
    return None


def forward_defect(b, m, tr, I):
    eff = [e for e in tr.effects if e[0] != "pure"]
    want = method(b["id"]) + "_unchecked"
    same = b["id"].rsplit("::", 1)[0] + "::" + want
    calls = [e for e in eff if e[0] == "call"]
    pure = None
    if len(eff) == 0:
        # an unchecked operation without mutable access to anything is an ordinary value
        r = strip_result(tr.ret)
        if r is not None and r[0] in ("call", "der") and r[1] == same:
            args = r[3]
        else:
            return "succeeds without performing the operation (returns %s)" % show(tr.ret)[:200]
        ret_ok = True
    else:
        if len(eff) != 1 or not calls:
            return "success path does more than the unchecked operation: %s" % "; ".join(show_eff(e) for e in eff)[:400]
        c = calls[0]
        if c[2] != same:
            return "performs %s instead of its own unchecked operation" % c[2]
        args = c[4]
        r = strip_result(tr.ret)
        ret_ok = r == ("unit",) or (r is not None and r[0] == "res" and r[1] == c[1])
        if r == ("unit",) and b["T"][b["locals"][0]][0] == "adt":
            ok_t = b["T"][b["locals"][0]][2][0]
            if ok_t != ("tuple", ()):
                return "discards the result of the operation"
    got = [param_index(a) for a in args]
    ok = None not in got and sorted(got) == list(range(1, b["argc"] + 1))
    if ok:
        # operands of one type keep their order (the compiler decides the rest)
        for i in range(len(got)):
            for j in range(i + 1, len(got)):
                if got[i] > got[j] and ptype(b, got[i]) == ptype(b, got[j]):
                    ok = False
    if not ok:
        return "forwards its operands as (%s)" % ", ".join(show(a) for a in args)[:300]
    if not ret_ok:
        return "does not return the operation's result: %s" % show(tr.ret)[:200]
    return None


def ptype(b, i):
    return b["T"][b["locals"][i]]


def param_index(a):
    if a[0] == "param":
        return a[1]
    if a[0] == "mref" and a[1][0] == "P" and a[2] == ():
        return a[1][1]
    return None


def write_spec(w):
    I = make_interp(w)
    out = {"generic": {}, "impl": {}}
    for b in generic_checks(w):
        out["generic"]["generic " + owner_of(b)] = derive_spec(I, b)
    for b, t, m in checked_methods(w):
        if "erializ" in m:
            continue
        out["impl"][impl_key(w, b, m)] = derive_spec(I, b)
    json.dump(out, open(os.path.join(SPEC, "checks.json"), "w"), indent=0, sort_keys=True)
    return out
