#!/usr/bin/env python3
"""check.py <property> [--thorough]: decides one property on /repo's current tree."""
import importlib, json, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import gc
gc.disable()
from sa import core
from sa.facts import AnalysisError, VERIF

def main():
    prop = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv else "quick"
    import sa.registry as reg
    modname, fn = reg.PROPS[prop]
    mod = importlib.import_module("sa.props." + modname)
    ctx = core.Ctx(prop, tier)
    try:
        getattr(mod, fn)(ctx)
    except AnalysisError as e:
        print("ANALYSIS-ERROR property=%s %s" % (prop, e))
        sys.exit(2)
    evdir = os.environ.get("SA_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    known = core.known_findings(prop)
    kk = {k["key"]: k for k in known}
    new = [v for v in ctx.violations if v["key"] not in kk]
    old = [v for v in ctx.violations if v["key"] in kk]
    for v in old:
        print("KNOWN-FINDING: property=%s %s" % (prop, kk[v["key"]]["what"]))
    cov = {"explanation": reg.EXPLAIN[prop], "obligations": ctx.obligations, "discharged": ctx.discharged,
           "checker_cmd": "python3 /verif/check.py " + prop + (" --thorough" if tier == "thorough" else ""),
           "trusted_base": ["rustc nightly front end and MIR construction", "/verif/driver (MIR to facts)", "/verif/sa (rules)"],
           "facts": dict(bodies=len(ctx._w.bodies), impls=len(ctx._w.impls), crates=sorted(ctx._w.crates)) if ctx._w else {},
           "analysed": ctx.stats, "samples": ctx.samples or ["no obligation arose"]}
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": reg.LEVEL,
          "coverage": cov, "wall_s": round(time.time() - ctx.t0, 3),
          "violations": len(new)}
    if ctx.violations:
        cov["violating_constructs"] = [{k: (v if isinstance(v, (str, int)) else str(v)) for k, v in x.items()} for x in ctx.violations]
    if ctx.meta:
        cov["facts"].update(tree=ctx.meta["tree"], source_files=ctx.meta["source_files"])
    json.dump(ev, open(os.path.join(evdir, prop + ".json"), "w"), indent=1, default=str)
    for v in new:
        print("  %s: %s  [%s:%s %s]" % (v["key"], v["message"], v.get("file", ""), v.get("line", ""), v.get("function", "")))
    if new:
        rp = os.path.join(evdir, prop + ".replay.json")
        json.dump({"property": prop, "rerun": cov["checker_cmd"], "violations": new}, open(rp, "w"), indent=1, default=str)
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        sys.exit(1)
    print("OK property=%s obligations=%d discharged=%d known=%d %.1fs" % (prop, ctx.obligations, ctx.discharged, len(old), time.time() - ctx.t0))

main()
