"""Writes the reference tables sa/spec/{formulas,fft,blocks,npe}.json from the current tree, for review: run only on a tree whose formulas were read and found right."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from sa.core import Ctx, SPEC
from sa.props import formulas as P
from sa.props import fft as X
from sa.props import primitives as B
c = Ctx("X")
for name, O in (("formulas", P.ops(c)), ("fft", X.ops(c)), ("blocks", B.ops(c, "blocks")), ("npe", B.ops(c, "npe"))):
    if sys.argv[1:] and name not in sys.argv[1:]:
        continue
    t = {}
    for o in O.ops:
        if O.summary(o) is not None:
            t.setdefault("%s|%s" % (o["eng"], o["sig"]), o["lines"])
    json.dump(t, open(os.path.join(SPEC, name + ".json"), "w"), indent=1, sort_keys=True)
    print(len(t), name)
