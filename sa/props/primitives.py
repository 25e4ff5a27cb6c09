"""The building blocks (arithmetic, random generators, decompositions, parameters) and the noise estimators: their
formulas against the reference."""
import re, sys
from ..core import is_test_body
from ..facts import tstr
from ..interp import TooManyTraces
from ..machine import make_interp, STOP
from .. import formulas as F
from . import formulas as P

BLOCKS = re.compile(r"^concrete_core::(<.*)?(commons::|specification::(dispersion|parameters|entities::markers|key_kinds))")
NPE = re.compile(r"^concrete_npe::")
SKIP = re.compile(r"\{closure|::promoted|::(name|t)$|serde::|::_::|std::fmt::|::fmt$|fill_with_karatsuba_mul$|std::cmp::|std::clone::|std::hash::|std::marker::|std::default::")
STOPP = re.compile(STOP.pattern + r"|::(induction_karatsuba|polynomial_karatsuba\w*)$")


class Ops:
    def __init__(self, c, sel, stop=STOP):
        self.c = c
        sys.setrecursionlimit(100000)
        self.I = make_interp(c.w, stop)
        self.ops, self.failed = [], []
        for bid, b in sorted(c.w.bodies.items()):
            if is_test_body(b) or not sel.search(bid) or SKIP.search(bid) or "ins" not in b:
                continue
            raw = [P.shorten(tstr(b["T"][i])) for i in b["ins"]]
            name = re.sub(r"concrete_(core|npe)::|commons::(math|crypto)::|specification::|std::", "", bid)
            self.ops.append(dict(eng=b["crate"], name=name, raw=raw, b=b, sig="%s(%s)" % (name, ", ".join(raw))))

    def summary(self, o):
        if "lines" not in o:
            try:
                o["lines"] = [P.norm_line(l) for l in F.lines(F.summary(self.c.w, self.I, o["b"]))]
            except TooManyTraces:
                o["lines"] = None
                self.failed.append(o["sig"])
        return o["lines"]


_ops = {}


def ops(c, name):
    k = (id(c.w), name)
    if k not in _ops:
        _ops[k] = Ops(c, BLOCKS, STOPP) if name == "blocks" else Ops(c, NPE)
    return _ops[k]


def c19(c):
    P.judge(c, lambda o, ref: True, lambda l: True, "building block", "block", 900, O=ops(c, "blocks"), T=P.Table("blocks"))


def c20(c):
    P.judge(c, lambda o, ref: True, lambda l: True, "estimate", "estimate", 40, O=ops(c, "npe"), T=P.Table("npe"))
