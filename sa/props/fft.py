"""What the layers of the FFT backend and its engines compute: their canonical formulas against the reference."""
import re, sys
from ..core import is_test_body
from ..facts import tstr
from ..interp import TooManyTraces
from .. import fft as X, formulas as F
from . import formulas as P

ENTRY = re.compile(r"backends::fft::.*(FftEngine|FftParallelEngine)>::(\w+_unchecked)$")
# the tree of multiplexers moves a pair of views along a loop; the iterator of digits is a chain of closures
OUT_OF_REACH = re.compile(r"cmux_tree_memory_optimized$|_scratch$|Fft::new$|::next_term$|_x86\w*$|FftView::<.*>::(serialize|deserialize)")


class Ops:
    def __init__(self, c):
        self.c = c
        sys.setrecursionlimit(100000)
        self.I = X.fft_interp(c.w)
        self.ops, self.failed = [], []
        for bid, b in sorted(c.w.bodies.items()):
            if is_test_body(b) or b["crate"] != "concrete_core" or "{closure" in bid:
                continue
            m = ENTRY.search(bid)
            if not m and (not X.LAYER.search(bid) or OUT_OF_REACH.search(bid) or "FftEngine" in bid):
                continue
            raw = [P.shorten(tstr(b["T"][i])) for i in b["ins"]]
            if m:
                eng, name, ins = m.group(1), m.group(2), raw[1:]
            else:
                eng, name, ins = "fft", re.sub(r"::<[^>]*(<[^>]*>)*[^>]*>", "", bid.split("private::")[1]), raw
            self.ops.append(dict(eng=eng, name=name, raw=raw, b=b, sig="%s(%s)" % (name.replace("_unchecked", ""), ", ".join(map(P.norm_type, ins)))))

    def summary(self, o):
        if "lines" not in o:
            try:
                o["lines"] = [P.norm_line(l) for l in F.lines(X.summary(self.c.w, self.I, o["b"]))]
            except TooManyTraces:
                o["lines"] = None
                self.failed.append(o["sig"])
        return o["lines"]


_ops = {}


def ops(c):
    k = id(c.w)
    if k not in _ops:
        _ops[k] = Ops(c)
    return _ops[k]


def c18(c):
    P.judge(c, lambda o, ref: True, lambda l: not l.startswith("len(") and "_mm" not in l, "sequence", "sequence", 35, O=ops(c), T=P.Table("fft"))
