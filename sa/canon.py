"""Canonical text for terms: commutative/associative arithmetic as polynomials, accessors by method
name, booleans as formulas over atoms."""
import itertools, re
from .interp import agg_get

def method(fn):
    return re.sub(r"<.*$", "", fn.rsplit("::", 1)[-1])

class Canon:
    def __init__(self, names=None, strip_mod=True):
        self.names = names or {}

    # polynomials: dict {tuple(sorted factor strings): int}
    def poly(self, t):
        k = t[0]
        if k == "int":
            return {(): t[1]} if t[1] else {}
        if k == "flt" and t[1].endswith(".0"):
            return {(): int(t[1][:-2])} if t[1] not in ("0.0", "-0.0") else {}
        if k == "bin" and t[1] in ("Add", "Sub", "Mul"):
            a, b = self.poly(t[2]), self.poly(t[3])
            r = {}
            if t[1] == "Mul":
                for (x, c), (y, d) in itertools.product(a.items(), b.items()):
                    m = tuple(sorted(x + y))
                    r[m] = r.get(m, 0) + c * d
            else:
                r = dict(a)
                s = 1 if t[1] == "Add" else -1
                for y, d in b.items():
                    r[y] = r.get(y, 0) + s * d
            return {m: c for m, c in r.items() if c}
        return {(self.atom(t),): 1}

    def num(self, t):
        p = self.poly(t)
        if not p:
            return "0"
        out = []
        for m in sorted(p):
            c = p[m]
            if not m:
                out.append(str(c))
            else:
                out.append(("" if c == 1 else "-" if c == -1 else "%d*" % c) + "*".join(m))
        return " + ".join(out) if len(out) == 1 else "(" + " + ".join(out) + ")"

    def atom(self, t):
        k = t[0]
        if k == "param":
            return self.names.get(t[1], t[2])
        if k == "mod":
            return self.atom(t[3])
        if k == "sref":
            return self.atom(t[1])
        if k == "mref":
            r = t[1]
            b = self.names.get(r[1], "P%d" % r[1]) if r[0] == "P" else (self.atom(r[1]) if r[0] == "T" else "local")
            return b + "".join("." + (p if isinstance(p, str) else str(p[0])) for p in t[2])
        if k in ("call", "der"):
            m = method(t[1])
            return "%s(%s)" % (m, ", ".join(self.num(a) for a in t[3]))
        if k == "res":
            return "%s#(%s)" % (method(t[2]), ", ".join(self.num(a) for a in t[4]))
        if k == "field":
            return "%s.%s" % (self.num(t[1]), t[2])
        if k == "as":
            return self.num(t[1])
        if k == "index":
            return "%s[%s]" % (self.num(t[1]), self.num(t[2]))
        if k == "elem":
            return "elem(%s)" % self.num(t[1])
        if k == "idx":
            return "idx" + ("(%s..%s)" % (self.num(t[1]), self.num(t[2])) if len(t) > 3 else "")
        if k == "it":
            return "%s(%s)" % (t[1], ", ".join(self.num(x) for x in t[2]))
        if k == "cast":
            return "as_%s(%s)" % (t[1], self.num(t[2])) if len(t) > 3 else self.num(t[2])
        if k == "bin":
            return "%s(%s, %s)" % (t[1].lower(), self.num(t[2]), self.num(t[3]))
        if k == "un":
            return "%s(%s)" % (t[1].lower(), self.num(t[2]))
        if k == "agg":
            n = t[1].rsplit("::", 1)[-1]
            return n + ("::" + t[2] if t[2] else "") + "{" + ", ".join("%s: %s" % (a, self.num(b)) for a, b in t[3]) + "}"
        if k == "discr":
            return "variant(%s)" % self.num(t[1])
        if k == "quant":
            return "%s(%s: %s)" % (t[1], self.num(t[2]), self.formula_str(t[3]))
        if k in ("def", "static"):
            return str(t[1]).rsplit("::", 1)[-1]
        if k == "flt":
            return t[1]
        if k == "str":
            return repr(t[1])
        if k == "unit":
            return "()"
        if k == "fn":
            return method(t[1])
        return "(" + " ".join(self.num(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else str(x) for x in t) + ")"

    def formula_str(self, t):
        return str(self.formula(t))

    # ---- boolean formulas: ("lit", atom) ("not", f) ("or", f, g) ("and", f, g)
    def formula(self, t):
        k = t[0]
        if k == "int":
            return ("true",) if t[1] else ("false",)
        if k == "un" and t[1] == "Not":
            return ("not", self.formula(t[2]))
        if k == "bin" and t[1] in ("BitOr", "BitAnd", "BitXor"):
            a, b = self.formula(t[2]), self.formula(t[3])
            if t[1] == "BitXor":
                return ("or", ("and", a, ("not", b)), ("and", ("not", a), b))
            return ("or" if t[1] == "BitOr" else "and", a, b)
        if k == "bin" and t[1] == "Eq":
            a, b = t[2], t[3]
            for x, y in ((a, b), (b, a)):
                if y == ("int", 0) and x[0] == "bin" and x[1] in ("Eq", "Lt"):
                    return ("not", self.formula(x))
            pa, pb = self.poly(a), self.poly(b)
            d = dict(pa)
            for m, c in pb.items():
                d[m] = d.get(m, 0) - c
            d = {m: c for m, c in d.items() if c}
            if not d:
                return ("true",)
            # cancel common terms; keep a canonical sign
            pos = {m: c for m, c in d.items() if c > 0}
            neg = {m: -c for m, c in d.items() if c < 0}
            s = sorted([self._p(pos), self._p(neg)])
            return ("lit", "%s == %s" % (s[0], s[1]))
        if k == "bin" and t[1] == "Lt":
            # integers: a < b  <=>  b - a - 1 >= 0; one literal per pair {p >= 0, -p-1 >= 0}
            pa, pb = self.poly(t[2]), self.poly(t[3])
            d = dict(pb)
            for m, c in pa.items():
                d[m] = d.get(m, 0) - c
            d[()] = d.get((), 0) - 1
            d = {m: c for m, c in d.items() if c}
            lead = sorted(m for m in d if m)
            if not lead:
                return ("true",) if d.get((), 0) >= 0 else ("false",)
            if d[lead[0]] < 0:
                d = {m: -c for m, c in d.items()}
                d[()] = d.get((), 0) - 1
                return ("not", ("lit", "%s >= 0" % self._p({m: c for m, c in d.items() if c})))
            return ("lit", "%s >= 0" % self._p(d))
        if k == "cases":
            f = ("false",)
            for conds, r in t[1]:
                g = self.formula(r)
                for c, v in conds:
                    g = ("and", g, self.literal(c, v))
                f = ("or", f, g)
            return f
        if k == "call" and method(t[1]) == "is_empty":
            return ("lit", "0 == len(%s)" % ", ".join(self.num(a) for a in t[3]))
        return ("lit", self.atom(t))

    def _p(self, p):
        if not p:
            return "0"
        out = []
        for m in sorted(p):
            c = p[m]
            out.append(str(c) if not m else ("" if c == 1 else "%d*" % c) + "*".join(m))
        return out[0] if len(out) == 1 else "(" + " + ".join(out) + ")"

    def literal(self, c, v):
        """formula for path condition (term, value)"""
        if v in (0, 1) and c[0] not in ("discr",):
            f = self.formula(c)
            return f if v else ("not", f)
        if isinstance(v, tuple):
            f = ("true",)
            for x in v[1:]:
                f = ("and", f, ("not", ("lit", "%s == %s" % (self.atom(c), x))))
            return f
        return ("lit", "%s == %s" % (self.atom(c), v))


def atoms(f, out):
    if f[0] == "lit":
        out.add(f[1])
    else:
        for x in f[1:]:
            atoms(x, out)
    return out


def ev(f, env):
    """Kleene evaluation"""
    k = f[0]
    if k == "true":
        return True
    if k == "false":
        return False
    if k == "lit":
        return env.get(f[1])
    if k == "not":
        v = ev(f[1], env)
        return None if v is None else not v
    a, b = ev(f[1], env), ev(f[2], env)
    if k == "or":
        if a is True or b is True:
            return True
        return False if a is False and b is False else None
    if a is False or b is False:
        return False
    return True if a is True and b is True else None


def expand(fs):
    """all assignments of the atoms of the path's composite literals consistent with the path"""
    env = {}
    rest = []
    for f in fs:
        neg = False
        g = f
        while g[0] == "not":
            g, neg = g[1], not neg
        if g[0] == "lit":
            if env.get(g[1], not neg) != (not neg):
                return []
            env[g[1]] = not neg
        else:
            rest.append(f)
    envs = [env]
    for f in rest:
        new = []
        for e in envs:
            un = sorted(a for a in atoms(f, set()) if a not in e)[:10]
            for bits in itertools.product([True, False], repeat=len(un)):
                e2 = dict(e)
                e2.update(zip(un, bits))
                if ev(f, e2) is True:
                    new.append(e2)
        envs = new
    return envs


def fstr(f):
    k = f[0]
    if k == "lit":
        return f[1]
    if k == "not":
        if f[1][0] == "lit" and " == " in f[1][1]:
            return f[1][1].replace(" == ", " != ")
        return "!(" + fstr(f[1]) + ")"
    if k in ("or", "and"):
        return "(" + fstr(f[1]) + " %s " % k + fstr(f[2]) + ")"
    return k
