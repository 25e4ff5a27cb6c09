"""C12, C13: the counter-mode generators of concrete-csprng.

C12 reads a table index (aes index A, byte index b) as the position v = 16*A + b in the key stream
and follows positions through the generators: every index operation moves v by what it is named
for, `next` moves by one and outputs the byte at the new position, forking cuts [v+1, v+1+n*m) into
consecutive pieces and moves the parent past them, refused forks change nothing.
C13 compares the block ciphers: which counter each output block encrypts, under which key.
"""
import itertools, re
from ..core import *
from ..interp import BITS, Interp, TooManyTraces, show, show_eff, agg_get, mk_field, get_path, mk_as
from ..canon import Canon, method
from ..facts import subst, tstr

CS = "concrete_csprng"
GEN = CS + "::generators::aes_ctr::generic::AesCtrGenerator"
IDX = CS + "::generators::aes_ctr::index::TableIndex"
STATE = CS + "::generators::aes_ctr::states::State"
SHIFTS = {"increased": (1, True), "decreased": (-1, True), "incremented": (1, False), "decremented": (-1, False)}


def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + s * c
    return {m: c for m, c in r.items() if c}


def pmul(a, b):
    r = {}
    for (x, c), (y, d) in itertools.product(a.items(), b.items()):
        m = tuple(sorted(x + y))
        r[m] = r.get(m, 0) + c * d
    return {m: c for m, c in r.items() if c}


def pint(n):
    return {(): n} if n else {}


def sign(p):
    """sign of a polynomial over non-negative atoms, None when it depends on them"""
    if not p:
        return 0
    if all(c > 0 for c in p.values()):
        return 1 if p.get((), 0) > 0 else None
    if all(c < 0 for c in p.values()):
        return -1 if p.get((), 0) < 0 else None
    return None


def nonneg(p):
    return all(c >= 0 for c in p.values())


def nonpos(p):
    return all(c <= 0 for c in p.values())


class Pos:
    """positions and integers as polynomials; env assigns polynomials to atoms (case splits)"""

    def __init__(self, env=None):
        self.env = env or {}
        self.C = Canon()

    def atom(self, t):
        s = self.C.atom(t)
        if s in self.env:
            return self.env[s]
        return {(s,): 1}

    def num(self, t):
        k = t[0]
        if k == "int":
            return pint(t[1])
        if k == "cast":
            return self.atom(t) if len(t) > 3 and BITS.get(t[1], 64) < 64 else self.num(t[2])
        if k == "field":
            # (value, overflow flag) pair of a checked operation in a constant
            if t[2] == "0" and t[1][0] in ("int", "bin"):
                return self.num(t[1])
            # byte index of a moved position
            if t[2] == "0" and t[1][0] == "field" and t[1][2] == "byte_index" and self.moved(t[1][1]):
                return padd(self.pos(t[1][1]), pmul(pint(16), self.num(("field", ("field", t[1][1], "aes_index"), "0"))), -1)
            return self.atom(t)
        if k == "upd":
            if t[2] == ("0",):
                return self.num(t[3])
            return self.atom(t)
        if k == "agg" and len(t[3]) == 1:
            return self.num(t[3][0][1])
        if k == "as" and t[1][0] == "call":
            return self.atom(t)
        if k == "call":
            m = method(t[1])
            if m in ("saturating_add", "checked_add", "wrapping_add"):
                return padd(self.num(t[3][0]), self.num(t[3][1]))
            if m in ("saturating_sub", "checked_sub", "wrapping_sub"):
                return padd(self.num(t[3][0]), self.num(t[3][1]), -1)
            if m in ("saturating_mul", "checked_mul", "wrapping_mul"):
                return pmul(self.num(t[3][0]), self.num(t[3][1]))
            if m in ("from", "into") and len(t[3]) == 1:
                return self.num(t[3][0])
        if k == "bin":
            op = t[1]
            if op in ("Add", "AddUnchecked", "AddWithOverflow"):
                return padd(self.num(t[2]), self.num(t[3]))
            if op in ("Sub", "SubUnchecked", "SubWithOverflow"):
                return padd(self.num(t[2]), self.num(t[3]), -1)
            if op in ("Mul", "MulUnchecked", "MulWithOverflow"):
                return pmul(self.num(t[2]), self.num(t[3]))
            if op in ("Div", "Rem", "BitAnd", "Shr", "Shl"):
                x, y = self.num(t[2]), self.num(t[3])
                if all(not m for m in y):
                    c = y.get((), 0)
                    if op == "Shl":
                        return pmul(x, pint(1 << c))
                    if op == "BitAnd":
                        if c & (c + 1):
                            return self.atom(t)
                        op, c = "Rem", c + 1
                    if op == "Shr":
                        op, c = "Div", 1 << c
                    if c > 0:
                        # split off what c divides: valid for the non-negative x the code divides
                        q, r = {}, {}
                        for m, k2 in x.items():
                            if k2 >= 0 or k2 % c == 0:
                                if k2 // c:
                                    q[m] = k2 // c
                                if k2 % c:
                                    r[m] = k2 % c
                            else:
                                r[m] = k2
                        if all(not m for m in r):
                            d = r.get((), 0)
                            d = padd(q, pint(d // c))
                        else:
                            d = padd(q, {("(%s)/%d" % (self.text(r), c),): 1})
                        return d if op == "Div" else padd(x, pmul(pint(c), d), -1)
        return self.atom(t)

    def text(self, p):
        return " + ".join("%d%s" % (p[m], "".join("*" + f for f in m)) for m in sorted(p)) or "0"

    def moved(self, t):
        return t[0] in ("call", "der") and method(t[1]) in SHIFTS and t[1].startswith(IDX)

    def pos(self, t):
        if self.moved(t):
            s, by = SHIFTS[method(t[1])]
            d = self.num(t[3][1]) if by else pint(1)
            return padd(self.pos(t[3][0]), d, s)
        if t[0] == "sref":
            return self.pos(t[1])
        a = mk_field(mk_field(t, "aes_index"), "0")
        b = mk_field(mk_field(t, "byte_index"), "0")
        return padd(pmul(pint(16), self.num(a)), self.num(b))

    def byte(self, t):
        return self.num(mk_field(mk_field(t, "byte_index"), "0"))

    def aes(self, t):
        return self.num(mk_field(mk_field(t, "aes_index"), "0"))


def is_index(t):
    """does a compared term denote a table index (rather than an integer)?"""
    if t[0] == "agg":
        return t[1] == IDX
    if t[0] in ("call", "der"):
        return (t[1].startswith(IDX) and (method(t[1]) in SHIFTS or method(t[1]) == "new")) or method(t[1]) in ("table_index", "get_bound")
    if t[0] in ("sref",):
        return is_index(t[1])
    if t[0] == "upd":
        return isinstance(t[2][0], str) and t[2][0] in ("aes_index", "byte_index")
    if t[0] == "field":
        return t[2] in ("table_index", "last") or (t[2] in ("0", "1") and t[1][0] in ("param", "field", "as") and any(x in str(t[1]) for x in ("start_index", "bound_index", "_2")))
    if t[0] == "param":
        return t[2] in ("start_index", "bound_index", "table_index", "larger", "smaller", "other", "self")
    return False


ORD = {"Less": -1, "Equal": 0, "Greater": 1}
ORDV = {255: -1, -1: -1, 0: 0, 1: 1}


class Case:
    """truth of path conditions under a case split"""

    def __init__(self, env=None, index=None):
        self.p = Pos(env)
        self.index = index or is_index

    def diff(self, a, b):
        if self.index(a) or self.index(b):
            return padd(self.p.pos(a), self.p.pos(b), -1)
        return padd(self.p.num(a), self.p.num(b), -1)

    def cmp(self, a, b):
        return sign(self.diff(a, b))

    def order(self, t):
        """ordering denoted by a term: -1, 0, 1 or None"""
        if t[0] == "agg" and t[1].endswith("Ordering"):
            return ORD[t[2]]
        if t[0] == "agg" and t[1].endswith("Option") and t[2] == "Some":
            return self.order(t[3][0][1])
        if t[0] in ("field", "as"):
            return self.order(t[1])
        if t[0] == "call":
            m = method(t[1])
            if m in ("cmp", "partial_cmp"):
                return self.cmp(t[3][0], t[3][1])
            if m in ("then",):
                a = self.order(t[3][0])
                return self.order(t[3][1]) if a == 0 else a
            if m == "reverse":
                a = self.order(t[3][0])
                return None if a is None else -a
        return None

    def truth(self, t):
        if t[0] == "int":
            return bool(t[1])
        if t[0] == "un" and t[1] == "Not":
            v = self.truth(t[2])
            return None if v is None else not v
        if t[0] == "bin" and t[1] in ("BitAnd", "BitOr"):
            a, b = self.truth(t[2]), self.truth(t[3])
            if t[1] == "BitAnd":
                return False if a is False or b is False else (True if a and b else None)
            return True if a or b else (False if a is False and b is False else None)
        if t[0] == "bin" and t[1] in ("Eq", "Ne"):
            a, b = t[2], t[3]
            oa, ob = self.order(a), self.order(b)
            if oa is not None and ob is not None:
                r = oa == ob
            else:
                for x, y in ((a, b), (b, a)):
                    if y in (("int", 0), ("int", 1)) and (x[0] == "bin" and x[1] in ("Lt", "Eq", "Le", "Gt", "Ge", "Ne")):
                        v = self.truth(x)
                        r = None if v is None else v == bool(y[1])
                        break
                else:
                    d = self.diff(a, b)
                    s = sign(d)
                    r = True if s == 0 else (False if s is not None else None)
            return r if r is None or t[1] == "Eq" else not r
        if t[0] == "bin" and t[1] in ("Lt", "Le", "Gt", "Ge"):
            a, b = (t[2], t[3]) if t[1] in ("Lt", "Ge") else (t[3], t[2])
            d = self.diff(b, a)          # a < b  <=>  d > 0
            neg = t[1] in ("Ge", "Le")
            dm = padd(d, pint(1), -1)    # d - 1 >= 0 ?
            r = True if nonneg(dm) else (False if nonpos(d) else None)
            return r if r is None or not neg else not r
        return None

    def lit(self, c, v):
        """truth of path literal (term == v)"""
        if c[0] == "discr":
            o = self.order(c[1])
            if o is None:
                return None
            if isinstance(v, tuple):
                return all(ORDV.get(x) != o for x in v[1:])
            return ORDV.get(v) == o
        if c[0] == "call" and method(c[1]) in ("cmp", "partial_cmp"):
            o = self.order(c)
            if o is None:
                return None
            return (ORDV.get(v) == o) if not isinstance(v, tuple) else all(ORDV.get(x) != o for x in v[1:])
        t = self.truth(c)
        if t is None:
            return None
        if isinstance(v, tuple):
            return all(bool(x) != t for x in v[1:])
        return t == bool(v)

    def live(self, tr):
        return all(self.lit(c[0], c[1]) is not False for c in tr.conds)


class Csprng:
    def __init__(self, w, ctx):
        self.w, self.ctx = w, ctx
        self.opq = set()

        def inl(fn, st):
            return fn.startswith(CS) and fn not in self.opq
        self.I = self.I0 = Interp(w, inline=inl, models={"-": None})
        # composite operations see the (separately judged) index operations as what they are named for
        self.I1 = Interp(w, inline=inl, models={IDX + "::" + a: self.moving(b) for a, b in
                                                (("increase", "increased"), ("decrease", "decreased"), ("increment", "incremented"), ("decrement", "decremented"))})

    def moving(self, name):
        def m(I, st, f, fn, targs, args, dest, target, line):
            r = args[0]
            if r[0] != "mref":
                return False
            old = get_path(I.load_root(st, r[1]), r[2])
            I.store_at(st, r[1], r[2], ("call", IDX + "::" + name, (), (old,) + tuple(args[1:])), line)
            I.write(st, f, dest, ("unit",))
            return True
        return m

    def body(self, bid):
        return self.w.bodies.get(bid)

    def traces(self, b, args=None, opaque=(), composite=False):
        self.opq = set(opaque)
        self.I = self.I1 if opaque or composite else self.I0
        try:
            return self.I.run(b, args)
        except TooManyTraces:
            self.ctx.bad("paths:" + b["id"], "too many paths", b)
            return []
        finally:
            self.opq = set()

    # ------------------------------------------------------------- index arithmetic
    def residues(self, self_txt, shift_txt):
        """all residues of byte index and shift modulo 16, with and without a multiple of 16"""
        for b in range(16):
            for r in (range(16) if shift_txt else [None]):
                for q in ((0, 1) if shift_txt else [0]):
                    env = {"%s.byte_index.0" % self_txt: pint(b)}
                    if shift_txt:
                        env[shift_txt] = padd({("Q",): 16} if q else {}, pint(r + 16 * q))
                    yield b, (r, q), env

    def index_ops(self):
        n = 0
        for m, by, s, owned in (("increase", True, 1, False), ("increment", False, 1, False), ("increased", True, 1, True), ("incremented", False, 1, True),
                                ("decrease", True, -1, False), ("decrement", False, -1, False), ("decreased", True, -1, True), ("decremented", False, -1, True)):
            b = self.body(IDX + "::" + m)
            if b is None:
                continue
            n += 1
            trs = self.traces(b)
            for byte, (r, q), env in self.residues("self", "shift" if by else None):
                C = Case(env)
                live = [t for t in trs if C.live(t)]
                self.ctx.check(bool(live), "index:%s:none" % m, "no path of %s is taken for byte index %d" % (m, byte), b)
                for t in live:
                    if t.status != "return":
                        self.ctx.bad("index:%s:panic" % m, "%s panics for byte index %d, shift residue %s" % (m, byte, r), b)
                        continue
                    res = t.ret if owned else t.store.get(("P", 1))
                    d = padd({("self.aes_index.0",): 16}, pint(byte))
                    d = padd(d, env["shift"] if by else pint(1), s)
                    got = C.p.pos(res)
                    bb = C.p.byte(res)
                    self.ctx.check(got == d, "index:%s:move" % m,
                                   "%s moves byte index %d by shift residue %s to position %s, expected %s" % (m, byte, r, C.p.text(got), C.p.text(d)), b)
                    self.ctx.check(all(not x for x in bb) and 0 <= bb.get((), 0) < 16, "index:%s:range" % m,
                                   "%s leaves the byte index %s outside 0..16" % (m, C.p.text(bb)), b)
        self.ctx.floor("index operations", n, 6)

    def order_cases(self, x, y):
        """all order types of two table indices"""
        for bx in range(16):
            for by in range(16):
                for da in (-1, 0, 1):
                    env = {"%s.byte_index.0" % x: pint(bx), "%s.byte_index.0" % y: pint(by)}
                    base = {("A",): 1}
                    hi = padd(base, {(): 1, ("D",): 1})
                    env["%s.aes_index.0" % x] = hi if da > 0 else base
                    env["%s.aes_index.0" % y] = hi if da < 0 else base
                    o = da or (bx > by) - (bx < by)
                    yield o, env

    def ordering(self):
        n = 0
        fields = lambda t: False     # integers below, the index order itself is what is judged
        for b in list(self.w.bodies.values()):
            if not b["id"].startswith(CS + "::<generators::aes_ctr::index::TableIndex as std::cmp::"):
                continue
            m = method(b["id"])
            if m not in ("cmp", "partial_cmp", "eq", "ne", "lt", "le", "gt", "ge"):
                continue
            n += 1
            trs = self.I.run(b)
            for o, env in self.order_cases("self", "other"):
                C = Case(env, fields)
                for t in trs:
                    if not C.live(t):
                        continue
                    if t.status != "return":
                        # an unwrap of a comparison that is always Some
                        self.ctx.bad("order:%s:panic" % m, "%s can panic" % m, b)
                        continue
                    if m in ("cmp", "partial_cmp"):
                        g = C.order(t.ret)
                        e = o
                    else:
                        g = C.truth(t.ret)
                        e = {"eq": o == 0, "ne": o != 0, "lt": o < 0, "le": o <= 0, "gt": o > 0, "ge": o >= 0}[m]
                    self.ctx.check(g == e, "order:%s" % m, "%s of table indices is not the order of their positions" % m, b)
        self.ctx.floor("comparison methods of table indices", n, 3)
        b = self.body(IDX + "::distance")
        if b is None:
            self.ctx.bad("order:distance:missing", "TableIndex::distance not found")
            return
        trs = self.traces(b)
        for t in trs:
            for e in self.subterms(t.ret):
                if e[0] == "bin" and e[1] == "Mul" or (e[0] == "call" and method(e[1]).startswith("wrapping")):
                    self.ctx.bad("order:distance:overflow", "distance multiplies without saturating: it wraps for far apart indices", b)
        for o, env in self.order_cases("larger", "smaller"):
            C = Case(env, fields)
            for t in trs:
                if not C.live(t) or t.status != "return":
                    continue
                if o < 0:
                    self.ctx.check(t.ret[0] == "agg" and t.ret[2] == "None", "order:distance:none", "distance to a larger index is not None", b)
                else:
                    if not (t.ret[0] == "agg" and t.ret[2] == "Some"):
                        self.ctx.bad("order:distance:some", "distance is None although the first index is not smaller", b)
                        continue
                    e = padd(C.p.pos(("param", 1, "larger")), C.p.pos(("param", 2, "smaller")), -1)
                    g = C.p.num(t.ret[3][0][1])
                    self.ctx.check(g == e, "order:distance:value", "distance is %s, expected the difference of positions %s" % (C.p.text(g), C.p.text(e)), b)

    def subterms(self, t):
        st, seen = [t], set()
        while st:
            x = st.pop()
            if isinstance(x, tuple) and id(x) not in seen:
                seen.add(id(x))
                if x and isinstance(x[0], str):
                    yield x
                st.extend(y for y in x if isinstance(y, tuple))

    # ------------------------------------------------------------- states and generators
    def batch_len(self):
        for b in self.w.bodies.values():
            if b["id"].startswith(CS) and b["id"].endswith("AesBlockCipher>::generate_batch"):
                t = b["T"][b["locals"][0]]
                m = re.search(r"; *(\d+)", tstr(t))
                if m:
                    return int(m.group(1))
        return None

    KEEP = [IDX + "::" + m for m in list(SHIFTS) + ["distance"]]

    def gen_term(self, t):
        """(pos of state, pos of last, pointer, buffer, cipher) of a generator term"""
        P = Pos()
        st = mk_field(t, "state")
        return dict(at=P.pos(mk_field(st, "table_index")), ptr=P.num(mk_field(mk_field(st, "buffer_pointer"), "0")),
                    last=P.pos(mk_field(t, "last")), buf=mk_field(t, "buffer"), cipher=mk_field(t, "block_cipher"))

    def is_gen(self, t):
        return t[0] == "agg" and t[1] == GEN

    def constructor(self):
        b = self.body(GEN + "::<BlockCipher>::from_block_cipher")
        if b is None:
            self.ctx.bad("gen:from_block_cipher", "from_block_cipher not found")
            return
        S, B = ("param", 2, "start_index"), ("param", 3, "bound_index")
        P = Pos()
        names = {i: n for n, pl in b["names"] for i in [pl[0]] if not pl[1] and 1 <= i <= b["argc"]}
        par = [("param", i, names.get(i, "_%d" % i)) for i in (1, 2, 3)]
        trs = self.traces(b, opaque=self.KEEP)
        oks = [t for t in trs if t.status == "return"]
        self.ctx.check(bool(oks), "gen:new:none", "from_block_cipher never returns", b)
        for t in oks:
            self.built(t.ret, P.pos(par[1]), P.pos(par[2]), par[0], "gen:from_block_cipher", b)
            self.ctx.check(self.has_lt(t, par[1], par[2]), "gen:from_block_cipher:range", "a generator can be built although its start is not below its bound", b)
        nb = self.body(GEN + "::<BlockCipher>::new")
        if nb:
            for t in self.traces(nb, opaque=self.KEEP):
                if t.status != "return":
                    continue
                g = self.gen_term(t.ret)
                ds = {show(c[0]): c[1] for c in t.conds if c[0][0] == "discr"}
                s = [v for k, v in ds.items() if "start_index" in k]
                e = [v for k, v in ds.items() if "bound_index" in k]
                es = P.pos(mk_field(mk_as(("param", 2, "start_index"), "Some"), "0")) if s and s[0] == 1 else pint(1)
                eb = P.pos(mk_field(mk_as(("param", 3, "bound_index"), "Some"), "0")) if e and e[0] == 1 else pint(16 * (2**128 - 1) + 15)
                self.ctx.check(g["at"] == padd(es, pint(1), -1) and g["last"] == padd(eb, pint(1), -1), "gen:new:range",
                               "a fresh generator covers [%s+1, %s], expected start %s and bound %s" % (P.text(g["at"]), P.text(g["last"]), P.text(es), P.text(eb)), nb)
                self.ctx.check(self.keyed(g["cipher"], "key"), "gen:new:key", "a fresh generator's cipher is not built from the key it was given", nb)

    def keyed(self, t, name):
        ok = False
        for e in self.subterms(t):
            if e[0] in ("call", "res") and method(e[1] if e[0] == "call" else e[2]) == "new" and "AesBlockCipher" in str(e[1] if e[0] == "call" else e[2]):
                a = e[-1]
                ok = ok or (len(a) == 1 and a[0] == ("param", 1, name)) or (len(a) == 1 and a[0][0] == "param")
        return ok

    def has_lt(self, t, a, b):
        """path implies position a < position b"""
        P = Pos()
        d = padd(P.pos(b), P.pos(a), -1)
        for c, v, *_ in t.conds:
            if c[0] == "bin" and c[1] == "Lt":
                e = padd(self.posnum(P, c[3]), self.posnum(P, c[2]), -1)
                if (v == 1 and e == d) or (v == 0 and padd({}, e, -1) == padd(d, pint(1), -1)):
                    return True
            if c[0] == "discr" and c[1][0] == "call" and method(c[1][1]) in ("cmp", "partial_cmp"):
                x, y = c[1][3]
                e = padd(self.posnum(P, y), self.posnum(P, x), -1)
                if (ORDV.get(v) == -1 and e == d) or (ORDV.get(v) == 1 and padd({}, e, -1) == d):
                    return True
        return False

    def posnum(self, P, t):
        return P.pos(t) if is_index(t) else P.num(t)

    def built(self, t, start, bound, cipher, key, b):
        P = Pos()
        g = self.gen_term(t)
        N = self.batch_len()
        self.ctx.check(padd(g["at"], pint(1)) == start, key + ":start", "a generator built for start %s would first output position %s" % (P.text(start), P.text(padd(g["at"], pint(1)))), b)
        self.ctx.check(padd(g["last"], pint(1)) == bound, key + ":bound", "a generator built for bound %s stops before %s" % (P.text(bound), P.text(padd(g["last"], pint(1)))), b)
        self.ctx.check(g["ptr"] == pint(N - 1), key + ":pointer", "a generator built without a batch starts with buffer pointer %s instead of the last position of the batch" % P.text(g["ptr"]), b)
        if cipher is not None:
            self.ctx.check(self.same_cipher(g["cipher"], cipher), key + ":cipher", "the built generator uses another cipher: %s" % show(g["cipher"])[:120], b)

    def same_cipher(self, a, c):
        while a[0] in ("call", "der") and method(a[1]) in ("clone", "new") and len(a[3]) == 1:
            a = a[3][0]
        a = a[1] if a[0] == "sref" else a
        return a == c or Canon().atom(a) == Canon().atom(c)

    def nexts(self):
        N = self.batch_len()
        P = Pos()
        n = 0
        for b, pre in self.methods("std::iter::Iterator>::next"):
            n += 1
            root = ("param", 1, "self")
            for p in pre:
                root = mk_field(root, p)
            ti, last = mk_field(mk_field(root, "state"), "table_index"), mk_field(root, "last")
            buf = mk_field(root, "buffer")
            p0 = P.num(mk_field(mk_field(mk_field(root, "state"), "buffer_pointer"), "0"))
            key = "next:" + b["id"]
            kinds = set()
            batch = [x["id"] for x in self.w.bodies.values() if x["id"].endswith("AesBlockCipher>::generate_batch")]
            for t in self.traces(b, opaque=batch + self.KEEP):
                new = t.store.get(("P", 1))
                for p in pre:
                    new = mk_field(new, p)
                if t.status != "return":
                    self.ctx.bad(key + ":panic", "next can panic", b)
                    continue
                if t.ret[0] == "agg" and t.ret[2] == "None":
                    kinds.add("none")
                    self.ctx.check(new == root, key + ":none-state", "next returns None but changes the generator", b)
                    self.ctx.check(self.has_ge(t, ti, last), key + ":none", "next can return None before the last position of its range", b)
                    continue
                kinds.add("some")
                g = self.gen_term(new)
                self.ctx.check(self.has_lt(t, ti, last), key + ":bound", "next can output a byte although the range is used up (no test that the index is below the last one)", b)
                self.ctx.check(g["at"] == padd(P.pos(ti), pint(1)), key + ":step", "next moves from %s to %s" % (P.text(P.pos(ti)), P.text(g["at"])), b)
                self.ctx.check(g["last"] == P.pos(last), key + ":last", "next changes the bound of the generator", b)
                out = t.ret[3][0][1] if t.ret[0] == "agg" and t.ret[3] else None
                src, ix = (out[1], out[2]) if out is not None and out[0] == "index" else (None, None)
                if src is None:
                    self.ctx.bad(key + ":byte", "next outputs %s, not a byte of its buffer" % (out and show(out)[:120]), b)
                    continue
                ixp = P.num(ix)
                if src == buf and g["buf"] == buf:
                    kinds.add("buffer")
                    okp = ixp == padd(p0, pint(1)) and g["ptr"] == ixp
                    self.ctx.check(okp, key + ":buffered", "a byte output from the current batch is at %s and leaves pointer %s, expected the position after %s" % (P.text(ixp), P.text(g["ptr"]), P.text(p0)), b)
                    inb = False
                    for c, v, *_ in t.conds:
                        if c[0] == "bin" and c[1] == "Lt":
                            e = padd(P.num(c[3]), P.num(c[2]), -1)     # > 0 if v
                            if v == 0:
                                e = padd({}, e, -1)                    # >= 0
                            else:
                                e = padd(e, pint(1), -1)               # >= 0
                            # N-1-(p0+1) >= 0 must follow
                            gap = padd(padd(pint(N - 2), p0, -1), e, -1)
                            inb = inb or (all(not m for m in gap) and gap.get((), 0) >= 0)
                        if c[0] == "bin" and c[1] == "Eq" and v == 0:
                            e = padd(P.num(c[3]), P.num(c[2]), -1)
                            tgt = padd(pint(N - 1), p0, -1)
                            inb = inb or e == tgt or padd({}, e, -1) == tgt
                    self.ctx.check(inb, key + ":buffer-range", "a byte can be output from beyond the current batch", b)
                else:
                    kinds.add("refresh")
                    fn = src[1] if src[0] in ("call", "der") else (src[2] if src[0] == "res" else "")
                    ok = method(fn) == "generate_batch"
                    self.ctx.check(ok and g["buf"] == src, key + ":refresh", "the byte of a new batch is not taken from the batch stored in the generator", b)
                    if ok:
                        a = src[-1][1]
                        base = pmul(pint(16), P.num(mk_field(a, "0")))
                        self.ctx.check(padd(base, ixp) == g["at"], key + ":refresh-byte",
                                       "a new batch at block %s outputs byte %s, which is not position %s" % (P.text(P.num(mk_field(a, "0"))), P.text(ixp), P.text(g["at"])), b)
                        self.ctx.check(g["ptr"] == ixp, key + ":refresh-pointer", "after a new batch the pointer is %s but byte %s was output" % (P.text(g["ptr"]), P.text(ixp)), b)
                        self.ctx.check(ixp == P.byte(mk_field(mk_field(new, "state"), "table_index")) or self.byte_sized(ixp), key + ":refresh-range", "the first byte taken from a new batch is not within its first block", b)
            self.ctx.check({"none", "some", "refresh"} <= kinds, key + ":kinds", "next lacks one of: refusing, refreshing", b)
        self.ctx.floor("generator next methods", n, 3)

    def byte_sized(self, p):
        """x - 16*(x/16): a remainder modulo 16"""
        q = {m: c for m, c in p.items() if c == -16 and len(m) == 1 and m[0].endswith("/16")}
        return len(q) == 1 or (all(not m for m in p) and p.get((), 0) < 16)

    def has_ge(self, t, a, b):
        P = Pos()
        d = padd(P.pos(a), P.pos(b), -1)
        for c, v, *_ in t.conds:
            if c[0] == "bin" and c[1] == "Lt":
                e = padd(self.posnum(P, c[2]), self.posnum(P, c[3]), -1)
                if (v == 0 and e == d) or (v == 1 and padd(padd({}, e, -1), pint(1), -1) == d):
                    return True
                if v == 1 and padd({}, e, -1) == d:
                    return True
            if c[0] == "discr" and c[1][0] == "call" and method(c[1][1]) in ("cmp", "partial_cmp"):
                x, y = c[1][3]
                e = padd(self.posnum(P, x), self.posnum(P, y), -1)
                vs = {ORDV.get(v)} if not isinstance(v, tuple) else {-1, 0, 1} - {ORDV.get(q) for q in v[1:]}
                if (e == d and vs <= {0, 1}) or (padd({}, e, -1) == d and vs <= {-1, 0}):
                    return True
        return False

    def methods(self, suffix):
        """(body, path to the AesCtrGenerator) of a method on the generator and its wrappers"""
        for b in self.w.bodies.values():
            if not b["id"].startswith(CS) or not b["id"].endswith(suffix) or is_test_body(b) or "{closure" in b["id"]:
                continue
            t = b["T"][b["locals"][1]] if b["argc"] else None
            if t is None:
                continue
            while t[0] in ("ref", "ptr"):
                t = t[2]
            if t[0] != "adt":
                continue
            if t[1] == GEN:
                yield b, ()
            else:
                a = self.w.adts.get(t[1])
                if a and len(a["variants"]) == 1:
                    for n, ty, *_ in a["variants"][0]["f"]:
                        if ty[0] == "adt" and ty[1] == GEN:
                            yield b, (n,)

    # ------------------------------------------------------------- forks
    def forks(self):
        P = Pos()
        N = self.batch_len()
        n = 0
        done = set()
        for suffix in ("::try_fork", "::par_try_fork"):
            for b, pre in self.methods(suffix):
                if b["id"] in done:
                    continue
                done.add(b["id"])
                n += 1
                self.fork(b, pre, P, N)
        self.ctx.floor("fork methods", n, 6)
        for b, pre in self.methods("::remaining_bytes"):
            root = self.root(pre)
            for t in self.traces(b, opaque=self.KEEP):
                if t.status == "return":
                    self.ctx.check(self.is_remaining(t.ret, root), "remaining:" + b["id"], "remaining_bytes is not the distance from the current index to the last one: %s" % show(t.ret)[:160], b)

    def root(self, pre):
        root = ("param", 1, "self")
        for p in pre:
            root = mk_field(root, p)
        return root

    def is_remaining(self, t, root):
        """exactly distance(last, state.table_index), unwrapped"""
        P = Pos()
        while True:
            if t[0] == "cast":
                t = t[2]
            elif t[0] in ("field", "as", "sref"):
                t = t[1]
            elif t[0] == "agg" and len(t[3]) == 1:
                t = t[3][0][1]
            elif t[0] in ("call", "der") and method(t[1]) in ("unwrap", "expect"):
                t = t[3][0]
            else:
                break
        if t[0] in ("call", "der") and method(t[1]) == "distance":
            a, c = t[3]
            a = a[1] if a[0] == "sref" else a
            c = c[1] if c[0] == "sref" else c
            return P.pos(a) == P.pos(mk_field(root, "last")) and P.pos(c) == P.pos(mk_field(mk_field(root, "state"), "table_index"))
        return False

    def fork(self, b, pre, P, N):
        key = "fork:" + b["id"]
        root = self.root(pre)
        nc, nb = ("field", ("param", 2, self.pname(b, 2)), "0"), ("field", ("param", 3, self.pname(b, 3)), "0")
        first = padd(P.pos(mk_field(mk_field(root, "state"), "table_index")), pint(1))
        prod = pmul(P.num(nc), P.num(nb))
        outcomes = set()
        for t in self.traces(b, opaque=self.KEEP):
            new = t.store.get(("P", 1))
            for p in pre:
                new = mk_field(new, p)
            zc, zb = self.tests_zero(t, nc), self.tests_zero(t, nb)
            fit, over = self.fits(t, prod, root)
            if t.status != "return":
                # only unwinding from the constructor's own assertions, after the tests passed
                self.ctx.check(zc is False and zb is False, key + ":panic", "a fork can panic before its arguments were tested", b)
                continue
            r = t.ret
            if r[0] != "agg" or r[2] not in ("Ok", "Err"):
                self.ctx.bad(key + ":result", "unrecognised result %s" % show(r)[:120], b)
                continue
            if r[2] == "Err":
                e = r[3][0][1]
                kind = e[2] if e[0] == "agg" else "?"
                outcomes.add(kind)
                self.ctx.check(new == root, key + ":err-state", "a refused fork changes the generator", b)
                want = {"ZeroChildrenCount": zc is True, "ZeroBytesPerChild": zb is True, "ForkTooLarge": fit is False or over}.get(kind)
                self.ctx.check(bool(want), key + ":err:" + kind, "a fork is refused with %s although that is not what was found" % kind, b)
                continue
            outcomes.add("Ok")
            self.ctx.check(zc is False and zb is False and fit is True, key + ":guard",
                           "a fork succeeds without the tests that the counts are not zero and that the whole product fits what remains", b)
            g = self.gen_term(new)
            self.ctx.check(padd(g["at"], pint(1)) == padd(first, prod), key + ":parent", "after a fork the parent continues at %s, expected %s" % (P.text(padd(g["at"], pint(1))), P.text(padd(first, prod))), b)
            self.ctx.check(g["last"] == P.pos(mk_field(root, "last")), key + ":last", "a fork changes the bound of the parent", b)
            self.ctx.check(g["ptr"] == pint(N - 1), key + ":pointer", "after a fork the parent would keep reading its old batch (pointer %s)" % P.text(g["ptr"]), b)
            self.children(r[3][0][1], b, key, root, first, nc, nb, P, pre)
        self.ctx.check({"Ok", "ZeroChildrenCount", "ZeroBytesPerChild", "ForkTooLarge"} <= outcomes, key + ":outcomes", "a fork never yields %s" % ({"Ok", "ZeroChildrenCount", "ZeroBytesPerChild", "ForkTooLarge"} - outcomes), b)

    def pname(self, b, i):
        for n, pl in b["names"]:
            if not pl[1] and pl[0] == i:
                return n
        return "_%d" % i

    def tests_zero(self, t, x):
        p = Pos()
        for c, v, *_ in t.conds:
            if c[0] == "bin" and c[1] == "Eq" and p.num(x) in (p.num(c[2]), p.num(c[3])) and ("int", 0) in (c[2], c[3]):
                return bool(v)
            if c[0] == "bin" and c[1] == "Lt" and c[2] == ("int", 0) and p.num(c[3]) == p.num(x):
                return not v
            if c[0] == "bin" and c[1] == "Lt" and c[3] == ("int", 1) and p.num(c[2]) == p.num(x):
                return bool(v)
            if c == x and not isinstance(v, tuple):
                return v == 0
            if c == x and isinstance(v, tuple) and 0 in v[1:]:
                return False
        return None

    def fits(self, t, prod, root):
        """(does the path know product <= remaining, did the checked product overflow)"""
        P = Pos()
        fit, over = None, False
        checked = False
        for c, v, *_ in t.conds:
            if c[0] == "discr" and c[1][0] == "call" and method(c[1][1]) in ("checked_mul",) and P.num(c[1]) == prod:
                if v == 0 or (isinstance(v, tuple) and 1 in v[1:]):
                    over = True
                else:
                    checked = True
            if c[0] == "bin" and c[1] == "Lt":
                a, b = c[2], c[3]
                # remaining < product ?
                if self.is_remaining(a, root) and self.prod_is(b, prod):
                    fit, checked = (v == 0), checked or self.widened(b)
                # product < remaining + 1
                if self.is_remaining(b, root) and self.prod_is(a, prod):
                    # strict: only valid when something is added to the remaining side
                    if v == 0 and c[3] == b:
                        fit = None
        if fit is True and not checked:
            fit = None
        return fit, over

    def widened(self, t):
        """a product computed after widening both factors to u128 cannot wrap"""
        return t[0] == "bin" and t[1] == "Mul" and all(x[0] == "cast" and "128" in str(x[1]) for x in (t[2], t[3])) or \
            (t[0] == "call" and method(t[1]) == "saturating_mul")

    def prod_is(self, t, prod):
        P = Pos()
        if P.num(t) == prod:
            return True
        for e in self.subterms(t):
            if e[0] == "call" and method(e[1]) in ("checked_mul",):
                return P.num(e) == prod
        return False

    def peel(self, t, wraps):
        """strip wrapper structs and outer maps by constructors; returns the core children term"""
        while True:
            if t[0] == "agg" and len(t[3]) == 1 and not t[1].startswith("closure"):
                t = t[3][0][1]
                continue
            if t[0] == "it" and t[1] == "iter" and len(t[2]) == 1:
                t = t[2][0]
                continue
            return t

    def children(self, t, b, key, root, first, nc, nb, P, pre):
        """judge the iterator of children by building its i-th element"""
        t = self.peel(t, [])
        maps = []
        while t[0] == "it" and t[1] == "map":
            maps.append(t[2][1])
            t = self.peel(t[2][0], [])
        i = ("param", 9, "i")
        el = self.element(t, i, nc, P)
        if el is None:
            self.ctx.bad(key + ":children", "children are not produced by mapping the numbers 0..n: %s" % show(t)[:200], b)
            return
        vals = [el]
        for clo in reversed(maps):
            nxt = []
            for v in vals:
                if clo[0] == "fn":
                    if clo[6]:
                        nxt.append(self.I.ctor(clo[1], [v]))
                        continue
                    cb, args = self.w.bodies.get(clo[1]), [v]
                elif clo[0] == "agg" and clo[1].startswith("closure:"):
                    cb, args = self.w.bodies.get(clo[1][8:]), [clo, v]
                else:
                    cb = None
                if cb is None:
                    self.ctx.bad(key + ":children", "children come from an unknown function %s" % show(clo)[:120], b)
                    return
                for tr in self.traces(cb, args, opaque=self.KEEP):
                    if tr.status == "return":
                        nxt.append(tr.ret)
            vals = nxt
        if not vals:
            self.ctx.bad(key + ":children", "no child can be produced", b)
        for v in vals:
            while v[0] == "agg" and v[1] != GEN and len(v[3]) == 1:
                v = v[3][0][1]
            if not self.is_gen(v):
                self.ctx.bad(key + ":child", "a child is not a generator: %s" % show(v)[:120], b)
                continue
            ip = P.num(i)
            start = padd(first, pmul(ip, P.num(nb)))
            bound = padd(start, P.num(nb))
            self.built(v, start, bound, mk_field(root, "block_cipher"), key + ":child", b)

    def element(self, t, i, nc, P):
        if t[0] == "it":
            k, a = t[1], t[2]
            if k == "zip":
                x, y = self.element(self.peel(a[0], []), i, nc, P), self.element(self.peel(a[1], []), i, nc, P)
                if x is None or y is None:
                    return None
                return ("agg", "tuple", "", (("0", x), ("1", y)))
            if k == "enumerate":
                x = self.element(self.peel(a[0], []), i, nc, P)
                return None if x is None else ("agg", "tuple", "", (("0", i), ("1", x)))
            if k in ("into_par_iter", "into_iter", "iter") and len(a) == 1:
                return self.element(self.peel(a[0], []), i, nc, P)
        if t[0] == "agg" and t[1].endswith("Range"):
            s, e = agg_get(t, "start"), agg_get(t, "end")
            if P.num(s) == {} and P.num(e) == P.num(nc):
                return i
            return None
        if t[0] in ("call", "res", "der"):
            fn = t[1] if t[0] != "res" else t[2]
            m = method(fn)
            if m in ("repeat", "repeatn", "repeat_n") and "iter" in fn:
                if len(t[-1]) > 1 and P.num(t[-1][1]) != P.num(nc):
                    return None
                return t[-1][0]
        return None

    # children iterators hand on the elements of the iterator they wrap
    def children_iters(self):
        n = 0
        for b in self.w.bodies.values():
            if not b["id"].startswith(CS) or "ChildrenIterator as" not in b["id"] or is_test_body(b) or "{closure" in b["id"]:
                continue
            m = method(b["id"])
            n += 1
            for t in self.traces(b):
                if t.status != "return":
                    continue
                calls = [e for e in t.effects if e[0] == "call"]
                key = "children-iterator:" + b["id"]
                if m == "next":
                    v = t.ret
                    if v[0] == "agg" and v[2] == "None":
                        self.ctx.ok()
                        continue
                    while v[0] == "agg" and len(v[3]) == 1:
                        v = v[3][0][1]
                    ok = (v[0] == "elem" and self.C0(v[1])) or any(e[0] == "res" and method(e[2]) == "next" and self.C0(e[4][0]) for e in self.subterms(v))
                    self.ctx.check(ok, key, "the children iterator's next does not hand on the next child of the iterator it wraps: %s" % show(t.ret)[:160], b)
                else:
                    inner = [x for e in self.subterms(t.ret) if e[0] in ("call", "res") and method(e[1] if e[0] == "call" else e[2]) == m
                             for x in e[-1][:1]]
                    ok = any(self.C0(x) for x in inner)
                    self.ctx.check(ok, key, "the parallel children iterator's %s is not that of the iterator it wraps: %s" % (m, show(t.ret)[:160]), b)
        self.ctx.floor("children iterator methods", n, 8)

    def C0(self, x):
        x = x[1] if x[0] == "sref" else x
        if x[0] == "it" and x[1] == "iter":
            x = x[2][0]
        if x[0] == "mref":
            return x[1] == ("P", 1) and x[2] == ("0",)
        return x[0] == "field" and x[2] == "0" and x[1][0] == "param" and x[1][1] == 1


def c12(ctx):
    c = Csprng(ctx.w, ctx)
    c.index_ops()
    c.ordering()
    c.constructor()
    c.nexts()
    c.forks()
    c.children_iters()


# ----------------------------------------------------------------------------------------- C13
class Lanes:
    """signature of one output block of a batch: how it depends on the counter and the key"""

    def __init__(self, c, body, traces, entry):
        self.c, self.b = c, body
        self.entry = entry
        self.back = [t for t in traces if t.status == "back"]
        self.effects = {}
        for t in traces:
            for e in t.effects:
                if e[0] == "call":
                    self.effects[(e[1], e[2])] = e
        self.P = Pos()
        ctr = ("field", ("param", 2, c.pname(body, 2)), "0")
        self.ctr = self.P.C.atom(ctr)

    def offset(self, t):
        """k when t is counter + k"""
        p = self.P.num(t)
        if p.get((self.ctr,)) == 1:
            r = {m: k for m, k in p.items() if m != (self.ctr,)}
            if all(not m for m in r):
                return r.get((), 0)
        return None

    def sig(self, t, offs, own=None, depth=0):
        if depth > 60:
            return "..."
        k = t[0]
        o = self.offset(t) if k in ("bin", "field", "cast", "call", "param") else None
        if o is not None:
            offs.add(o)
            return "CTR"
        if k == "lv":
            if own is not None:
                return "SELF" if t == own else "OTHER-LANE"
            ent = self.entry.get(t, [])
            upd = [b.store.get((t[1][0], t[1][2])) for b in self.back]
            upd = [u for u in upd if u is not None]
            e = sorted({self.sig(x, offs, None, depth + 1) for x in ent})
            u = sorted({self.sig(x, offs, t, depth + 1) for x in upd})
            return "loop(%s; %s)" % ("|".join(e), "|".join(u))
        if k == "mod":
            e = self.effects.get((t[1], t[2]))
            a = [self.sig(x, offs, own, depth + 1) for x in e[4] if x[0] != "mref"] if e else ["?"]
            return "%s(%s)<%s>" % (method(t[2]), ", ".join(a), self.sig(t[3], offs, own, depth + 1))
        if k in ("call", "der"):
            return "%s(%s)" % (method(t[1]), ", ".join(self.sig(x, offs, own, depth + 1) for x in t[3]))
        if k == "agg":
            return "{%s}" % ", ".join(self.sig(x, offs, own, depth + 1) for _, x in t[3])
        if k == "index":
            return "%s[%s]" % (self.sig(t[1], offs, own, depth + 1), self.sig(t[2], offs, own, depth + 1))
        if k == "field":
            return "%s.%s" % (self.sig(t[1], offs, own, depth + 1), t[2])
        if k == "elem":
            return "elem(%s)" % self.sig(t[1], offs, own, depth + 1)
        if k == "it":
            return "%s(%s)" % (t[1], ", ".join(self.sig(x, offs, own, depth + 1) for x in t[2]))
        if k == "cast" and not (len(t) > 3 and BITS.get(t[1], 64) < 64):
            return self.sig(t[2], offs, own, depth + 1)
        if k == "bin":
            return "%s(%s, %s)" % (t[1], self.sig(t[2], offs, own, depth + 1), self.sig(t[3], offs, own, depth + 1))
        return self.P.C.atom(t)


def find_array(t, n):
    """the n-element array a batch is made of"""
    st = [t]
    while st:
        x = st.pop(0)
        if not isinstance(x, tuple) or not x:
            continue
        if x[0] == "agg" and x[1] == "array" and len(x[3]) == n:
            return [v for _, v in x[3]]
        st.extend(y for y in x if isinstance(y, tuple))
    return None


def c13(ctx):
    c = Csprng(ctx.w, ctx)
    impls = [b for b in ctx.w.bodies.values() if b["id"].endswith("AesBlockCipher>::generate_batch") and not is_test_body(b)]
    ctx.floor("block cipher implementations", len(impls), 2)
    N = c.batch_len()
    und = 0
    for b in impls:
        trs = c.traces(b)
        entry = dict(c.I.lv_entry)
        L = Lanes(c, b, trs, entry)
        rets = [t for t in trs if t.status == "return"]
        key = "batch:" + b["id"]
        ctx.check(bool(rets), key + ":returns", "generate_batch never returns", b)
        for t in rets:
            new = t.store.get(("P", 1))
            ctx.check(new is None or new == ("param", 1, "self"), key + ":state", "generating a batch changes the cipher", b)
            els = find_array(t.ret, N // 16)
            if els is None:
                und += 1
                ctx.stats.setdefault("undecided batches", []).append(b["id"])
                continue
            sigs = []
            for i, e in enumerate(els):
                offs = set()
                s = L.sig(e, offs)
                sigs.append(s)
                ctx.check(offs == {i}, key + ":block%d" % i, "block %d of a batch is computed from counter offset(s) %s, expected the batch index + %d" % (i, sorted(offs), i), b,
                          sample={"function": b["id"], "block": i, "signature": s[:200]})
                ctx.check("CTR" in s, key + ":ctr%d" % i, "block %d of a batch does not depend on the counter" % i, b)
                ctx.check("OTHER-LANE" not in s, key + ":lane%d" % i, "block %d of a batch is computed from another block's intermediate value" % i, b)
                ctx.check(s == sigs[0], key + ":same%d" % i, "block %d of a batch is not computed like the first one: %s / %s" % (i, s[:200], sigs[0][:200]), b)
            ctx.check(any(x in sigs[0] for x in ("encrypt_block", "aesenc")), key + ":encrypt", "a batch is not encrypted", b)
            ctx.check("self" in sigs[0], key + ":key", "a batch does not depend on the key of the cipher", b)
            ctx.check("_be_" not in sigs[0] and "swap_bytes" not in sigs[0] and "_le_" not in sigs[0], key + ":endian",
                      "the counter is not encoded in native byte order, unlike the sibling implementation", b)
    # key and constructor
    for b in ctx.w.bodies.values():
        if is_test_body(b):
            continue
        if b["id"].endswith("AesBlockCipher>::new"):
            key = "cipher-new:" + b["id"]
            for t in c.traces(b):
                if t.status != "return":
                    continue
                deps = key_deps(c, t)
                ctx.check("key" in deps, key, "the cipher's round keys do not come from the key it was given", b)
                txt = show(t.ret) + " ".join(show_eff(e) for e in t.effects)
                ctx.check("to_be_bytes" not in txt and "to_le_bytes" not in txt and "swap_bytes" not in txt, key + ":endian", "the key is not taken in native byte order, unlike the sibling implementation", b)
    n = 0
    P = Pos()
    ciph = [x["id"] for x in ctx.w.bodies.values() if x["id"].endswith("AesBlockCipher>::new")]
    for b in ctx.w.bodies.values():
        if is_test_body(b) or not b["id"].startswith(CS) or not b["id"].endswith("as generators::RandomGenerator>::new"):
            continue
        n += 1
        key = "generator-new:" + b["id"]
        for t in c.traces(b, opaque=c.KEEP + ciph):
            if t.status != "return":
                continue
            g = t.ret
            while g[0] == "agg" and g[1] != GEN and len(g[3]) == 1:
                g = g[3][0][1]
            if not c.is_gen(g):
                ctx.bad(key + ":kind", "a generator is not built around the counter mode generator: %s" % show(t.ret)[:160], b)
                continue
            q = c.gen_term(g)
            ctx.check(q["at"] == {}, key + ":start", "a generator fresh from a seed is at position %s instead of the first one" % P.text(q["at"]), b)
            ctx.check(q["last"] == pint(16 * (2**128 - 1) + 14), key + ":last", "a generator fresh from a seed ends at position %s" % P.text(q["last"]), b)
            ks = [e for e in c.subterms(q["cipher"]) if e[0] in ("call", "res") and method(e[1] if e[0] == "call" else e[2]) == "new" and "AesBlockCipher" in (e[1] if e[0] == "call" else e[2])]
            ok = len(ks) == 1 and P.num(ks[0][-1][0]) == {("%s.0" % c.pname(b, 1),): 1}
            ctx.check(ok, key + ":key", "the key of a generator is not its seed: %s" % (ks and show(ks[0])[:160]), b)
    ctx.floor("generator constructors", n, 2)


def key_deps(c, t):
    out = set()
    for e in list(c.subterms(t.ret)):
        if e[0] == "param":
            out.add("key")
    for e in t.effects:
        if e[0] == "call":
            for x in e[4]:
                for y in c.subterms(x):
                    if y[0] == "param":
                        out.add("key")
    return out


# ----------------------------------------------------------------------------------------- C23
def c23(ctx):
    """seeders: fresh entropy from every source they have, in every seed"""
    c = Csprng(ctx.w, ctx)
    n = 0
    for b in ctx.w.bodies.values():
        if is_test_body(b) or not b["id"].startswith(CS) or not b["id"].endswith("as seeders::Seeder>::seed"):
            continue
        n += 1
        key = "seed:" + b["id"]
        for t in c.traces(b):
            if t.status != "return":
                continue
            calls = [e for e in t.effects if e[0] == "call"]
            names = [method(e[2]) for e in calls]
            if any("rdseed" in x for x in names):
                steps = [e for e in calls if "rdseed" in method(e[2])]
                # each step's success must be known on the path
                for e in steps:
                    ok = any(cd[0][0] == "bin" and cd[0][1] == "Eq" and cd[1] == 1 and ("int", 1) in (cd[0][2], cd[0][3])
                             and any(x[0] == "res" and x[1] == e[1] for x in (cd[0][2], cd[0][3])) for cd in t.conds)
                    ctx.check(ok, key + ":step", "a seed is returned although rdseed did not report success for one of its halves", b, e[5])
                tgt = [e[4][0] for e in steps]
                ctx.check(len(set(tgt)) == len(tgt), key + ":distinct", "both halves of a seed are read into the same place", b)
                cover(ctx, c, t, tgt, key, b)
            else:
                s = t.ret
                while s[0] == "agg" and len(s[3]) == 1:
                    s = s[3][0][1]
                parts = xor_parts(s)
                txt = [show(x) for x in parts]
                cur = ("param", 1, "self")
                ctx.check(any(x == mk_field(cur, "secret") for x in parts), key + ":secret", "the user's secret does not enter the seed by xor: %s" % txt, b)
                ctx.check(any(x == mk_field(cur, "counter") for x in parts), key + ":counter", "the counter does not enter the seed by xor: %s" % txt, b)
                rd = [e for e in calls if method(e[2]) in ("read_exact",)]
                lax = [e for e in calls if method(e[2]) in ("read",)]
                ctx.check(len(rd) == 1 and not lax, key + ":read", "the random device is not read once, in full", b)
                for e in rd:
                    ok = any(cd[0][0] == "discr" and cd[1] == 0 and cd[0][1][0] == "res" and cd[0][1][1] == e[1] for cd in t.conds)
                    ctx.check(ok, key + ":checked", "a failed read of the random device still yields a seed", b)
                    ctx.check(any(x[0] == "mod" and x[1] == e[1] for p in parts for x in c.subterms(p)), key + ":device", "what was read from the random device does not enter the seed: %s" % txt, b)
                    full = any(x[0] == "agg" and x[1].endswith(("RangeTo", "Range", "RangeFrom")) for x in c.subterms(e[4][1]))
                    ctx.check(not full, key + ":full", "only part of the buffer is filled from the random device", b)
                ctx.check(len(parts) == len(set(txt)), key + ":cancel", "a source enters the seed twice and cancels out: %s" % txt, b)
                new = t.store.get(("P", 1))
                P = Pos()
                ctx.check(P.num(mk_field(new, "counter")) == padd(P.num(mk_field(cur, "counter")), pint(1)), key + ":advance", "the counter is not advanced by one: %s" % show(mk_field(new, "counter"))[:100], b)
                ctx.check(mk_field(new, "secret") == mk_field(cur, "secret"), key + ":keep", "producing a seed changes the secret", b)
    ctx.floor("seeder implementations", n, 2)
    for b in ctx.w.bodies.values():
        if is_test_body(b) or not b["id"].startswith(CS) or "seeders::implem" not in b["id"] or method(b["id"]) != "new" or b["argc"] != 1:
            continue
        for t in c.traces(b):
            if t.status != "return":
                continue
            s = agg_get(t.ret, "secret") if t.ret[0] == "agg" else None
            ctx.check(s == ("param", 1, c.pname(b, 1)), "new:" + b["id"] + ":secret", "the secret kept by the seeder is not the one it was given", b)
            f = agg_get(t.ret, "file") if t.ret[0] == "agg" else None
            ok = f is not None and any(x[0] == "str" and "/dev/random" in x[1] for x in c.subterms(f))
            ctx.check(ok, "new:" + b["id"] + ":device", "the seeder does not read /dev/random: %s" % (f and show(f)[:100]), b)


def xor_parts(t):
    if t[0] == "bin" and t[1] == "BitXor":
        return xor_parts(t[2]) + xor_parts(t[3])
    return [t]


def cover(ctx, c, t, tgts, key, b):
    """both halves reach the seed: either copied into disjoint ranges of a 16 byte buffer or combined by shifting"""
    copies = [e for e in t.effects if e[0] == "call" and method(e[2]) in ("copy_from_slice", "clone_from_slice")]
    if copies:
        rng, src = [], []
        for e in copies:
            r = [x for x in c.subterms(e[4][0]) if x[0] == "agg" and x[1].endswith(("Range", "RangeTo", "RangeFrom"))]
            if len(r) != 1:
                continue
            s, en = agg_get(r[0], "start"), agg_get(r[0], "end")
            rng.append((s[1] if s else 0, en[1] if en else 16))
            src.append(frozenset(x[1] for x in c.subterms(e[4][1]) if x[0] == "mod"))
        ctx.check(sorted(rng) == [(0, 8), (8, 16)], key + ":halves", "the halves of a seed are stored at %s of its 16 bytes" % rng, b)
        ctx.check(len(set(src)) == len(src) and all(src), key + ":sources", "both halves of a seed come from the same random word", b)
    else:
        mods = {x[1] for x in c.subterms(t.ret) if x[0] == "mod"}
        ctx.check(len(mods) >= len(tgts), key + ":sources", "not every random word read enters the seed", b)
