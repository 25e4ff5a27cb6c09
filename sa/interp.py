"""Path-sensitive value-provenance analysis over MIR.

Abstract values are terms (nested tuples) saying where a value comes from: a parameter, a field of
it, the result of a named call on such values, an aggregate, arithmetic on them.  No value is ever
computed from a concrete input and no path condition is solved: traces are partitioned at switches
whose discriminant is not already decided by the term itself or by an earlier test of the same term.
Loops are analysed once, with everything they assign replaced by a loop symbol.  Calls into the
workspace are spliced (inlined) when the policy says so, so extracted helpers do not change a
summary.

Terms
  ("param", i, name)             i-th argument of the analysed function
  ("int", v) ("str", s) ("unit",) ("def", path) const values
  ("agg", path, variant, ((fieldname, term)...))
  ("field", t, name)  ("as", t, variant)  ("index", t, i)  ("elem", iter)
  ("call", fn, targs, args)      result of a call without mutable access to anything (pure by type)
  ("res", n, fn, targs, args)    n-th effectful call's result
  ("der", fn, targs, args)       a reference derived from its arguments by a call
  ("mref", root, path)           a mutable reference to a tracked location
  ("bin", op, a, b) ("un", op, a) ("cast", ty, a)
  ("mod", n, fn, old)            contents of a location after effectful call n
  ("upd", base, path, v)         contents after a partial write
  ("lv", k)                      value assigned in a loop
"""
import re
import struct
from .facts import subst, concrete, tstr, AnalysisError

UNIT = ("unit",)
TRUE = ("int", 1)
FALSE = ("int", 0)


class TooManyTraces(Exception):
    pass


def agg_get(t, name):
    for n, v in t[3]:
        if n == name:
            return v
    return None


def mk_field(t, name):
    if t[0] == "agg":
        v = agg_get(t, name)
        if v is not None:
            return v
    if t[0] == "upd":
        p = t[2]
        if p and p[0] == name:
            return t[3] if len(p) == 1 else ("upd", mk_field(t[1], name), p[1:], t[3])
        if p and isinstance(p[0], str):
            return mk_field(t[1], name)
    return ("field", t, name)


def mk_as(t, variant):
    if t[0] == "agg":
        return t
    return ("as", t, variant)


def mk_index(t, i):
    if t[0] == "upd" and t[2] and t[2][0] == ("ix", i):
        return t[3] if len(t[2]) == 1 else ("upd", mk_index(t[1], i), t[2][1:], t[3])
    return ("index", t, i)


def float_text(bits, ty):
    return repr(struct.unpack("<d", struct.pack("<Q", bits))[0] if ty == "f64" else struct.unpack("<f", struct.pack("<I", bits))[0])


def mk_upd(base, path, v):
    if not path:
        return v
    p = path[0]
    if isinstance(p, str) and base[0] == "agg" and agg_get(base, p) is not None:
        return ("agg", base[1], base[2], tuple((n, mk_upd(x, path[1:], v) if n == p else x) for n, x in base[3]))
    if isinstance(p, tuple) and p[0] == "as" and base[0] == "agg":
        return mk_upd(base, path[1:], v)
    if base[0] == "upd" and base[2] == path:
        base = base[1]
    return ("upd", base, path, v)


def get_path(v, path):
    for p in path:
        if isinstance(p, str):
            v = mk_field(v, p)
        elif p[0] == "ix":
            v = mk_index(v, p[1])
        elif p[0] == "as":
            v = mk_as(v, p[1])
        else:
            v = ("proj", v, p)
    return v


def has_mref(t):
    if t[0] in ("mref",):
        return True
    if t[0] == "der":
        return True
    if t[0] == "agg":
        return any(has_mref(v) for _, v in t[3])
    if t[0] in ("elem", "as", "field", "proj", "index"):
        return has_mref(t[1])
    if t[0] == "it":
        return any(has_mref(x) for x in t[2] if isinstance(x, tuple) and x)
    if t[0] == "param":
        return len(t) > 3 and t[3] == "mut"
    return False


def mrefs(t, out, seen=None):
    if seen is None:
        seen = set()
    if id(t) in seen:
        return out
    seen.add(id(t))
    if t[0] == "mref":
        out.append((t[1], t[2]))
    elif t[0] == "agg":
        for _, v in t[3]:
            mrefs(v, out, seen)
    elif t[0] in ("elem", "as", "field", "proj", "index"):
        mrefs(t[1], out, seen)
    elif t[0] in ("der", "res", "call"):
        for a in t[-1]:
            mrefs(a, out, seen)
    elif t[0] == "it":
        for x in t[2]:
            if isinstance(x, tuple) and x and isinstance(x[0], str):
                mrefs(x, out, seen)
    return out


class Frame:
    __slots__ = ("fid", "body", "bb", "dest", "ret", "sub", "loops", "line_stack")

    def __init__(s, fid, body, dest, ret, sub):
        s.fid, s.body, s.bb, s.dest, s.ret, s.sub, s.loops = fid, body, 0, dest, ret, sub, ()

    def copy(s):
        f = Frame(s.fid, s.body, s.dest, s.ret, s.sub)
        f.bb, f.loops = s.bb, s.loops
        return f


class State:
    __slots__ = ("frames", "store", "conds", "known", "effects", "nseq", "nfid", "nexts", "cleared")

    def __init__(s):
        s.frames, s.store, s.conds, s.known, s.effects, s.nseq, s.nfid = [], {}, [], {}, [], 0, 0
        s.nexts = ()

    def fork(s):
        n = State()
        n.frames = [f.copy() for f in s.frames]
        n.store = dict(s.store)
        n.conds = list(s.conds)
        n.known = dict(s.known)
        n.effects = list(s.effects)
        n.nseq, n.nfid = s.nseq, s.nfid
        n.nexts = s.nexts
        return n


class Trace:
    __slots__ = ("conds", "effects", "ret", "status", "store", "where")

    def __init__(s, st, status, ret=None, where=None):
        s.conds, s.effects, s.store = st.conds, st.effects, st.store
        s.status, s.ret, s.where = status, ret, where

    def __repr__(s):
        return "Trace(%s, %s, %s, %s)" % (s.status, [(show(c), v) for c, v, *_ in s.conds], [show_eff(e) for e in s.effects], show(s.ret) if s.ret else None)


_loopinfo = {}


def loops_of(body):
    k = id(body)
    if k in _loopinfo:
        return _loopinfo[k][1]
    succ = {}
    for i, b in enumerate(body["blocks"]):
        succ[i] = succs(b["t"])
    # DFS back edges
    color, back = {}, []
    stack = [(0, iter(succ.get(0, [])))]
    color[0] = 1
    while stack:
        n, it = stack[-1]
        for m in it:
            if color.get(m, 0) == 0:
                color[m] = 1
                stack.append((m, iter(succ[m])))
                break
            elif color[m] == 1:
                back.append((n, m))
        else:
            color[n] = 2
            stack.pop()
    pred = {}
    for a, bs in succ.items():
        for b in bs:
            pred.setdefault(b, []).append(a)
    res = {}
    for a, h in back:
        nodes = res.setdefault(h, {h})
        work = [a]
        while work:
            x = work.pop()
            if x in nodes:
                continue
            nodes.add(x)
            work += pred.get(x, [])
    # assigned locals
    out = {}
    for h, nodes in res.items():
        asg, lent = set(), set()
        for n in nodes:
            b = body["blocks"][n]
            for s in b["s"]:
                if s[0] and not any(p == "*" for p in s[0][1]):
                    asg.add(s[0][0])
                elif s[0] and s[0][1] == ["*"]:
                    lent.add((s[0][0], True))
                if s[0] and s[1][0] == "ref" and s[1][1] and not s[1][2][1]:
                    lent.add((s[1][2][0], False))
            t = b["t"]
            if t[0] == "call" and not any(p == "*" for p in t[3][1]):
                asg.add(t[3][0])
        out[h] = (nodes, asg, {x for x in lent if x[0] not in asg})
    _loopinfo[k] = (body, out)
    return out


def succs(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return [x[1] for x in t[2]] + [t[3]]
    if k == "drop":
        return [t[2]]
    if k == "call":
        return [t[4]] if t[4] >= 0 else []
    if k == "assert":
        return [t[4]]
    return []


class Interp:
    def __init__(self, world, inline=None, models=None, max_traces=3000, max_depth=12, transparent=None,
                 track_drop=False, value_of_const=True, max_steps=200000, keep_writes=True, deep_elem=False):
        self.w = world
        self.inline = inline or (lambda fn, st: False)
        self.models = models or {}
        self.max_traces = max_traces
        self.max_depth = max_depth
        self.transparent = transparent or (lambda owner: False)
        self.track_drop = track_drop
        self.max_steps = max_steps
        self.steps = 0
        self._prom = {}
        self._discr = {}
        self.on_deref = None
        self.deep_elem = deep_elem

    # ------------------------------------------------------------------ entry
    def run(self, body, args=None, sub=None, seqbase=0):
        st = State()
        st.nseq = seqbase
        f = Frame(st.nfid, body, None, None, sub or {})
        st.nfid += 1
        names = {}
        for n, pl in body["names"]:
            if not pl[1] and 1 <= pl[0] <= body["argc"]:
                names.setdefault(pl[0], n)
        for i in range(1, body["argc"] + 1):
            t = subst(body["T"][body["locals"][i]], f.sub)
            if args is not None and i - 1 < len(args):
                v = args[i - 1]
            else:
                v = self.mk_param(st, i, names.get(i, "_%d" % i), t)
            st.store[(f.fid, i)] = v
        st.frames.append(f)
        self.traces = []
        self.lv_entry = {}
        self.work = [st]
        self.steps = 0
        while self.work:
            s = self.work.pop()
            self.go(s)
            if len(self.traces) > self.max_traces:
                raise TooManyTraces(body["id"])
        return self.traces

    def mk_param(self, st, i, name, t):
        p = ("param", i, name)
        if t[0] in ("ref", "ptr") and t[1]:
            st.store[("P", i)] = p
            return ("mref", ("P", i), ())
        return p

    # ------------------------------------------------------------------ places
    def load_root(self, st, root):
        if root[0] == "T" and root not in st.store and root[1][0] == "sref":
            return root[1][1]
        v = st.store.get(root)
        if v is None:
            if root[0] == "T":
                return root[1]
            return ("uninit", root)
        return v

    def locate(self, st, f, place):
        """(root, path) of a place, following tracked references."""
        root, path = (f.fid, place[0]), ()
        for k, e in enumerate(place[1]):
            if e == "*":
                v = get_path(self.load_root(st, root), path)
                if self.on_deref is not None and k == 0 and f.body["T"][f.body["locals"][place[0]]][0] == "ptr":
                    self.on_deref(st, f, v)
                if v[0] == "mref":
                    root, path = v[1], v[2]
                elif v[0] == "sref":
                    root, path = ("T", v[1]), ()
                else:
                    root, path = ("T", v), ()
            elif e[0] == "f":
                if self.transparent(e[3]):
                    continue
                path = path + (e[2],)
            elif e[0] == "i":
                iv = self.load_root(st, (f.fid, e[1]))
                path = path + (("ix", iv),)
            elif e[0] == "dc":
                path = path + (("as", e[2]),)
            elif e[0] == "ci":
                path = path + (("ix", ("int", e[1]) if not e[2] else ("fromend", e[1])),)
            else:
                path = path + (("pr", tuple(str(x) for x in e)),)
        return root, path

    def read(self, st, f, place):
        root, path = self.locate(st, f, place)
        return get_path(self.load_root(st, root), path)

    def write(self, st, f, place, v, line=0):
        root, path = self.locate(st, f, place)
        self.store_at(st, root, path, v, line)

    def store_at(self, st, root, path, v, line=0):
        old = self.load_root(st, root)
        st.store[root] = mk_upd(old, path, v)
        if root[0] in ("P", "T", "S"):
            st.effects.append(("write", root, path, v, line))

    def operand(self, st, f, o):
        k = o[0]
        if k in ("c", "m"):
            return self.read(st, f, o[1])
        if k == "k":
            c = o[1]
            if "fn" in c:
                T = f.body["T"]
                return ("fn", c.get("res") or c["fn"], tuple(subst(T[a], f.sub) if isinstance(a, int) else ("const", a) for a in c.get("rargs", c["fargs"])), c["fn"],
                        tuple(subst(T[a], f.sub) if isinstance(a, int) else ("const", a) for a in c["fargs"]), c.get("trait"), bool(c.get("ctor")))
            if "promoted" in c:
                return self.promoted(c["def"], c["promoted"], f)
            if "v" in c:
                t = f.body["T"][c["t"]] if isinstance(c.get("t"), int) else None
                if t is not None and t[0] == "prim" and t[1] in ("f64", "f32"):
                    return ("flt", float_text(int(c["v"]), t[1]))
                return ("int", int(c["v"]))
            if "str" in c:
                return ("str", c["str"])
            if "static" in c:
                return ("static", c["static"])
            if "def" in c:
                b = self.w.bodies.get(c["def"]) or self.w.bodies.get(f.body["crate"] + "::" + c["def"])
                if b is not None and b["argc"] == 0 and c["def"] not in self._prom:
                    self._prom[c["def"]] = ("def", c["def"])
                    v = self.const_body(b, f)
                    if v is not None:
                        self._prom[c["def"]] = v
                return self._prom.get(c["def"], ("def", c["def"]))
            t = f.body["T"][c["t"]]
            if t == ("tuple", ()):
                return UNIT
            if t[0] == "closure":
                return ("agg", "closure:" + t[1], "", ())
            if t[0] == "adt" and not t[2]:
                return ("agg", t[1], "", ())
            return ("def", c["s"])
        return ("other", str(o))

    def const_body(self, b, f):
        sub_i = Interp(self.w, inline=self.inline, models=self.models, transparent=self.transparent, max_traces=8, max_steps=2000)
        sub_i._prom = self._prom
        try:
            tr = sub_i.run(b, sub=f.sub)
        except TooManyTraces:
            return None
        tr = [t for t in tr if t.status == "return"]
        if len(tr) == 1 and tr[0].ret is not None and not mrefs(tr[0].ret, []):
            return tr[0].ret
        return None

    def promoted(self, d, n, f):
        for k in (d, f.body["crate"] + "::" + d):
            b = self.w.bodies.get("%s#promoted%d" % (k, n))
            if b is not None:
                v = self.const_body(b, f)
                return v if v is not None else ("def", b["id"])
        # closure bodies: promoted may be recorded under the full id with hash
        return ("def", "%s#promoted%d" % (d, n))

    # ------------------------------------------------------------------ rvalues
    def rvalue(self, st, f, rv):
        k = rv[0]
        if k == "use":
            return self.operand(st, f, rv[1])
        if k == "ref" or k == "raw":
            mut = rv[1] is True or (k == "raw" and "Mut" in rv[1])
            pl = rv[2]
            root, path = self.locate(st, f, pl)
            if mut:
                # reborrow of an opaque reference keeps its identity
                if root[0] == "T" and path == ():
                    return root[1]
                return ("mref", root, path)
            # shared reference: a snapshot of the value -- unless the value is itself only known by location
            v = get_path(self.load_root(st, root), path)
            if v[0] in ("mref", "param") and not pl[1] and f.body["T"][f.body["locals"][pl[0]]][0] == "ptr":
                return ("sref", v)      # keep the reference level over a raw pointer variable
            return v
        if k == "cast":
            v = self.operand(st, f, rv[2])
            ty = subst(f.body["T"][rv[3]], f.sub)
            if rv[1].startswith(("PointerCoercion", "PtrToPtr", "Transmute", "FnPtrToPtr")):
                return v
            return mk_cast(ty, v, subst(f.body["T"][rv[4]], f.sub))
        if k == "bin":
            return mk_bin(rv[1], self.operand(st, f, rv[2]), self.operand(st, f, rv[3]))
        if k == "un":
            return mk_un(rv[1], self.operand(st, f, rv[2]))
        if k == "agg":
            a = rv[1]
            ops = [self.operand(st, f, o) for o in rv[2]]
            if a["k"] == "adt":
                if self.transparent(a["d"]) and len(ops) == 1:
                    return ops[0]
                if "active" in a:
                    return ("agg", a["d"], a["vn"], (("u%d" % a["active"], ops[0]),))
                return ("agg", a["d"], a["vn"] if a["enum"] else "", tuple(zip(a["fields"], ops)))
            if a["k"] == "closure":
                return ("agg", "closure:" + a["d"], "", tuple((str(i), o) for i, o in enumerate(ops)))
            if a["k"] == "tuple":
                if not ops:
                    return UNIT
                return ("agg", "tuple", "", tuple((str(i), o) for i, o in enumerate(ops)))
            if a["k"] == "array":
                return ("agg", "array", "", tuple((str(i), o) for i, o in enumerate(ops)))
            if a["k"] == "rawptr":
                return ops[0]
            return ("other", str(a))
        if k == "discr":
            return ("discr", self.read(st, f, rv[1]))
        if k == "repeat":
            return ("repeat", self.operand(st, f, rv[1]), rv[2])
        if k == "tls":
            return ("static", rv[1])
        return ("other", str(rv)[:80])

    # ------------------------------------------------------------------ main loop
    def finish(self, st, status, ret=None, where=None):
        self.traces.append(Trace(st, status, ret, where))

    def jump(self, st, f, target):
        """Move to block target; False when the trace ends here (back edge)."""
        li = loops_of(f.body)
        # leave loops not containing target
        f.loops = tuple(h for h in f.loops if target in li[h][0])
        if target in li:
            if target in f.loops:
                st.effects.append(("backedge", f.fid, target))
                self.finish(st, "back", where=(f.body["id"], target))
                return False
            f.loops = f.loops + (target,)
            for l in li[target][1]:
                if l in [0] and False:
                    continue
                if (f.fid, l) in st.store:
                    lv = ("lv", (f.fid, target, l), )
                    self.lv_entry.setdefault(lv, []).append(st.store[(f.fid, l)])
                    st.store[(f.fid, l)] = lv
            # numbers and flags the body may change through a reference
            for l, through in sorted(li[target][2]):
                root = (f.fid, l)
                if through:
                    r = st.store.get(root)
                    if r is None or r[0] != "mref" or r[2] or not isinstance(r[1], tuple) or len(r[1]) != 2 or not isinstance(r[1][0], int):
                        continue
                    root = r[1]
                old = st.store.get(root)
                if old is not None and old[0] in ("int", "bin", "lv", "cast"):
                    lv = ("lv", (f.fid, target, root[1] if root[0] == f.fid else root))
                    if lv != old:
                        self.lv_entry.setdefault(lv, []).append(old)
                        st.store[root] = lv
            st.effects.append(("loop", f.fid, target))
        f.bb = target
        return True

    def decide(self, st, term):
        t, pos = canon_bool(term)
        if t in st.known:
            v = st.known[t]
            return v if pos else (1 - v)
        return None

    def go(self, st):
        while True:
            self.steps += 1
            if self.steps > self.max_steps:
                raise TooManyTraces("steps")
            f = st.frames[-1]
            blk = f.body["blocks"][f.bb]
            for s in blk["s"]:
                if s[0] is None:
                    continue
                if s[1][0] == "setdiscr":
                    continue
                v = self.rvalue(st, f, s[1])
                self.write(st, f, s[0], v, s[2])
            t = blk["t"]
            k = t[0]
            if k == "goto":
                if not self.jump(st, f, t[1]):
                    return
            elif k == "switch":
                if not self.switch(st, f, t, blk["l"]):
                    return
            elif k == "return":
                v = st.store.get((f.fid, 0), UNIT)
                st.frames.pop()
                if not st.frames:
                    self.finish(st, "return", v)
                    return
                c = st.frames[-1]
                if f.dest is not None:
                    if f.dest[0] == "cont":
                        v2 = f.dest[1](v)
                        self.write(st, c, f.dest[2], v2)
                    else:
                        self.write(st, c, f.dest, v)
                if f.ret == -2:
                    st.effects.append(("backedge", c.fid, ("it", c.bb)))
                    self.finish(st, "back", where=(c.body["id"], ("it", c.bb)))
                    return
                if f.ret is None or f.ret < 0:
                    self.finish(st, "panic", where="diverge")
                    return
                if not self.jump(st, c, f.ret):
                    return
            elif k == "drop":
                if self.track_drop:
                    st.effects.append(("drop", self.read(st, f, t[1]), tstr(subst(f.body["T"][t[3]], f.sub)), blk["l"]))
                if not self.jump(st, f, t[2]):
                    return
            elif k == "assert":
                if not self.jump(st, f, t[4]):
                    return
            elif k == "call":
                if not self.call(st, f, t, blk["l"]):
                    return
            elif k in ("resume", "abort", "unreachable"):
                if k != "unreachable":
                    self.finish(st, "panic", where=k)
                return
            else:
                raise AnalysisError("unsupported terminator %s in %s" % (k, f.body["id"]))

    def switch(self, st, f, t, line):
        d = self.operand(st, f, t[1])
        dty = f.body["T"][t[4]]
        cases = t[2]
        if d[0] == "int":
            for v, b in cases:
                if int(v) == d[1]:
                    return self.jump(st, f, b)
            return self.jump(st, f, t[3])
        if d[0] == "discr":
            x = d[1]
            if x[0] == "agg" and x[2]:
                idx = self.discr_of(x)
                if idx is not None:
                    for v, b in cases:
                        if int(v) == idx:
                            return self.jump(st, f, b)
                    return self.jump(st, f, t[3])
        # boolean
        if len(cases) == 1 and cases[0][0] == "0" and d[0] != "discr" and dty[1] == "bool":
            c, pos = canon_bool(d)
            known = st.known.get(c)
            alts = []
            for val, b in ((0, cases[0][1]), (1, t[3])):
                cv = val if pos else 1 - val
                if known is not None and known != cv:
                    continue
                alts.append((c, cv, b))
        else:
            known = st.known.get(d)
            alts = []
            for v, b in cases:
                if known is None or known == int(v):
                    alts.append((d, int(v), b))
            ob = f.body["blocks"][t[3]]
            if ob["t"][0] != "unreachable" or ob["s"]:
                if known is None or (isinstance(known, tuple) or known not in [int(v) for v, _ in cases]):
                    alts.append((d, ("other",) + tuple(int(v) for v, _ in cases), t[3]))
        first = None
        for i, (c, v, b) in enumerate(alts):
            s2 = st if i == len(alts) - 1 else st.fork()
            f2 = s2.frames[-1]
            if c not in s2.known:
                s2.conds.append((c, v, f.body["id"], line))
                s2.known[c] = v
            if s2 is st:
                return self.jump(st, f2, b)
            if self.jump(s2, f2, b):
                self.work.append(s2)
            if len(self.work) + len(self.traces) > self.max_traces:
                raise TooManyTraces(f.body["id"])
        return False

    def discr_of(self, x):
        std = {"std::result::Result": {"Ok": 0, "Err": 1}, "std::option::Option": {"None": 0, "Some": 1},
               "std::ops::ControlFlow": {"Continue": 0, "Break": 1}}
        if x[1] in std:
            return std[x[1]].get(x[2])
        a = self.w.adts.get(x[1])
        if a:
            for i, v in enumerate(a["variants"]):
                if v["n"] == x[2]:
                    return int(v["discr"]) if v["discr"] is not None else i
        return None

    # ------------------------------------------------------------------ calls
    def push(self, st, f, body, args, dest, target, sub, wrap=None):
        nf = Frame(st.nfid, body, dest if wrap is None else ("cont", wrap, dest), target, sub)
        st.nfid += 1
        for i, a in enumerate(args):
            st.store[(nf.fid, i + 1)] = a
        st.frames.append(nf)

    def call_closure(self, st, f, clo, cargs, dest, target, wrap=None):
        """Splice the body of closure term clo applied to cargs (list). False if unknown."""
        if clo[0] == "mref":
            clo = get_path(self.load_root(st, clo[1]), clo[2])
        if clo[0] == "fn":
            fn = clo[1]
            if clo[6]:   # constructor
                v = self.ctor(fn, cargs)
                self.write(st, f, dest, wrap(v) if wrap else v)
                return True
            b = self.w.bodies.get(fn)
            if b is not None and len(st.frames) < self.max_depth and self.inline(fn, st):
                self.push(st, f, b, cargs, dest, target, dict(zip(b["gen"], clo[2])), wrap)
                return "pushed"
            v = ("call", fn, tuple(clo[2]), tuple(cargs))
            self.write(st, f, dest, wrap(v) if wrap else v)
            return True
        if clo[0] == "agg" and clo[1].startswith("closure:"):
            b = self.w.bodies.get(clo[1][8:])
            if b is None:
                return False
            if len(st.frames) >= self.max_depth + 6:
                return False
            ct = b["T"][b["locals"][1]]
            if ct[0] == "ref" and ct[1]:
                root = ("clo", st.nfid, clo[1])
                st.store[root] = clo
                selfv = ("mref", root, ())
            else:
                selfv = clo
            # closure bodies take their arguments untupled after self
            self.push(st, f, b, [selfv] + list(cargs), dest, target, f.sub_for(b) if hasattr(f, "sub_for") else self.closure_sub(st, b), wrap)
            return "pushed"
        return False

    def closure_sub(self, st, b):
        par = b.get("item")
        for fr in reversed(st.frames):
            if fr.body["id"] == par or fr.body.get("item") == par:
                return fr.sub
        return {}

    def apply_here(self, st, clo, args):
        """value of an effect-free single-path closure application in the current state, or None"""
        clo = deref_val(self, st, clo)
        if clo[0] == "fn":
            if clo[6]:
                return self.ctor(clo[1], list(args))
            b = self.w.bodies.get(clo[1])
            if b is None or not self.inline(clo[1], st):
                return ("call", clo[1], tuple(clo[2]), tuple(args))
            cargs, s = list(args), dict(zip(b["gen"], clo[2]))
        elif clo[0] == "agg" and clo[1].startswith("closure:"):
            b = self.w.bodies.get(clo[1][8:])
            if b is None:
                return None
            ct = b["T"][b["locals"][1]]
            selfv = clo
            if ct[0] == "ref" and ct[1]:
                root = ("clo", st.nfid, clo[1])
                st.store[root] = clo
                selfv = ("mref", root, ())
            cargs, s = [selfv] + list(args), self.closure_sub(st, b)
        else:
            return None
        if len(st.frames) >= self.max_depth + 6:
            return None
        st2 = st.fork()
        st2.frames = []
        self.push(st2, None, b, cargs, None, None, s)
        save = self.traces, self.work
        self.traces, self.work = [], [st2]
        try:
            while self.work:
                x = self.work.pop()
                self.go(x)
                if len(self.traces) > 16:
                    return None
            tr = [t for t in self.traces if t.status == "return"]
        finally:
            self.traces, self.work = save
        if len(tr) != 1 or any(e[0] != "pure" and not (e[0] == "call" and (e[2].endswith(("<impl [T]>::len", "::size_hint", "::container_len")) or PUREOP.search(e[2]))) for e in tr[0].effects[len(st.effects):]):
            return None
        st.store = tr[0].store
        st.effects = tr[0].effects
        st.nfid += 64
        return tr[0].ret

    def ctor(self, fn, args):
        segs = fn.split("::")
        owner = "::".join(segs[:-1])
        if owner in ("std::result::Result", "std::option::Option", "std::ops::ControlFlow"):
            return ("agg", owner, segs[-1], tuple((str(i), a) for i, a in enumerate(args)))
        # enum variant or tuple struct
        if fn in self.w.adts:
            if self.transparent(fn) and len(args) == 1:
                return args[0]
            return ("agg", fn, "", tuple((str(i), a) for i, a in enumerate(args)))
        return ("agg", owner, segs[-1], tuple((str(i), a) for i, a in enumerate(args)))

    def call(self, st, f, t, line):
        T = f.body["T"]
        fop = self.operand(st, f, t[1])
        args = [self.operand(st, f, a) for a in t[2]]
        dest, target = t[3], t[4]
        if fop[0] != "fn":
            # call through a value (fn pointer / dyn)
            r = self.call_closure(st, f, fop, args, dest, target)
            if r == "pushed":
                return True
            if r:
                return self.jump(st, f, target) if target >= 0 else self.panic(st, "ptr")
            fn, targs, gfn, gargs, trait, isctor = "<fnptr>", (), "<fnptr>", (), None, False
            args = [fop] + args
        else:
            _, fn, targs, gfn, gargs, trait, isctor = fop
        if isctor:
            self.write(st, f, dest, self.ctor(fn, args))
            return self.jump(st, f, target)
        # trait method left generic by the compiler: resolve under the current substitution
        if trait and f.sub and fn == gfn:
            m = gfn.rsplit("::", 1)[-1]
            hit = self.w.resolve(trait, m, gargs[: self.trait_arity(trait, gargs)])
            if hit:
                fn = hit[0]
                b = self.w.bodies[fn]
                s = dict(hit[1])
                extra = [g for g in b["gen"] if g not in s]
                rest = gargs[self.trait_arity(trait, gargs):]
                s.update(dict(zip(extra, rest)))
                targs = tuple(s.get(g, ("param", g)) for g in b["gen"])
        if fn == "<T as std::convert::Into<U>>::into" and len(targs) >= 2:
            hit = self.w.resolve("std::convert::From", "from", (targs[1], targs[0]))
            if hit:
                b = self.w.bodies[hit[0]]
                if len(st.frames) < self.max_depth and self.inline(hit[0], st):
                    self.push(st, f, b, args, dest, target, dict(hit[1]))
                    return True
                fn, targs = hit[0], tuple(hit[1].get(g, ("param", g)) for g in b["gen"])
        for key in (fn, gfn):
            m = self.models.get(key) or MODELS.get(key)
            if m is None:
                for pat, mm in PATTERNS:
                    if pat.search(key):
                        m = mm
                        break
            if m is not None:
                r = m(self, st, f, fn, targs, args, dest, target, line)
                if r is not None:
                    if r is True:
                        if target < 0:
                            return self.panic(st, fn)
                        return self.jump(st, f, target)
                    if r == "pushed":
                        return True
                    if r == "forked" or r == "end":
                        return False
        if fn.rsplit("::", 1)[-1] in ("call_once", "call_mut", "call") and "ops::Fn" in gfn or gfn.startswith("std::ops::Fn"):
            tup = args[1] if len(args) > 1 else UNIT
            cargs = [v for _, v in tup[3]] if tup[0] == "agg" else ([] if tup == UNIT else [mk_field(tup, str(i)) for i in range(9)])
            r = self.call_closure(st, f, args[0], cargs, dest, target)
            if r == "pushed":
                return True
            if r:
                return self.jump(st, f, target)
        b = self.w.bodies.get(fn)
        if b is not None and target >= 0 and len(st.frames) < self.max_depth and all(fr.body is not b for fr in st.frames) and self.inline(fn, st):
            s = dict(zip(b["gen"], targs))
            self.push(st, f, b, args, dest, target, s)
            return True
        return self.opaque(st, f, fn, gfn, targs, gargs, args, dest, target, line)

    def trait_arity(self, trait, gargs):
        ims = self.w.impls_of(trait)
        if ims:
            return len(ims[0]["targs"])
        return len(gargs)

    def panic(self, st, fn):
        self.finish(st, "panic", where=fn)
        return False

    def opaque(self, st, f, fn, gfn, targs, gargs, args, dest, target, line):
        ret = None
        rt = subst(f.body["T"][f.body["locals"][dest[0]]], f.sub) if not dest[1] else None
        mut = any(has_mref(a) for a in args)
        name = fn
        if target < 0:
            st.effects.append(("call", st.nseq, fn, targs, tuple(args), line, f.body["id"]))
            self.finish(st, "panic", where=fn)
            return False
        if mut:
            if rt is not None and is_reflike(rt) and pure_deriv(fn):
                ret = ("der", fn, tuple(targs), tuple(args))
            else:
                n = st.nseq
                st.nseq += 1
                st.effects.append(("call", n, fn, targs, tuple(args), line, f.body["id"]))
                ret = ("res", n, fn, tuple(targs), tuple(args))
                for a in args:
                    for root, path in mrefs(a, []):
                        if root in st.store or root[0] == "T":
                            old = get_path(self.load_root(st, root), path)
                            st.store[root] = mk_upd(self.load_root(st, root), path, ("mod", n, fn, old))
        else:
            if effectful_by_name(fn):
                n = st.nseq
                st.nseq += 1
                st.effects.append(("call", n, fn, targs, tuple(args), line, f.body["id"]))
                ret = ("res", n, fn, tuple(targs), tuple(args))
            else:
                ret = ("call", fn, tuple(targs), tuple(args))
                st.effects.append(("pure", fn, tuple(targs), tuple(args), line, f.body["id"]))
        self.write(st, f, dest, ret)
        return self.jump(st, f, target)


def pure_deriv(fn):
    n = fn.rsplit("::", 1)[-1]
    return n not in ("next", "collect_arr", "make_aligned")


def is_reflike(t):
    """types that carry a (mutable) borrow: references, iterators/views over them"""
    if t[0] == "ref":
        return True
    if t[0] == "ptr":
        return True
    if t[0] == "adt":
        p = t[1]
        if p.startswith(("std::slice::", "core::slice::", "std::iter::", "rayon::", "std::option::Option", "std::pin")) or p.endswith(("Iter", "IterMut", "Chunks")):
            return any(is_reflike(a) for a in t[2]) or "slice::" in p
        return any(is_reflike(a) for a in t[2])
    if t[0] == "tuple":
        return any(is_reflike(a) for a in t[1])
    if t[0] == "slice":
        return True
    if t[0] == "alias":
        return True
    return False


EFFECT_NAMES = re.compile(r"(_print|_eprint|exit|abort|into_raw|from_raw|println|Vec.*::from_raw_parts|::leak|mem::forget|ManuallyDrop::<T>::new)$")


def effectful_by_name(fn):
    return bool(EFFECT_NAMES.search(fn))


# ---------------------------------------------------------------------- arithmetic & booleans
BITS = {"bool": 1, "u8": 8, "i8": 8, "u16": 16, "i16": 16, "u32": 32, "i32": 32, "char": 32, "u64": 64, "i64": 64, "usize": 64, "isize": 64, "u128": 128, "i128": 128}


def mk_cast(ty, v, src=("?",)):
    to, fr = tstr(ty), tstr(src)
    if v[0] == "int":
        w = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "u128": 128}.get(to)
        if w:
            return ("int", v[1] & ((1 << w) - 1))
    if BITS.get(to, 999) < BITS.get(fr, 0) or (to in ("f32", "f64")) != (fr in ("f32", "f64")) and (to in BITS or fr in BITS):
        return ("cast", to, v, "lossy")     # does not keep the value in general
    return ("cast", tstr(ty), v)


COMM = {"Add", "Mul", "BitAnd", "BitOr", "BitXor", "Eq", "Ne"}


def mk_bin(op, a, b):
    op = op.replace("Unchecked", "").replace("WithOverflow", "")
    if a[0] == "int" and b[0] == "int":
        try:
            r = {"Add": lambda: a[1] + b[1], "Mul": lambda: a[1] * b[1], "Eq": lambda: int(a[1] == b[1]), "Ne": lambda: int(a[1] != b[1]),
                 "Lt": lambda: int(a[1] < b[1]), "Le": lambda: int(a[1] <= b[1]), "Gt": lambda: int(a[1] > b[1]), "Ge": lambda: int(a[1] >= b[1]),
                 "Div": lambda: a[1] // b[1], "Rem": lambda: a[1] % b[1], "Shl": lambda: a[1] << b[1], "Shr": lambda: a[1] >> b[1],
                 "BitAnd": lambda: a[1] & b[1], "BitOr": lambda: a[1] | b[1], "BitXor": lambda: a[1] ^ b[1]}.get(op)
            if op == "Sub" and a[1] >= b[1]:
                return ("int", a[1] - b[1])
            if r is not None:
                return ("int", r())
        except ZeroDivisionError:
            pass
    if op == "Ne":
        return mk_un("Not", mk_bin("Eq", a, b))
    if op == "Gt":
        return ("bin", "Lt", b, a)
    if op == "Le":
        return mk_un("Not", ("bin", "Lt", b, a))
    if op == "Ge":
        return mk_un("Not", ("bin", "Lt", a, b))
    if op in COMM and repr(a) > repr(b):
        a, b = b, a
    if op == "Mul":
        if a == ("int", 1):
            return b
        if b == ("int", 1):
            return a
    if op == "Add":
        if a == ("int", 0):
            return b
        if b == ("int", 0):
            return a
    if op == "Eq" and a == b:
        return TRUE
    return ("bin", op, a, b)


def mk_un(op, a):
    if op == "Not":
        if a in (TRUE, FALSE):
            return ("int", 1 - a[1])
        if a[0] == "un" and a[1] == "Not":
            return a[2]
        return ("un", "Not", a)
    return ("un", op, a)


def canon_bool(t):
    """(atom, positive?)"""
    pos = True
    while t[0] == "un" and t[1] == "Not":
        t, pos = t[2], not pos
    if t[0] == "bin" and t[1] == "Lt":
        a, b = t[2], t[3]
        if b == ("int", 1):
            return mk_bin("Eq", a, ("int", 0)), pos
        if a == ("int", 0):
            return mk_bin("Eq", b, ("int", 0)), not pos
    return t, pos


# ---------------------------------------------------------------------- models
MODELS = {}
PATTERNS = []


def model(*names):
    def d(fn):
        for n in names:
            if n.startswith("/"):
                PATTERNS.append((re.compile(n[1:]), fn))
            else:
                MODELS[n] = fn
        return fn
    return d


OK = lambda v: ("agg", "std::result::Result", "Ok", (("0", v),))
ERR = lambda v: ("agg", "std::result::Result", "Err", (("0", v),))
SOME = lambda v: ("agg", "std::option::Option", "Some", (("0", v),))
NONE = ("agg", "std::option::Option", "None", ())
CONT = lambda v: ("agg", "std::ops::ControlFlow", "Continue", (("0", v),))
BRK = lambda v: ("agg", "std::ops::ControlFlow", "Break", (("0", v),))


def is_result_fn(fn):
    return "Result" in fn


def fork_on(self, st, f, x, line, alts):
    """alts: [(variant name, discriminant, action(st, f) -> continue?)]"""
    if x[0] == "agg" and x[2]:
        for vn, dv, act in alts:
            if vn == x[2]:
                return act(st, f)
    d = ("discr", x)
    known = st.known.get(d)
    todo = [(vn, dv, act) for vn, dv, act in alts if known is None or known == dv]
    for i, (vn, dv, act) in enumerate(todo):
        s2 = st.fork()
        f2 = s2.frames[-1]
        if d not in s2.known:
            s2.conds.append((d, dv, f.body["id"], line))
            s2.known[d] = dv
        r = act(s2, f2)
        if r is True:
            self.work.append(s2)
    return "forked"


def variants_of(fn):
    if "option::Option" in fn:
        return (("Some", 1), ("None", 0))
    return (("Ok", 0), ("Err", 1))


def payload(x, vn):
    if x[0] == "agg" and x[2] == vn:
        v = agg_get(x, "0")
        return v if v is not None else UNIT
    return mk_field(mk_as(x, vn), "0")


def deref_val(self, st, x):
    if x[0] == "mref":
        return get_path(self.load_root(st, x[1]), x[2])
    return x


@model("std::ops::Try::branch", "/ as std::ops::Try>::branch$")
def m_branch(self, st, f, fn, targs, args, dest, target, line):
    x = args[0]
    opt = "option::Option" in fn or (x[0] == "agg" and x[1] == "std::option::Option")
    good, bad = (("Some", 1), ("None", 0)) if opt else (("Ok", 0), ("Err", 1))

    def g(s, fr):
        self.write(s, fr, dest, CONT(payload(x, good[0])))
        return self.jump(s, fr, target)

    def b(s, fr):
        self.write(s, fr, dest, BRK(NONE if opt else ERR(payload(x, "Err"))))
        return self.jump(s, fr, target)
    r = fork_on(self, st, f, x, line, [(good[0], good[1], g), (bad[0], bad[1], b)])
    return "pushed" if r is True else ("end" if r is False else r)


@model("std::ops::FromResidual::from_residual", "/FromResidual.*from_residual$")
def m_residual(self, st, f, fn, targs, args, dest, target, line):
    x = args[0]
    if x[0] == "agg" and x[2] == "Err":
        e = agg_get(x, "0")
        # `?` converts with From; identity when the types agree
        if len(targs) >= 3 and targs[1] != targs[2]:
            e = ("call", "std::convert::From::from", (targs[2], targs[1]), (e,))
        self.write(st, f, dest, ERR(e))
        return True
    if x == NONE:
        self.write(st, f, dest, NONE)
        return True
    return None


@model("/PartialEq(<.*>)?>?::(eq|ne)$", "std::cmp::PartialEq::eq", "std::cmp::PartialEq::ne")
def m_eq(self, st, f, fn, targs, args, dest, target, line):
    a = [deref_val(self, st, x) for x in args]
    r = mk_bin("Eq", a[0], a[1])
    if fn.endswith("ne"):
        r = mk_un("Not", r)
    self.write(st, f, dest, r)
    return True


@model("/PartialOrd(<.*>)?>?::(lt|le|gt|ge)$", "std::cmp::PartialOrd::lt", "std::cmp::PartialOrd::le", "std::cmp::PartialOrd::gt", "std::cmp::PartialOrd::ge")
def m_ord(self, st, f, fn, targs, args, dest, target, line):
    a = [deref_val(self, st, x) for x in args]
    op = {"lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}[fn[-2:]]
    self.write(st, f, dest, mk_bin(op, a[0], a[1]))
    return True


@model("/as std::ops::Not>::not$", "std::ops::Not::not")
def m_not(self, st, f, fn, targs, args, dest, target, line):
    self.write(st, f, dest, mk_un("Not", args[0]))
    return True


@model("/as std::ops::(Add|Sub|Mul|Div|Rem|BitAnd|BitOr|BitXor|Shl|Shr)(<.*>)?>::\\w+$")
def m_arith(self, st, f, fn, targs, args, dest, target, line):
    if self.w.bodies.get(fn) is not None:
        return None
    m = re.search(r"ops::(\w+?)(<.*>)?>::\w+$", fn)
    self.write(st, f, dest, mk_bin(m.group(1), deref_val(self, st, args[0]), deref_val(self, st, args[1])))
    return True


@model("/^(core|std)::num::<impl \\w+>::(wrapping|unchecked)_(add|sub|mul)$")
def m_wrap(self, st, f, fn, targs, args, dest, target, line):
    op = {"add": "Add", "sub": "Sub", "mul": "Mul"}[fn[-3:]]
    self.write(st, f, dest, mk_bin(op, args[0], args[1]))
    return True


IDENT = re.compile(
    r"(^std::borrow::Borrow(Mut)?::borrow|as std::borrow::Borrow(Mut)?(<.*>)?>::borrow"
    r"|as std::clone::Clone>::clone$|^std::clone::Clone::clone$|^std::borrow::ToOwned::to_owned"
    r"|as std::convert::Into<.*>>::into$|as std::convert::From<.*>>::from$"
    r"|<T as std::convert::(Into|From)|as std::convert::AsRef<.*>>::as_ref$|as std::convert::AsMut<.*>>::as_mut$"
    r"|^std::ops::Deref(Mut)?::deref(_mut)?$|as std::ops::Deref(Mut)?>::deref(_mut)?$|^std::convert::identity$"
    r"|^std::hint::black_box$|std::boxed::Box<T>>?::new$|^std::boxed::Box::<T>::new$"
    r"|^std::option::Option::<&T>::(copied|cloned)$|^std::option::Option::<T>::as_(ref|mut|deref|deref_mut)$|^std::result::Result::<T, E>::as_(ref|mut)$|^std::option::Option::<&mut T>::(copied|cloned)$)")


@model("/" + "(borrow(_mut)?|clone|to_owned|deref(_mut)?|as_ref|as_mut|identity|black_box|copied|cloned)$")
def m_ident(self, st, f, fn, targs, args, dest, target, line):
    if fn in self.w.bodies or not IDENT.search(fn) or len(args) != 1:
        return None
    v = args[0]
    if fn.endswith(("clone", "to_owned", "copied", "cloned")):
        v = deref_val(self, st, v)
    self.write(st, f, dest, v)
    return True


@model("/as std::iter::IntoIterator>::into_iter$", "std::iter::IntoIterator::into_iter")
def m_into_iter(self, st, f, fn, targs, args, dest, target, line):
    if fn in self.w.bodies:
        return None
    x = args[0]
    if x[0] == "mref":
        inner = deref_val(self, st, x)
        if inner[0] == "it":
            self.write(st, f, dest, x)
            return True
    self.write(st, f, dest, x if x[0] == "it" else ("it", "iter", (x,)))
    return True


def to_it(x):
    return x if x[0] == "it" else ("it", "iter", (x,))


ADAPT = {"zip": 2, "map": 2, "enumerate": 1, "rev": 1, "skip": 2, "take": 2, "filter": 2, "chain": 2, "step_by": 2, "cloned": 1, "copied": 1,
         "zip_eq": 2, "flat_map": 2, "take_while": 2, "skip_while": 2, "peekable": 1, "inspect": 2, "filter_map": 2, "by_ref": 1,
         "into_par_iter": 1, "flatten": 1, "cycle": 1}


@model("/^(std|core)::iter::zip$", "/(std|core)::iter::Iterator>?::(zip|map|enumerate|rev|skip|take|filter|chain|step_by|cloned|copied|flat_map|take_while|skip_while|peekable|inspect|filter_map|flatten|cycle)$",
       "/rayon::iter::(\\w+::)?(Indexed)?ParallelIterator>?::(zip|zip_eq|map|enumerate|rev|skip|take|filter|chain|cloned|copied|flat_map|inspect)$",
       "/ as (std::iter::\\w+|rayon::iter::\\w+)(<.*>)?>::(zip|zip_eq|map|enumerate|rev|skip|take|filter|chain|step_by|cloned|copied|flat_map|take_while|skip_while|peekable|inspect|filter_map|flatten|cycle)$")
def m_adapt(self, st, f, fn, targs, args, dest, target, line):
    if fn in self.w.bodies:
        return None
    n = fn.rsplit("::", 1)[-1]
    a = list(args)
    a[0] = to_it(a[0])
    if n in ("zip", "zip_eq", "chain"):
        a[1] = to_it(a[1])
        n = "zip" if n == "zip_eq" else n
    if n in ("cloned", "copied"):
        self.write(st, f, dest, a[0])
        return True
    self.write(st, f, dest, ("it", n, tuple(a)))
    return True


@model("/(std|core)::slice::<impl \\[T\\]>::(iter|iter_mut)$", "/rayon::.*::(par_iter|par_iter_mut|into_par_iter)$")
def m_slice_iter(self, st, f, fn, targs, args, dest, target, line):
    self.write(st, f, dest, ("it", "iter", (args[0],)))
    return True


@model("/ops::Range<.*as std::iter::Iterator|ops::Range<.*>>::into_iter$")
def m_range(self, st, f, fn, targs, args, dest, target, line):
    return None


def range_bounds(x):
    """(start, end) of a half open range of numbers"""
    if x[0] == "agg" and x[1] == "std::ops::Range":
        return agg_get(x, "start"), agg_get(x, "end")
    if x[0] in ("call", "res") and isinstance(x[-3], str) and re.search(r"RangeInclusive(::)?<.*>::new$|RangeInclusive::new$", x[-3]) and len(x[-1]) == 2:
        return x[-1][0], mk_bin("Add", x[-1][1], ("int", 1))
    return None


def elem_of(it, tag, ev=None):
    """(term, pending closure application or None)"""
    if it[0] != "it":
        return ("elem", it, tag), None
    k, a = it[1], it[2]
    if ev is not None and k in ("zip", "enumerate", "rev", "iter", "map"):
        r = elem_deep(it, tag, ev)
        if r is not None:
            return r, None
    if k == "zip":
        x, p = elem_of(a[0], tag)
        y, q = elem_of(a[1], tag)
        if p or q:
            return ("elem", it, tag), None
        return ("agg", "tuple", "", (("0", x), ("1", y))), None
    if k == "enumerate":
        x, p = elem_of(a[0], tag)
        if p:
            return ("elem", it, tag), None
        return ("agg", "tuple", "", (("0", ("idx", tag)), ("1", x))), None
    if k == "map":
        x, p = elem_of(a[0], tag)
        if p:
            return ("elem", it, tag), None
        return None, (a[1], x)
    if k == "iter":
        x = a[0]
        if x[0] == "it":
            return elem_of(x, tag)
        b = range_bounds(x)
        if b:
            return ("idx", b[0], b[1], tag), None
        return ("elem", x, tag), None
    return ("elem", it, tag), None


PUREOP = re.compile(r"::(shl|shr|add|sub|mul|neg|not|bitand|bitor|bitxor|wrapping_(add|sub|mul|neg|shl|shr)|cast_into|into_signed|into_unsigned)$")


def elem_deep(it, tag, ev):
    """element of an adapter chain with the closures of inner map() evaluated, or None"""
    if it[0] != "it":
        return ("elem", it, tag)
    k, a = it[1], it[2]
    if k == "zip":
        x, y = elem_deep(a[0], tag, ev), elem_deep(a[1], tag, ev)
        return None if x is None or y is None else ("agg", "tuple", "", (("0", x), ("1", y)))
    if k == "enumerate":
        x = elem_deep(a[0], tag, ev)
        return None if x is None else ("agg", "tuple", "", (("0", ("idx", tag)), ("1", x)))
    if k == "map":
        x = elem_deep(a[0], tag, ev)
        return None if x is None else ev(a[1], x)
    if k == "chain":
        # the first elements come from one, the others from the other
        x, y = elem_deep(a[0], tag, ev), elem_deep(a[1], tag, ev)
        return None if x is None or y is None else ("call", "chain", (), (x, y))
    if k == "rev":
        # elements of a reversed chain: same element terms, marked as taken from the end
        return elem_deep(a[0], ("rev", tag) if tag[0] != "rev" else tag[1], ev)
    if k == "iter":
        x = a[0]
        if x[0] == "it":
            return elem_deep(x, tag, ev)
        b = range_bounds(x)
        if b:
            return ("idx", b[0], b[1], tag)
        return ("elem", x, tag)
    return ("elem", it, tag)


def deep_ev(self, st):
    return (lambda clo, x: self.apply_here(st, clo, [x])) if self.deep_elem else None


@model("/(as std::iter::Iterator>|^std::iter::Iterator)::next$", "/as std::iter::DoubleEndedIterator>::next_back$")
def m_next(self, st, f, fn, targs, args, dest, target, line):
    if fn in self.w.bodies:
        return None
    x = args[0]
    if x[0] == "mref":
        it = get_path(self.load_root(st, x[1]), x[2])
    else:
        it = x
    # iterators stepped by the same loop, whether by its head or in its body, walk in step
    tag = (f.fid, f.bb)
    inloop = False
    for k in range(len(st.frames) - 1, -1, -1):
        g = st.frames[k]
        if g.loops:
            tag, inloop = (g.fid, g.loops[-1]), True
            break
        if g.ret == -2 and k:
            tag, inloop = (st.frames[k - 1].fid, st.frames[k - 1].bb), True
            break
    if inloop:
        key = (tag, (x[1], x[2]) if x[0] == "mref" else x)
        n = sum(1 for y in st.nexts if y == key)
        st.nexts += (key,)
        if n:
            tag = tag + ("step", n)
    # stop alternative
    s2 = st.fork()
    f2 = s2.frames[-1]
    self.write(s2, f2, dest, NONE)
    s2.conds.append((("exhausted", it, tag), 1, f.body["id"], line))
    if self.jump(s2, f2, target):
        self.work.append(s2)
    if not inloop:
        st.nseq += 1
        tag = tag + (st.nseq,)
    st.conds.append((("exhausted", it, tag), 0, f.body["id"], line))
    e, pend = elem_of(it, tag, deep_ev(self, st))
    if pend:
        r = self.call_closure(st, f, pend[0], [pend[1]], dest, target, SOME)
        if r == "pushed":
            return "pushed"
        if r is True:
            return True
        e = ("elem", it, tag)
    self.write(st, f, dest, SOME(e))
    return True


@model("/(Iterator>?|ParallelIterator>?)::(for_each)$")
def m_for_each(self, st, f, fn, targs, args, dest, target, line):
    if fn in self.w.bodies:
        return None
    it = to_it(args[0])
    tag = (f.fid, f.bb)
    # zero iterations
    s2 = st.fork()
    f2 = s2.frames[-1]
    self.write(s2, f2, dest, UNIT)
    s2.effects.append(("loop", f.fid, ("it", f.bb)))
    s2.conds.append((("exhausted", it, tag), 1, f.body["id"], line))
    # numbers and flags the closure assigns have an unknown value at the start of an iteration, and after the loop
    clo = args[1]
    if clo[0] == "agg" and clo[1].startswith("closure:"):
        for name, v in clo[3]:
            if v[0] == "mref" and v[1] in st.store:
                old = get_path(self.load_root(st, v[1]), v[2])
                if old is not None and old[0] in ("int", "bin", "lv", "cast"):
                    lv = ("lv", (f.fid, ("it", f.bb), name, v[1], v[2]))
                    self.lv_entry.setdefault(lv, []).append(old)
                    for s in (st, s2):
                        s.store[v[1]] = mk_upd(self.load_root(s, v[1]), v[2], lv) if v[2] else lv
    if self.jump(s2, f2, target):
        self.work.append(s2)
    st.effects.append(("loop", f.fid, ("it", f.bb)))
    st.conds.append((("exhausted", it, tag), 0, f.body["id"], line))
    e, pend = elem_of(it, tag, deep_ev(self, st))
    if pend:
        e = ("elem", it, tag)
    # run the body once; its end is a back edge
    r = self.call_closure(st, f, args[1], [e], dest, target, lambda v: UNIT)
    if r == "pushed":
        st.frames[-1].ret = -2
        return "pushed"
    st.effects.append(("call", st.nseq, fn, targs, tuple(args), line, f.body["id"]))
    return True


@model("/Iterator>?::(any|all|position|find)$")
def m_any(self, st, f, fn, targs, args, dest, target, line):
    if fn in self.w.bodies:
        return None
    it = args[0]
    it = to_it(deref_val(self, st, it))
    clo = args[1]
    tag = ("q",)
    e, pend = elem_of(it, tag)
    if pend:
        e = ("elem", it, tag)
    p = self.pure_apply(st, clo, [e])
    kind = fn.rsplit("::", 1)[-1]
    if kind in ("any", "all") and p is not None:
        if kind == "all":
            t = mk_un("Not", ("quant", "any", it, mk_un("Not", p)))
        else:
            t = ("quant", "any", it, p)
        self.write(st, f, dest, t)
        return True
    return None


def pure_apply(self, st, clo, args):
    """Boolean/value term of a side-effect free closure application, or None."""
    clo = deref_val(self, st, clo)
    if clo[0] == "fn":
        b = self.w.bodies.get(clo[1])
        if b is None:
            return ("call", clo[1], clo[2], tuple(args))
        cargs, s = args, dict(zip(b["gen"], clo[2]))
    elif clo[0] == "agg" and clo[1].startswith("closure:"):
        b = self.w.bodies.get(clo[1][8:])
        if b is None:
            return None
        clo = ("agg", clo[1], clo[2], tuple((n, deref_val(self, st, v)) for n, v in clo[3]))
        cargs, s = [clo] + list(args), self.closure_sub(st, b)
    else:
        return None
    i = Interp(self.w, inline=self.inline, models=self.models, transparent=self.transparent, max_traces=64)
    try:
        tr = i.run(b, args=cargs, sub=s)
    except TooManyTraces:
        return None
    tr = [t for t in tr if t.status == "return"]
    if any(e[0] in ("call", "write") for t in tr for e in t.effects):
        return None
    return merge_bool(tr)


Interp.pure_apply = pure_apply


def merge_bool(tr):
    if not tr:
        return None
    if len(tr) == 1:
        return tr[0].ret
    out = []
    for t in tr:
        out.append((tuple(sorted(((c, v) for c, v, *_ in t.conds), key=repr)), t.ret))
    # boolean DNF
    if all(r[0] == "int" and r[1] in (0, 1) or True for _, r in out):
        return ("cases", tuple(sorted(out, key=repr)))
    return None


@model("/^std::(result::Result|option::Option)::<.*>::(unwrap|expect|unwrap_or_else|unwrap_or|unwrap_unchecked|unwrap_or_default)$")
def m_unwrap(self, st, f, fn, targs, args, dest, target, line):
    x = args[0]
    good, bad = variants_of(fn)
    n = fn.rsplit("::", 1)[-1]

    def g(s, fr):
        self.write(s, fr, dest, payload(x, good[0]))
        return self.jump(s, fr, target)

    def b(s, fr):
        if n in ("unwrap", "expect", "unwrap_unchecked"):
            s.effects.append(("panic", fn, x, line))
            self.finish(s, "panic", where=fn)
            return False
        if n == "unwrap_or":
            self.write(s, fr, dest, args[1])
            return self.jump(s, fr, target)
        if n == "unwrap_or_else":
            r = self.call_closure(s, fr, args[1], [] if bad[0] == "None" else [payload(x, "Err")], dest, target)
            if r == "pushed":
                return True
            if r:
                return self.jump(s, fr, target)
        self.write(s, fr, dest, ("call", fn, targs, tuple(args)))
        return self.jump(s, fr, target)
    r = fork_on(self, st, f, x, line, [(good[0], good[1], g), (bad[0], bad[1], b)])
    return "pushed" if r is True else ("end" if r is False else r)


@model("/^std::(result::Result|option::Option)::<.*>::(map|map_err|and_then|or_else|ok_or|ok_or_else|ok|err)$")
def m_comb(self, st, f, fn, targs, args, dest, target, line):
    x = args[0]
    n = fn.rsplit("::", 1)[-1]
    good, bad = variants_of(fn)
    opt = good[0] == "Some"
    wrapg = SOME if opt else OK

    def put(s, fr, v):
        self.write(s, fr, dest, v)
        return self.jump(s, fr, target)

    def app(s, fr, clo, a, wrap):
        r = self.call_closure(s, fr, clo, a, dest, target, wrap)
        if r == "pushed":
            return True
        if r:
            return self.jump(s, fr, target)
        v = ("call", "<apply>", (), tuple([clo] + a))
        self.write(s, fr, dest, wrap(v) if wrap else v)
        return self.jump(s, fr, target)

    def g(s, fr):
        v = payload(x, good[0])
        if n == "map":
            return app(s, fr, args[1], [v], wrapg)
        if n == "and_then":
            return app(s, fr, args[1], [v], None)
        if n in ("ok_or", "ok_or_else"):
            return put(s, fr, OK(v))
        if n == "ok":
            return put(s, fr, SOME(v))
        if n == "err":
            return put(s, fr, NONE)
        return put(s, fr, wrapg(v))

    def b(s, fr):
        e = payload(x, "Err") if not opt else None
        if n in ("map", "and_then"):
            return put(s, fr, NONE if opt else ERR(e))
        if n == "map_err":
            return app(s, fr, args[1], [e], ERR)
        if n == "or_else":
            return app(s, fr, args[1], [] if opt else [e], None)
        if n == "ok_or":
            return put(s, fr, ERR(args[1]))
        if n == "ok_or_else":
            return app(s, fr, args[1], [], ERR)
        if n == "ok":
            return put(s, fr, NONE)
        if n == "err":
            return put(s, fr, SOME(e))
        return put(s, fr, NONE)
    r = fork_on(self, st, f, x, line, [(good[0], good[1], g), (bad[0], bad[1], b)])
    return "pushed" if r is True else ("end" if r is False else r)


@model("/^std::(result::Result|option::Option)::<.*>::(is_ok|is_err|is_some|is_none)$")
def m_is(self, st, f, fn, targs, args, dest, target, line):
    x = deref_val(self, st, args[0])
    n = fn.rsplit("::", 1)[-1]
    want = {"is_ok": ("Ok", 0), "is_err": ("Err", 1), "is_some": ("Some", 1), "is_none": ("None", 0)}[n]
    if x[0] == "agg" and x[2]:
        self.write(st, f, dest, TRUE if x[2] == want[0] else FALSE)
        return True
    good, bad = variants_of(fn)

    def mk(v):
        def a(s, fr):
            self.write(s, fr, dest, v)
            return self.jump(s, fr, target)
        return a
    alts = [(vn, dv, mk(TRUE if vn == want[0] else FALSE)) for vn, dv in (good, bad)]
    r = fork_on(self, st, f, x, line, alts)
    return "pushed" if r is True else ("end" if r is False else r)


# ---------------------------------------------------------------------- printing
def short(fn):
    m = re.search(r" for ([\w:]+)(<.*>)?>::(\w+)$", fn)
    if m:
        return m.group(1).rsplit("::", 1)[-1] + "::" + m.group(3)
    m = re.match(r"^<(.*) as (.*)>::(\w+)$", fn)
    if m:
        return m.group(2).split("<")[0].rsplit("::", 1)[-1] + "::" + m.group(3)
    fn = re.sub(r"::<[^:]*?>(?=::)", "", fn)
    return "::".join(fn.split("::")[-2:])


def show(t, d=0):
    if not isinstance(t, tuple) or not t:
        return str(t)
    if d > 14:
        return "..."
    k = t[0]
    S = lambda x: show(x, d + 1)
    if k == "param":
        return t[2]
    if k in ("int", "str"):
        return repr(t[1])
    if k == "flt":
        return t[1]
    if k == "unit":
        return "()"
    if k in ("def", "static"):
        return str(t[1]).rsplit("::", 1)[-1]
    if k == "field":
        return S(t[1]) + "." + str(t[2])
    if k == "as":
        return S(t[1])
    if k == "index":
        return S(t[1]) + "[" + S(t[2]) + "]"
    if k in ("call", "der"):
        return short(t[1]) + "(" + ", ".join(S(a) for a in t[3]) + ")"
    if k == "res":
        return "#%d=" % t[1] + short(t[2]) + "(" + ", ".join(S(a) for a in t[4]) + ")"
    if k == "mref":
        r = t[1]
        b = "P%d" % r[1] if r[0] == "P" else (S(r[1]) if r[0] == "T" else "L%s" % (r,))
        return "&mut " + b + "".join("." + (p if isinstance(p, str) else str(p[0])) for p in t[2])
    if k == "agg":
        n = t[1].rsplit("::", 1)[-1]
        return (n + ("::" + t[2] if t[2] else "")) + "{" + ", ".join(a + ":" + S(b) for a, b in t[3]) + "}"
    if k == "bin":
        return "(" + S(t[2]) + " " + t[1] + " " + S(t[3]) + ")"
    if k == "un":
        return t[1] + "(" + S(t[2]) + ")"
    if k == "cast":
        return S(t[2]) + " as " + t[1]
    if k == "discr":
        return "variant(" + S(t[1]) + ")"
    if k == "it":
        return t[1] + "(" + ", ".join(S(x) for x in t[2]) + ")"
    if k == "elem":
        return "elem(" + S(t[1]) + ")"
    if k == "idx":
        return "idx" + ("(" + S(t[1]) + ".." + S(t[2]) + ")" if len(t) > 3 else "")
    if k == "mod":
        return S(t[3]) + "'"
    if k == "upd":
        return S(t[1]) + "{" + ".".join(p if isinstance(p, str) else str(p[0]) for p in t[2]) + ":=" + S(t[3]) + "}"
    if k == "quant":
        return t[1] + "(" + S(t[2]) + ": " + S(t[3]) + ")"
    if k == "fn":
        return short(t[1])
    return "(" + " ".join(S(x) if isinstance(x, tuple) else str(x) for x in t) + ")"


def show_eff(e):
    if e[0] == "call":
        return "#%d %s(%s)" % (e[1], short(e[2]), ", ".join(show(a) for a in e[4]))
    if e[0] == "pure":
        return "pure %s(%s)" % (short(e[1]), ", ".join(show(a) for a in e[3]))
    if e[0] == "write":
        return "write %s%s := %s" % (e[1][:2] if e[1][0] != "T" else show(e[1][1]), "".join("." + (p if isinstance(p, str) else str(p[0])) for p in e[2]), show(e[3]))
    return str(e)[:160]
