"""C08, C09: serialization.

The wire layout of a type is derived from the compiled (derived or hand written) serde code: for
writers, the ordered serialize_* calls made on every success path and the value handed to each; for
readers, the ordered element reads and the place each value ends up in.  Writer and reader layouts
of an entity must be the same tree.
"""
import re
from ..core import *
from ..interp import Interp, TooManyTraces, show, agg_get
from ..canon import Canon, fstr, method
from ..facts import subst, tstr

SE = "concrete_core::specification::engines::entity_serialization::EntitySerializationEngine"
DE = "concrete_core::specification::engines::entity_deserialization::EntityDeserializationEngine"
SERDE_EV = re.compile(r"^serde::(ser|de|Serializer|Deserializer)\b.*::(serialize_\w+|next_element(_seed)?|deserialize_\w+|end|variant|unit_variant|newtype_variant|next_entry|next_key|next_value)$")


def event(self, st, f, fn, targs, args, dest, target, line):
    n = st.nseq
    st.nseq += 1
    st.effects.append(("call", n, fn, tuple(targs), tuple(args), line, f.body["id"]))
    self.write(st, f, dest, ("res", n, fn, tuple(targs), tuple(args)))
    return True


class Models(dict):
    """every serde data-format call is an event"""

    def get(self, k, d=None):
        if isinstance(k, str) and k.startswith("serde::") and SERDE_EV.match(k):
            return event
        return dict.get(self, k, d)


def make(w):
    def inl(fn, st):
        if not fn.startswith("concrete_core::"):
            return False
        b = w.bodies[fn]
        if b.get("trait", "").startswith("serde::"):
            return False
        return not guarded_fn(fn) and sname(fn) not in ("serialize_fourier_buffer", "deserialize_fourier_buffer")
    return Interp(w, inline=inl, models=Models(_=None))


def sname(fn):
    return fn.rsplit("::", 1)[-1]


def peel(t):
    while t[0] in ("ref", "ptr") or (t[0] == "adt" and t[1] in ("std::boxed::Box", "std::borrow::Cow", "std::sync::Arc")):
        t = t[2] if t[0] in ("ref", "ptr") else t[2][0]
    return t


class Wire:
    def __init__(self, w, ctx):
        self.w, self.ctx = w, ctx
        self.I = make(w)
        self.cw, self.cr = {}, {}
        self.n = 0

    # -------------------------------------------------------------- builtin layouts
    def builtin(self, t, rec):
        if t[0] == "prim":
            return ("prim", {"usize": "u64", "isize": "i64"}.get(t[1], t[1]))
        if t[0] in ("slice",):
            return ("seq", rec(t[1]))
        if t[0] == "array":
            return ("array", rec(t[1]), tstr(t))
        if t[0] == "tuple":
            return ("tuple",) + tuple(rec(x) for x in t[1])
        if t[0] == "adt":
            if t[1] == "std::vec::Vec" or t[1] == "aligned_vec::AVec":
                return ("seq", rec(t[2][0]))
            if t[1] == "aligned_vec::ABox":
                return rec(t[2][0])
            if t[1] == "std::marker::PhantomData":
                return ("unit",)
            if t[1] == "std::option::Option":
                return ("option", rec(t[2][0]))
        return None

    # -------------------------------------------------------------- writers
    def writer(self, t):
        t = peel(t)
        if t in self.cw:
            return self.cw[t]
        r = self.builtin(t, self.writer)
        if r is None:
            self.cw[t] = ("rec", tstr(t))
            r = self.writer_adt(t)
        self.cw[t] = r
        return r

    def writer_adt(self, t):
        hit = self.w.resolve("serde::Serialize", "serialize", (t,))
        if not hit:
            return ("extern", tstr(t))
        b = self.w.bodies[hit[0]]
        self.n += 1
        tr = self.I.run(b, sub=dict(hit[1]))
        if any(sname(e[2]) == "serialize_seq" for x in tr for e in x.effects if e[0] == "call"):
            return self.writer_list(tr)
        outs = []
        for x in tr:
            if x.status != "return":
                if x.status != "back":
                    outs.append((x, ("bad", "ends in " + str(x.status))))
                continue
            if x.ret[0] == "agg" and x.ret[2] == "Err":
                continue
            outs.append((x, self.writer_path(b, x)))
        ls = []
        for x, o in outs:
            if o not in ls:
                ls.append(o)
        ens = [o for o in ls if o[0] == "variant"]
        if ens and len(ens) == len(ls):
            return ("enum", tuple(sorted(ens)))
        if len(ls) == 1:
            return ls[0]
        return ("bad", "%d different layouts" % len(ls))

    def writer_path(self, b, x):
        evs = [e for e in x.effects if e[0] == "call"]
        if any(e[0] == "loop" for e in x.effects):
            return ("bad", "a loop writes the value")
        if not evs:
            return ("bad", "nothing is written")
        head = sname(evs[0][2])
        if head == "serialize_struct":
            if sname(evs[-1][2]) != "end":
                return ("bad", "the structure is not ended")
            mid = evs[1:-1]
            if any(sname(e[2]) != "serialize_field" for e in mid):
                return ("bad", "unexpected " + sname(mid[0][2]))
            n = evs[0][4][2]
            if n != ("int", len(mid)):
                return ("bad", "declares %s fields, writes %d" % (show(n), len(mid)))
            return ("struct", tuple((self.field_of(e[4][2]), self.writer(e[3][-1])) for e in mid))
        if head == "serialize_newtype_struct":
            return ("struct", ((self.field_of(evs[0][4][2]), self.writer(evs[0][3][-1])),))
        if head == "serialize_unit_variant":
            v = [c for c in x.conds if c[0] == ("discr", ("param", 1, "self"))]
            sel = v[0][1] if v else None
            idx = evs[0][4][2]
            return ("variant", idx[1] if idx[0] == "int" else show(idx), sel, "unit")
        if head == "serialize_unit_struct":
            return ("unit",)
        return ("bad", "unexpected " + head)

    def field_of(self, t):
        """name of the field of self this value is, looking through serde's `with` wrapper"""
        while True:
            if t[0] == "agg" and t[1].endswith("__SerializeWith"):
                t = agg_get(t, "values")
            elif t[0] == "agg" and t[1] == "tuple":
                t = t[3][0][1]
            elif t[0] == "call" and sname(t[1]) == "constrain":
                t = t[3][0]
            elif t[0] == "sref":
                t = t[1]
            else:
                break
        if t[0] == "field" and t[1][0] == "param":
            return t[2]
        if t[0] == "field" and t[1] == ("field", ("field", ("param", 1, "self"), "values"), "0"):
            return t[2]
        return "?" + show(t)

    # ------------------------------------------------ hand written lists: header, then chunks
    def chunk_of(self, t, field, count, size):
        """is t the current element of the chunks of `field`, cut into `count` or by `size`?"""
        if t[0] != "elem":
            return False
        it = t[1]
        while it[0] in ("iter", "it"):
            it = it[1]
        if it[0] not in ("call", "der") or not field(it[-1][0]):
            return False
        m = sname(it[1])
        if m == "split_into":
            return self.same(it[-1][1], count)
        if m in ("into_chunks", "chunks_exact", "chunks_exact_mut"):
            return self.same(it[-1][1], size)
        return False

    def same(self, a, b):
        return a == b or self.poly(a) == self.poly(b)

    def poly(self, t):
        c = Canon(self.w, {})
        return repr(c.poly(t))

    def fft_size(self, t):
        while t[0] in ("call", "der") and sname(t[1]) == "as_view":
            t = t[-1][0]
        if t[0] in ("call", "der") and t[1].endswith("::Fft::new"):
            return t[-1][0]
        return None

    def writer_list(self, tr):
        head = None
        chunk = None
        for x in tr:
            if x.status == "return" and x.ret[0] == "agg" and x.ret[2] == "Err":
                continue
            evs = [e for e in x.effects if e[0] == "call"]
            if sname(evs[0][2]) != "serialize_seq":
                return ("bad", "does not start a sequence")
            n = agg_get(evs[0][4][1], "0") if evs[0][4][1][0] == "agg" else None
            el = [e for e in evs if sname(e[2]) == "serialize_element"]
            if len(el) < 2 or n is None:
                return ("bad", "header of the sequence")
            hd, body = el[:2], el[2:]
            count = hd[1][4][1]
            if not self.same(n, ("bin", "Add", count, ("int", 2))):
                return ("bad", "declares %s elements, writes %s after a header of 2" % (show(n), show(count)))
            h = tuple((self.field_of(e[4][1]) if i == 0 else "count", self.writer(e[3][-1])) for i, e in enumerate(hd))
            if head not in (None, h):
                return ("bad", "different headers")
            head = h
            if x.status == "back":
                if len(body) != 1:
                    return ("bad", "%d elements per chunk" % len(body))
                a = body[0][4][1]
                a = a[1] if a[0] == "sref" else a
                if a[0] != "agg":
                    return ("bad", "chunk element")
                c = self.chunk_struct(body[0][3][-1], "serde::Serialize", "serialize", "serialize_fourier_buffer")
                if c is None:
                    return ("bad", "chunks are not written with the Fourier buffer format")
                size = self.fft_size(agg_get(a, c[0]))
                if size is None or self.field_of(size) != h[0][0]:
                    return ("bad", "chunks are written with another transform size")
                if not self.chunk_of(agg_get(a, c[1]), lambda t: "data" in show(t), count, ("bin", "Div", size, ("int", 2))):
                    return ("bad", "chunks written: " + show(agg_get(a, c[1]))[:100])
                chunk = ("fourier",)
            elif x.status == "return":
                if not (x.ret[0] == "res" and sname(x.ret[2]) == "end"):
                    return ("bad", "the sequence is not ended")
                if body:
                    return ("bad", "elements after the chunks")
                if not any(e[0] == "loop" for e in x.effects) and count != ("int", 0) and not any(self.zero_cond(c, count) for c in x.conds):
                    return ("bad", "chunks are not written although there are some")
            else:
                return ("bad", "ends in " + str(x.status))
        return ("list", head, chunk)

    def zero_cond(self, c, t):
        return c[0] == ("bin", "Eq", t, ("int", 0)) and c[1] == 1 or c[0] == t and c[1] == 0

    def chunk_struct(self, t, trait, m, call):
        hit = self.w.resolve(trait, m, (peel(t),))
        if not hit:
            return None
        out = None
        for x in Interp(self.w, inline=lambda fn, st: "FftView" in fn).run(self.w.bodies[hit[0]], sub=dict(hit[1])):
            r = x.ret
            if x.status != "return" or not (r[0] in ("call", "res", "der") and r[2 if r[0] == "res" else 1].endswith("Plan::" + call)):
                return None
            a = r[-1]
            bi = 2
            names = []
            for v in (a[0], a[bi]):
                while v[0] == "field" and not (v[1][0] == "param"):
                    v = v[1]
                if v[0] == "mref" or v[0] != "field":
                    return None
                names.append(v[2])
            out = names
        return out

    def reader_list(self, vis):
        hit = self.w.resolve("serde::de::Visitor", "visit_seq", (vis,))
        if not hit:
            return ("bad", "no visit_seq")
        b = self.w.bodies[hit[0]]
        self.n += 1
        head = chunk = None
        self.list_traces = tr = self.I.run(b, sub=dict(hit[1]))
        self.list_body = b
        for x in tr:
            if x.status == "return" and x.ret[0] == "agg" and x.ret[2] == "Err":
                continue
            evs = [e for e in x.effects if e[0] == "call"]
            ne = [e for e in evs if sname(e[2]) == "next_element"]
            se = [e for e in evs if sname(e[2]) == "next_element_seed"]
            if len(ne) != 2 or evs[:2] != ne:
                return ("bad", "header of the sequence")
            size, count = [self.payload(e) for e in ne]
            if x.status == "back":
                if len(se) != 1:
                    return ("bad", "%d elements per chunk" % len(se))
                a = se[0][4][1]
                c = self.chunk_struct(se[0][3][-1], "serde::de::DeserializeSeed", "deserialize", "deserialize_fourier_buffer")
                if c is None or a[0] != "agg":
                    return ("bad", "chunks are not read with the Fourier buffer format")
                if self.fft_size(agg_get(a, c[0])) != size:
                    return ("bad", "chunks are read with another transform size")
                if not self.chunk_of(agg_get(a, c[1]), lambda t: True, count, ("bin", "Div", size, ("int", 2))):
                    return ("bad", "chunks read: " + show(agg_get(a, c[1]))[:100])
                chunk = ("fourier",)
            elif x.status == "return":
                v = agg_get(x.ret, "0") if x.ret[0] == "agg" else None
                if v is None or v[0] != "agg":
                    return ("bad", "reader returns " + show(x.ret)[:60])
                fs = dict(v[3])
                pf = [n for n, y in v[3] if y == size]
                if len(pf) != 1 or len(fs) != 2:
                    return ("bad", "the size read is not stored")
                h = ((pf[0], self.reader(ne[0][3][-1])), ("count", self.reader(ne[1][3][-1])))
                if head not in (None, h):
                    return ("bad", "different headers")
                head = h
                if not any(e[0] == "loop" for e in x.effects) and not any(self.zero_cond(c, count) for c in x.conds):
                    return ("bad", "chunks are not read although there are some")
            else:
                return ("bad", "ends in " + str(x.status))
        return ("list", head, chunk)

    def payload(self, e):
        r = ("res", e[1], e[2], e[3], e[4])
        return ("field", ("as", ("field", ("as", r, "Ok"), "0"), "Some"), "0")

    # -------------------------------------------------------------- readers
    def reader(self, t):
        t = peel(t)
        if t in self.cr:
            return self.cr[t]
        r = self.builtin(t, self.reader)
        if r is None:
            self.cr[t] = ("rec", tstr(t))
            r = self.reader_adt(t)
        self.cr[t] = r
        return r

    def reader_adt(self, t):
        hit = self.w.resolve("serde::Deserialize", "deserialize", (t,))
        if not hit:
            return ("extern", tstr(t))
        b = self.w.bodies[hit[0]]
        self.n += 1
        outs = []
        for x in self.I.run(b, sub=dict(hit[1])):
            if x.status == "return" and x.ret[0] == "agg" and x.ret[2] == "Err":
                continue
            evs = [e for e in x.effects if e[0] == "call"]
            if x.status != "return" or len(evs) != 1:
                return ("bad", "reads with %d format calls" % len(evs))
            o = self.reader_call(t, evs[0], x)
            if o not in outs:
                outs.append(o)
        return outs[0] if len(outs) == 1 else ("bad", "%d different layouts" % len(outs))

    def reader_call(self, t, e, x):
        head = sname(e[2])
        vis = e[3][-1]
        if head == "deserialize_struct":
            return self.visit(vis, "visit_seq")
        if head == "deserialize_newtype_struct":
            return self.visit(vis, "visit_newtype_struct")
        if head == "deserialize_unit_struct":
            return ("unit",)
        if head == "deserialize_enum":
            return self.visit_enum(vis)
        if head == "deserialize_seq":
            return self.reader_list(vis)
        return ("bad", "unexpected " + head)

    def visit(self, vis, m):
        hit = self.w.resolve("serde::de::Visitor", m, (vis,))
        if not hit:
            return ("bad", "no %s" % m)
        b = self.w.bodies[hit[0]]
        self.n += 1
        outs = []
        for x in self.I.run(b, sub=dict(hit[1])):
            if x.status != "return":
                return ("bad", "reader ends in " + str(x.status))
            if any(e[0] == "loop" for e in x.effects):
                return ("bad", "a loop reads the value")
            if x.ret[0] == "agg" and x.ret[2] == "Err":
                continue
            v = agg_get(x.ret, "0") if x.ret[0] == "agg" and x.ret[2] == "Ok" else None
            if v is None or v[0] != "agg":
                return ("bad", "reader returns " + show(x.ret)[:80])
            fields = v[3]
            if m == "visit_newtype_struct":
                if len(fields) != 1 or fields[0][1][0] != "field":
                    return ("bad", "newtype")
                src = self.read_src(fields[0][1])
                if not src or src[0] not in ("res", "call") or sname(src[2] if src[0] == "res" else src[1]) != "deserialize":
                    return ("bad", "newtype field not read: " + show(fields[0][1])[:80])
                fn = src[2] if src[0] == "res" else src[1]
                ta = src[3] if src[0] == "res" else src[2]
                pm = re.search(r"Deserialize<'de> for (\w+)>::deserialize$", fn)
                o = ("struct", ((fields[0][0], self.reader(("prim", pm.group(1)) if pm else ta[0])),))
            else:
                evs = [e for e in x.effects if e[0] == "call" and sname(e[2]) == "next_element"]
                if any(e[0] == "call" and e not in evs for e in x.effects):
                    return ("bad", "unexpected read")
                pos = {e[1]: i for i, e in enumerate(evs)}
                slots = [None] * len(evs)
                for name, val in fields:
                    src = self.read_src(val)
                    if not src or src[0] != "res" or src[1] not in pos:
                        return ("bad", "field %s is not read but set to %s" % (name, show(val)[:60]))
                    k = pos[src[1]]
                    if slots[k] is not None:
                        return ("bad", "element %d used twice" % k)
                    slots[k] = (name, self.reader(src[3][-1]))
                if None in slots:
                    return ("bad", "an element read is dropped")
                o = ("struct", tuple(slots))
            if o not in outs:
                outs.append(o)
        return outs[0] if len(outs) == 1 else ("bad", "%d success layouts" % len(outs))

    def read_src(self, v):
        while v[0] in ("field", "as"):
            v = v[1]
        return v

    def visit_enum(self, vis):
        """((range, variant index), ...) accepted by the reader"""
        hit = self.w.resolve("serde::de::Visitor", "visit_enum", (vis,))
        if not hit:
            return ("bad", "no visit_enum")
        b = self.w.bodies[hit[0]]
        self.n += 1
        arms = {}
        ft = None
        for x in self.I.run(b, sub=dict(hit[1])):
            evs = [e for e in x.effects if e[0] == "call"]
            for e in evs:
                if sname(e[2]) == "variant":
                    ft = e[3][-1]
            if x.ret[0] == "agg" and x.ret[2] == "Err" or x.status != "return":
                continue
            v = agg_get(x.ret, "0") if x.ret[0] == "agg" else None
            sel = [c for c in x.conds if c[0][0] == "discr" and self.read_src(c[0][1])[0] == "res" and sname(self.read_src(c[0][1])[2]) == "variant" and c[0][1][0] == "field" and c[0][1][2] == "0" and c[0][1][1][0] == "field"]
            if v is None or v[0] != "agg" or not sel:
                return ("bad", "enum arm " + show(x.ret)[:80])
            unit = [e for e in evs if sname(e[2]) == "unit_variant"]
            if len(unit) != 1:
                return ("bad", "enum arm reads data")
            arms[sel[-1][1]] = v[2]
        if ft is None:
            return ("bad", "enum tag not read")
        fh = self.w.resolve("serde::Deserialize", "deserialize", (ft,))
        fb = self.w.bodies[fh[0]]
        fv = None
        for x in self.I.run(fb, sub=dict(fh[1])):
            for e in x.effects:
                if e[0] == "call" and sname(e[2]) in ("deserialize_identifier", "deserialize_any"):
                    fv = e[3][-1]
        vh = self.w.resolve("serde::de::Visitor", "visit_u64", (fv,)) if fv else None
        if not vh:
            return ("bad", "enum tag visitor")
        res = []
        for x in self.I.run(self.w.bodies[vh[0]], sub=dict(vh[1])):
            if x.status != "return":
                return ("bad", "tag visitor ends in " + str(x.status))
            c = [c[1] for c in x.conds if c[0] == ("param", 2, "__value")]
            rng = c[-1] if c else ("other",)
            if x.ret[0] == "agg" and x.ret[2] == "Err":
                res.append((str(rng), "error"))
                continue
            fa = agg_get(x.ret, "0")
            idx = self.I.discr_of(fa) if fa and fa[0] == "agg" else None
            if idx is None or idx not in arms:
                return ("bad", "tag maps to " + show(x.ret)[:60])
            res.append((str(rng), arms[idx]))
        return ("enumr", tuple(sorted(res)))


def wstr(x, d=0):
    if not isinstance(x, tuple):
        return str(x)
    if x[0] == "struct":
        return "{" + ", ".join("%s:%s" % (n, wstr(v, d + 1)) for n, v in x[1]) + "}"
    if x[0] in ("prim",):
        return x[1]
    if x[0] == "seq":
        return "[%s]" % wstr(x[1])
    return str(x)[:160]


def agree(wr, rd, path=""):
    """first difference between a writer and a reader layout, or None"""
    for s, x in (("writer", wr), ("reader", rd)):
        if x[0] in ("bad", "extern", "rec"):
            return "%s of %s: %s" % (s, path or "the value", x[1])
    if wr[0] == "enum" and rd[0] == "enumr":
        m = dict(rd[1])
        for v in wr[1]:
            got = m.get(str(v[1]), m.get(next((k for k in m if k.startswith("(")), ""), None))
            if v[1] != v[2]:
                return "%s: variant %s written under index %s" % (path, v[2], v[1])
        return None
    if wr[0] != rd[0]:
        return "%s: written as %s, read as %s" % (path, wstr(wr), wstr(rd))
    if wr[0] == "struct":
        wn, rn = [n for n, _ in wr[1]], [n for n, _ in rd[1]]
        if wn != rn:
            return "%s: fields written in order %s, read in order %s" % (path or "value", wn, rn)
        for (n, a), (_, b) in zip(wr[1], rd[1]):
            r = agree(a, b, path + "." + n)
            if r:
                return r
        return None
    if wr[0] in ("seq", "option"):
        return agree(wr[1], rd[1], path + "[]")
    if wr != rd:
        return "%s: written as %s, read as %s" % (path, wstr(wr), wstr(rd))
    return None


BINSER, BINDE = "bincode::serialize", "bincode::deserialize"


def engine_impls(w, trait, m):
    for bid in sorted(w.bodies):
        b = w.bodies[bid]
        if b.get("trait") == trait and b["kind"] == "AssocFn" and method(bid) == m:
            yield b


def entity_arg(b, n):
    """n-th type argument of the engine trait this method implements"""
    ta = [b["T"][i] for i in b["targs"]]
    return ta[n]


def bare(t):
    return tstr(peel(t)).rsplit("::", 1)[-1]


def err_kind(t):
    """nesting of error constructors around the cause"""
    out = []
    while t[0] == "agg" and t[2]:
        out.append(t[2])
        t = agg_get(t, "0") or ("none",)
    return out, t


def readers(ctx, W, on_bad):
    """deserialize methods: {entity name: layout}, judging the value flow of each path"""
    w = ctx.w
    I = make(w)
    res = {}
    for b in engine_impls(w, DE, "deserialize"):
        ent = entity_arg(b, 2)
        name = bare(ent)
        key = "deserialize:%s:%s" % (engine_of(b).rsplit("::", 1)[-1], name)
        lay = None
        kinds = []
        for x in I.run(b):
            calls = [e for e in x.effects if e[0] == "pure" and not e[1].startswith(("std::", "core::"))]
            for e in x.effects:
                if e[0] == "call":
                    on_bad(key + ":effect", "has an effect other than reading the bytes: " + show(("res", e[1], e[2], e[3], e[4]))[:80], b)
            ds = [e for e in calls if e[1] == BINDE]
            if len(ds) != 1 or ds[0][3][0] != ("param", 2, b_name(b, 2)):
                on_bad(key + ":source", "does not decode exactly the bytes it was given", b)
                continue
            T = [t for t in ds[0][2] if t[0] == "adt"]
            T = T[-1] if T else ds[0][2][-1]
            call = ("call", ds[0][1], ds[0][2], ds[0][3])
            lay = (T, W.reader(T))
            dv = [c[1] for c in x.conds if c[0] == ("discr", call)]
            if x.status != "return":
                on_bad(key + ":panic", "can panic on bytes that do not decode (%s)" % (x.where if hasattr(x, "where") else x.status), b)
                continue
            ver = ("field", ("field", ("as", call, "Ok"), "0"), "version")
            inn = ("field", ("field", ("as", call, "Ok"), "0"), "inner")
            vv = [c[1] for c in x.conds if c[0] == ("discr", ver)]
            if dv and dv[-1] == 1:
                k, cause = err_kind(x.ret)
                good = k[:3] == ["Err", "Engine", "Deserialization"] and cause == ("field", ("as", call, "Err"), "0")
                kinds.append("malformed")
                if not good:
                    on_bad(key + ":malformed", "bytes that do not decode are reported as %s instead of Deserialization" % k, b)
            elif vv:
                vt = version_type(w, T)
                vn = variant_name(w, vt, vv[-1])
                if vn == "V0":
                    kinds.append("ok")
                    v = agg_get(x.ret, "0") if x.ret[0] == "agg" and x.ret[2] == "Ok" else None
                    if v is None or v[0] != "agg" or v[1] != peel(ent)[1] or len(v[3]) != 1 or v[3][0][1] != inn:
                        on_bad(key + ":value", "a supported entity is not handed back as %s wrapping what was decoded: %s" % (name, show(x.ret)[:100]), b)
                else:
                    kinds.append("unsupported")
                    k, cause = err_kind(x.ret)
                    if k != ["Err", "Engine", "UnsupportedVersion"]:
                        on_bad(key + ":unsupported", "an unsupported version gives %s instead of UnsupportedVersion" % (k or show(x.ret)[:60]), b)
            else:
                on_bad(key + ":version", "returns %s without having looked at the version" % show(x.ret)[:60], b)
        for k in ("malformed", "ok", "unsupported"):
            if k not in kinds:
                on_bad(key + ":no-" + k, "no path handles the case: " + k, b)
        res[(engine_of(b), name)] = (lay, b, key)
    return res


def b_name(b, i):
    for n, pl in b["names"]:
        if not pl[1] and pl[0] == i:
            return n
    return "_%d" % i


def version_type(w, T):
    a = w.adts.get(T[1])
    for f in a["variants"][0]["f"]:
        if f[0] == "version":
            return f[1]
    return None


def variant_name(w, t, idx):
    a = w.adts.get(t[1]) if t else None
    if a is None or not isinstance(idx, int):
        return None
    for i, v in enumerate(a["variants"]):
        if (int(v["discr"]) if v["discr"] is not None else i) == idx:
            return v["n"]


def c08(ctx):
    w = ctx.w
    W = Wire(w, ctx)
    notes = []
    rd = readers(ctx, W, lambda k, m, b: notes.append((k, m, b)))
    for k, m, b in notes:
        if k.endswith((":value", ":source", ":no-ok")):
            ctx.bad(k, m, b)
    I = make(w)
    n = 0
    for b in engine_impls(w, SE, "serialize"):
        n += 1
        ent = entity_arg(b, 1)
        name = bare(ent)
        owned = re.sub(r"(Mut)?View(?=\d*$|F64$)", "", name)
        eng = engine_of(b)
        key = "serialize:%s:%s" % (eng.rsplit("::", 1)[-1], name)
        r = rd.get((eng, owned))
        if not ctx.check(r is not None and r[0] is not None, key + ":reader", "nothing reads back what is written for " + name, b):
            continue
        for x in I.run(b):
            if x.status != "return":
                ctx.bad(key + ":panic", "a path panics", b)
                continue
            if any(e[0] == "call" for e in x.effects):
                ctx.bad(key + ":effect", "has an effect other than writing the entity", b)
            ws = [e for e in x.effects if e[0] == "pure" and e[1].startswith("bincode::")]
            if len(ws) != 1 or ws[0][1] != BINSER:
                ctx.bad(key + ":writer", "does not write exactly once with the format the reader uses", b)
                continue
            call = ("call", ws[0][1], ws[0][2], ws[0][3])
            if x.ret[0] == "agg" and x.ret[2] == "Err":
                k, cause = err_kind(x.ret)
                ctx.check(k[:3] == ["Err", "Engine", "Serialization"] and cause == ("field", ("as", call, "Err"), "0"), key + ":error", "a write failure is reported as %s" % k, b)
                continue
            ctx.check(agg_get(x.ret, "0") == ("field", ("as", call, "Ok"), "0"), key + ":bytes", "returns other bytes than those written: " + show(x.ret)[:80], b)
            v = ws[0][3][0]
            v = v[1] if v[0] == "sref" else v
            if v[0] != "agg":
                ctx.bad(key + ":content", "writes " + show(v)[:80], b)
                continue
            inner, ver = agg_get(v, "inner"), agg_get(v, "version")
            inner = inner[1] if inner and inner[0] == "sref" else inner
            ep = ("param", 2, b_name(b, 2))
            ctx.check(inner == ("field", ep, "0") or whole_view(w, inner, ("field", ep, "0")), key + ":content", "does not write the content of the entity it was given: " + show(inner or ("none",))[:80], b)
            ctx.check(ver is not None and ver[0] == "agg" and ver[2] == "V0", key + ":version", "writes version " + show(ver or ("none",))[:60], b)
            wt = [t for t in ws[0][2] if t[0] == "adt"][0]
            rt, rl = r[0]
            wl = W.writer(wt)
            d = agree(wl, rl)
            ctx.check(d is None, key + ":layout", "what is written is not what is read back: " + str(d), b, sample={"entity": name, "layout": wstr(wl)[:160]})
            va, vb = version_type(w, wt), version_type(w, rt)
            if va and vb and va != vb:
                ctx.check(agree(W.writer(va), W.reader(vb)) is None, key + ":vertype", "version tags differ", b)
    for trait, m, arg in ((SE, "serialize", 2), (DE, "deserialize", 2)):
        for b in engine_impls(w, trait, m + "_unchecked"):
            twin(ctx, b, m)
    ctx.floor("serializers", n, 60)
    ctx.floor("deserializers", len(rd), 45)
    ctx.stats["serde_impls_interpreted"] = W.n
    ctx.stats["layouts"] = len(W.cw) + len(W.cr)


def whole_view(w, t, src):
    """t is a view of src that keeps every field"""
    if t is None or t[0] not in ("call", "der") or len(t[-1]) != 1 or t[-1][0] != src or t[1] not in w.bodies:
        return False

    def same(v, path):
        while v[0] in ("call", "der") and sname(v[1]) in ("as_ref", "as_slice", "as_view", "deref", "borrow"):
            v = v[-1][0]
        if v[0] == "agg" and not v[2] and v[3]:
            return all(same(x, path + (n,)) for n, x in v[3])
        p = ()
        while v[0] == "field":
            p, v = (v[2],) + p, v[1]
        return v[0] == "param" and p == path

    for x in Interp(w, inline=lambda fn, st: sname(fn) == "as_view").run(w.bodies[t[1]]):
        if x.status != "return" or not same(x.ret, ()):
            return False
    return True


def twin(ctx, b, m):
    """m_unchecked is m, unwrapped, on the same operand"""
    w = ctx.w
    key = "%s_unchecked:%s:%s" % (m, engine_of(b).rsplit("::", 1)[-1], bare(entity_arg(b, 1 if m == "serialize" else 2)))
    rets = []
    for x in Interp(w, inline=lambda fn, st: False).run(b):
        if x.status == "panic":
            continue
        rets.append((x, [e for e in x.effects if e[0] in ("call", "pure")]))
    ok = len(rets) >= 1
    for x, es in rets:
        es = [e for e in es if not (e[0] == "pure" and e[1].startswith(("std::", "core::")))]
        ok = ok and len(es) == 1 and es[0][0] == "call" and method(es[0][2]) == m and es[0][4][1] == ("param", 2, b_name(b, 2))
        if ok:
            r = ("res", es[0][1], es[0][2], es[0][3], es[0][4])
            tr = [w.bodies[es[0][2]]] if es[0][2] in w.bodies else []
            ok = bool(tr) and [tr[0]["T"][i] for i in tr[0]["targs"]] == [b["T"][i] for i in b["targs"]]
            ok = ok and x.ret == ("field", ("as", r, "Ok"), "0")
    ctx.check(ok, key, "is not the checked form, unwrapped, on the same operand", b)


def c09(ctx):
    w = ctx.w
    W = Wire(w, ctx)
    rd = readers(ctx, W, lambda k, m, b: ctx.bad(k, m, b))
    seen = set()
    for (eng, name), (lay, b, key) in sorted(rd.items(), key=lambda x: x[1][2]):
        ctx.ok()
        if lay is None:
            continue
        vt = version_type(w, lay[0])
        if not ctx.check(vt is not None, key + ":versioned", "what is read carries no version", b):
            continue
        vr = W.reader(vt)
        good = vr[0] == "enumr"
        if good:
            for rng, vn in vr[1]:
                if rng == "0":
                    good = good and vn == "V0"
                else:
                    good = good and vn not in ("V0", "error")
            good = good and any(r.startswith("('other'") for r, _ in vr[1])
        ctx.check(good, key + ":versions", "versions are not told apart: every tag but the one written must reach the unsupported-version branch, got %s" % (vr[1],), b, sample={"entity": name, "tags": str(vr[1])})
        d = first_bad(lay[1])
        ctx.check(d is None, key + ":layout", "reader: %s" % d, b)
        seen.add(tstr(vt))
    ctx.floor("deserializers", len(rd), 45)
    ctx.stats["version_types"] = len(seen)
    panics(ctx, W)


def first_bad(r):
    if r[0] in ("bad", "extern"):
        return str(r[1])
    for x in r[1:]:
        if isinstance(x, tuple):
            for y in (x if x and isinstance(x[0], tuple) else (x,)):
                for z in (y if isinstance(y, tuple) else ()):
                    if isinstance(z, tuple) and z and isinstance(z[0], str):
                        d = first_bad(z)
                        if d:
                            return d
    return None


PANICKY = re.compile(r"(^|::)(unwrap|expect|unwrap_err|expect_err|unwrap_unchecked|panic|panic_fmt|panic_display|unreachable|begin_panic|assert_failed|index|index_mut|copy_from_slice|clone_from_slice|split_at|split_at_mut|swap|remove|insert|from_raw_parts|from_raw_parts_mut|get_unchecked|get_unchecked_mut|transmute|assume_init|set_len|drain|step_by|chunks|chunks_exact|chunks_exact_mut|chunks_mut|panic_bounds_check|panic_nounwind|unwrap_failed|expect_failed|slice_index_fail|exit|abort)$|^core::panicking|^std::rt::|^core::slice::index")


def panics(ctx, W):
    """nothing reachable while reading can panic on attacker chosen bytes"""
    w = ctx.w
    roots = []
    for bid, b in w.bodies.items():
        t = b.get("trait", "")
        if b.get("crate", bid.split("::")[0]) != "concrete_core" and not bid.startswith("concrete_core::"):
            continue
        if t in ("serde::Deserialize", "serde::de::Visitor", "serde::de::DeserializeSeed") or t == DE and method(bid) == "deserialize" or ("::serialization_proxy::" in bid and "deserialize" in bid):
            roots.append(bid)
    ctx.floor("reader_functions", len(roots), 900)
    allowed = {"visit_seq": ("split_into",)}
    work, done = list(roots), set()
    clos = {}
    for bid in w.bodies:
        k = bid.rfind("::{closure")
        if k > 0:
            clos.setdefault(bid[:k], []).append(bid)
    sites = 0
    while work:
        bid = work.pop()
        if bid in done:
            continue
        done.add(bid)
        b = w.bodies[bid]
        work += clos.get(bid, ())
        for i, blk in enumerate(b["blocks"]):
            if blk.get("c"):
                continue
            t = blk["t"]
            if t[0] == "assert":
                sites += 1
                if constant(b, t[1]):
                    continue
                ctx.bad("panic:%s:assert" % short(bid), "reading can panic here: %s" % (t[3] if len(t) > 3 else "assert",), b, blk["l"])
            elif t[0] == "call":
                fn = callee(b, t)
                if fn is None:
                    ctx.bad("panic:%s:fnptr" % short(bid), "calls through a pointer while reading", b, blk["l"])
                    continue
                sites += 1
                if t[4] < 0 or PANICKY.search(fn):
                    ctx.bad("panic:%s:%s" % (short(bid), fn), "reading can panic here: calls %s" % fn, b, blk["l"])
                elif fn in w.bodies and not guarded_fn(fn):
                    work.append(fn)
                elif fn.startswith("concrete_core::") and fn not in w.bodies and fn not in w.adts:
                    pass
    ctx.stats["functions_reachable_while_reading"] = len(done)
    ctx.stats["call_and_assert_sites"] = sites
    for f in done:
        ctx.ok()
    # the hand written list reader: plans, allocations and chunks only for validated header values
    lists = 0
    for bid in sorted(done):
        b = w.bodies[bid]
        if b.get("trait") != "serde::de::Visitor" or method(bid) != "visit_seq":
            continue
        if not any(blk["t"][0] == "call" and not blk.get("c") and guarded_fn(callee(b, blk["t"]) or "") for blk in b["blocks"]):
            continue
        lists += 1
        W.n += 1
        for x in W.I.run(b):
            judge_list(ctx, w, b, x)
    ctx.floor("hand_written_readers", lists, 1)


def short(bid):
    return re.sub(r"(\w+::)+", "", bid)[:120]


def constant(b, op, d=0):
    """the operand only depends on literals and type sizes (no input byte can influence it)"""
    if op[0] == "k":
        return "v" in op[1]
    if op[0] not in ("c", "m") or op[1][1] or d > 8:
        return False
    l = op[1][0]
    defs = [s[1] for blk in b["blocks"] for s in blk["s"] if s[0] and s[0][0] == l]
    calls = [blk["t"] for blk in b["blocks"] if blk["t"][0] == "call" and blk["t"][3][0] == l]
    if len(defs) + len(calls) != 1 or l <= b["argc"]:
        return False
    if calls:
        return sname(callee(b, calls[0]) or "") in ("size_of", "align_of")
    r = defs[0]
    if r[0] not in ("use", "bin", "un", "cast"):
        return False
    ops = [x for x in r[1:] if isinstance(x, list) and x and x[0] in ("k", "c", "m")]
    return bool(ops) and all(constant(b, x, d + 1) for x in ops)


GUARDED = ("::Fft::new", "::split_into", "ContainerOwned::collect", "ContainerOwned>::collect")


def guarded_fn(fn):
    """functions that panic on some sizes; their calls are judged by judge_list"""
    return fn.endswith(GUARDED) or "::FftView" in fn or fn.endswith("::as_view") or "aligned_vec" in fn


def callee(b, t):
    op = t[1]
    if op[0] == "k" and "fn" in op[1]:
        return op[1].get("res") or op[1]["fn"]
    return None


def judge_list(ctx, w, b, x):
    lits = x.conds
    def power_of_two(s):
        return any(c[0][0] == "call" and sname(c[0][1]) == "is_power_of_two" and c[0][3] == (s,) and c[1] == 1 for c in lits)
    def at_least_two(s):
        c = Canon(w, {})
        for t, v, *_ in lits:
            if t[0] == "bin" and t[1] == "Lt" and t[2] == s and t[3][0] == "int" and t[3][1] >= 2 and v == 0:
                return True
            if t[0] == "bin" and t[1] == "Lt" and t[3] == s and t[2][0] == "int" and t[2][1] >= 1 and v == 1:
                return True
            if t[0] == "bin" and t[1] == "Eq" and v == 1 and s in t[2:] and any(y[0] == "int" and y[1] >= 2 for y in t[2:]):
                return True
        return False
    key = "reader:FourierPolynomialList"
    for e in x.effects:
        for fn, args in (((e[1], e[3]),) if e[0] == "pure" else ((e[2], e[4]),) if e[0] == "call" else ()):
            if fn.endswith("::Fft::new"):
                s = args[0]
                raw = ("field", s, "0")
                ok = (power_of_two(raw) and at_least_two(raw)) or (power_of_two(s) and at_least_two(s))
                ctx.check(ok, key + ":plan", "a transform is planned for a size read from the bytes that was not checked to be a power of two (at least 2)", b, e[4] if e[0] == "pure" else e[5])
            if sname(fn) == "collect" and "ContainerOwned" in fn:
                n = range_end(args[0])
                ok = n is not None and bounded(n, lits)
                ctx.check(ok, key + ":alloc", "memory is reserved for a coefficient count read from the bytes that was not bounded against overflow", b, e[4] if e[0] == "pure" else e[5])


def range_end(t):
    while t[0] in ("it", "iter", "call"):
        if t[0] == "it":
            t = t[2][0]
        elif t[0] == "call":
            t = t[3][0]
        else:
            t = t[1]
    if t[0] == "agg" and t[1] == "std::ops::Range":
        return agg_get(t, "end")
    return None


def bounded(n, lits):
    """n is the payload of a checked product that was further bounded"""
    txt = show(n)
    src = n
    while src[0] in ("field", "as"):
        src = src[1]
    if src[0] == "call" and sname(src[1]) in ("filter",) and src[3][0][0] == "call" and sname(src[3][0][1]) == "checked_mul":
        return True
    if src[0] == "call" and sname(src[1]) == "checked_mul":
        for t, v, *_ in lits:
            if t[0] == "bin" and t[1] == "Lt" and (t[2] == n or t[3] == n):
                return True
    return False
