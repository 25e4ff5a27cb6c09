"""What a sequence of primitive operations leaves in memory, as formulas over symbolic regions.

An operation is interpreted with everything in the crate spliced in, down to tensor views, wrapping
arithmetic, random draws and polynomial products.  Each trace is then replayed over *regions*: places
named by the parameter or allocation they belong to and the way they were sliced from it (wrappers,
views and single-field structures do not count).  The value of a region is a polynomial over the
initial contents of regions, draws and products.  Loops are not unrolled: an element taken from an
iterator is the generic element, and an update is reported relative to the contents before the
iteration.  The result does not depend on names, helper functions, the order of independent
statements, or on whether a tensor helper or an explicit loop does the work.
"""
import re
from fractions import Fraction
from .interp import show, agg_get, Interp, deref_val
from .canon import method
from .facts import tstr

NUM = r"commons::numeric::|<u(8|16|32|64|128) as "
VIEW = {"as_slice", "as_mut_slice", "as_tensor", "as_mut_tensor", "from_container", "into_container", "as_container", "as_mut_container",
        "as_polynomial", "as_mut_polynomial", "into_tensor", "as_view", "as_mut_view", "deref", "deref_mut", "borrow", "borrow_mut", "as_ref", "as_mut",
        "into_boxed_slice", "as_ptr", "as_mut_ptr", "rb", "rb_mut", "into_vec", "clone", "to_owned", "into", "from", "into_data", "data", "tensor",
        "copied", "cloned", "iter", "iter_mut", "par_iter", "par_iter_mut", "into_iter", "into_par_iter", "get_coefficient", "get_mut_coefficient",
        "into_polynomial_list", "as_polynomial_list", "as_mut_polynomial_list", "unwrap"}
CHUNK = {"subtensor_iter", "subtensor_iter_mut", "par_subtensor_iter", "par_subtensor_iter_mut", "chunks", "chunks_mut", "chunks_exact", "chunks_exact_mut",
         "par_chunks", "par_chunks_mut", "par_chunks_exact", "par_chunks_exact_mut", "split_into", "polynomial_iter", "polynomial_iter_mut",
         "into_polynomial_iter", "par_polynomial_iter"}
SUB = {"get_sub", "get_sub_mut", "get_element", "get_element_mut", "index", "index_mut", "get_unchecked", "get_unchecked_mut", "get_polynomial",
       "get_mut_polynomial", "get_monomial", "get_mut_monomial"}
SLICEGET = re.compile(r"(slice::<impl \[T\]>|vec::Vec::<.*>)::get(_mut)?$")
ALLOC = {"from_elem", "allocate", "to_vec", "collect", "random_binary_tensor", "random_ternary_tensor", "random_uniform_tensor", "random_gaussian_tensor",
         "random_uniform_binary_tensor"}
DROPF = {"tensor", "container", "0", "1", "_lifetime"}


def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + s * c
        if not r[m]:
            del r[m]
    return r


def pmul(a, b):
    r = {}
    for x, c in a.items():
        for y, d in b.items():
            m = tuple(sorted(x + y))
            r[m] = r.get(m, 0) + c * d
            if not r[m]:
                del r[m]
    return r


FLOATY = {"powi", "powf", "sqrt", "exp", "ln", "log2", "exp2", "get_variance", "get_standard_dev", "get_log_standard_dev", "get_modular_variance",
          "get_modular_standard_dev", "get_modular_log_standard_dev"}


def floaty(t):
    """real arithmetic?"""
    k = t[0]
    if k == "flt":
        return True
    if k == "cast":
        return t[1] in ("f64", "f32") or floaty(t[2])
    if k in ("call", "res"):
        m = method(t[1] if k == "call" else t[2])
        return m in FLOATY or m.startswith(("variance_", "expectation_", "squared_expectation_", "square_expectation")) or m in ("min", "max", "abs", "square") and any(floaty(a) for a in t[3 if k == "call" else 4])
    if k == "bin":
        return t[1] in ("Add", "Sub", "Mul", "Div") and (floaty(t[2]) or floaty(t[3]))
    if k == "un":
        return floaty(t[2])
    if k == "agg" and len(t[3]) == 1:
        return floaty(t[3][0][1])
    return False


def whole(c):
    return int(c) if c == int(c) else c


def fdiv(x, y):
    """a quotient of reals: factors of a product are divided by one after the other, sums as a whole"""
    if len(y) == 1:
        (m, c), = y.items()
        inv = ["1/" + a if not a.startswith("1/") else a[2:] for a in m]
    else:
        c, inv = 1, ["1/(%s)" % pstr(y)]
    out = {}
    for mon, d in x.items():
        rest = list(mon)
        for i in inv:
            o = i[2:] if i.startswith("1/") else "1/" + i
            if o in rest:
                rest.remove(o)
            else:
                rest.append(i)
        k = tuple(sorted(rest))
        out[k] = whole(out.get(k, 0) + Fraction(d) / c)
        if not out[k]:
            del out[k]
    return out


def balance(x, y, sym):
    """both sides of a comparison without differences: what is subtracted on one side is added on the other"""
    d = padd(x, y, -1)
    pos, neg = {m: c for m, c in d.items() if c > 0}, {m: -c for m, c in d.items() if c < 0}
    if sym and sorted(tuple(map(blank, m)) for m in pos if m) > sorted(tuple(map(blank, m)) for m in neg if m):
        pos, neg = neg, pos
    return pos, neg


_tag = re.compile(r"@\d+")
_blank = {}


def blank(x):
    r = _blank.get(x)
    if r is None:
        r = _blank[x] = _tag.sub("@", x)
    return r


def mkey(m):
    return (tuple(sorted(blank(a) for a in m)), m)


DIVS = {}


def divatom(x, y):
    a = "div(%s, %s)" % (pstr(x), pstr(y))
    DIVS[a] = (x, y)
    return a


def exact(p):
    """a * div(b, a) = b: sizes are whole numbers of chunks (the constructors assert it)"""
    out = {}
    work = list(p.items())
    while work:
        m, c = work.pop()
        for a in m:
            d = DIVS.get(a)
            if d and len(d[1]) == 1:
                (dm, dc), = d[1].items()
                rest = list(m)
                rest.remove(a)
                try:
                    for f in dm:
                        rest.remove(f)
                except ValueError:
                    continue
                if c % dc:
                    continue
                for m2, c2 in d[0].items():
                    work.append((tuple(sorted(list(m2) + rest)), c2 * c // dc))
                break
        else:
            out[m] = out.get(m, 0) + c
            if not out[m]:
                del out[m]
    return out


def haslen(p):
    return any("len(" in a for m in p for a in m)


def pstr(p):
    if not p:
        return "0"
    out = []
    for m in sorted(p, key=mkey):
        c = p[m]
        out.append(str(c) if not m else ("" if c == 1 else "-" if c == -1 else "%s*" % c) + "*".join(sorted(m, key=lambda a: (blank(a), a))))
    return " + ".join(out)


STOP = re.compile(
    r"RandomGenerator|generators::seeder::|commons::math::random|commons::numeric::"
    r"|tensor::tensor::Tensor::<.*>::(from_container|into_container|as_container|as_mut_container|len|is_empty|iter|iter_mut|par_iter|par_iter_mut|subtensor_iter|par_subtensor_iter"
    r"|subtensor_iter_mut|par_subtensor_iter_mut|first|last|first_mut|last_mut|split_first|split_last|split_first_mut|split_last_mut|get_sub|get_sub_mut|get_element|get_element_mut"
    r"|fold_with_one|reverse|rotate_left|rotate_right|allocate)$|AsRefSlice|AsMutSlice"
    r"|decomposition::(decomposer|iter|term)::\w+::<.*>::(?!(level_count|base_log|level|decomposition_level|decomposition_base_log)$)\w+$"
    r"|polynomial::Polynomial::<.*>::(update_with_wrapping_(add|sub)_mul|update_with_wrapping_(monic|unit)_monomial_(mul|div)|fill_with_\w*mul)$")


def head_call(t):
    """the first call a reference comes from"""
    while isinstance(t, tuple) and t:
        if t[0] in ("call", "der"):
            return method(t[1])
        if t[0] == "res":
            return method(t[2])
        t = t[2][0] if t[0] == "it" and t[2] else t[1] if len(t) > 1 else None
    return "place"


def inline_policy(w, stop=STOP):
    return lambda fn, st: fn.startswith(("concrete_core::", "concrete_npe::")) and not stop.search(fn)


def m_fold(I, st, f, fn, targs, args, dest, target, line):
    """fold_with_one: the closure applied to symbols"""
    if len(args) != 4:
        return None
    e = I.apply_here(st, args[3], [("sym", "acc"), ("sref", ("sym", "x")), ("sref", ("sym", "y"))])
    a = list(args)
    if e is not None:
        a[3] = ("foldexpr", e)
    return "pushed" if I.opaque(st, f, fn, fn, targs, targs, a, dest, target, line) else "end"


def m_copy(I, st, f, fn, targs, args, dest, target, line):
    """the copy of an owned buffer is a buffer of its own"""
    if len(args) == 1 and targs and re.match(r"(std::vec::)?Vec<|(\w+::)*A(ligned)?Box<|(\w+::)*ABox<|(std::boxed::)?Box<\[", tstr(targs[0])):
        I.write(st, f, dest, ("call", "std::slice::to_vec", targs, (deref_val(I, st, args[0]),)))
        return True
    return None


def m_collect(I, st, f, fn, targs, args, dest, target, line):
    """a new buffer: the generic element of the sequence, in every place"""
    from .interp import elem_deep, deep_ev
    it = deref_val(I, st, args[0]) if args else ("unit",)
    if it[0] != "it" or it[1] == "iter" and it[2][0][0] != "it":
        return None
    tag = (f.fid, f.bb, "collect")
    e = elem_deep(it, tag, deep_ev(I, st))
    if e is None or e[0] == "elem" and e[1] is it:
        return None
    I.write(st, f, dest, ("call", fn, targs, (("each", e, tag),)))
    return True


OPS = {"Add": "add", "Sub": "sub", "Mul": "mul", "Div": "div", "Rem": "rem", "BitAnd": "bitand", "BitOr": "bitor", "BitXor": "bitxor", "Shl": "shl", "Shr": "shr"}


def m_opassign(I, st, f, fn, targs, args, dest, target, line):
    """x op= v on a scalar held in a variable"""
    from .interp import get_path, mk_bin, deref_val
    x = args[0]
    if x[0] != "mref" or x[1][0] in ("T", "S") or not targs or targs[0][0] not in ("param", "prim", "alias", "int", "uint", "float"):
        return None
    op = re.search(r"ops::(\w+)Assign", fn).group(1)
    I.store_at(st, x[1], x[2], mk_bin(op, get_path(I.load_root(st, x[1]), x[2]), deref_val(I, st, args[1])), line)
    I.write(st, f, dest, ("unit",))
    return True


def make_interp(w, stop=STOP):
    from .core import transparent_params
    models = {k: m_fold for k in w.bodies if k.endswith("::fold_with_one") and "::Tensor::<" in k}
    models["std::clone::Clone::clone"] = m_copy
    for k, v in OPS.items():
        models["std::ops::%sAssign::%s_assign" % (k, v)] = m_opassign
    models["std::iter::Iterator::collect"] = models["rayon::iter::ParallelIterator::collect"] = m_collect
    return Interp(w, transparent=transparent_params(w), inline=inline_policy(w, stop), models=models, max_depth=20, deep_elem=True)


GENR = re.compile(r"(\b|_)(generator|seeder)(\b|$)|RandomGenerator|Seeder\(|>fork_")
GENF = re.compile(r"RandomGenerator|[sS]eeder")
PUREOPS = {"wrapping_add", "wrapping_sub", "wrapping_mul", "wrapping_neg", "shl", "shr", "bitand", "bitor", "bitxor", "len", "cast_into", "add", "sub", "mul", "neg", "size_hint",
           "to_vec", "collect", "fold_with_one", "wrapping_shl", "wrapping_shr", "div", "rem"}


def strip(v):
    while v[0] in ("mod", "upd"):
        v = v[3] if v[0] == "mod" else v[1]
    return v


def allocation(v):
    """the call that freshly allocated this buffer, or None"""
    v = strip(v)
    while v[0] in ("call", "der") and method(v[1]) in VIEW and v[3]:
        v = strip(v[3][0])
    if v[0] == "call" and method(v[1]) in ALLOC:
        return v
    if v[0] == "res" and method(v[2]) in ALLOC:
        return v
    return None


def data_of(v):
    v = strip(v)
    for _ in range(6):
        if v[0] != "agg":
            return v
        x = agg_get(v, "tensor")
        if x is None and len(v[3]) == 1:
            x = v[3][0][1]
        if x is None:
            return None
        v = strip(x)
    return v


def obj_key(v, root):
    """identity of the buffer a location owns"""
    if v is not None:
        d = data_of(v)
        al = allocation(d) if d is not None else None
        if al is not None:
            return ("al", id(al))
    return root


def width(it):
    """how many sequences an iterator chain walks in step"""
    if it[0] == "it" and it[1] == "zip":
        return width(it[2][0]) + width(it[2][1])
    if it[0] == "it" and it[1] in ("map", "enumerate", "rev", "iter", "skip", "take"):
        return width(it[2][0])
    return 1


class Machine:
    """replay of one trace"""
    dropf = DROPF
    lvtext = None       # what is known of the values a loop carries along

    def __init__(self, w, trace, objs=None, tags=None):
        self.w, self.t = w, trace
        self.mem = {}          # region -> polynomial, within the current segment
        self.objs = objs if objs is not None else {}   # (root) -> name of an owned object; shared by the replays of one operation
        self.alloc = {}        # object name -> (initial element, length)
        self.tags = tags if tags is not None else {}
        self.results = {}
        self.records = []      # ("update"|"init"|"draw"|"event", text)
        self.unknown = set()
        self.ndraw = {}
        self.ncall = {}
        self.memo = {}
        self.byval = {}
        self.busy = set()
        self._instep = None
        for r, v in trace.store.items():
            if r[0] not in ("P", "T"):
                self.index_values(r, (), v, 0)

    def index_values(self, root, path, v, depth):
        """owned data: which location holds this value"""
        while v[0] in ("mod", "upd"):
            self.byval.setdefault(id(v), (root, path))
            if v[0] == "upd" and depth < 4 and v[2] and isinstance(v[2][0], str):
                self.index_values(root, path + tuple(v[2]), v[3], depth + 1)
            v = v[3] if v[0] == "mod" else v[1]
        if v[0] == "agg" and not v[1].startswith("closure:") and depth < 5:
            if any(n == "tensor" for n, _ in v[3]):
                self.byval.setdefault(id(v), (root, path))
            for n, x in v[3]:
                self.index_values(root, path + (n,), x, depth + 1)
        elif self.allocation(v) is not None:
            self.byval.setdefault(id(v), (root, path))

    strip = staticmethod(lambda v: strip(v))
    allocation = staticmethod(lambda v: allocation(v))
    data_of = staticmethod(lambda v: data_of(v))

    # ---------------------------------------------------------------- names
    def tag(self, tag):
        rev = ""
        if tag and tag[0] == "rev":
            rev, tag = "~", tag[1]
        if tag not in self.tags:
            self.tags[tag] = "@%d" % len(self.tags)
        return self.tags[tag] + rev

    def root_name(self, r):
        if r[0] == "P":
            return "P%d" % r[1]
        key = obj_key(self.t.store.get(r), r)
        if key not in self.objs:
            self.objs[key] = "new%d" % len(self.objs)
        n = self.objs[key]
        if n not in self.alloc:
            self.alloc[n] = None
            v = self.t.store.get(r)
            if v is not None:
                v = self.strip(v)
                x = v
                for _ in range(4):
                    if x[0] == "agg":
                        y = agg_get(x, "tensor")
                        if y is None and len(x[3]) == 1:
                            y = x[3][0][1]
                        if y is None:
                            break
                        x = self.strip(y)
                self.note_alloc(n, x)
        return n

    def note_alloc(self, n, x):
        al = self.allocation(x)
        if al is None:
            return
        fn, args = (al[1], al[3]) if al[0] == "call" else (al[2], al[4])
        m = method(fn)
        if m in ("from_elem", "allocate"):
            self.alloc[n] = (self.value(args[0]), self.value(args[1]))
            self.records.append(("init", n, self.alloc[n][0], pstr(self.alloc[n][1])))
        elif args[0][0] == "each":
            self.records.append(("init", "%s[%s]" % (n, self.tag(args[0][2])), self.value(args[0][1]), "copy"))
        elif m in ("to_vec", "collect"):
            r = self.region(args[0])
            self.records.append(("init", n, {(r,): 1} if r is not None else self.value(args[0]), "copy"))
        else:
            self.alloc[n] = (None, self.value(args[-1]))
            self.records.append(("init", n, {("%s(%s)" % (m, ", ".join(self.num(a) for a in args)),): 1}, pstr(self.alloc[n][1])))

    # ---------------------------------------------------------------- regions
    def region(self, t):
        """name of the place a term denotes, or None when it is a computed value"""
        k = id(t)
        r = self.memo.get(k)
        if r is None:
            self.memo[k] = (t, None)
            r = (t, self.region_(t))
            self.memo[k] = r
        return r[1]

    def region_(self, t):
        k = t[0]
        own = self.byval.get(id(t)) if k in ("mod", "upd", "agg", "call", "res") else None
        if own is not None:
            return self.mref(own[0], own[1])
        if k == "mref":
            return self.mref(t[1], t[2])
        if k == "sref":
            return self.region(t[1])
        if k == "param":
            return "P%d" % t[1]
        if k == "sym":
            return t[1]
        if k in ("mod", "upd"):
            return self.region(self.strip(t))
        if k == "field":
            x = t[1]
            y = self.strip(x)
            if y[0] in ("der", "call", "res"):
                r = self.split(y, t[2])
                if r is not None:
                    return r
            if y[0] == "agg":
                v = agg_get(y, t[2])
                if v is not None:
                    return self.region(v)
            r = self.region(x)
            if r is None:
                return None
            return r if t[2] in self.dropf else r + "." + t[2]
        if k == "as":
            return self.region(t[1])
        if k == "agg":
            v = agg_get(t, "tensor")
            if v is None and len(t[3]) == 1:
                v = t[3][0][1]
            return None if v is None else self.region(v)
        if k == "elem":
            r = self.region(t[1])
            return None if r is None else r + "[" + self.tag(t[2]) + "]"
        if k == "it":
            return self.region(t[2][0]) if t[1] == "iter" else None
        if k == "index":
            r = self.region(t[1])
            if r is None:
                return None
            i = self.sel(r, t[2])
            return r if i == ".." else r + "[" + i + "]"
        if k in ("call", "der", "res"):
            fn, args = (t[1], t[3]) if k != "res" else (t[2], t[4])
            m = method(fn)
            if m.startswith(("fork_", "par_fork_")) and "RandomGenerator" in fn:
                return "%s>%s" % (self.region(args[0]), m.replace("par_", ""))
            if m == "new" and ("RandomGenerator" in fn or "Seeder" in fn):
                return "%s(%s)" % (fn.split("::")[-2 if ">" not in fn.rsplit("::", 2)[1] else -3].split("<")[0].strip(":"), ", ".join(self.num(a) for a in args))
            if m in VIEW and args:
                return self.region(args[0])
            if m in CHUNK:
                r = self.region(args[0])
                return None if r is None else r + "/"
            if m in ("first", "first_mut", "last", "last_mut"):
                r = self.region(args[0])
                return None if r is None else "%s[%s]" % (r, "first" if m[0] == "f" else "last")
            if m in SUB or m in ("get", "get_mut") and SLICEGET.search(fn):
                r = self.region(args[0])
                if r is None:
                    return None
                i = self.sel(r + "/" if "polynomial" in m else r, args[1])
                return "%s%s[%s]" % (r, "/" if "polynomial" in m else "", i) if i != ".." else r
        return None

    def mref(self, root, path):
        path = list(path)
        if root[0] == "T":
            r = self.region(root[1])
            if r is None:
                return None
        elif root[0] == "P":
            r = "P%d" % root[1]
        else:
            v = self.t.store.get(root)
            r = None
            if v is not None:
                v = self.strip(v)
                p2 = list(path)
                while p2 and v[0] == "agg" and isinstance(p2[0], str) and agg_get(v, p2[0]) is not None:
                    v = self.strip(agg_get(v, p2.pop(0)))
                d = self.data_of(v)
                if v[0] != "lv" and d is not None and self.allocation(d) is None:
                    # a view: the place it was taken from
                    sv = self.byval.pop(id(v), None)
                    r = self.region_(v)
                    if sv is not None:
                        self.byval[id(v)] = sv
                if r is not None:
                    path = p2
            if r is None:
                r = self.root_name(root)
        for p in path:
            r = self.step(r, p)
        return r

    def step(self, r, p):
        if isinstance(p, str):
            if p in self.dropf or p == "*":
                return r
            return r + "." + p
        if p[0] == "as" or p[0] == "v":
            return r
        i = self.sel(r, p[1] if len(p) > 1 else p[0])
        return r if i == ".." else r + "[" + i + "]"

    def split(self, y, f):
        fn, args = (y[1], y[3]) if y[0] != "res" else (y[2], y[4])
        m = method(fn)
        if m in ("split_first", "split_last", "split_first_mut", "split_last_mut"):
            r = self.region(args[0])
            if r is None:
                return None
            end = "first" if "first" in m else "last"
            return "%s[%s]" % (r, end) if f == "0" else "%s[!%s]" % (r, end)
        if m in ("split_at", "split_at_mut"):
            r = self.region(args[0])
            if r is None:
                return None
            n = self.value(args[1])
            if not n:
                return r if f != "0" else r + "[..0]"
            rest = padd(self.length(r), n, -1)
            if rest == {(): 1}:
                return r + ("[!last]" if f == "0" else "[-1..]")
            if n == {(): 1} and f != "0":
                return r + "[!first]"
            if not haslen(rest):
                n = pstr(rest)
                return "%s[..-%s]" % (r, n) if f == "0" else "%s[-%s..]" % (r, n)
            n = pstr(n)
            return "%s[..%s]" % (r, n) if f == "0" else "%s[%s..]" % (r, n)
        return None

    def length(self, r):
        if self.alloc.get(r):
            return self.alloc[r][1]
        return {("len(%s)" % r,): 1}

    def sel(self, r, t):
        """selector of a part of r, relative to the length of r"""
        if not isinstance(t, tuple) or t[0] == "agg" and "Inclusive" in t[1]:
            return self.idx(t)
        L = self.length(r)
        if t[0] == "idx":
            if len(t) > 3 and not self.value(t[1]) and self.value(t[2]) == L:
                return self.tag(t[-1])
            return self.idx(t)
        if t[0] == "agg" and "Range" in t[1]:
            a, b = agg_get(t, "start"), agg_get(t, "end")
            a = self.value(a) if a else {}
            b = self.value(b) if b else L
            if not a and b == L:
                return ".."
            if b == L:
                if a == {(): 1}:
                    return "!first"
                rest = padd(L, a, -1)
                return "-%s.." % pstr(rest) if not haslen(rest) else "%s.." % pstr(a)
            if not a:
                rest = padd(L, b, -1)
                if rest == {(): 1}:
                    return "!last"
                return "..-%s" % pstr(rest) if not haslen(rest) else "..%s" % pstr(b)
            return "%s..%s" % (pstr(a), pstr(b))
        i = self.value(t)
        if not i:
            return "first"
        if padd(L, i, -1) == {(): 1}:
            return "last"
        return pstr(i)

    def idx(self, t):
        if not isinstance(t, tuple):
            return str(t)
        if t[0] == "idx":
            return self.tag(t[-1]) + (":%s..%s" % (self.num(t[1]), self.num(t[2])) if len(t) > 3 else "")
        if t[0] == "agg" and "Range" in t[1]:
            a, b = agg_get(t, "start"), agg_get(t, "end")
            n = t[1].rsplit("::", 1)[-1]
            if n == "RangeFull":
                return ".."
            if b is None and (a is None or a == ("int", 0)):
                return ".."
            return "%s..%s%s" % (self.num(a) if a else "", "=" if "Inclusive" in n else "", self.num(b) if b else "")
        return self.num(t)

    def num(self, t):
        return pstr(self.value(t))

    # ---------------------------------------------------------------- values
    def read(self, r):
        if r in self.mem:
            return self.mem[r]
        # part of something written as a whole
        best = None
        for k, v in self.mem.items():
            if r.startswith(k) and len(r) > len(k) and r[len(k)] in "[/.":
                if best is None or len(k) > len(best):
                    best = k
        if best is not None:
            suf = r[len(best):]
            if suf[0] == "." and any(re.match(r"(MASK|NOISE|SECRET|UNIFORM)#", a) for m in self.mem[best] for a in m):
                return {(r,): 1}  # a named field beside the data drawn
            return {tuple(sorted(a + suf if not a.endswith("!") else a for a in m)): c for m, c in self.mem[best].items()}
        inner = sorted(k for k in self.mem if k.startswith(r) and len(k) > len(r) and k[len(r)] in "[/.")
        if inner:
            return {("%s{%s}" % (r, "; ".join("%s=%s" % (k[len(r):], pstr(self.mem[k])) for k in inner)),): 1}
        return {(r,): 1}

    def value(self, t):
        k = t[0]
        if k == "int":
            return {(): t[1]} if t[1] else {}
        if k == "flt":
            if not re.fullmatch(r"-?[\d.]+(e[-+]?\d+)?", t[1]):
                return {(t[1],): 1}
            return {(): whole(Fraction(t[1]))} if float(t[1]) else {}
        if k == "def" and str(t[1]).endswith(("::ZERO", "::ONE")):
            return {(): 1} if str(t[1]).endswith("ONE") else {}
        if k in ("sref",):
            return self.value(t[1])
        if k == "bin":
            return self.arith(t[1], t[2], t[3])
        if k == "cast":
            return {("as_%s(%s)" % (t[1], self.num(t[2])),): 1} if len(t) > 3 else self.value(t[2])
        if k == "un":
            if t[1] == "Neg":
                return padd({}, self.value(t[2]), -1)
            return {("%s(%s)" % (t[1].lower(), self.num(t[2])),): 1}
        if k == "mod":
            # contents after an effectful call: what the replay says is there now
            r = self.region(t)
            return self.read(r) if r is not None else {("mod(%s)" % self.num(t[3]),): 1}
        if k == "upd":
            r = self.region(t)
            if r is not None:
                return self.read(r)
            return {("upd(%s)" % self.num(t[1]),): 1}
        if k in ("call", "res") and id(t) in self.byval:
            r = self.region(t)
            if r is not None:
                return self.read(r)
        if k in ("call", "der", "res"):
            v = self.call_value(t)
            if v is not None:
                return v
        if k == "agg" and len(t[3]) == 1 and t[3][0][0] == "0" and not t[2]:
            return self.value(t[3][0][1])
        if k == "field" and strip(t[1])[0] == "call" and strip(t[1])[1] == "chain":
            c = strip(t[1])
            return self.value(("call", "chain", (), tuple(agg_get(strip(x), t[2]) or ("field", x, t[2]) for x in c[3])))
        if k == "idx" and len(t) > 3 and t[-1] in self.instep():
            # counted along with the elements of something: where it stops does not matter
            return padd(self.value(t[1]), {("i" + self.tag(t[-1]),): 1})
        r = self.region(t)
        if r is not None:
            return self.read(r)
        return {(self.atom(t),): 1}

    def instep(self):
        if self._instep is None:
            seen = {}
            for c, v, *_ in self.t.conds:
                if c[0] == "exhausted" and not v:
                    seen[c[2]] = seen.get(c[2], 0) + width(c[1])
            self._instep = {t for t, n in seen.items() if n > 1}
        return self._instep

    def arith(self, op, a, b):
        if op in ("Add", "AddUnchecked"):
            return exact(padd(self.value(a), self.value(b)))
        if op == "Sub":
            return exact(padd(self.value(a), self.value(b), -1))
        if op == "Mul":
            return exact(pmul(self.value(a), self.value(b)))
        x, y = self.value(a), self.value(b)
        if op == "Div" and y and (floaty(a) or floaty(b)):
            return fdiv(x, y)
        if op == "Div" and set(y) <= {()} and y:
            d = y[()]
            if all(c % d == 0 for c in x.values()):
                return {m: c // d for m, c in x.items()}
        if op == "Div" and len(y) == 1 and () not in y:
            (dm, dc), = y.items()
            out = {}
            for mon, c in x.items():
                rest = list(mon)
                try:
                    for a in dm:
                        rest.remove(a)
                except ValueError:
                    break
                if c % dc:
                    break
                out[tuple(rest)] = c // dc
            else:
                return out
        if op == "Div":
            return {(divatom(x, y),): 1}
        if op == "Shl" and set(y) <= {()}:
            return pmul(x, {(): 1 << y.get((), 0)})
        if op in ("Eq", "Lt", "Le"):
            x, y = balance(x, y, op == "Eq")
        return {("%s(%s, %s)" % (op.lower(), pstr(x), pstr(y)),): 1}

    def call_value(self, t):
        fn, args = (t[1], t[3]) if t[0] != "res" else (t[2], t[4])
        m = method(fn)
        if t[0] == "res" and t[1] in self.results:
            return self.results[t[1]]
        if m in ("wrapping_add", "add") and len(args) == 2:
            return self.arith("Add", *args)
        if m in ("wrapping_sub", "sub") and len(args) == 2:
            return self.arith("Sub", *args)
        if m in ("wrapping_mul", "mul") and len(args) == 2:
            return self.arith("Mul", *args)
        if m in ("shl", "wrapping_shl") and len(args) == 2:
            return self.arith("Shl", *args)
        if m in ("shr", "wrapping_shr") and len(args) == 2:
            return self.arith("Shr", *args)
        if m in ("wrapping_neg", "neg") and len(args) == 1:
            return padd({}, self.value(args[0]), -1)
        if m in ("len", "container_len") and len(args) == 1:
            r = self.region(args[0])
            if r is not None:
                return self.length(r)
            al = self.allocation(args[0])
            if al is not None and al[0] == "call" and method(al[1]) in ("from_elem", "allocate"):
                return self.value(al[3][1])
        if m in ("from_elem", "allocate") and len(args) == 2:
            return self.value(args[0])
        if m == "fold_with_one" and len(args) == 4:
            return self.fold(args)
        if m in ("to_vec", "collect") and self.region(args[0]) is not None:
            return self.read(self.region(args[0]))
        if m in VIEW and args and self.region(t) is None:
            return self.value(args[0])
        return None

    def fold(self, args):
        a, b, init, clo = args
        if clo[0] == "foldexpr":
            e = self.value(clo[1])
            x, y = pstr(self.value(a)), pstr(self.value(b))
            if e == {("acc",): 1, ("x", "y"): 1}:
                return padd(self.value(init), {("dot(%s; %s)" % tuple(sorted((x, y))),): 1})
            return padd(self.value(init), {("fold(%s; %s | %s)" % (x, y, pstr(e)),): 1})
        return {("fold?(%s)" % show(clo)[:40],): 1}

    def atom(self, t):
        k = t[0]
        if k == "def":
            return str(t[1]).rsplit("::", 1)[-1]
        if k == "idx":
            return "i" + self.idx(t)
        if k == "field":
            return "%s.%s" % (self.num(t[1]), t[2])
        if k in ("call", "der"):
            return "%s(%s)" % (method(t[1]), ", ".join(self.num(a) for a in t[3]))
        if k == "res":
            return "%s#(%s)" % (method(t[2]), ", ".join(self.num(a) for a in t[4]))
        if k == "as":
            return self.num(t[1])
        if k == "agg":
            n = t[1].rsplit("::", 1)[-1]
            if t[1].startswith("closure:"):
                return "closure"
            if len(t[3]) == 1 and t[3][0][0] == "0" and not t[2]:
                return self.num(t[3][0][1])
            return n + ("::" + t[2] if t[2] else "") + "{" + ", ".join("%s: %s" % (a, self.num(b)) for a, b in t[3]) + "}"
        if k == "elem":
            return "%s[%s]" % (self.num(t[1]), self.tag(t[2]))
        if k == "it":
            return "%s(%s)" % (t[1], ", ".join(self.num(x) for x in t[2]))
        if k == "lv":
            return self.lvtext.get(t[1], "lv") if self.lvtext else "lv"
        if k == "fn":
            return method(t[1])
        if k == "unit":
            return "()"
        if k == "str":
            return repr(t[1])
        if k == "sym":
            return t[1]
        if k == "each":
            return "each(%s)" % self.num(t[1])
        if k == "discr":
            return "variant(%s)" % self.num(t[1])
        if k == "cases":
            return "cases(%s)" % "; ".join("%s -> %s" % (" & ".join("%s=%s" % (self.num(c), v) for c, v in cs), self.num(r)) for cs, r in t[1])
        return show(t)

    # ---------------------------------------------------------------- replay
    def set(self, r, v):
        for k in [k for k in self.mem if k != r and k.startswith(r) and k[len(r)] in "[/."]:
            del self.mem[k]
        self.mem[r] = v

    def run(self):
        for i, e in enumerate(self.t.effects):
            if e[0] == "loop":
                self.flush()
                self.records.append(("loop", (e[1], e[2]), i))
            elif e[0] == "backedge":
                self.flush()
                self.records.append(("back", (e[1], e[2])))
            elif e[0] == "write":
                r = self.mref(e[1], e[2])
                if r is None and e[1][0] == "T":
                    # a write through a reference nothing is known of must not vanish
                    r = "lost_" + head_call(e[1][1])
                if r is not None:
                    self.set(r, self.value(e[3]))
            elif e[0] == "call":
                self.do_call(e)
        self.flush()
        if self.t.status == "return" and self.t.ret is not None:
            self.result(self.t.ret, "OUT", 0)
        return self

    def result(self, x, path, depth):
        """what the returned value is made of"""
        if x[0] == "agg" and not x[1].startswith("closure:") and depth < 7:
            data = agg_get(x, "tensor") is not None
            for n, v in x[3]:
                self.result(v, path if n in self.dropf else path + "." + n, depth + 1)
            return
        r = self.region(x)
        if r == path or r is not None and r.startswith("OUT"):
            return
        if r is not None:
            v = self.read(r)
            self.records.append(("update", path, v))
            return
        al = self.allocation(x)
        if al is not None:
            self.note_alloc(path, x)
            return
        self.records.append(("update", path, self.value(x)))

    def guard(self, c, v):
        return "%s=%s" % (self.num(c), v if not isinstance(v, tuple) else "!" + ",".join(str(x) for x in v[1:]))

    def flush(self):
        for r, v in self.mem.items():
            if v != {(r,): 1} and not GENR.search(r):
                self.records.append(("update", r, v))
        self.mem = {}

    def do_call(self, e):
        n, fn, targs, args = e[1], e[2], e[3], e[4]
        m = method(fn)
        h = getattr(self, "x_" + m, None)
        if h is not None:
            h(n, fn, args)
            return
        if m in PUREOPS:
            v = self.call_value(("call", fn, targs, args))
            if v is None:
                v = {(self.atom(("call", fn, targs, args)),): 1}
            self.results[n] = v
            return
        rs = []
        for a in args:
            self.mrefs(a, rs)
        k = self.ncall.get(m, 0)
        self.ncall[m] = k + 1
        self.results[n] = {("%s#%d(%s)" % (m, k, ", ".join(self.num(a) for a in args)),): 1}
        self.records.append(("event", m, [self.num(a) for a in args]))
        for r in rs:
            if not GENR.search(r):
                self.set(r, {("%s!(%s)" % (m, r),): 1})
        if not GENF.search(fn):
            self.unknown.add(fn)

    def mrefs(self, t, out):
        if t[0] == "mref":
            r = self.mref(t[1], t[2])
            if r is not None:
                out.append(r)
            return
        for x in t[1:]:
            if isinstance(x, tuple):
                if x and isinstance(x[0], str):
                    self.mrefs(x, out)
                else:
                    for y in x:
                        if isinstance(y, tuple) and y:
                            if isinstance(y[0], str) and len(y) == 2 and isinstance(y[1], tuple):
                                self.mrefs(y[1], out)
                            elif isinstance(y[0], str):
                                self.mrefs(y, out)

    # primitives with known meaning
    def gen(self, a):
        return self.region(a) or self.num(a)

    def draw(self, kind, g, extra, r):
        k = self.ndraw.get(kind, 0)
        self.ndraw[kind] = k + 1
        d = "%s#%d" % (kind, k)
        self.records.append(("draw", d, g, extra, r))
        return {(d,): 1}

    def x_fill_tensor_with_random_mask(self, n, fn, a):
        r = self.region(a[1])
        self.set(r, self.draw("MASK", self.gen(a[0]), "", r))

    x_fill_tensor_with_random_uniform = x_fill_tensor_with_random_mask

    def x_fill_tensor_with_random_noise(self, n, fn, a):
        r = self.region(a[1])
        self.set(r, self.draw("NOISE", self.gen(a[0]), self.num(a[2]), r))

    def x_random_noise(self, n, fn, a):
        self.results[n] = self.draw("NOISE", self.gen(a[0]), self.num(a[1]), "")

    def polymul(self, a, s):
        r = self.region(a[0])
        x, y = self.value(a[1]), self.value(a[2])
        self.set(r, padd(self.read(r), {("polymul(%s, %s)" % (pstr(x), pstr(y)),): 1}, s))

    def x_update_with_wrapping_add_mul(self, n, fn, a):
        self.polymul(a, 1)

    def x_update_with_wrapping_sub_mul(self, n, fn, a):
        self.polymul(a, -1)

    def inplace(self, name, a):
        r = self.region(a[0])
        self.set(r, {("%s(%s)" % (name, ", ".join([pstr(self.read(r))] + [self.num(x) for x in a[1:]])),): 1})

    def x_reverse(self, n, fn, a):
        self.inplace("reverse", a)

    def x_rotate_left(self, n, fn, a):
        self.inplace("rotate_left", a)

    def x_rotate_right(self, n, fn, a):
        self.inplace("rotate_right", a)

    def x_update_with_wrapping_monic_monomial_mul(self, n, fn, a):
        self.inplace("monomial_mul", a)

    def x_update_with_wrapping_unit_monomial_div(self, n, fn, a):
        self.inplace("unit_monomial_div", a)

    def x_copy_from_slice(self, n, fn, a):
        self.set(self.region(a[0]), self.value(a[1]))

    x_clone_from_slice = x_copy_from_slice

    def op_assign(self, n, a, op):
        r = self.region(a[0])
        cur, v = self.read(r), self.value(a[1])
        if op in ("Add", "Sub"):
            self.set(r, padd(cur, v, 1 if op == "Add" else -1))
        elif op == "Mul":
            self.set(r, pmul(cur, v))
        else:
            self.set(r, {("%s(%s, %s)" % (op.lower(), pstr(cur), pstr(v)),): 1})

    def x_add_assign(self, n, fn, a):
        self.op_assign(n, a, "Add")

    def x_sub_assign(self, n, fn, a):
        self.op_assign(n, a, "Sub")

    def x_mul_assign(self, n, fn, a):
        self.op_assign(n, a, "Mul")

    def x_shl_assign(self, n, fn, a):
        self.op_assign(n, a, "Shl")

    def x_shr_assign(self, n, fn, a):
        self.op_assign(n, a, "Shr")


def rectext(r):
    k = r[0]
    if k == "update":
        return "%s := %s" % (r[1], pstr(r[2]))
    if k == "init":
        return "%s := %s, len %s" % (r[1], pstr(r[2]), r[3])
    if k == "draw":
        return "%s from %s%s%s" % (r[1], r[2], " std " + r[3] if r[3] else "", " into " + r[4] if r[4] else "")
    if k == "event":
        return "%s(%s)" % (r[1], ", ".join(r[2]))
    return None


def ret_names(traces):
    """locations that become (part of) the returned value"""
    names = {}
    for t in traces:
        if t.status != "return" or t.ret is None:
            continue
        byv = {}

        def walk(x, path, depth=0):
            byv.setdefault(id(x), path)
            if x[0] == "agg" and depth < 6:
                for n, v in x[3]:
                    walk(v, path if n in DROPF else path + "." + n, depth + 1)
        walk(t.ret, "OUT")
        for r, v in t.store.items():
            if r[0] not in ("P", "T") and id(v) in byv and v[0] in ("mod", "upd", "agg", "call", "res"):
                names.setdefault(obj_key(v, r), byv[id(v)])
    return names


def rename(text):
    m = {}
    return re.sub(r"@\d+|(?<=#)\d+", lambda x: m.setdefault((x.group()[0] == "@", x.group()), ("@" if x.group()[0] == "@" else "") + str(sum(1 for k in m if k[0] == (x.group()[0] == "@")))), text)


def merge_guards(gs):
    """smallest description of a disjunction of guard sets"""
    gs = set(gs)
    changed = True
    while changed:
        changed = False
        for a in list(gs):
            if any(b < a for b in gs):
                gs.discard(a)
                changed = True
        for a in list(gs):
            for x in a:
                c, v = x.rsplit("=", 1)
                if v not in ("0", "1"):
                    continue
                y = "%s=%d" % (c, 1 - int(v))
                rest = a - {x}
                if any(b - {y} <= rest and y in b for b in gs):
                    gs.discard(a)
                    gs.add(rest)
                    changed = True
                    break
            if changed:
                break
    return gs


def summarise(w, I, b, traces=None):
    """records of an operation: {text: guards}, and the functions replayed without a known meaning"""
    traces = traces or I.run(b)
    outs = ret_names(traces)
    status = {}
    for t in traces:
        pre = ()
        for c, v, *_ in t.conds:
            status.setdefault((pre, id(c)), {}).setdefault(v, set()).add(t.status)
            pre += ((id(c), v),)
    recs, unknown = {}, set()
    for t in traces:
        if t.status == "panic":
            continue
        m = Machine(w, t, outs).run()
        g, pre = [], ()
        for c, v, *_ in t.conds:
            st = status[(pre, id(c))]
            pre += ((id(c), v),)
            if c[0] == "exhausted" or (c[0] == "discr" and "fork" in show(c)):
                continue
            others = [s for v2, ss in st.items() if v2 != v for s in ss]
            if others and all(s == "panic" for s in others):
                continue
            g.append(m.guard(c, v))
        unknown |= m.unknown
        for rec in m.records:
            kind, text = rec[0], rectext(rec)
            if text is None:
                continue
            full = rename(text + " IF " + " & ".join(sorted(set(g))))
            text2, gg = full.split(" IF ", 1)
            recs.setdefault((kind, text2), set()).add(frozenset(x for x in gg.split(" & ") if x))
    return {k: merge_guards(v) for k, v in recs.items()}, unknown
