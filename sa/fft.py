"""The machine of formulas for the FFT backend: transforms, layers of the bootstrap and stack buffers."""
import re
from . import formulas as F
from .canon import method
from .interp import mrefs, get_path, mk_upd, deref_val, elem_deep, deep_ev, agg_get, Interp
from .facts import tstr
from .machine import Machine, STOP, make_interp, pstr, padd, DROPF, VIEW, m_fold, m_copy, m_collect, strip, allocation

PRIV = r"backends::fft::private::"
LAYERS = [PRIV + x for x in (
    r"crypto::ggsw::external_product", r"crypto::ggsw::cmux", r"crypto::ggsw::update_with_fmadd",
    r"crypto::ggsw::FourierGgswCiphertext::<.*>::fill_with_(forward|backward)_fourier", r"crypto::bootstrap::FourierLweBootstrapKey::<.*>::(blind_rotate|bootstrap|fill_with_forward_fourier)",
    r"crypto::bootstrap::pbs_modulus_switch",
    r"crypto::wop_pbs::(extract_bits|circuit_bootstrap_boolean|homomorphic_shift_boolean|cmux_tree_memory_optimized|circuit_bootstrap_boolean_vertical_packing|vertical_packing|blind_rotate)",
    r"crypto::(\w+::)*(\w+_scratch)",
    r"math::fft::FftView::<.*>::(?!polynomial_size$)\w+", r"math::fft::Fft::new", r"math::decomposition::TensorSignedDecompositionLendingIter::<.*>::(new|next_term)",
)]
LAYERS.append(r"fft_engine::FftEngine>::discard_bootstrap_lwe_ciphertext")
LAYER = re.compile("(" + "|".join(LAYERS) + ")$")
STOPF = re.compile(STOP.pattern + "|" + LAYER.pattern)
UNINIT = ("sym", "uninit")
STACK = ("sym", "stack")


def pair(a, b):
    return ("agg", "tuple", "", (("0", a), ("1", b)))


def m_make_with(I, st, f, fn, targs, args, dest, target, line):
    n, clo = args[1], args[-1]
    e = I.apply_here(st, clo, [("sym", "i")])
    if e is None:
        return None
    I.write(st, f, dest, pair(("call", "std::vec::from_elem", targs, (e, n)), STACK))
    return True


def m_make_uninit(I, st, f, fn, targs, args, dest, target, line):
    I.write(st, f, dest, pair(("call", "std::vec::from_elem", targs, (UNINIT, args[1])), STACK))
    return True


def m_stack_collect(I, st, f, fn, targs, args, dest, target, line):
    it = deref_val(I, st, args[-1])
    src = it
    if it[0] == "it" and not (it[1] == "iter" and it[2][0][0] != "it"):
        e = elem_deep(it, (f.fid, f.bb, "collect"), deep_ev(I, st))
        if e is None or e[0] == "elem" and e[1] is it:
            return None
        src = ("each", e, (f.fid, f.bb, "collect"))
    I.write(st, f, dest, pair(("call", "std::iter::Iterator::collect", targs, (src,)), STACK))
    return True


def m_stack(I, st, f, fn, targs, args, dest, target, line):
    I.write(st, f, dest, STACK)
    return True


def m_decomposition(I, st, f, fn, targs, args, dest, target, line):
    it = deref_val(I, st, args[0])
    tag = (f.fid, f.bb, "collect")
    e = elem_deep(it, tag, deep_ev(I, st)) if it[0] == "it" else None
    if e is None:
        return None
    I.write(st, f, dest, pair(("call", "decomposition", targs, (("each", e, tag), args[1], args[2])), STACK))
    return True


def m_with(I, st, f, fn, targs, args, dest, target, line):
    """the engine of the thread"""
    r = I.call_closure(st, f, args[-1], [("sym", "engine")], dest, target)
    return r or None


def m_layer(I, st, f, fn, targs, args, dest, target, line):
    """a layer of the bootstrap: it writes through the views it is handed"""
    n = st.nseq
    st.nseq += 1
    st.effects.append(("call", n, fn, targs, tuple(args), line, f.body["id"]))
    for a in args:
        for root, path in mrefs(a, []):
            if root in st.store or root[0] == "T":
                old = get_path(I.load_root(st, root), path)
                st.store[root] = mk_upd(I.load_root(st, root), path, ("mod", n, fn, old))
    I.write(st, f, dest, ("res", n, fn, tuple(targs), tuple(args)))
    return True


def fft_interp(w):
    I = make_interp(w, STOPF)
    D = "dyn_stack::DynStack::<'a>::"
    I.models.update({D + "make_aligned_with": m_make_with, D + "make_with": m_make_with, D + "make_aligned_uninit": m_make_uninit, D + "make_uninit": m_make_uninit,
                     D + "collect_aligned": m_stack_collect, D + "collect": m_stack_collect, D + "new": m_stack, "dyn_stack::ReborrowMut::rb_mut": m_stack, "std::thread::LocalKey::<T>::with": m_with,
                     "<dyn_stack::DynStack<'a> as dyn_stack::ReborrowMut<'_>>::rb_mut": m_stack})
    for k in w.bodies:
        if re.search(PRIV + r"math::decomposition::TensorSignedDecompositionLendingIter::<.*>::new$", k):
            I.models[k] = m_decomposition
        elif LAYER.search(k) and not k.endswith(("_scratch", "::pbs_modulus_switch", "::collect_next_term")):
            I.models[k] = m_layer
    return I


OVERWRITES = {"bootstrap", "discard_bootstrap_lwe_ciphertext", "extract_bits", "homomorphic_shift_boolean", "circuit_bootstrap_boolean", "vertical_packing", "circuit_bootstrap_boolean_vertical_packing",
              "fill_with_forward_fourier", "fill_with_backward_fourier", "forward_as_torus", "forward_as_integer", "backward_as_torus"}
ADDS = {"external_product"}
CTX = re.compile(r"DynStack|FftView|FftEngine")


class FftMachine(Machine):
    dropf = DROPF | {"data", "fourier"}

    def region_(self, t):
        if t[0] == "agg" and not t[1].startswith("closure:") and agg_get(t, "tensor") is None and len(t[3]) > 1:
            for n in ("fourier", "data", "container"):
                v = agg_get(t, n)
                if v is not None:
                    return self.region(v)
        if t[0] in ("res", "call", "der"):
            fn, args = (t[1], t[3]) if t[0] != "res" else (t[2], t[4])
            if method(fn).startswith("forward_as_") and len(args) > 1:
                return self.region(args[1])
            if method(fn) in ("as_mut_uninit", "assume_init_mut", "into_uninit", "id", "id_mut", "from_raw_parts_mut", "from_raw_parts"):
                return self.region(args[0])
        return super().region_(t)

    def meta(self, t, depth=0):
        """sizes a structure carries that are not those of the place it was taken from"""
        out = []
        t = strip(t)
        if t[0] == "agg" and depth < 3 and not t[1].startswith("closure:"):
            for n, v in t[3]:
                if n in ("tensor", "data", "container"):
                    continue
                if n == "fourier" or strip(v)[0] == "agg" and n not in self.dropf:
                    out += self.meta(v, depth + 1)
                    continue
                x = self.num(v)
                if not x.endswith("." + n):
                    out.append("%s: %s" % (n, x))
        return out

    def argtext(self, t):
        m = self.meta(t)
        return self.num(t) + ("{%s}" % ", ".join(m) if m else "")

    def do_call(self, e):
        n, fn, args = e[1], e[2], e[4]
        m = method(fn)
        if m in ("drop", "resize", "resize_with"):
            self.results[n] = {}
            return
        b = self.w.bodies.get(fn)
        if b is not None and LAYER.search(fn) and not getattr(self, "x_" + m, None):
            return self.layer(n, fn, m, b, args)
        super().do_call(e)

    def layer(self, n, fn, m, b, args):
        from .facts import tstr
        outs, ins = [], []
        for i, a in zip(b["ins"], args):
            ty = tstr(b["T"][i])
            if CTX.search(ty):
                continue
            r = self.region(a) if re.search(r"&'?\w* ?mut |&mut|Mut\w*View", ty) else None
            if r is not None:
                outs.append(r)
            ins.append("_" if r is not None and m in OVERWRITES | ADDS else self.argtext(a))
        self.results[n] = {("%s(%s)" % (m, ", ".join(ins)),): 1}
        for k, r in enumerate(outs):
            self.set(r, padd(self.read(r) if m in ADDS else {}, {("%s%s(%s)" % (m, ".%d" % k if len(outs) > 1 else "", ", ".join(ins)),): 1}))

    def x_next_term(self, n, fn, a):
        x = a[0]
        v = strip(self.t.store.get(x[1], x)) if x[0] == "mref" and not x[2] else x
        self.results[n] = {("next_term(%s)" % (self.num(v) if v[0] == "call" else self.num(x)),): 1}

    def x_update_with_fmadd(self, n, fn, a):
        r = self.region(a[0])
        flag, row = self.num(a[3]), self.num(a[1])
        once = flag == "loop(loop(1; 0); 0)" or flag == "loop(1; 0)" and len(re.findall(r"\[[@·]", row)) < 2
        kind = "" if flag in ("0", "1") else "_first" if once else "_each" if flag == "loop(1; 0)" else "?(%s)" % flag
        t = {("fmadd%s(%s, %s, %s)" % (kind, row, self.num(a[2]), self.num(a[4])),): 1}
        self.set(r, t if flag == "1" else padd(self.read(r), t))

    def x_add_backward_as_torus(self, n, fn, a):
        r = self.region(a[1])
        self.set(r, padd(self.read(r), {("backward_torus(%s)" % self.num(a[2]),): 1}))


def summary(w, I, b):
    S = F.summary(w, I, b, machine=FftMachine)
    if tstr(b["T"][b["out"]]) == "()":
        S.state.pop("OUT", None)
    return S
