"""Canonical formulas of an operation, from the records of the region machine.

For every region the operation leaves changed: the terms of its final value (what it was assigned plus
what was added to it), whether its previous contents survive, and what guards a term.  Statement order,
splitting of a sum over several statements or loops, loops against tensor helpers, and temporaries that
are merely copied do not matter.
"""
import re
from collections import OrderedDict
from .machine import Machine, ret_names, merge_guards, pstr, blank
from .interp import show

ELEM = re.compile(r"/?\[(@\d+~?)\]$")
DRAW = re.compile(r"(?:MASK|NOISE|SECRET|UNIFORM)#\d+")


def trailing(r):
    tags = []
    while True:
        m = ELEM.search(r)
        if not m:
            return r, tags[::-1]
        tags.append(m.group(1))
        r = r[: m.start()]


def strip_tags(a, tags):
    """a region read element by element in step with the place written"""
    k = len(tags)
    while k:
        m = ELEM.search(a)
        if not m or m.group(1) != tags[k - 1]:
            break
        a = a[: m.start()]
        k -= 1
    return a, k


def rename_tags(text, fixed):
    m = fixed
    return re.sub(r"@\d+", lambda x: m.setdefault(x.group(), "@" + chr(97 + sum(1 for v in m.values() if v[0] == "@"))), text)


class Summary:
    def __init__(self):
        self.state = {}     # region -> [assigned, {term: guards}, {self coefficients}]
        self.stale = {}     # root -> {region: what reads it before anything was written there}
        self.lens = {}
        self.events = {}
        self.draws = {}
        self.unknown = set()

    def terms_of(self, k):
        return self.state[k].d


def part_of(a, b):
    """a is b or lies within b"""
    return a == b or a.startswith(b) and a[len(b)] in "[/"


class Entry:
    """what is known about the contents of a region"""
    __slots__ = ("a", "d", "c", "clean", "raw", "nm", "b")

    def __init__(self, a, d=None, c=None, clean=True, raw=None, nm=None, b=None):
        self.a = a              # assigned: the previous contents are gone
        self.d = d or {}        # term -> guards
        self.c = c or set()     # coefficients of the previous contents
        self.clean = clean      # nothing later in a loop entered since changes it
        self.raw = raw or {}    # term -> (region, coefficient, atoms) before renaming
        self.nm = nm or {}      # term -> the renaming of its tags
        self.b = b or set()     # changes after which the order matters

    def copy(self):
        return Entry(self.a, {t: set(g) for t, g in self.d.items()}, set(self.c), self.clean, dict(self.raw), dict(self.nm), set(self.b))

    def add(self, text, guards, raw=None, nm=None):
        if nm and self.nm.get(text) and self.nm[text] != nm:
            back = {n: t for t, n in self.nm[text].items()}
            mp = {t: back[n] for t, n in nm.items() if n in back}
            guards = {frozenset(sub_tags(x, mp) for x in g) for g in guards}
        self.d.setdefault(text, set()).update(guards)
        if raw is not None:
            self.raw.setdefault(text, raw)
        if nm is not None:
            self.nm.setdefault(text, nm)


def note(d, raw, guards):
    nm = {}
    text = rename_tags(raw, nm)
    d.setdefault(text, Entry(True)).add(text, {guards}, None, nm)


def plain(guards, nm):
    """guards with the tags named as in the term they guard"""
    out = set()
    for g in guards:
        n = dict(nm or {})
        out.add(frozenset(rename_tags(x, n) for x in sorted(g, key=lambda x: (blank(x), x))))
    return merge_guards(out)


def copy_state(st):
    return {k: x.copy() for k, x in st.items()}


def join(a, b):
    """either of two alternatives may have happened"""
    for k, x in b.items():
        y = a.get(k)
        if y is None:
            a[k] = x
            continue
        y.a = y.a and x.a
        for t, g in x.d.items():
            y.add(t, g, x.raw.get(t), x.nm.get(t))
        y.c |= x.c
        y.b |= x.b
        y.clean = y.clean and x.clean
    return a


def steps(st, key):
    """changes of a place (or part of it) after which the order of further changes matters"""
    root = root_of(key)
    return set().union(*[x.b for k, x in st.items() if root_of(k) == root and (part_of(k, key) or part_of(key, k))] or [()])


PLACE = re.compile(r"(?<![\w.])(P\d+|new\d+)((?:/|\[[^\[\]]*\])*)(?![\w.(\[/'°])")


def seen(text, st, R):
    """places read after they were changed are marked as such"""
    def f(m):
        r, root = m.group(), m.group(1)
        if r == R:
            return r
        key = canon_key(r)[0]
        hit = [k for k in st if root_of(k) == root and (part_of(k, key) or part_of(key, k))]
        if not hit or root[0] == "n" and not any(st[k].b for k in hit):
            return root + "°" + m.group(2) if R.startswith("new") and root[0] == "P" else r
        n = len(steps(st, key))
        return root + "'" + (str(n) if n else "") + m.group(2)
    return PLACE.sub(f, text)


HALVES = (("[last]", "[!last]"), ("[first]", "[!first]"))


def nameless(r):
    return re.sub(r"@\w+", "@", r)


def covered(r, done):
    """everything a place denotes lies in the places already assigned"""
    done = {nameless(d) for d in done}
    k = nameless(r)
    while True:
        if any(part_of(k, d) for d in done):
            return True
        for a, b in HALVES:
            if any(d == k + a for d in done) and any(d.startswith(k + b) for d in done):
                return True
        if any(d.startswith(k + "[-") for d in done) and any(d.startswith(k + "[..") for d in done):
            return True
        m = re.search(r"/?\[@~?\]$", k)
        if not m:
            return False
        k = k[: m.start()]


REG = re.compile(r"(?<![\w.])(P\d+|OUT|new\d+)(?:'\d*|°)?((?:/|\[[^\[\]]*\])*)(?![\w.(\[/'°])")


def data_reads(text, root):
    """the parts of a root whose contents a term reads (metadata fields and lengths left out)"""
    text = re.sub(r"len\([^()]*\)", "", text)
    return {m.group(1) + m.group(2) for m in REG.finditer(text) if m.group(1) == root}


def marks(t):
    return [(i, (e[1], e[2])) for i, e in enumerate(t.effects) if e[0] == "loop"]


def same_prefix(a, b, n):
    return len(a) >= n and len(b) >= n and all(a[i] is b[i] or a[i][0] == "loop" and a[i] == b[i] for i in range(n))


def carried(w, traces, machine, entries):
    """numbers and flags carried from one iteration of a loop to the next: {loop value: "loop(first; next)"}"""
    def simple(v):
        if v[0] in ("int", "lv"):
            return True
        if v[0] in ("bin",):
            return simple(v[2]) and simple(v[3])
        if v[0] == "cast":
            return simple(v[2])
        return False
    steps = {}
    for t in traces:
        if t.status != "back":
            continue
        last = next(((e[1], e[2]) for e in reversed(t.effects) if e[0] == "backedge"), None)
        for lv in entries:
            k = lv[1]
            if (k[0], k[1]) != last:
                continue
            root, path = (k[3], k[4]) if len(k) > 3 else (k[2] if isinstance(k[2], tuple) else (k[0], k[2]), ())
            v = t.store.get(root)
            if v is not None and path:
                from .interp import get_path
                v = get_path(v, path)
            steps.setdefault(k, []).append((t, v))
    firsts = {lv[1]: v for lv, v in entries.items()}
    if not steps:
        return {}
    m = machine(w, traces[0])

    def text(v):
        return m.num(v)

    def nexts(k, done):
        out = set()
        for _, v in steps.get(k, ()):
            if v is not None and v[0] == "lv" and v[1] in firsts and v[1] != k and v[1] not in done:
                out |= nexts(v[1], done | {k})
            elif v is None or not simple(v):
                return {None}
            else:
                out.add(text(v))
        return out

    def whole(k, done=()):
        a = set()
        for v in firsts[k]:
            if v[0] == "lv" and v[1] in firsts and v[1] != k and v[1] not in done:
                a.add(whole(v[1], done + (k,)))
            else:
                a.add(text(v) if simple(v) else None)
        b = nexts(k, set())
        if None in a or None in b or not b:
            return None
        if b == {"lv"}:
            return ", ".join(sorted(a)) if a != {"lv"} else None
        return "loop(%s; %s)" % (", ".join(sorted(a)), ", ".join(sorted(b - {"lv"})))
    out = {}
    for k in firsts:
        x = whole(k)
        if x is not None and x.startswith("loop("):
            out[k] = x
    return out


class Eval:
    def __init__(self, w, traces, machine=Machine, entries=None):
        self.w = w
        outs = dict(ret_names(traces))
        tags = {}
        self.S = Summary()
        status = {}
        for t in traces:
            pre = ()
            for c, v, *_ in t.conds:
                status.setdefault((pre, id(c)), {}).setdefault(v, set()).add(t.status)
                pre += ((id(c), v),)
        self.runs = []
        lvs = carried(w, traces, machine, entries or {})
        for t in traces:
            if t.status == "panic":
                continue
            m = machine(w, t, outs, tags)
            m.lvtext = lvs
            m.run()
            self.S.unknown |= m.unknown
            g, pre = set(), ()
            for c, v, *_ in t.conds:
                st = status[(pre, id(c))]
                pre += ((id(c), v),)
                if c[0] == "exhausted" or c[0] == "discr" and "fork" in show(c):
                    continue
                others = [s for v2, ss in st.items() if v2 != v for s in ss]
                if others and all(s == "panic" for s in others):
                    continue
                g.add(m.guard(c, v))
            m.guardset = frozenset(g)
            m.drawreg = {r[1]: r[4] for r in m.records if r[0] == "draw"}
            m.drawtxt = {r[1]: "%s<%s%s>" % (r[1].split("#")[0], r[2], ", " + r[3] if r[3] else "") for r in m.records if r[0] == "draw"}
            self.runs.append((t, m))
        MIXED.clear()
        MIXED.update(mixed(self.runs))
        self.backs = {}
        for t, m in self.runs:
            if t.status == "back":
                last = next(((e[1], e[2]) for e in reversed(t.effects) if e[0] == "backedge"), None)
                self.backs.setdefault(last, []).append((t, m))
        self.memo = {}

    def total(self):
        out = {}
        for t, m in self.runs:
            if t.status == "return":
                st = {}
                self.segment(t, m, 0, st, 0)
                join(out, st) if out else out.update(st)
        self.S.state = out
        return self.S

    def segment(self, t, m, start, st, depth):
        """apply the records of a run from a position on; loops passed are applied as one generic iteration"""
        recs = m.records
        k = start
        while k < len(recs):
            r = recs[k]
            k += 1
            if r[0] == "loop":
                alts = []
                for t2, m2 in self.backs.get(r[1], ()):
                    if t2 is not t and same_prefix(t.effects, t2.effects, r[2] + 1):
                        pos = next((j for j, x in enumerate(m2.records) if x[0] == "loop" and x[2] == r[2]), None)
                        if pos is not None:
                            alts.append((t2, m2, pos + 1))
                if not alts:
                    continue
                res = None
                dirty = [q for q, x in st.items() if x.clean and root_of(q) in {root_of(y[1]) for _, m2, pos in alts for y in m2.records[pos:] if y[0] == "update"}]
                for t2, m2, pos in alts:
                    s2 = copy_state(st)
                    for q in dirty:
                        s2[q].clean = False
                    self.segment(t2, m2, pos, s2, depth + 1)
                    res = s2 if res is None else join(res, s2)
                for q in dirty:
                    if q in res:
                        res[q].clean = True
                st.clear()
                st.update(res)
                # the rest of this run continues after the loop
            elif r[0] == "draw":
                note(self.S.draws, m.drawtxt[r[1]], m.guardset)
            elif r[0] == "event":
                tx = "%s(%s)" % (r[1], ", ".join(subst_draws(a, m) for a in r[2]))
                note(self.S.events, tx, m.guardset)
                self.reads(" ".join(r[2]), st, r[1])
            elif r[0] == "init":
                if r[3] != "copy":
                    self.S.lens.setdefault(r[1], set()).add(r[3])
                key = canon_key(r[1])[0]
                if key not in st:
                    x = Entry(True)
                    for mono, c in resolve(r[1], r[2], m):
                        mono = tuple(seen(a, st, r[1]) for a in mono)
                        _, text, nm = canon_term(r[1], mono, c)
                        x.add(text, {m.guardset}, (r[1], c, mono), nm)
                    if not x.d:
                        x.add("0", {m.guardset})
                    st[key] = x
            elif r[0] == "update":
                self.update(m, r[1], r[2], st, depth)

    def reads(self, text, st, by):
        for root in set(re.findall(r"(?<![\w.])(P\d+)", text)):
            for r in data_reads(text, root):
                if not covered(r, {k for k, x in st.items() if x.a}):
                    self.S.stale.setdefault(root, {}).setdefault(rename_tags(trailing(r)[0], {}), by)

    def update(self, m, R, poly, st, depth):
        self.reads(" + ".join("*".join(x) for x in poly), st, rename_tags(R, {}))
        key = canon_key(R)[0]
        if re.search(r"\.\w+$", key) and not key.endswith((".body", ".data")):
            # metadata: kept as one expression
            nm = canon_key(R)[1]
            text = rename_tags(subst_draws(pstr(poly), m), nm)
            st[key] = Entry(True, {text: {m.guardset}}, nm={text: nm})
            return
        old = st.get(key)
        mine, parts, selfs = [], [], set()
        for mono, c in resolve(R, poly, m, depth):
            if mono == (R,):
                selfs.add(c)
                continue
            for g, R2, mono2, c2 in self.inline(R, mono, c, m.guardset, st):
                (mine if R2 == R else parts).append((R2, mono2, c2, g))
        scaled = selfs - {1} or any(R in a for _, mono, _, _ in mine + parts for a in mono)
        if scaled and old is not None and old.a and old.clean and all(t in old.raw or t == "0" for t in old.d) and \
                not any(k != key and part_of(k, key) for k in st):
            # the previous contents are known: put them in place
            new = self.compose(R, mine, selfs, old, m.guardset)
            if new is not None and not any(R in a for _, mono, _, _ in parts for a in mono):
                mine, selfs = new, set()
        additive = bool(selfs) or any(R in a for _, mono, _, _ in mine + parts for a in mono)
        done = steps(st, key)
        after = " after %d" % len(done) if done and additive else ""
        mine = [(R2, tuple(seen(a, st, R) for a in mono), c, g) for R2, mono, c, g in mine]
        parts = [(R2, tuple(seen(a, st, R) for a in mono), c, g) for R2, mono, c, g in parts]
        texts = [(canon_term(R2, mono, c), (R2, c, mono), g) for R2, mono, c, g in mine]
        texts = [((k2, t + after, nm), raw, g) for (k2, t, nm), raw, g in texts]
        if additive:
            x = st.setdefault(key, Entry(False))
            x.c |= {"%d%s" % (c, after) for c in selfs - {1}}
            x.b |= {"*%d%s" % (c, after) for c in selfs - {1}} | {t for (_, t, _), (_, _, mono), _ in texts if any(R in a for a in mono)}
        else:
            for k in [k for k in st if k != key and part_of(k, key)]:
                del st[k]
            x = st[key] = Entry(True)
        for (_, t, nm), raw, g in texts:
            x.add(t, {g}, raw, nm)
        if not texts and not additive:
            x.add("0", {m.guardset})
        for R2, mono, c, g in parts:
            k2, t, nm = canon_term(R2, mono, c)
            if k2 not in st:
                st[k2] = Entry(False)
            st[k2].add(t, {g}, (R2, c, mono), nm)
        if not x.d and not x.a and not x.c:
            del st[key]

    def compose(self, R, mine, selfs, old, g):
        out = [(R2, mono, c, h) for R2, mono, c, h in mine if not any(R in a for a in mono)]
        work = [(rest, c) for rest, c in [((), c) for c in selfs]]
        for R2, mono, c, h in mine:
            if any(R in a for a in mono):
                if mono.count(R) != 1 or any(R in a for a in mono if a != R):
                    return None
                rest = list(mono)
                rest.remove(R)
                work.append((tuple(rest), c))
        for rest, c in work:
            for t, gs in old.d.items():
                if t not in old.raw:
                    continue
                R0, c0, mono0 = old.raw[t]
                y = place(R0, R, R, mono0, rest)
                if not y:
                    return None
                for h in gs:
                    h = both(h, g)
                    if h is not None:
                        out.append((y[0], tuple(sorted(y[1] + rest)), c * c0, h))
        return out

    def inline(self, R, mono, c, g, st):
        """a product with a temporary in it, with the contents of the temporary put in its place"""
        for i, a in enumerate(mono):
            x = TEMP.fullmatch(a)
            if not x or root_of(R) == x.group(1):
                continue
            defs = self.contents(x.group(1), st)
            if defs is None:
                continue
            rest = mono[:i] + mono[i + 1:]
            out = []
            for R0, c0, mono0, gs in defs:
                y = place(R0, a, R, mono0, rest)
                if y is None:
                    break
                if y is False or not c0:
                    continue
                R2, mono2 = y
                for h in gs:
                    h = both(h, g)
                    if h is not None:
                        out.append((h, R2, tuple(sorted(mono2 + rest)), c * c0))
            else:
                return out
        return [(g, R, mono, c)]

    def contents(self, n, st):
        """everything a temporary holds: [(region, coefficient, atoms, guards)]"""
        keys = [k for k in st if root_of(k) == n]
        base = [k for k in keys if k == n]
        if not keys:
            return None
        out = []
        for k in keys:
            x = st[k]
            if not x.clean or x.c or any("SELF" in t for t in x.d):
                return None
            if any(t != "0" and t not in x.raw for t in x.d):
                return None
            if any(p != k and p != n and part_of(k, p) for p in keys):
                return None
            if k != n and x.a and base and set(st[n].d) != {"0"}:
                return None
            out += [(x.raw[t][0], x.raw[t][1], x.raw[t][2], gs) for t, gs in x.d.items() if t != "0"]
        if not base and not covered(n, {k for k in keys if st[k].a}):
            return None
        if any(root_of(a) == n or re.search(re.escape(n) + r"(?!\d)", a) for _, _, mono, _ in out for a in mono):
            return None
        return out


TEMP = re.compile(r"(new\d+)((?:/|\[[^\[\]]*\])*)")
TOK = re.compile(r"/|\[[^\[\]]*\]")
TAGT = re.compile(r"\[(@\d+)(~?)\]")


def root_of(r):
    return re.match(r"\w*", r).group()


def both(a, b):
    """two sets of guards together, None when they exclude each other"""
    r = a | b
    for x in r:
        c, v = x.rsplit("=", 1)
        if v in ("0", "1") and "%s=%d" % (c, 1 - int(v)) in r:
            return None
    return r


def sub_tags(a, mp):
    return re.sub(r"@\d+", lambda x: mp.get(x.group(), x.group()), a) if mp else a


def toks(r):
    return TOK.findall(r[len(root_of(r)):])


APART = ({"[last]", "[!last]"}, {"[first]", "[!first]"})


def place(R0, A, R, mono0, rest):
    """where atoms that were written to R0 end up when A is read for R: (place, atoms), False for nowhere, None when unclear"""
    while True:
        y = place_(R0, A, R, mono0, rest)
        if y is not None:
            return y
        m, n = ELEM.search(A), ELEM.search(R)
        if not m or not n or m.group() != n.group() or any(m.group(1) in a for a in rest):
            return None
        A, R = A[: m.start()], R[: n.start()]


def place_(R0, A, R, mono0, rest):
    x, y = toks(R0), toks(A)
    mp = {}
    k = 0
    while k < len(x) and k < len(y):
        m, n = TAGT.fullmatch(x[k]), TAGT.fullmatch(y[k])
        if m and n and m.group(2) == n.group(2):
            mp[m.group(1)] = n.group(1)
        elif {x[k], y[k]} in APART:
            return False
        elif sub_tags(x[k], mp) != y[k]:
            return None
        k += 1
    if k == len(y):
        return R + sub_tags("".join(x[k:]), mp), tuple(sub_tags(a, mp) for a in mono0)
    # part of something written as a whole
    suf = "".join(y[k:])
    arrays = [i for i, a in enumerate(mono0) if REG.fullmatch(a)]
    if len(mono0) == 1 and len(arrays) == 1:
        return R, (sub_tags(mono0[0], mp) + suf,)
    return None


TAG = re.compile(r"@\d+")


def subst_draws(text, m):
    def f(x):
        d = x.group()
        r = m.drawreg.get(d)
        return r if r else m.drawtxt.get(d, d)
    return DRAW.sub(f, text)


def resolve(R, poly, m, depth=0):
    """the monomials of a polynomial with the draws named by where they come from"""
    out = []
    for mono, c in poly.items():
        atoms = []
        for a in mono:
            if DRAW.fullmatch(a) and (m.drawreg.get(a) is None or part_of(R, m.drawreg[a])):
                atoms.append(m.drawtxt[a] + ("^loop%d" % depth if R.startswith("new") else ""))
            else:
                atoms.append(subst_draws(a, m))
        out.append((tuple(sorted(atoms)), c))
    return out


MIXED = set()   # loops some of whose sequences run backwards against the others


def mixed(runs):
    fwd, bwd = set(), set()
    for _, m in runs:
        text = repr(m.records)
        bwd |= set(re.findall(r"@\d+(?=~)", text))
        fwd |= set(re.findall(r"@\d+(?![\d~])", text))
    return fwd & bwd


def canon_key(R):
    key, tags = trailing(R)
    fixed = {}
    rkey = rename_tags(key, fixed)
    for i, t in enumerate(tags):
        fixed[t.rstrip("~")] = "·" if len(tags) == 1 else "·%d" % i
    return rkey, fixed


def canon_term(R, mono, c):
    """(place, text) of a term, tags renamed"""
    key, tags = trailing(R)
    rkey, fixed = canon_key(R)
    atoms = []
    for a in mono:
        a, k = strip_tags(a, tags)
        if a == key and k == 0:
            a = "SELF"
        elif 0 < k < len(tags):
            a += "^%d" % k
        if R in a:
            a = re.sub(re.escape(R) + r"(?![\w\[/.])", "SELF", a)
        atoms.append(a)
    atoms = sorted((a.replace("°", "") for a in atoms), key=lambda a: (blank(a), a))
    text = rename_tags("*".join(atoms), fixed) or "1"
    if text not in ("0", "SELF") and any(t.rstrip("~") in MIXED and t.endswith("~") for t in tags):
        text += " reversed"
    return rkey, ("" if c == 1 else "%s*" % c) + text, fixed


def summary(w, I, b, traces=None, machine=Machine):
    traces = traces or I.run(b)
    S = Eval(w, traces, machine, I.lv_entry).total()
    finish(S)
    return S


def times(c, t):
    if not c or t == "0":
        return t
    m = re.match(r"(-?\d+)\*|(-?\d+)$", t)
    k = int(c) * (int(m.group(1) or m.group(2)) if m else 1)
    rest = t[m.end():] if m else t
    if m and m.group(2):
        return str(k)
    return ("" if k == 1 else "%s*" % k) + rest


def gtexts(S):
    return [y for x in S.state.values() for g in x.d.values() for h in g for y in h] + [y for D in (S.draws, S.events) for g in D.values() for h in g for y in h]


def merge_temps(S):
    """temporaries that hold the same are the same: one per branch or one for all"""
    while True:
        st = S.state
        by = {}
        for n in sorted({root_of(k) for k in st if re.match(r"new\d", k)}, key=lambda x: int(x[3:])):
            own = frozenset((k[len(n):], x.a, t) for k, x in st.items() if root_of(k) == n for t in x.d)
            by.setdefault((own, frozenset(S.lens.get(n, ()))), []).append(n)
        same = next((v for v in by.values() if len(v) > 1), None)
        if same is None:
            return
        f = lambda t: re.sub(r"\b%s\b" % same[1], same[0], t)
        new = {}
        for k, x in st.items():
            y = new.setdefault(f(k), Entry(x.a))
            y.c |= x.c
            for t, g in x.d.items():
                y.add(f(t), {frozenset(f(z) for z in h) for h in g}, None, x.nm.get(t))
        S.state = new
        S.lens.pop(same[1], None)
        for D in (S.draws, S.events):
            for k in list(D):
                x = D.pop(k)
                y = D.setdefault(f(k), Entry(True))
                for t, g in x.d.items():
                    y.add(f(t), {frozenset(f(z) for z in h) for h in g}, None, x.nm.get(t))


def rename_temps(S):
    """surviving temporaries numbered by what they hold"""
    st = S.state
    names = sorted({x.group() for k in list(st) + list(S.lens) + [t for y in st.values() for t in y.d] + list(S.events) + gtexts(S) for x in re.finditer(r"new\d+", k)})
    def sig(n):
        f = lambda t: re.sub(r"new\d+", lambda x: "new#" if x.group() == n else "new?", t)
        own = sorted(f(k) + " = " + f(t) for k, x in st.items() if re.match(n + r"(?!\d)", k) for t in x.d)
        use = sorted(f(k) + " <- " + f(t) for k, x in st.items() for t in x.d if re.search(n + r"(?!\d)", t) and not re.match(n + r"(?!\d)", k))
        return (own, use, sorted(S.lens.get(n, ())))
    names.sort(key=lambda n: (sig(n), int(n[3:])))
    m = {n: "new%d" % i for i, n in enumerate(names)}
    f = lambda t: re.sub(r"new\d+", lambda x: m.get(x.group(), x.group()), t)
    S.state = {f(k): Entry(x.a, {f(t): {frozenset(f(y) for y in h) for h in g} for t, g in x.d.items()}, x.c, nm={f(t): n for t, n in x.nm.items()}) for k, x in st.items()}
    S.lens = {f(k): {f(x) for x in v} for k, v in S.lens.items()}
    S.events = {f(k): g for k, g in S.events.items()}


def finish(S):
    st = S.state
    # initial contents replaced part by part do not matter
    for n in [k for k in st if re.fullmatch(r"OUT|new\d+", k)]:
        if covered(n, {k for k, x in st.items() if k != n and x.a}) or any(k != n and part_of(k, n) for k in st) and all(t == "0" for t in st[n].d) and \
                any(re.match(re.escape(n) + r"/?\[@\w\]", k) and x.a for k, x in st.items()):
            del st[n]
    # a part of something just copied
    for k in list(st):
        if not st[k].a:
            continue
        for p in [p for p in st if p != k and part_of(k, p) and st[p].a]:
            suf = k[len(p):]
            old = {t + suf for t in st[p].d}
            if len(old) < len(st[k].d) and all(t in st[k].d for t in old):
                for t in old:
                    del st[k].d[t]
                st[k].a = False
                break
    for x in st.values():
        if len(x.d) > 1:
            x.d.pop("0", None)
    # temporaries that are only copied
    for _ in range(8):
        change = False
        for k, x in st.items():
            for t in list(x.d):
                m = re.fullmatch(r"(?:(-?\d+)\*)?(new\d+)", t)
                n = m and m.group(2)
                if not n or n == k or n not in st or any("SELF" in y for y in st[n].d) or st[n].c or any(part_of(y, n) and y != n for y in st):
                    continue
                g = x.d.pop(t)
                for y, gy in st[n].d.items():
                    x.add(times(m.group(1), re.sub(r"\^loop\d+", "", y)), {a | b for a in gy for b in g}, None, st[n].nm.get(y))
                change = True
        if not change:
            break
    # temporaries that are a plain copy of something else
    for n in [k for k in st if re.fullmatch(r"new\d+", k) and len(st[k].d) == 1]:
        (t, g), = st[n].d.items()
        if not re.fullmatch(r"(P\d+|OUT|new\d+)([/\[.][^*() ]*)?", t) or t.startswith(n) or st[n].c:
            continue
        pat = re.compile(re.escape(n) + r"(?![\d\w])")
        for x in st.values():
            for y in list(x.d):
                if pat.search(y):
                    gy = x.d.pop(y)
                    x.add(pat.sub(lambda _: t, y), gy, None, x.nm.get(y))
    live = True
    while live:
        live = False
        for n in {re.match(r"new\d+", k).group() for k in set(st) | set(S.lens) if re.match(r"new\d+", k)}:
            pat = re.compile(re.escape(n) + r"(?!\d)")
            if any(pat.search(t) for k, x in st.items() if not pat.match(k) for t in x.d) or any(pat.search(e) for e in S.events) or any(pat.search(e) for k, x in st.items() if not pat.match(k) for g in x.d.values() for h in g for e in h):
                continue
            for k in [k for k in st if pat.match(k)]:
                del st[k]
            S.lens.pop(n, None)
            live = True
            break
    for x in st.values():
        if len(x.d) > 1:
            x.d.pop("0", None)
    merge_temps(S)
    for x in S.state.values():
        for t in x.d:
            x.d[t] = plain(merge_guards(x.d[t]), x.nm.get(t))
    for D in (S.draws, S.events):
        for k, x in D.items():
            D[k] = plain(merge_guards(x.d[k]), x.nm[k])
    number(S)
    rename_temps(S)



NUMB = re.compile(r"(\w+)#(\d+)\(")


def number(S):
    """calls with a result of their own, numbered by where their results go"""
    texts = [(k, t) for k, x in S.state.items() for t in x.d] + [(k, "") for k in S.draws] + [(k, "") for k in S.events]
    texts.sort(key=lambda x: (NUMB.sub(r"\1#(", x[0]), NUMB.sub(r"\1#(", x[1]), x))
    m, cnt = {}, {}
    for k, t in texts:
        for x in NUMB.finditer(k + " " + t):
            if x.group(0) not in m:
                c = cnt[x.group(1)] = cnt.get(x.group(1), -1) + 1
                m[x.group(0)] = "%s#%d(" % (x.group(1), c)
    f = lambda s: NUMB.sub(lambda x: m.get(x.group(0), x.group(0)), s)
    st = {f(k): Entry(x.a, {f(t): {frozenset(f(y) for y in h) for h in g} for t, g in x.d.items()}, x.c, nm={f(t): n for t, n in x.nm.items()}) for k, x in S.state.items()}
    S.state.clear()
    S.state.update(st)
    S.draws = {f(k): g for k, g in S.draws.items()}
    S.events = {f(k): g for k, g in S.events.items()}


def gtext(gs):
    return " || ".join(" & ".join(sorted(x)) for x in sorted(gs, key=sorted)) if frozenset() not in gs else ""


def lines(S):
    """the summary as a set of facts: one line per term, length, draw and call"""
    out = []
    for k in sorted(S.state):
        a, d, c = S.state[k].a, S.state[k].d, S.state[k].c
        for t in sorted(d):
            g = gtext(d[t])
            out.append("%s %s %s%s" % (k, ":=" if a else "+=", t, "  {if %s}" % g if g else ""))
        if c:
            out.append("%s *= %s" % (k, sorted(c)))
    for k in sorted(S.lens):
        for x in sorted(S.lens[k]):
            out.append("len(%s) = %s" % (k, x))
    for k in sorted(S.draws):
        g = gtext(S.draws[k])
        out.append("draw " + k + ("  {if %s}" % g if g else ""))
    for k in sorted(S.events):
        g = gtext(S.events[k])
        out.append("call " + k + ("  {if %s}" % g if g else ""))
    return out
