"""C14: code for CPU extensions runs only after the extension was detected.

A forward must-analysis over MIR tracks which CPU features are known to be present at each block
(from `is_x86_feature_detected!` results, through copies, !, &, |, && and helper functions), and
which features each function needs: those of the `#[target_feature]` functions and intrinsics it
mentions at points where they are not known to be present.  No safe entry may need any.
"""
import collections
from ..core import *
from ..interp import succs
from ..canon import method
from ..facts import tstr

DETECT = "__is_feature_detected::"
BASE = frozenset(["sse", "sse2", "fxsr"])
IMPLIES = {"fma": ["avx"], "avx2": ["avx"], "avx": ["sse4.2"], "sse4.2": ["sse4.1"], "sse4.1": ["ssse3"], "ssse3": ["sse3"], "sse3": ["sse2"],
           "sse2": ["sse"], "aes": ["sse2"], "vaes": ["aes", "avx2"], "f16c": ["avx"], "avx512f": ["avx2", "fma", "f16c"], "avx512dq": ["avx512f"],
           "avx512bw": ["avx512f"], "avx512vl": ["avx512f"], "avx512cd": ["avx512f"], "pclmulqdq": ["sse2"], "sse4a": ["sse3"]}
TOP = None      # "everything": the value of a boolean that cannot hold


def closure(fs):
    out, st = set(), list(fs)
    while st:
        f = st.pop()
        if f not in out:
            out.add(f)
            st.extend(IMPLIES.get(f, []))
    return frozenset(out)


def meet(a, b):
    return b if a is TOP else a if b is TOP else a & b


def union(a, b):
    return TOP if a is TOP or b is TOP else a | b


def minus(need, known):
    return frozenset() if known is TOP else need - known


class Cpu:
    def __init__(self, w, ctx):
        self.w, self.ctx = w, ctx
        self.needs = {}
        self.bools = {}
        self.bodies = [b for b in w.bodies.values() if not is_test_body(b)]
        self.mentions = 0
        self.detects = 0

    # ---- one body: features known before each block, uses with the features known there
    def known(self, b):
        n = len(b["blocks"])
        E = frozenset()
        ins = {0: (E, {})}
        work = [0]
        uses = []
        rounds = 0
        while work:
            i = work.pop(0)
            rounds += 1
            if rounds > 40 * n + 1000:
                break
            K, env = ins[i]
            env = dict(env)
            blk = b["blocks"][i]
            for st in blk["s"]:
                if not isinstance(st, list) or len(st) < 2 or not isinstance(st[0], list) or len(st[0]) != 2:
                    continue
                (l, proj), rv = st[0], st[1]
                if proj:
                    continue
                v = self.boolval(b, rv, env, K)
                if v is None:
                    env.pop(l, None)
                else:
                    env[l] = v
            t = blk["t"]
            if not t:
                continue
            outs = []
            if t[0] == "call":
                v = self.callval(t[1])
                e2 = dict(env)
                if not t[3][1]:
                    if v is None:
                        e2.pop(t[3][0], None)
                    else:
                        e2[t[3][0]] = (union(v[0], K), union(v[1], K))
                outs = [(s, K, e2) for s in succs(t)]
            elif t[0] == "switch":
                op = t[1]
                v = env.get(op[1][0]) if op[0] in ("c", "m") and not op[1][1] else None
                if op[0] == "k":
                    v = self.konst(op[1])
                for val, tgt in t[2]:
                    add = (v[1] if val == "0" else v[0]) if v else frozenset()
                    outs.append((tgt, union(K, add), env))
                only0 = [x[0] for x in t[2]] == ["0"]
                add = v[0] if v and only0 else (v[1] if v and [x[0] for x in t[2]] == ["1"] else frozenset())
                outs.append((t[3], union(K, add), env))
            else:
                outs = [(s, K, env) for s in succs(t)]
            for s, k, e in outs:
                if k is TOP:
                    # a branch that needs an impossible value
                    continue
                if s not in ins:
                    ins[s] = (k, e)
                    work.append(s)
                else:
                    ok, oe = ins[s]
                    nk = meet(ok, k)
                    ne = {l: (meet(v[0], e[l][0]), meet(v[1], e[l][1])) for l, v in oe.items() if l in e}
                    if nk != ok or ne != oe:
                        ins[s] = (nk, ne)
                        work.append(s)
        return ins

    def konst(self, c):
        if c.get("v") in ("0", "1") and c.get("s") in ("true", "false"):
            return (frozenset(), TOP) if c["v"] == "1" else (TOP, frozenset())
        return None

    def opval(self, o, env):
        if o[0] == "k":
            return self.konst(o[1])
        if o[0] in ("c", "m") and not o[1][1]:
            return env.get(o[1][0])
        return None

    def boolval(self, b, rv, env, K):
        k = rv[0]
        if k == "use":
            v = self.opval(rv[1], env)
            return None if v is None else (union(v[0], K), union(v[1], K))
        if k == "un" and rv[1] == "Not":
            v = self.opval(rv[2], env)
            return None if v is None else (v[1], v[0])
        if k == "bin" and rv[1] in ("BitAnd", "BitOr"):
            x, y = self.opval(rv[2], env), self.opval(rv[3], env)
            x = x or (frozenset(), frozenset())
            y = y or (frozenset(), frozenset())
            if rv[1] == "BitAnd":
                return (union(x[0], y[0]), meet(x[1], y[1]))
            return (meet(x[0], y[0]), union(x[1], y[1]))
        return None

    def callval(self, op):
        if op[0] != "k" or "fn" not in op[1]:
            return None
        fn = op[1].get("res") or op[1]["fn"]
        if DETECT in fn:
            return (closure([fn.rsplit("::", 1)[-1].replace("_", ".") if "sse4" in fn else fn.rsplit("::", 1)[-1]]), frozenset())
        if fn.endswith("is_x86_feature_detected"):
            return None
        return self.bools.get(fn)

    def operands(self, blk):
        def walk(x):
            if isinstance(x, list):
                if len(x) == 2 and x[0] == "k" and isinstance(x[1], dict):
                    yield x[1], None
                else:
                    for y in x:
                        for z in walk(y):
                            yield z
            elif isinstance(x, dict):
                if x.get("k") == "closure":
                    yield {"closure": x["d"]}, None
        for st in blk["s"]:
            for c, _ in walk(st):
                yield c, (st[2] if len(st) > 2 and isinstance(st[2], int) else 0)
        for c, _ in walk(blk["t"]):
            yield c, blk.get("l", 0)

    def required(self, c):
        """(features, what) a mention of function constant c requires"""
        if "closure" in c:
            return self.needs.get(c["closure"], frozenset()), c["closure"]
        if "fn" not in c:
            return frozenset(), None
        fn = c.get("res") or c["fn"]
        b = self.w.bodies.get(fn)
        tf = closure(c.get("tf", [])) | (closure(b.get("tf", [])) if b else frozenset())
        if b is not None:
            return (tf | self.needs.get(fn, frozenset())) - BASE, fn
        return tf - BASE, fn

    # ---- types whose values witness a feature
    def witnesses(self, ins):
        con = collections.defaultdict(list)
        for b in self.bodies:
            for i, blk in enumerate(b["blocks"]):
                if i not in ins[b["id"]]:
                    continue
                for st in blk["s"]:
                    rv = st[1] if isinstance(st, list) and len(st) > 1 and isinstance(st[1], list) and st[1] else None
                    if rv and rv[0] == "agg" and rv[1].get("k") == "adt" and rv[1]["d"] in self.w.adts:
                        con[rv[1]["d"]].append((b, ins[b["id"]][i][0]))
        out = {}
        for d, sites in con.items():
            a = self.w.adts[d]
            if len(a["variants"]) != 1 or not a["variants"][0]["f"] or any(len(f) > 2 and f[2] == "Public" for f in a["variants"][0]["f"]):
                continue
            f = TOP
            for b, k in sites:
                if self.has_self(b, d):
                    continue
                f = meet(f, k)
            if f is not TOP and f:
                out[d] = f
        return out

    def has_self(self, b, d):
        for i in range(1, b["argc"] + 1):
            t = b["T"][b["locals"][i]]
            while t[0] in ("ref", "ptr"):
                t = t[2]
            if t[0] == "adt" and t[1] == d:
                return True
        return False

    def param_feats(self, b, wit):
        out = frozenset()
        for i in range(1, b["argc"] + 1):
            t = b["T"][b["locals"][i]]
            while t[0] in ("ref", "ptr") or (t[0] == "adt" and t[1] == "std::boxed::Box"):
                t = t[2] if t[0] != "adt" else t[2][0]
            if t[0] == "adt" and t[1] in wit:
                out |= wit[t[1]]
        return out

    def run(self):
        # functions returning a conjunction of detections
        for _ in range(2):
            for b in self.bodies:
                t = b["T"][b["locals"][0]]
                if tstr(t) != "bool" or not any(DETECT in str(blk["t"]) or "feature" in str(blk["t"]) for blk in b["blocks"]) and not self.bools:
                    continue
                ins = self.known(b)
                v = (TOP, TOP)
                for i, blk in enumerate(b["blocks"]):
                    if blk["t"] and blk["t"][0] == "return" and i in ins:
                        K, env = ins[i]
                        env = dict(env)
                        for st in blk["s"]:
                            if isinstance(st, list) and len(st) >= 2 and isinstance(st[0], list) and len(st[0]) == 2 and not st[0][1]:
                                r = self.boolval(b, st[1], env, K)
                                if r is None:
                                    env.pop(st[0][0], None)
                                else:
                                    env[st[0][0]] = r
                        r = env.get(0, (frozenset(), frozenset()))
                        v = (meet(v[0], r[0]), meet(v[1], r[1]))
                if v[0] is not TOP and v[0]:
                    self.bools[b["id"]] = (v[0], v[1] if v[1] is not TOP else frozenset())
        ins = {b["id"]: self.known(b) for b in self.bodies}
        wit = self.witnesses(ins)
        self.ctx.stats["types witnessing a feature"] = len(wit)
        # least fixpoint of the needs
        why = {}
        changed = True
        first = True
        while changed:
            changed = False
            for b in self.bodies:
                bid = b["id"]
                have = self.param_feats(b, wit) | closure(b.get("tf", [])) | BASE
                need = set()
                for i, blk in enumerate(b["blocks"]):
                    if i not in ins[bid]:
                        continue
                    K = ins[bid][i][0]
                    for c, line in self.operands(blk):
                        if first and "fn" in c and DETECT in (c.get("res") or c["fn"]):
                            self.detects += 1
                        r, what = self.required(c)
                        if not r:
                            continue
                        if first:
                            self.mentions += 1
                        miss = minus(r, union(K, have))
                        for f in miss:
                            if f not in need:
                                need.add(f)
                                why.setdefault((bid, f), (what, line or blk.get("l", 0)))
                if frozenset(need) != self.needs.get(bid, frozenset()):
                    self.needs[bid] = frozenset(need)
                    changed = True
            first = False
        called = set()
        for b in self.bodies:
            for blk in b["blocks"]:
                for c, _ in self.operands(blk):
                    if "closure" in c:
                        called.add(c["closure"])
                    elif "fn" in c:
                        called.add(c.get("res") or c["fn"])
        judged = 0
        for b in self.bodies:
            bid = b["id"]
            uses = any(self.required(c)[0] for blk in b["blocks"] for c, _ in self.operands(blk))
            if not uses:
                continue
            judged += 1
            n = self.needs.get(bid, frozenset())
            if not n:
                self.ctx.ok({"function": bid, "rule": "every mention of a feature-gated function is dominated by its detection"})
                continue
            if b.get("unsafe"):
                self.ctx.ok()       # its callers are judged
                continue
            entry = bid not in called or "trait" in b or b.get("vis", "").startswith("Public")
            n = n - self.contract(b)
            if not n:
                self.ctx.ok({"function": bid, "rule": "availability contract: is_available() tests the feature"})
                continue
            if entry and not b.get("closure_of"):
                what, line = why[(bid, sorted(n)[0])]
                self.ctx.bad("feature:%s:%s" % (bid, what), "%s reaches %s, which needs CPU feature(s) %s, on a path where they were not detected" % (bid, what, ", ".join(sorted(n))), b, line)
            else:
                self.ctx.ok()
        self.ctx.stats["mentions of feature-gated functions"] = self.mentions
        self.ctx.floor("functions using feature-gated code", judged, 10)
        self.ctx.floor("feature detections", self.detects, 8)

    def contract(self, b):
        """features tested by is_available() of the same trait implementation"""
        if "trait" not in b or "self" not in b:
            return frozenset()
        pre = b["id"].rsplit("::", 1)[0]
        v = self.bools.get(pre + "::is_available")
        return v[0] if v else frozenset()


def c14(ctx):
    Cpu(ctx.w, ctx).run()
