"""Shared context of the checks: facts, reporting, evidence, known findings."""
import json, os, re, sys, time, collections
from . import facts
from .facts import AnalysisError, World, VERIF, tstr
from .canon import method

P_PARAM = "concrete_core::specification::parameters::"
SPEC = os.path.join(VERIF, "sa", "spec")


class Ctx:
    def __init__(self, prop, tier="quick"):
        self.prop, self.tier = prop, tier
        self.t0 = time.time()
        self.violations = []
        self.obligations = 0
        self.discharged = 0
        self.samples = []
        self.stats = collections.OrderedDict()
        self._w = None
        self.meta = None
        self.seen = set()

    @property
    def w(self):
        if self._w is None:
            d, self.meta = facts.collect()
            self._w = World(d)
            if self._w.failed:
                self.stats["bodies_without_mir"] = len(self._w.failed)
        return self._w

    def ok(self, sample=None):
        self.obligations += 1
        self.discharged += 1
        if sample is not None and len(self.samples) < 12:
            self.samples.append(sample)

    def bad(self, key, msg, body=None, line=None, **extra):
        """key: construct identity without line numbers"""
        self.obligations += 1
        if key in self.seen:
            return
        self.seen.add(key)
        v = {"key": key, "message": msg}
        if body is not None:
            v["function"] = body["id"]
            v["file"] = body.get("file", "")
            v["line"] = line or body.get("line")
        v.update(extra)
        self.violations.append(v)

    def check(self, cond, key, msg, body=None, line=None, sample=None, **extra):
        if cond:
            self.ok(sample)
        else:
            self.bad(key, msg, body, line, **extra)
        return cond

    def floor(self, name, n, minimum):
        """fail closed when an enumeration shrinks below what the tree is known to contain"""
        self.stats[name] = n
        if n < minimum:
            self.bad("floor:" + name, "only %d %s found, at least %d expected: the rule no longer sees the code it judges" % (n, name, minimum))

    def spec(self, name):
        return json.load(open(os.path.join(SPEC, name)))


def known_findings(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["findings"] if k["property"] == prop and k.get("status", "open") == "open"]


def single_field_params(w):
    if not hasattr(w, "_single"):
        w._single = {a["id"] for a in w.adts.values() if a["id"].startswith(P_PARAM) and len(a["variants"]) == 1 and len(a["variants"][0]["f"]) == 1}
    return w._single


def transparent_params(w):
    s = single_field_params(w)
    return lambda o: o in s


def is_test_body(b):
    return "::test" in b["id"] or "/test" in b.get("file", "")


def short_type(t):
    return tstr(t)


def engine_of(b):
    """self type of an impl method"""
    return tstr(b["T"][b["self"]]) if "self" in b else ""


def load_property(prop):
    for l in open(os.path.join(VERIF, "properties.jsonl")):
        l = l.strip()
        if l:
            j = json.loads(l)
            if j["id"] == prop:
                return j
    return None
