"""Check context: collects what was analysed and the violations, applies the known-findings file, writes evidence."""
import json, os, sys, time, re
from front import (VERIF, REPO, AnalysisError, bitcode, transform, dump, SSA, CONFIGS)
import ir

KNOWN = os.path.join(VERIF, "known_findings.txt")
_modules = {}


def load_known():
    """lines:  finding: property=<id> key=<exact key> <description>
              fixed: property=<id> <commit> <what failed>      (suppresses nothing)"""
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"finding:\s+property=(\S+)\s+key=(\S+)\s+(.*)", l)
            if m:
                out.append((m.group(1), m.group(2), m.group(3).strip()))
    return out


class Ctx:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.t0 = time.time()
        self.viol = []
        self.counts = {}
        self.analysed = []
        self.rules = []
        self.notes = []
        self.configs = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    # ---- program access
    def module(self, cfg, steps=(SSA,), probes=(), tag=""):
        if cfg not in self.configs:
            self.configs.append(cfg)
        k = (cfg, json.dumps(list(steps)), tuple(probes))
        if k not in _modules:
            bc = bitcode(cfg, probes)
            if steps:
                bc = transform(bc, list(steps))
            _modules[k] = ir.Module(dump(bc), cfg)
        return _modules[k]

    # ---- recording
    def rule(self, text):
        if text not in self.rules:
            self.rules.append(text)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def saw(self, what):
        if what not in self.analysed:
            self.analysed.append(what)

    def need(self, n, what, least=1):
        if n < least:
            raise AnalysisError("%s: only %d instance(s) of %s found (need %d): the rule has nothing to decide" % (self.prop, n, what, least))

    def violation(self, key, rule, where, msg, path=()):
        """key: stable identity of the failing construct (function / call site), no line numbers"""
        key = re.sub(r"\s+", "_", key)
        for v in self.viol:
            if v["key"] == key:
                return
        self.viol.append(dict(key=key, rule=rule, where=where, message=msg, path=list(path)))

    # ---- end
    def pending(self):
        known = {k for p, k, d in load_known() if p == self.prop}
        return any(v["key"] not in known for v in self.viol)

    def finish(self):
        known = [(k, d) for p, k, d in load_known() if p == self.prop]
        new, old = [], []
        for v in self.viol:
            m = [d for k, d in known if k == v["key"]]
            (old if m else new).append((v, m[0] if m else None))
        evdir = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")
        os.makedirs(evdir, exist_ok=True)
        for v, d in old:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, d))
        replay = os.path.join(evdir, "%s.violations.json" % self.prop)
        if new:
            json.dump([v for v, _ in new], open(replay, "w"), indent=1)
        elif os.path.exists(replay):
            os.remove(replay)
        for v, _ in new:
            print("%s: [%s] %s (key=%s)" % (v["where"], v["rule"], v["message"], v["key"]))
            for s in v["path"]:
                print("    via " + s)
        if new:
            print("VIOLATION property=%s replay=%s" % (self.prop, replay))
        ev = dict(property=self.prop, tier=self.tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="other",
                  coverage=dict(explanation="Static analysis of the current source tree (compiled to type-checked, linked LLVM IR per back-end configuration; nothing is executed). Rules: " + " | ".join(self.rules),
                                configurations=self.configs, counts=self.counts,
                                analysed=self.analysed[:400], analysed_total=len(self.analysed), notes=self.notes,
                                known_findings=[d for _, d in old]),
                  wall_s=round(time.time() - self.t0, 2),
                  violations=len(new))
        return ev, 1 if new else 0
