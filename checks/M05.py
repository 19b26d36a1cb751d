"""Typestate: every unwrap of an internal result or optional is reached only where the object is known to hold that alternative."""
from front import AnalysisError
from holders import Holders

CFGS = ["unwind-addr2line", "execinfo-libdl"]
STEPS = ("opt", "function(sroa,early-cse,simplifycfg,jump-threading,simplifycfg)")
MORE = ["libunwind-libdl", "unwind-addr2line-release"]


def run(c):
    c.rule("on every path to a call of unwrap/unwrap_value (unwrap_error) on a detail::optional or detail::Result, a test of the same object, or its construction, has established that it holds a value (an error), and nothing may have changed it since; where the object belongs to the caller the obligation moves to every call site")
    for cfg in CFGS + (MORE if c.thorough else []):
        m = c.module(cfg, (STEPS,))
        h = Holders(m)
        if len(h.flag) < 5:
            raise AnalysisError("the discriminators of the optional/result types were not recognised")
        h.solve()
        c.count("unwrap_sites", len(h.obligations)); c.count("states", h.states); c.count("functions", len(h.done))
        c.need(len(h.obligations), "unwrap sites", 100)
        for n in sorted(h.done):
            c.saw("%s [%s]" % (m.fns[n].dem, cfg))
        for (idk, n), (f, (x, what, why)) in sorted(h.unmet.items(), key=str):
            c.violation("%s:%s:%s" % (f.short[:60], what, x.where), "checked-before-use", x.where, "%s is called in %s although %s [%s]" % (what, f.short[:80], why, cfg))
