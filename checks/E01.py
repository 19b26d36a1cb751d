"""Traced exceptions never terminate: no internal error reaches a non-throwing boundary or the caller, in either absorb mode."""
import os
from absorb import *
from front import VERIF, CONFIGS as ALLCFG

PROBE = os.path.join(VERIF, "probes", "traced.cpp")
# with NDEBUG the ASSERTs are compiled out (VERIFY and PANIC are not); capturing and interception are also decided with them
CONFIGS = ["unwind-addr2line-release", "libunwind-libdl", "unwind-addr2line"]
EXTRA = ["execinfo-libdl", "libunwind-addr2line", "execinfo-addr2line", "unwind-libbacktrace"]


def run(c):
    c.rule("for a client that constructs every traced exception type and calls message/trace/what/nested_ptr, with the absorb switch fixed to "
           "each value: no exception other than memory exhaustion leaves the client, and none reaches a noexcept boundary of any function below it; "
           "with absorbing on, nothing at all leaves trace capture for an exception, the from-current interceptor or its installation")
    for cfg in CONFIGS + (EXTRA if c.thorough else []):
        setter, gs = setter_globals(c, cfg, SETTER)
        for value in (1, 0):
            m = c.module(cfg, specialise({g: value for g in gs}), probes=(PROBE,))
            rep = reporters(m)
            acc = accessors(m)
            # what() prints with the default formatter, which does not prune (pruning may re-raise when absorbing is off)
            acc.update({f.name: set() for f in m.find(NS + r"prune_symbol")})
            if value:
                th = Throws(m, False, override=dict(acc, **{f.name: set() for f in rep}), std_throws=False)
            else:
                th = off_throws(m, rep, override=acc, std_throws=False)
            cap = m.find(r"^vp_capture::")
            ic = m.find(r"^vp_intercept::(value|any)")
            inst = m.find(r"^vp_intercept::install")
            c.need(len(cap), "capturing clients", 3)
            c.need(len(ic), "interceptor clients", 2)
            c.need(len(inst), "installation clients")
            roots = [(f, not value) for f in cap]           # (function, memory exhaustion excused)
            if value:
                roots += [(f, False) for f in ic]
            roots += [(f, True) for f in inst]
            if ALLCFG[cfg].ndebug:
                clients = m.find(r"^vp_traced::[a-z0-9_]+\(")
                c.need(len(clients), "traced exception clients", 14)
                roots += [(f, True) for f in clients]
            for f, excuse in roots:
                c.count("clients")
                c.saw("%s absorb=%d" % (f.dem, value))
                for t in th.out.get(f.name, {}):
                    if t not in EXHAUST or not excuse:
                        c.violation("escapes:%s:%s" % (f.dem, t), "exception-escapes", "%s:%s" % (f.file, f.line),
                                    "using %s can let %s out, absorb=%d [%s]" % (f.dem, tname(t), value, cfg), th.why(f.name, t))
            par = {f.name: None for f, _ in roots}
            q = list(par)
            repn = {f.name for f in rep}
            while q:
                n = q.pop()
                for x, ts, k in m.cg.get(n, []):
                    if (n in repn or not ALLCFG[cfg].ndebug) and is_virtual_what(m, x):          # what() of the reported exception: covered by its own client
                        continue
                    for t in ts:
                        if t not in par:
                            par[t] = (n, x)
                            q.append(t)
            for n in par:
                f = m.fns.get(n)
                if f is None or f.decl or not f.file.startswith(("src/", "include/")):
                    continue
                c.count("functions")
                for t, x in th.term.get(n, {}).items():
                    if t not in EXHAUST and x.bb in th.live.get(n, ()):
                        c.violation("terminate:%s:%s" % (base_name(f.dem), t), "terminates", x.where,
                                    "%s is non-throwing but %s can reach its boundary, terminating the program, absorb=%d [%s]" % (f.dem, tname(t), value, cfg),
                                    m.path(par, n) + (th.why(x.callee_name, t) if x.callee_name else []))
