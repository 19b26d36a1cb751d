"""Lock order: no cycle, no re-entry, released on every exit, no user callback while a lock (or static-initialisation guard) is held."""
import re
from front import AnalysisError
from locks import shared_globals, lock_module, Held, ACQ, RD, lockid
from flow import apath, root
from ir import base_name
from throws import Throws

CONFIGS = ["unwind-addr2line", "unwind-libbacktrace", "execinfo-libdl"]
CALLBACK = re.compile(r"^_ZNKSt8functionIF.*EEclE")


# traced exceptions resolve lazily in what(); a virtual what() on an internal error never dispatches to them
WHAT = re.compile(r"(lazy_exception|exception_with_message|nested_exception|system_error)(D.*|4what\w*|7message\w*|5trace\w*)$|^_ZNK9?.*(lazy_exception|exception_with_message|nested_exception|system_error)[0-9]+(what|message|trace)E?v?$")
LOGFN = re.compile(r"^cpptrace::(v\d+::)?detail::(log::|do_log\b)|^(void )?cpptrace::(v\d+::)?detail::log::|::log_callback|^std::")


def issuers(m, par, cb):
    """the functions that issue the message: nearest callers (inside par) of the callback that are not logging functions"""
    callers = {}
    for n in par:
        for x, ts, k in m.cg.get(n, ()):
            for t in ts:
                if t in par:
                    callers.setdefault(t, set()).add(n)
    out, seen, st = set(), {cb}, [cb]
    while st:
        if par[st[-1]] is None:
            out.add(None)       # called directly by the function that holds the lock
        for p in callers.get(st.pop(), ()):
            if p in seen:
                continue
            seen.add(p)
            if LOGFN.search(m.fns[p].dem):
                st.append(p)
            else:
                out.add(p)
    return out


def inlined_issuer(m, x, f):
    """the source function a call instruction belongs to (innermost non-logging function of its inlining chain)"""
    l = x.d.get("loc") or []
    for k in range(0, len(l), 3):
        fn = m.fns.get(l[k + 2])
        if fn is not None and not LOGFN.search(fn.dem):
            return fn.name
    return f.name


def run(c):
    c.rule("lock-order graph over every global lock and static-initialisation guard: an edge from each lock held at a call or acquisition to every lock that may be acquired "
           "there (transitively over the call graph); a self edge or a cycle is a potential deadlock; the held set is empty at every return and unwind of an entry point; "
           "no std::function call is reachable from a point where a lock is held")
    for cfg in CONFIGS if c.thorough else CONFIGS[:2]:
        m = c.module(cfg)
        ms, ent, acc = lock_module(c, cfg, m, shared_globals(m))
        fns = [ms.fns[e] for e in sorted(ent)]
        held = {f.name: Held(f) for f in fns}
        direct = {}
        for f in fns:
            direct[f.name] = {l for _, l, _ in held[f.name].acq}
        c.need(sum(len(s) for s in direct.values()), "lock acquisitions", 3)
        guards = {}
        for f in m.defined():
            g = {("guard", root(apath(f, x.d["ops"][0]))) for x in f.calls() if x.callee_name == "__cxa_guard_acquire"}
            if g and f.file.startswith(("src/", "include/")):
                guards[f.name] = g
        inner_owner = {}
        # transitive: function -> locks, with a witness path
        memo = {}

        def star(t):
            if t in memo:
                return memo[t]
            par = m.reachable([t], stop=lambda n: bool(WHAT.search(n)))
            out, cbs = {}, {}
            for n in par:
                if WHAT.search(n):
                    continue
                for l in direct.get(n, ()) if n in direct else ():
                    out.setdefault(l, n)
                for l in guards.get(n, ()):
                    out.setdefault(l, n)
                if CALLBACK.match(n):
                    for i in issuers(m, par, n):
                        cbs.setdefault(i, n)
            memo[t] = (out, cbs, par)
            return memo[t]
        edges = {}
        th = None
        name = lambda l: m.globals.get(l[1][1] if l[0] == "guard" else str(root(l)[1]), {}).get("dem", str(l))
        for f in fns:
            h = held[f.name]
            c.saw(f.dem + " " + cfg)
            c.count("entries")
            for x, l, s in h.acq:
                c.count("acquisitions")
                for a in norm(s):
                    edges.setdefault((a, l), (f, x, []))
            for x, s in h.exits:
                s = {l for l in norm(s) if l[0] != "guard"}
                for l in s:
                    c.violation("unreleased:%s:%s" % (name(l), f.dem), "released-on-exit", x.where, "%s can be left still holding %s [%s]" % (f.dem, name(l), cfg))
            for x, l, e in h.leaks():
                if l not in norm(dict((y.i, t) for y, t in h.exits).get(e.i, frozenset())):
                    c.violation("unreleased:%s:%s" % (name(l), f.dem), "released-on-exit", x.where, "%s acquired here is still held when %s is left at %s [%s]" % (name(l), f.dem, e.where, cfg))
            for x in f.calls():
                s = norm(h.at.get(x.i, frozenset()))
                cn = x.callee_name or ""
                if not s or cn in ACQ | RD or cn.startswith(("llvm.", "pthread_", "__cxa_guard")):
                    continue
                c.count("calls_under_lock")
                real = sorted((l for l in s if l[0] != "guard"), key=str)
                if x.op == "call" and real and not x.d.get("nounwind"):
                    ts, k = ms.targets(x)
                    if th is None:
                        th = Throws(m)
                    if th.throws_of_call(x, ts, k):
                        c.violation("unreleased:%s:%s" % (name(real[0]), f.dem), "released-on-exit", x.where,
                                    "an exception from %s leaves %s still holding %s [%s]" % (m.fns[ts[0]].dem[:120] if ts and ts[0] in m.fns else cn, f.dem, name(real[0]), cfg))
                for t in ms.targets(x)[0]:
                    out, cb, par = star(t)
                    a = sorted(s, key=str)[0]
                    for i, n in cb.items():
                        i = i or inlined_issuer(m, x, f)
                        c.violation("callback:%s:%s" % (base_name(name(a)), base_name(m.fns[i].dem)), "no-callback-under-lock", x.where,
                                    "a user callback is reachable here, from %s, while %s is held [%s]" % (m.fns[i].dem[:160], name(a), cfg), m.path(par, i) + m.path(m.reachable([i]), n) if i in par else ())
                    for l, n in out.items():
                        for a in s:
                            if a == l and l[0] == "guard" and t == n and n == f.name:
                                continue
                            edges.setdefault((a, l), (f, x, m.path(par, n)))
                if ms.targets(x)[1] == "indirect" and s:
                    pass
        for (a, b), (f, x, p) in sorted(edges.items(), key=lambda e: str(e[0])):
            c.count("order_edges")
            c.notes.append("%s -> %s in %s [%s]" % (name(a)[:120], name(b)[:120], f.dem[:80], cfg)) if len(c.notes) < 40 else None
            if a == b:
                c.violation("reentry:%s" % name(a), "no-reentry", x.where, "%s is acquired again while already held by this thread, in %s [%s]" % (name(a), f.dem, cfg), p)
        succ = {}
        for (a, b) in edges:
            if a != b:
                succ.setdefault(a, set()).add(b)
        for (a, b), (f, x, p) in edges.items():
            if a == b:
                continue
            seen, st = set(), [b]
            while st:
                n = st.pop()
                if n == a:
                    back = next(v for (s2, b2), v in edges.items() if b2 == a and s2 in seen | {b})
                    c.violation("cycle:" + ",".join(sorted([name(a), name(b)])), "acyclic-order", x.where,
                                "%s is acquired while %s is held in %s, but the opposite order occurs in %s at %s [%s]" % (name(b), name(a), f.dem, back[0].dem, back[1].where, cfg), p)
                    break
                for k in succ.get(n, ()):
                    if k not in seen:
                        seen.add(k)
                        st.append(k)


def norm(s):
    out = set()
    for l in s:
        if l[0] == "init":
            out.add(("guard", l[1]))
        elif l[0] == "rd":
            out.add(l[1])
        elif l[0] == "once":
            continue
        else:
            out.add(l)
    return out
