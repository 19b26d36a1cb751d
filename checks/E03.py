"""Thread privacy of from-current state: every mutable global that holds or steers exception traces is thread-local."""
import re
from front import SSA
from pe import NS

TRACE_TYPES = re.compile(r"^cpptrace::(v\d+::)?(detail::lazy_trace_holder|raw_trace|object_trace|stacktrace)$|^(lazy_trace_holder|raw_trace|stacktrace)$")
READERS = NS + r"(raw_trace_from_current_exception(_rethrow)?|from_current_exception(_rethrow)?|current_exception_was_rethrown|clear_current_exception_traces)\(\)$"
RETHROW = NS + r"rethrow\([^()]*\)$"
COLLECT = NS + r"detail::maybe_collect_trace\([^()]*\)$"
CONFIGS = ["unwind-addr2line", "libunwind-libdl"]


def data_globals(m, f):
    """(inst, global) for every mutable data global whose address f uses"""
    out = []
    for x in f.insts:
        for o in x.d.get("ops", []) + [v for v, _ in x.d.get("phi", [])]:
            if o.startswith("g"):
                g = m.globals.get(o[1:].split("@")[0])
                if g is None or g.get("const") or g["name"].startswith(("_ZTV", "_ZTI", "_ZTS", ".str", "llvm.", "__dso_handle", "_ZSt", "_ZGV")):
                    continue
                if g.get("decl") and not g.get("tls") and not g["dem"].startswith("cpptrace"):
                    continue
                out.append((x, g))
    return out


def run(c):
    c.rule("every mutable static-storage object of a trace type is thread-local; every mutable global touched by the rethrow functions, by the "
           "current-trace accessors and by the trace collector (up to the unwinder) is thread-local; no thread-local state is published "
           "through a shared pointer")
    for cfg in CONFIGS if not c.thorough else CONFIGS + ["execinfo-libdl", "nothing-nothing"]:
        m = c.module(cfg)
        for n, g in m.globals.items():
            if g.get("const") or g.get("decl") or not (g.get("file") or "").lstrip("/").startswith(("src/", "include/")):
                continue
            t = g.get("dtype") or ""
            if TRACE_TYPES.match(t) or re.search(r"(lazy_trace_holder|raw_trace|stacktrace|object_trace)\b", g.get("ty", "")):
                c.count("trace_globals")
                c.saw("global %s" % g["dem"])
                if not g.get("tls"):
                    c.violation("shared:" + g["dem"], "shared-trace-state", "%s:%s" % (g.get("file"), g.get("line")),
                                "%s holds a trace in storage shared by all threads [%s]" % (g["dem"], cfg))
        c.need(c.counts.get("trace_globals", 0), "trace-holding globals", 2)
        tlsuse = {f.name for f in m.defined() if any(g.get("tls") and g["name"] != "__tls_guard" for _, g in data_globals(m, f))}
        rev = {}
        for f in m.defined():
            for x, ts, k in m.cg[f.name]:
                if k == "direct":
                    rev.setdefault(ts[0], set()).add(f.name)
        reach_tls, st = set(tlsuse), list(tlsuse)
        while st:
            for p in rev.get(st.pop(), ()):
                if p not in reach_tls:
                    reach_tls.add(p); st.append(p)
        groups = [(RETHROW, 2), (COLLECT, 1), (READERS, 6)]
        for rx, least in groups:
            roots = m.find(rx)
            c.need(len(roots), "functions matching " + rx, least)
            files = {f.file for f in roots}
            for r in roots:
                c.count("state_roots")
                c.saw(r.dem)
                par = {r.name: None}
                q = [r.name]
                tls = 0
                while q:
                    n = q.pop()
                    f = m.fns[n]
                    for x, g in data_globals(m, f):
                        c.count("global_uses")
                        if g.get("tls"):
                            tls += 1
                        else:
                            c.violation("shared:%s" % g["dem"], "shared-trace-state", x.where,
                                        "%s uses %s, which all threads share, to keep from-current state [%s]" % (f.dem, g["dem"], cfg), m.path(par, n))
                    for x, ts, k in m.cg[n]:
                        if k != "direct":
                            continue
                        for t in ts:
                            g = m.fns.get(t)
                            if g is None or t in par:
                                continue
                            if g.decl:
                                if g.dem.startswith(("TLS wrapper", "thread-local wrapper")):
                                    tls += 1
                                continue
                            if g.dem.startswith(("thread-local wrapper", "thread-local initialization")) or (g.file in files) or t in tlsuse or \
                                    (not g.file.startswith("src/") and not g.file.startswith("/usr") and t in reach_tls):
                                par[t] = (n, x)
                                q.append(t)
                if not tls:
                    c.violation("no-thread-state:" + r.dem, "shared-trace-state", "%s:%s" % (r.file, r.line), "%s uses no thread-local state [%s]" % (r.dem, cfg))
        # a thread-local object's address stored into shared storage
        for f in m.defined():
            if not f.file.startswith(("src/", "include/")) or f.name not in tlsuse:
                continue
            tl = set()
            for x in f.insts:
                if x.callee_name and x.callee_name.startswith("llvm.threadlocal.address") and (m.globals.get(x.d["ops"][0][1:]) or {}).get("name") != "__tls_guard":
                    tl.add(x.ref)
                elif x.op in ("getelementptr", "phi", "select") and any(o in tl for o in x.d.get("ops", []) + [v for v, _ in x.d.get("phi", [])]):
                    tl.add(x.ref)
                elif x.op == "store" and x.d["ops"][0] in tl and x.d["ops"][1].startswith("g"):
                    g = m.globals.get(x.d["ops"][1][1:].split("@")[0])
                    if g is not None and not g.get("tls"):
                        c.violation("published:" + g["dem"], "published-thread-state", x.where, "%s publishes thread-local state through %s" % (f.dem, g["dem"]))
