"""Absorb switch honoured both ways: may-throw analysis of the program specialised to each value of the switch."""
import re
from absorb import *

ENTRY = NS + r"(generate_(raw_|object_)?trace|(raw_trace|object_trace|stacktrace)::(current|resolve|resolve_object_trace))\("
SOFT = NS + r"(stacktrace_frame::get_object_info|safe_object_frame::resolve)\("
CONFIGS = ["unwind-addr2line", "libunwind-libdl"]
EXTRA = ["unwind-libbacktrace", "execinfo-libdl", "execinfo-addr2line", "nothing-nothing"]


def run(c):
    c.rule("specialised to absorb=on, no exception type at all can leave a generation/resolution entry point (the reporting function itself "
           "assumed not to fail) and the reporting function never re-raises; specialised to absorb=off, every exception handler reachable from "
           "an entry point that can receive an internal error leaves only by re-raising, and the reporting function cannot return for a "
           "non-empty exception; in both modes every handler reaches the logger before leaving; the switch starts on and is written by its setter only")
    for cfg in CONFIGS + (EXTRA if c.thorough else []):
        setter, gs = setter_globals(c, cfg, SETTER)
        base = c.module(cfg, INLINE_ATOMICS)
        for g in gs:
            gi = base.globals[g]
            init = gi.get("init")
            while isinstance(init, list) and init:
                init = init[0]
            if init in ("z", "c0"):
                c.violation("initial:" + g, "default-off", "%s:%s" % (gi.get("file"), gi.get("line")), "absorbing is not enabled initially")
            for x in other_writers(base, g, {setter.name}):
                c.violation("writer:%s" % base_name(x.fn.dem), "hidden-writer", x.where, "%s changes the absorb setting" % x.fn.dem)
        # ---- on
        on = Mode(c, cfg, gs, 1, override_reporters=True)
        ent = on.m.find(ENTRY)
        c.need(len(ent), "trace entry points in " + cfg, 15)
        for f in ent:
            c.count("entry_points")
            c.saw(f.dem)
            for t in on.th.out.get(f.name, {}):
                c.violation("leaks:%s" % f.dem, "not-absorbed", "%s:%s" % (f.file, f.line),
                            "with absorbing enabled %s can let %s reach its caller [%s]" % (f.dem, tname(t), cfg), on.th.why(f.name, t))
        for f in on.m.find(SOFT):
            c.count("entry_points")
            for t in on.th.out.get(f.name, {}):
                if t == ANY or "internal_error" in t:
                    c.violation("leaks:%s" % f.dem, "not-absorbed", "%s:%s" % (f.file, f.line),
                                "with absorbing enabled %s can let %s reach its caller [%s]" % (f.dem, tname(t), cfg), on.th.why(f.name, t))
        real = Throws(on.m, False)
        for f in on.rep:
            for t in real.out[f.name]:
                if t == ANY or "internal_error" in t:
                    c.violation("reraises:%s" % base_name(f.dem), "absorb-reraises", "%s:%s" % (f.file, f.line),
                                "with absorbing enabled %s still re-raises %s" % (f.dem, tname(t)), real.why(f.name, t))
        # ---- off
        off = Mode(c, cfg, gs, 0)
        prop, bad = propagators(c, cfg, gs, off.rep)
        for n, x in bad.items():
            c.violation("swallows:%s" % base_name(off.m.fns[n].dem), "reporter-swallows", x.where,
                        "with absorbing disabled %s can return normally although it was given an exception [%s]" % (off.m.fns[n].dem, cfg))
        IE = [t for t in off.th.bases if "internal_error" in t]
        for mode in (off, on):
            m, th = mode.m, mode.th
            rl = reach_log(m)
            roots = [f.name for f in m.find(ENTRY)] + [f.name for f in m.find(SOFT)]
            rep = {f.name for f in mode.rep}
            par = {r: None for r in roots}
            q = list(roots)
            while q:
                n = q.pop()
                f = m.fns.get(n)
                if f is None or f.decl:
                    continue
                for x, ts, k in m.cg[n]:
                    if is_virtual_what(m, x):
                        continue
                    for t in ts:
                        if t not in par:
                            par[t] = (n, x)
                            q.append(t)
            for n in par:
                f = m.fns.get(n)
                if f is None or f.decl or not f.file.startswith(("src/", "include/")):
                    continue
                c.count("functions")
                for bid, types in th.begin.get(n, {}).items():
                    x = f.byid[bid]
                    if x.bb not in th.live[n]:
                        continue
                    if not any(t == ANY or "internal_error" in t for t in types):
                        continue
                    c.count("handlers")
                    if n in rep:
                        continue
                    if mode is off:
                        e = handler_exits(f, x, lambda y: y.callee_name in prop)
                        if e:
                            c.violation("swallow:%s" % base_name(f.dem), "handler-swallows", x.where,
                                        "with absorbing disabled, this handler in %s can swallow an internal error [%s]" % (f.dem, cfg), m.path(par, n))
                    # logged first
                    blk = f.blocks[x.bb]
                    k0 = next(i for i, y in enumerate(blk) if y is x) + 1
                    ex = walk(f, (x.bb, k0), lambda y: "stop" if (y.callee_name in rl) else None, lambda p, s: True,
                              unwind=lambda y: y.callee_name == "__cxa_rethrow")
                    if ex:
                        c.violation("unlogged:%s" % base_name(f.dem), "not-logged", x.where,
                                    "this handler in %s can leave without reporting the error to the logger [%s]" % (f.dem, cfg), m.path(par, n))
        # reporter logs before anything else, for every exception
        for f in off.rep:
            rx = ("^" + re.escape(f.dem) + "$").replace("\\ ", " ")
            for v in (0, 1):
                s = c.module(cfg, specialise({g: v for g in gs}) + slice_steps(rx))
                g = s.fns[f.name]
                F = Facts(g)
                rl = reach_log(off.m)
                ex = walk(g, (0, 0), lambda y: "stop" if (y.callee_name in rl) else None,
                          lambda p, q: not null_edge(F, g, p, q) and not noret_edge(g, p, q), unwind=noreturn)
                c.count("reporter_paths")
                if ex:
                    c.violation("reporter-unlogged:%s" % base_name(f.dem), "not-logged", ex[0].where,
                                "%s can finish for a non-empty exception without reporting it to the logger [%s]" % (f.dem, cfg))
