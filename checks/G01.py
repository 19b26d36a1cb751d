"""Logging: level filtering by partial evaluation over every (configured, issued) level pair; silence by reachability."""
import re
from front import AnalysisError, slice_steps
from pe import NS, setter_globals, other_writers, ATOMIC, INLINE_ATOMICS
from absorb import sinks, reach_log
from flow import Facts, apath
from ir import base_name, operands

CONFIGS = ["unwind-addr2line"]
EXTRA = ["execinfo-libdl", "nothing-nothing", "unwind-libbacktrace", "libunwind-libdl", "libunwind-addr2line", "execinfo-dladdr"]
LEVELS = {"debug": 0, "info": 1, "warn": 2, "warning": 2, "error": 3}
SETTER = NS + r"set_log_level\(cpptrace::(v[0-9]+::)?log_level\)"
STREAMS = {"stderr", "stdout", "_ZSt4cerr", "_ZSt4cout", "_ZSt4clog", "_ZSt5wcerr", "_ZSt5wcout", "_ZSt5wclog"}
STDIO = {"printf", "puts", "putchar", "perror", "psignal", "vprintf", "psiginfo", "putchar_unlocked", "__printf_chk", "warn", "warnx", "syslog"}
# what the user calls in order to print
PRINTS = re.compile(r"(^|::|_)(print\w*|operator<<|terminate_handler|register_terminate_handler|use_default_stderr_logger)$|^ctrace_print\w*$")


def uses_stream(f):
    out = []
    for x in f.insts:
        if x.op == "icmp":
            continue
        if x.op in ("call", "invoke"):
            cn = x.callee_name or ""
            if cn in STDIO:
                out.append((x, cn))
            if cn in ("write", "dprintf", "__dprintf_chk", "vdprintf") and x.d["ops"][0] in ("c1", "c2"):
                out.append((x, "%s(%s)" % (cn, x.d["ops"][0][1:])))
        for o in operands(x):
            if o[0] == "g" and o[1:].split("@")[0] in STREAMS:
                out.append((x, o[1:]))
    return out


def silence(c, cfg):
    m = c.module(cfg)
    snk = sinks(m)
    c.need(len(snk), "calls of the user log callback in " + cfg, 1)
    pub = [f for f in m.defined() if f.file.startswith(("src/", "include/")) and not f.internal and not PRINTS.search(base_name(f.dem))
           and re.match(r"^(cpptrace|ctrace)", f.dem) and "::detail::" not in f.dem]
    pub += [f for f in m.defined() if f.name.startswith(("_GLOBAL__sub_I", "__cxx_global_var_init"))]
    c.need(len(pub), "public entry points in " + cfg, 60)
    par = {f.name: None for f in pub}
    st = list(par)
    while st:
        n = st.pop(0)
        f = m.fns[n]
        if f.decl or n in snk or PRINTS.search(base_name(f.dem)) and "formatter" not in f.dem:
            continue
        c.count("functions_searched")
        for x in f.insts:
            ts = set()
            if x.op in ("call", "invoke") and x.callee_name is None:
                t, k = m.targets(x)
                if k == "virtual":
                    ts.update(t)
            for o in operands(x):
                if o[0] == "g" and o[1:] in m.fns:
                    ts.add(o[1:])
            for t in ts:
                if t in m.fns and t not in par:
                    par[t] = (n, x)
                    st.append(t)
        if f.file.startswith("src/") or f.file.startswith("include/"):
            for x, s in uses_stream(f):
                # comparing/inspecting a stream (isatty) is not writing
                if x.op in ("call", "invoke") and re.search(r"(isatty|fileno)", m.fns[x.callee_name].dem if x.callee_name in m.fns else x.callee_name or ""):
                    continue
                c.violation("stream:%s:%s" % (base_name(f.dem), s), "silent-by-default", x.where,
                            "%s uses the standard stream %s although it is not a printing function and no logger was installed [%s]" % (f.dem, s, cfg), m.path(par, n))
    # functions that write log messages to a stream may only be installed by the function that says so
    loggers = {g.name for g in m.defined() if re.search(r"\(cpptrace::(v\d+::)?log_level, char const\*\)$", g.dem)
               and any(uses_stream(m.fns[t]) for t in m.reachable([g.name]) if t in m.fns and not m.fns[t].decl)}
    for f in m.defined():
        if not f.file.startswith(("src/", "include/")):
            continue
        for x in f.insts:
            ops = x.d.get("ops", [])
            for o in ops:
                if o[0] == "g" and o[1:] in loggers:
                    g = m.fns[o[1:]]
                    if True:
                        c.count("logger_installs")
                        if not PRINTS.search(base_name(f.dem)):
                            c.violation("install:%s" % base_name(f.dem), "silent-by-default", x.where, "%s installs %s, which writes to a standard stream [%s]" % (f.dem, g.dem, cfg))


def null_test(F, p, s):
    """is p->s an edge taken only because there is no callback (pointer null / empty function)?"""
    f = F.f
    t = f.blocks[p][-1]
    su = t.d.get("succ", [])
    if t.op != "br" or len(su) != 2:
        return False
    fs = []
    F._expand(t.d["ops"][0], su[0] == s, fs, 0)
    for k in fs:
        if k[0] == "cmp" and k[1] == "eq" and "n" in k[2:]:
            return True
        if k[0] == "val" and not k[2]:
            x = f.inst(k[1])
            if x is not None and x.op in ("call", "invoke") and re.search(r"operator bool", f.mod.fns[x.callee_name].dem if x.callee_name in f.mod.fns else ""):
                return True
    return False


def levels(c, cfg, gs, setter):
    base = c.module(cfg)
    rl = reach_log(base)
    # the functions other files call to issue a message
    ent = {g.name for g in base.defined() if g.name in rl and re.search(r"::detail::(\w+::)*(%s)\(char const\*\)$" % "|".join(LEVELS), g.dem)}
    c.need(len(ent), "message-issuing functions", 3)
    # every path to the callback goes through a function that is specialised below
    sl = slice_steps("=" + ",".join(sorted(ent)), r"^cpptrace::(v[0-9]+::)?detail::", r"~^_ZNKSt8functionI", ATOMIC)
    for L in range(4):
        ms = c.module(cfg, sl + [("xform", sum([["--const-global", "%s=%d" % (g, L)] for g in sorted(gs)], []))] + sl[1:])
        for n in sorted(ent):
            d = base.fns[n].dem
            k = base_name(d).split("::")[-1]
            want = LEVELS[k]
            f = ms.fns[n]
            F = Facts(f)
            c.count("level_pairs")
            c.saw("%s with level %d configured" % (d, L))
            snk = [x for x in f.calls() if re.match(r"^std::function<void \(cpptrace::(v\d+::)?log_level, char const\*\)>::operator\(\)", ms.fns[x.callee_name].dem if x.callee_name in ms.fns else "")]
            deep = [x for x in f.calls() if x.callee_name in rl and x not in snk]
            if deep:
                raise AnalysisError("%s: the path to the callback goes through %s, which is not inlined" % (d, deep[0].callee_name))
            if want < L:
                for x in snk:
                    c.violation("below:%s:%d" % (k, L), "level-filter", x.where, "%s calls the callback although level %d is configured (its level is %d)" % (d, L, want))
                continue
            if not snk:
                c.violation("dropped:%s:%d" % (k, L), "level-filter", f.insts[0].where, "%s never calls the callback although level %d is configured (its level is %d)" % (d, L, want))
                continue
            for x in snk:
                a = x.d["ops"]
                if a[1] != "c%d" % want:
                    c.violation("relabel:%s" % k, "level-delivered", x.where, "%s delivers level %s instead of %d" % (d, a[1], want))
                if apath(f, a[2]) != ("arg", 0):
                    c.violation("message:%s" % k, "message-delivered", x.where, "%s does not deliver the message it was given" % d)
            # at most one call, and no way round it other than "no callback"
            seen, st, sb = set(), [0], {x.bb for x in snk}
            while st:
                b = st.pop()
                if b in seen:
                    continue
                seen.add(b)
                if b in sb:
                    continue
                t = f.blocks[b][-1]
                if t.op == "ret":
                    c.violation("lost:%s:%d" % (k, L), "level-filter", t.where, "%s can return without calling an installed callback although level %d is configured (its level is %d)" % (d, L, want))
                for s in t.d.get("succ", []):
                    if t.op == "invoke" and s == t.d["unwind"] or null_test(F, b, s):
                        continue
                    st.append(s)
            for x in snk:
                par = {b for b in range(len(f.blocks)) if x.bb in f.dom[b] and b != x.bb}
                for y in snk:
                    if y.bb in par or y is not x and y.bb == x.bb:
                        c.violation("twice:%s" % k, "level-filter", y.where, "%s can deliver one message twice" % d)
    # nobody else calls the callback
    snks = sinks(base)
    callers = [(f, x) for f in base.defined() for x, ts, k in base.cg[f.name] if k == "direct" and ts[0] in snks]
    okr = base.reachable(sorted(ent))
    for f, x in callers:
        c.count("callback_call_sites")
        if f.name not in okr:
            c.violation("bypass:%s" % base_name(f.dem), "level-filter", x.where, "%s calls the log callback outside the levelled logging functions" % f.dem)
    # and nobody enters between the two
    inner = {n for n in okr if n in rl and n in base.fns and not base.fns[n].decl} - ent
    for f in base.defined():
        if f.name in okr or f.name in ent:
            continue
        for x, ts, k in base.cg[f.name]:
            if k == "direct" and ts[0] in inner and not re.match(r"^std::", base.fns[ts[0]].dem):
                c.violation("bypass:%s" % base_name(f.dem), "level-filter", x.where, "%s issues a message through %s, bypassing the levelled logging functions" % (f.dem, base.fns[ts[0]].dem))


def run(c):
    c.rule("for every pair (configured level, issuing function) the program specialised to that configured level calls the callback, with the level and message issued, "
           "on every path with a callback installed iff the level is at or above the configured one; the level variable is written only by its public setter, with its argument; "
           "no public entry point that is not a printing function reaches (by calls or by taking addresses) a use of a standard output stream")
    for cfg in CONFIGS + (EXTRA if c.thorough else []):
        setter, gs = setter_globals(c, cfg, SETTER)
        m = c.module(cfg, INLINE_ATOMICS)
        for x in setter.insts:
            if x.op in ("store", "atomicrmw", "cmpxchg"):
                v, p = (x.d["ops"][0], x.d["ops"][1]) if x.op == "store" else (x.d["ops"][1], x.d["ops"][0])
                if p[1:].split("@")[0] in gs and apath(setter, v) != ("arg", 0):
                    c.violation("setter", "level-setter", x.where, "set_log_level stores something other than its argument")
        if any(len(setter.succs(b)) > 1 for b in range(len(setter.blocks))):
            c.violation("setter-conditional", "level-setter", setter.insts[0].where, "set_log_level stores its argument only conditionally")
        for g in gs:
            for x in other_writers(m, g, {setter.name}):
                if not x.fn.file.startswith("/usr") and x.fn.file.startswith(("src/", "include/")):
                    c.violation("writer:%s" % base_name(x.fn.dem), "level-setter", x.where, "%s changes the configured log level" % x.fn.dem)
        for f in c.module(cfg).defined():
            for x, ts, k in c.module(cfg).cg[f.name]:
                if k == "direct" and ts[0] == setter.name and f.file.startswith(("src/", "include/")):
                    c.violation("writer:%s" % base_name(f.dem), "level-setter", x.where, "%s changes the configured log level" % f.dem)
        levels(c, cfg, gs, setter)
        silence(c, cfg)
