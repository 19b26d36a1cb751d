"""Effect analysis: everything reachable from the signal-safe entry points uses only async-signal-safe primitives."""
import re
from front import AnalysisError
from throws import Throws
from ir import base_name

ROOTS = r"^(cpptrace::(v[0-9]+::)?(safe_generate_raw_trace|get_safe_object_frame|can_signal_safe_unwind|can_get_safe_object_frame)\(|ctrace_(safe_generate_raw_trace|get_safe_object_frame|can_signal_safe_unwind|can_get_safe_object_frame)$)"
# async-signal-safe externals: POSIX.1-2016 list members usable here, documented-signal-safe libunwind/glibc calls
SAFE = re.compile(r"^(memcpy|memmove|memset|memcmp|memchr|strlen|strnlen|strcpy|strncpy|strcmp|strncmp|strchr|strrchr|stpcpy|strcat|"
                  r"readlink|readlinkat|open|openat|read|pread|write|close|access|stat|fstat|lseek|getpid|"
                  r"_dl_find_object|"
                  r"_U(L)?(x86_64|aarch64|arm)_(getcontext|init_local|init_local2|step|get_reg|is_signal_frame|get_fpreg|set_reg)|_x86_64_getcontext|unw_(getcontext|init_local|step|get_reg|is_signal_frame)|_Ux86_64_getcontext|"
                  r"__errno_location)$")
CONFIGS = ["libunwind-addr2line", "unwind-addr2line", "execinfo-libdl", "nothing-nothing"]
EXTRA = ["libunwind-libdl", "unwind-libbacktrace", "execinfo-dladdr"]


def run(c):
    c.rule("no function reachable (over the resolved call graph, through paths that can execute given the inferred exception sets) "
           "from the signal-safe entry points calls an external that is not on the async-signal-safe list, raises, makes an unresolved "
           "indirect call, runs inline assembly, or accesses mutable static or thread-local storage non-atomically")
    for cfg in CONFIGS + (EXTRA if c.thorough else []):
        m = c.module(cfg)
        roots = [f.name for f in m.find(ROOTS)]
        c.need(len(roots), "signal-safe entry points in " + cfg, 8)
        th = Throws(m)
        par = {r: None for r in roots}
        q = list(roots)
        ext = set()
        while q:
            n = q.pop()
            f = m.fns[n]
            if f.decl:
                continue
            c.count("functions")
            c.saw(f.dem)
            live = th.live.get(n, set())
            path = lambda: m.path(par, n)
            for x, ts, k in m.cg[n]:
                if x.bb not in live:
                    c.count("dead_call_sites")
                    continue
                c.count("call_sites")
                if k == "asm":
                    c.violation("asm:%s" % base_name(f.dem), "inline-asm", x.where, "inline assembly on a signal-safe path", path())
                if k == "indirect" and not ts:
                    c.violation("indirect:%s" % base_name(f.dem), "indirect", x.where, "unresolved indirect call on a signal-safe path in %s" % f.dem, path())
                for t in ts:
                    g = m.fns.get(t)
                    if t.startswith("llvm."):
                        continue
                    if g is None or g.decl:
                        ext.add(t)
                        if not SAFE.match(t):
                            c.violation("calls:%s:%s" % (base_name(f.dem), t), "not-async-signal-safe", x.where,
                                        "%s calls %s, which is not async-signal-safe [%s]" % (f.dem, g.dem if g else t, cfg), path())
                    elif t not in par:
                        par[t] = (n, x)
                        q.append(t)
            for x in f.insts:
                if x.bb not in live or x.op == "landingpad":
                    continue
                for o in x.d.get("ops", []) + [v for v, _ in x.d.get("phi", [])]:
                    gname = o[1:].split("@")[0] if o.startswith("g") else None
                    gi = m.globals.get(gname) if gname else None
                    if not gi or gi.get("const") or gname.startswith(("_ZTV", "_ZTI", "llvm.")):
                        continue
                    if x.d.get("atomic") or x.op in ("atomicrmw", "cmpxchg"):
                        c.count("atomic_accesses")
                        continue
                    c.violation("state:%s:%s" % (base_name(f.dem), gname), "mutable-static-state", x.where,
                                "%s uses mutable static storage %s non-atomically on a signal-safe path" % (f.dem, gname), path())
            for o in f.insts:
                if (o.callee_name or "").startswith("llvm.threadlocal.address") and o.bb in live:
                    c.violation("tls:%s" % base_name(f.dem), "thread-local", o.where, "thread-local storage accessed on a signal-safe path in %s" % f.dem, path())
            for t, x in th.out.get(n, {}).items():
                c.violation("throws:%s" % base_name(f.dem), "may-throw", x.where, "%s can raise on a signal-safe path" % f.dem, th.why(n, t))
        c.notes.append("%s: externals reached: %s" % (cfg, ", ".join(sorted(ext))))
        c.count("entry_points", len(roots))
