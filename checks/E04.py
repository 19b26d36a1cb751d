"""Rethrow typestate: the marker is set when the exception is rethrown and cleared on every way out; the collector writes the
right trace for each marker value; clearing empties both."""
import re
from front import slice_steps, AnalysisError
from pe import NS
from mem import base, taint, is_dtor
from absorb import noret_edge, noreturn

RETHROW = NS + r"rethrow\([^()]*\)$"
COLLECT = NS + r"detail::maybe_collect_trace\("
CUR = NS + r"(raw_trace_)?from_current_exception\(\)$"
SAVED = NS + r"((raw_trace_)?from_current_exception_rethrow|current_exception_was_rethrown)\(\)$"
CLEAR = NS + r"clear_current_exception_traces\(\)$"
ROOTS = NS + r"(rethrow|detail::maybe_collect_trace|clear_current_exception_traces|(raw_trace_)?from_current_exception(_rethrow)?|current_exception_was_rethrown)\([^()]*\)$"
STOP = r"capture_frames|log_and|lazy_trace_holder::(get|oper|is_|clear|~)|resolve|log::|raw_trace::|stacktrace::|can_catch|internal_error"
CONFIGS = ["unwind-addr2line", "libunwind-libdl", "execinfo-libdl"]
RE = "_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE"


def tls(m, n):
    g = m.globals.get(n)
    return g is not None and g.get("tls") and n != "__tls_guard"


def init_blocks(f):
    """blocks that run the thread-local initialisers"""
    return {x.bb for x in f.insts if x.op == "store" and x.d["ops"][1] == "g__tls_guard"}


def holder_uses(m, f):
    ib = init_blocks(f)
    out = []
    for x in f.calls():
        if x.bb in ib or not x.d["ops"] or (x.callee_name or "").startswith("llvm.threadlocal"):
            continue
        for o in x.d["ops"]:
            for b in base(f, o) if o[0] in "vg" else ():
                if b[0] == "g" and tls(m, b[1]) and m.globals[b[1]].get("size", 0) > 8:
                    out.append((x, b[1]))
    return out


def writes(m, f):
    """(inst, global, source operands): overwriting a holder (a non-const method on it, or a store/copy into it)"""
    ib = init_blocks(f)
    out = []
    for x in f.insts:
        if x.bb in ib:
            continue
        if x.op in ("call", "invoke"):
            cn = x.callee_name or ""
            if not x.d["ops"] or cn.startswith(("llvm.lifetime", "llvm.threadlocal", "_ZNK")) or is_dtor(cn):
                continue
            for b in base(f, x.d["ops"][0]) if x.d["ops"][0][0] in "vg" else ():
                if b[0] == "g" and tls(m, b[1]):
                    out.append((x, b[1], x.d["ops"][1:]))
        elif x.op == "store":
            for b in base(f, x.d["ops"][1]):
                if b[0] == "g" and tls(m, b[1]):
                    out.append((x, b[1], [x.d["ops"][0]]))
    return out


def misses(f, start, hit):
    """a normal exit of f reachable from (block, index) without an instruction satisfying hit, or None"""
    seen, st = set(), [start]
    while st:
        b, k = st.pop()
        if (b, k) in seen:
            continue
        seen.add((b, k))
        stop = False
        for x in f.blocks[b][k:]:
            if hit(x):
                stop = True
                break
            if x.op == "ret":
                return x
            if x.op == "call" and noreturn(x):
                stop = True
                break
        if stop:
            continue
        t = f.blocks[b][-1]
        for s in t.d.get("succ", []):
            if t.op == "invoke" and s == t.d["unwind"]:
                continue
            if not noret_edge(f, b, s):
                st.append((s, 0))
    return None


def marker_rule(c, m, f, cfg):
    """typestate of the marker over f; returns the marker globals"""
    mk = {}
    for x in f.insts:
        if x.op == "store" and x.d.get("sz") in (1, 2, 4, 8) and x.d["ops"][0][0] == "c":
            for b in base(f, x.d["ops"][1]):
                if b[0] == "g" and tls(m, b[1]):
                    mk.setdefault(b[1], []).append(x)
    where = "%s:%s" % (f.file, f.line)
    sets = [g for g in mk if any(x.d["ops"][0] != "c0" for x in mk[g])]
    if len(sets) != 1:
        c.violation("no-marker:" + f.dem, "marker-set", where, "%s does not set a thread-local rethrow marker before rethrowing [%s]" % (f.dem, cfg))
        return set()
    g = sets[0]
    st = {x.i: (0 if x.d["ops"][0] == "c0" else 1) for x in mk[g]}
    rts = 0
    seen, q = set(), [(0, 0)]       # (block, state)
    while q:
        b, s = q.pop()
        if (b, s) in seen:
            continue
        seen.add((b, s))
        dead = False
        for x in f.blocks[b]:
            if x.i in st:
                s = st[x.i]
            elif x.op in ("call", "invoke"):
                if x.callee_name == RE:
                    rts += 1
                    if s != 1:
                        c.violation("unset:" + f.dem, "marker-set", x.where, "%s rethrows on a path where the marker is not set [%s]" % (f.dem, cfg))
                if x.op == "call" and s == 1 and not x.d.get("nounwind") and not (x.callee_name or "").startswith("llvm."):
                    c.violation("leak:%s:%s" % (f.dem, x.callee_name), "marker-cleared", x.where,
                                "an exception from %s leaves %s with the rethrow marker still set [%s]" % (x.callee_name, f.dem, cfg))
            elif x.op in ("ret", "resume"):
                if s == 1:
                    c.violation("leak:" + f.dem, "marker-cleared", x.where, "%s can be left with the rethrow marker still set [%s]" % (f.dem, cfg))
        t = f.blocks[b][-1]
        for k in t.d.get("succ", []):
            if not noret_edge(f, b, k):
                q.append((k, s))
    if not rts:
        c.violation("no-rethrow:" + f.dem, "marker-set", where, "%s never rethrows [%s]" % (f.dem, cfg))
    for x in f.calls():
        if x.callee_name == RE:
            src = set()
            b0 = base(f, x.d["ops"][0])
            for y in f.insts:
                if y.op == "store" and base(f, y.d["ops"][1]) & b0:
                    for b in base(f, y.d["ops"][0]) if y.d["ops"][0][0] == "v" else ():
                        if b[0] == "ld":
                            src |= base(f, f.byid[b[1]].d["ops"][0])
                elif y.op in ("call", "invoke") and y.callee_name == "_ZSt17current_exceptionv" and base(f, y.d["ops"][0]) & b0:
                    src.add("current")
            src |= {b for b in b0 if b[0] == "arg"}
            want = ("arg", 0) if f.d.get("args") else "current"
            if want not in src:
                c.violation("what:" + f.dem, "rethrows-given", x.where, "%s rethrows something other than the %s exception [%s]" % (f.dem, "given" if f.d.get("args") else "current", cfg))
    return {g}


def run(c):
    c.rule("typestate of the rethrow marker over every rethrow overload: set at each std::rethrow_exception, clear at every ret/resume and at every call that may "
           "unwind out; with the marker fixed to 1 the collector overwrites only the rethrow trace, from the captured frames; with it fixed to 0 every path after a capture "
           "overwrites the current trace from the captured frames and the rethrow trace from something else; clearing overwrites both on every path; "
           "the two groups of accessors read two different traces")
    for cfg in CONFIGS if c.thorough else CONFIGS[:2]:
        m = c.module(cfg, slice_steps(ROOTS, "cpptrace::", STOP))
        rt = m.find(RETHROW)
        c.need(len(rt), "rethrow overloads", 2)
        marks = set()
        for f in rt:
            c.count("rethrow_overloads")
            c.saw(f.dem)
            marks |= marker_rule(c, m, f, cfg)
        if len(marks) > 1:
            c.violation("markers", "marker-set", rt[0].file, "rethrow overloads use different markers %s [%s]" % (sorted(marks), cfg))
        names = {}
        for role, rx, least in (("current", CUR, 2), ("saved", SAVED, 3)):
            fs = m.find(rx)
            c.need(len(fs), "%s-trace accessors" % role, least)
            for f in fs:
                c.count("accessors")
                gs = {g for _, g in holder_uses(m, f)}
                if not gs:
                    raise AnalysisError("%s reads no thread-local holder" % f.dem)
                for g in gs:
                    names.setdefault(role, {}).setdefault(g, []).append(f)
        cur, sav = names["current"], names["saved"]
        if len(cur) > 1 or len(sav) > 1 or set(cur) & set(sav):
            # blame the accessors that disagree with the majority
            for role, d in names.items():
                best = max(d, key=lambda g: len(d[g]))
                for g in d:
                    if g != best or set(cur) == set(sav):
                        for f in d[g]:
                            c.violation("accessor:" + f.dem, "two-traces", "%s:%s" % (f.file, f.line), "%s reads %s, not the %s trace [%s]" % (f.dem, m.globals[g]["dem"], role, cfg))
        C, S = max(cur, key=lambda g: len(cur[g])), max(sav, key=lambda g: len(sav[g]))
        if not marks:
            continue
        mk = sorted(marks)[0]
        for val in (0, 1):
            ms = c.module(cfg, slice_steps(ROOTS, "cpptrace::", STOP) + [("xform", ["--const-global", "%s=%d" % (mk, val)]), ("opt", "function(sroa,early-cse<memssa>,simplifycfg)")])
            fs = ms.find(COLLECT)
            c.need(len(fs), "trace collectors")
            for f in fs:
                caps = [x for x in f.calls() if "14capture_frames" in (x.callee_name or "")]
                c.need(len(caps), "captures in the collector")
                for x in f.insts:
                    if x.op == "store" and any(b == ("g", mk) for b in base(f, x.d["ops"][1])):
                        c.violation("collector-marker", "marker-owner", x.where, "the collector changes the rethrow marker [%s]" % cfg)
                T = taint(f, {b for x in caps for b in base(f, x.d["ops"][0])})
                W = writes(ms, f)
                TE = taint(f, {b for x in caps for b in base(f, x.d["ops"][0])} | {("g", C), ("g", S)})
                tainted = lambda src, T=T: any((o[0] == "v" and ("val", int(o[1:])) in T) or (o[0] in "vag" and base(f, o) & T) for o in src)
                c.count("collector_writes", len(W))
                for cap in caps:
                    start = (cap.d["normal"], 0) if cap.op == "invoke" else (cap.bb, f.blocks[cap.bb].index(cap) + 1)

                    def must(g, want, what):
                        ids = {x.i for x, gg, src in W if gg == g and (tainted(src) if want else not tainted(src, TE))}
                        c.count("obligations")
                        e = misses(f, start, lambda x: x.i in ids)
                        if e is not None:
                            c.violation("collect%d:%s" % (val, what), "right-trace", cap.where,
                                        "after capturing with the rethrow marker %s, the collector can finish without %s [%s]" % (val, what, cfg))
                    if val:
                        must(S, True, "storing the captured frames in the rethrow trace")
                        for x, g, src in W:
                            if g == C:
                                c.violation("collect1:current", "right-trace", x.where, "a rethrow through the library overwrites the original trace [%s]" % cfg)
                    else:
                        must(C, True, "storing the captured frames in the current trace")
                        must(S, False, "emptying the rethrow trace")
                        for x, g, src in W:
                            if g == S and tainted(src):
                                c.violation("collect0:saved", "right-trace", x.where, "an ordinary throw is stored as the rethrow trace [%s]" % cfg)
        fs = m.find(CLEAR)
        c.need(len(fs), "clear function")
        for f in fs:
            W = writes(m, f)
            for g in (C, S):
                c.count("obligations")
                ids = {x.i for x, gg, _ in W if gg == g}
                e = misses(f, (0, 0), lambda x: x.i in ids)
                if e is not None:
                    c.violation("clear:" + m.globals[g]["dem"], "clears-both", "%s:%s" % (f.file, f.line), "%s can return without resetting %s [%s]" % (f.dem, m.globals[g]["dem"], cfg))
