"""skip accounting: affine propagation of skip along physical stack frames from every entry point to the unwinder."""
import re
from front import AnalysisError, slice_steps
from chain import LAMBDA, solved, terminal, sizes, affine
from containers import STOP, KEEP, APPEND, Containers
from linear import add, const
from ir import base_name
from flow import apath, root
from linear import Lin
from chain import WALK
from containers import method, obj
from unwinders import CAP, SAFE, NORMAL, lin_for, depends, passes_over, callback_counts, induction

CONFIGS = ["unwind-addr2line", "libunwind-addr2line", "execinfo-libdl"]
EXTRA = ["unwind-libbacktrace", "libunwind-libdl", "unwind-addr2line-release", "execinfo-addr2line", "execinfo-dladdr"]


def allowed(f):
    """(lo, hi) allowed start relative to the caller of f, and why"""
    d = f.dem
    if re.search(r"unwind_interceptor<.*>::can_catch\(", d):
        return 0, 3, "its callers up to the throw expression are three frames of the C++ runtime"
    if re.search(r"(^|::)terminate_handler\(", d):
        return -1, 0, "the trace of a terminate handler may start at the handler itself"
    return 0, 0, ""


def backend(c, cfg):
    """the unwinder's own frame is accounted for: the number of frames passed over is exactly skip + 1"""
    label = cfg.split("-")[0]
    n = 0
    m = c.module(cfg, slice_steps(CAP, "", STOP, KEEP, NORMAL))
    f = m.one(CAP)
    L, cont = lin_for(f, ("a1",))
    skip = "a1"
    c.saw("%s [%s]" % (f.dem, cfg))

    def bad(x, why):
        c.violation("frame0:%s" % label, "unwinder-own-frame", x.where, why)
    walkers = [x for x in f.calls() if x.callee_name == "_Unwind_Backtrace"]
    bt = [x for x in f.calls() if x.callee_name == "backtrace"]
    for x, mt, rest, sig, cst in cont.ops.get(("arg", 0), ()):
        if mt in APPEND and not bt:
            n += 1
            if not passes_over(f, L, x.bb, 1):
                bad(x, "%s does not pass over exactly skip + 1 frames (its own and the skipped ones)" % f.dem)
    for w in walkers:
        cb = w.d["ops"][0][1:]
        s = f.inst(w.d["ops"][1])
        soff = None
        for x in f.insts:
            if x.op == "store" and f.dominates(x, w):
                p = apath(f, x.d["ops"][1])
                b, o = (p[1], p[2]) if p[0] == "gep" else (p, 0)
                if s is not None and b == ("v", s.i) and depends(f, x.d["ops"][0], skip):
                    soff = o
                    if affine(f, x.d["ops"][0]) != [(1, 1)]:
                        bad(x, "%s starts the walk with a skip count other than skip + 1" % f.dem)
        if soff is None:
            n += 1
            bad(w, "skip does not reach the unwinder callback in %s" % f.dem)
            continue
        mcb = c.module(cfg, slice_steps("=" + cb, "", STOP, KEEP, NORMAL))
        g = mcb.fns[cb]
        c.saw("%s [%s]" % (g.dem, cfg))
        gl, gc = lin_for(g)
        fld = ("gep", ("arg", 1), soff, ()) if soff else ("arg", 1)

        def same(r):
            y = g.inst(r)
            return y is not None and y.op == "load" and apath(g, y.d["ops"][0]) == fld
        stores = [z for z in g.insts if z.op == "store" and apath(g, z.d["ops"][1]) == fld]
        for p in gc.ops:
            for x, mt, rest, sig, cst in gc.ops[p]:
                if mt in APPEND:
                    n += 1
                    why = callback_counts(g, gl, x, same, stores)
                    if why:
                        bad(x, "in %s %s" % (g.dem, why))
    for w in bt:
        # the trace receives element skip + 1 + k of the walk at position k
        b = f.inst(w.d["ops"][0])
        src = cont.key(obj(f, b)[0]) if b is not None and method(f, b) else None
        rd = [(x, rest[0]) for x, mt, rest, sig, cst in cont.ops.get(src, ()) if mt == "operator[]"]
        wr = [(x, rest[0]) for x, mt, rest, sig, cst in cont.ops.get(("arg", 0), ()) if mt == "operator[]"]
        ap = [x for x, mt, *_ in cont.ops.get(("arg", 0), ()) if mt in APPEND]
        for x, i in rd:
            for y, j in wr:
                n += 1
                d = add(add(L.U(i), L.U(j), -1), add(L.U(skip), const(1)), -1)
                if not (L.prove(d, y.bb, y.i) and L.prove({t: -v for t, v in d.items()}, y.bb, y.i)):
                    bad(y, "%s does not copy frame i of the walk to position i - (skip + 1)" % f.dem)
            for y in ap:
                n += 1
                ind = induction(f, L, y.bb, once=True)
                ok = False
                for ph, init, h, loop in ind:
                    d = add(add(L.U(i), L.U(ph.ref), -1), {}, 0)
                    e = add(L.U(init), add(L.U(skip), const(1)), -1)
                    off = add(d, e)          # index - phi + init - (skip + 1) == 0
                    ok |= L.prove(off, y.bb, y.i) and L.prove({t: -v for t, v in off.items()}, y.bb, y.i)
                if not ok:
                    bad(y, "%s does not append the frames of the walk from number skip + 1 on" % f.dem)
    # the signal-safe variant writes to the caller's buffer
    ms = c.module(cfg, slice_steps(SAFE, "", STOP, KEEP, NORMAL))
    g = ms.one(SAFE)
    if any(WALK.match(x.callee_name or "") for x in g.calls()):
        c.saw("%s [%s]" % (g.dem, cfg))
        gl = Lin(g)
        for x in g.insts:
            if x.op == "store" and root(apath(g, x.d["ops"][1])) == ("arg", 0):
                n += 1
                if not passes_over(g, gl, x.bb, 2):
                    bad(x, "%s does not pass over exactly skip + 1 frames (its own and the skipped ones)" % g.dem)
    if not n:
        raise AnalysisError("how %s transfers the frames was not recognised" % f.dem)
    c.count("back_ends")
    return n


def run(c):
    c.rule("skip is followed as an affine expression from every entry point to the unwinder; each library function on the way counts as exactly one stack frame only if it "
           "cannot be inlined and its call cannot become a tail call (function-attribute inference run first, as under LTO), otherwise as an interval; the trace must start exactly "
           "skip frames above the entry point's caller, and in client code (macros and default arguments included) at the client's own frame; each back-end passes over exactly skip + 1 frames")
    for cfg in CONFIGS + (EXTRA if c.thorough else []):
        m, chain, con, caps = solved(c, cfg)
        n = 0
        tops = 0
        for name, l in con.items():
            f = m.fns[name]
            if f in caps:
                if not f.d.get("noinline"):
                    c.violation("inlinable:%s" % base_name(f.dem), "frame-count", "%s:%s" % (f.file, f.line), "%s counts its own frame but can be inlined [%s]" % (f.dem, cfg))
                continue
            c.saw("%s [%s]" % (f.dem, cfg))
            s, d = sizes(f)
            lib = f.file.startswith(("src/", "include/"))
            lam = bool(LAMBDA.search(f.dem))
            pub = "::detail::" not in f.dem or "get_raw_trace_and_absorb" in f.dem
            has_caller = any(name == g.name for l2 in chain.values() for g, x in l2)
            for k, lo, hi, dep, x, why in l:
                c.count("call_sites")
                if lo is None and x is None:
                    continue
                if lo is None:
                    c.violation("skip-arg:%s" % base_name(f.dem), "skip-affine", x.where, "in %s %s [%s]" % (f.dem, why, cfg))
                    continue
                if terminal(f):
                    # client code: one frame of its own, the trace starts there
                    n += 1
                    # lo/hi were computed relative to f's caller with f possibly inlined: undo
                    from chain import phys
                    (plo, phi), _ = phys(m, f, x)
                    lo2, hi2 = lo + phi, hi + plo
                    if (lo2, hi2) != (0, 0) and not f.dem.startswith("vp_current"):
                        c.violation("client:%s:%s" % (base_name(f.dem), x.callee_name), "starts-at-caller", x.where,
                                    "the trace taken by %s for client code starts %s frames away from the client's frame%s [%s]" % (m.fns[x.callee_name].dem, lo2 if lo2 == hi2 else "%d to %d" % (lo2, hi2), (": a library function " + why) if why and lo2 != hi2 else "", cfg))
                    continue
                if lam:
                    continue
                a, b, _ = allowed(f)
                if s is not None:
                    if k != s:
                        c.violation("skip-lost:%s" % base_name(f.dem), "skip-affine", x.where, "%s does not hand its skip on [%s]" % (f.dem, cfg))
                    elif (lo, hi) != (0, 0):
                        c.violation("skip:%s:%d" % (base_name(f.dem), len(f.args)), "frame-count", x.where,
                                    "a trace taken through %s starts %s frames from where skip says%s [%s]" % (f.dem, lo if lo == hi else "%d to %d" % (lo, hi), ": it " + why if why and lo != hi else "", cfg))
                    n += 1
                elif not has_caller or pub:
                    tops += 1
                    if lo < a or hi > b:
                        c.violation("start:%s" % base_name(f.dem), "frame-count", x.where, "the trace taken by %s starts %s frames from its caller [%s]" % (f.dem, lo if lo == hi else "%d to %d" % (lo, hi), cfg))
                    n += 1
        c.need(n, "trace-generating entry points", 30)
        if "nothing" not in cfg:
            backend(c, cfg)
