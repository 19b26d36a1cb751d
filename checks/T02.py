"""max_depth honoured by every unwinder: guarded appends (predicate dataflow), linear-inequality bounds on sizes and
indices, and the depth argument followed from every entry point to the unwinder."""
import re
from front import AnalysisError, slice_steps
from linear import Lin, add, const
from containers import Containers, STOP, KEEP, APPEND, READS, method, obj, stable_loads
from flow import apath, root
from ir import base_name
from unwinders import CAP, SAFE, induction, lin_for, countdown, derives

CONFIGS = ["unwind-addr2line", "libunwind-addr2line", "execinfo-libdl", "unwind-addr2line-release", "nothing-nothing"]
EXTRA = ["libunwind-libdl", "unwind-libbacktrace", "execinfo-addr2line", "execinfo-dladdr"]
VECARG = re.compile(r"^std::vector<unsigned long")


class Depth:
    """(P: size < D, Z: size == 0) at every point, for one container"""

    def __init__(self, c, f, lin, cont, v, D, entry, where, skip_ok):
        self.c, self.f, self.lin, self.cont, self.v, self.D, self.where = c, f, lin, cont, v, D, where
        self.skip_ok = skip_ok
        mu = cont.mutators(v)
        n = len(f.blocks)
        self.sizes = [x for x, mt, *_ in cont.ops.get(v, ()) if mt in ("size", "empty")]
        inn = {0: entry}
        wl = [0]
        it = 0
        while wl and it < 4000:
            it += 1
            b = wl.pop()
            s = self.flow(b, inn[b], mu)
            for k in dict.fromkeys(f.succs(b)):
                t = f.blocks[b][-1]
                o = self.edge(b, k, s)
                m = o if k not in inn else tuple(x and y for x, y in zip(inn[k], o))
                if k not in inn or m != inn[k]:
                    inn[k] = m
                    wl.append(k)
        self.inn = inn
        for b in inn:
            self.flow(b, inn[b], mu, True)

    def loop_bound(self, x):
        """at most one append per iteration of a loop entered with an empty trace: size <= iterations so far"""
        mu = self.cont.mutators(self.v)
        for ph, init, h, loop in induction(self.f, self.lin, x.bb):
            inside = [i for i in mu if any(y.i == i for b in loop for y in self.f.blocks[b])]
            entry = [p for v, p in ph.d["phi"] if p not in loop]
            if any(mu[i][1] in APPEND and i != x.i or mu[i][1] not in APPEND and not (i in mu and mu[i][1] in ("pop_back", "clear", "reserve")) for i in inside):
                continue
            if not all(p in self.inn and self.flow(p, self.inn[p], mu)[1] for p in entry):
                continue
            d = add(add(add(self.D, self.lin.U(ph.ref), -1), self.lin.U(init)), const(-1))
            if self.lin.prove(d, x.bb, x.i) and self.lin.prove(add(self.lin.U(ph.ref), self.lin.U(init), -1), x.bb, x.i):
                return True
        return False

    def out(self, b):
        return self.flow(b, self.inn[b], self.cont.mutators(self.v))

    def flow(self, b, s, mu, rep=False):
        P, Z = s
        for x in self.f.blocks[b]:
            if x.i not in mu:
                continue
            _, mt, rest, sig = mu[x.i]
            if mt in APPEND:
                if rep:
                    self.c.count("appends")
                    if not P and not self.loop_bound(x):
                        self.c.violation("append:%s" % self.where, "append-below-max_depth", x.where, "a frame is appended in %s where the number of frames is not known to be below max_depth" % self.f.dem)
                    self.skip_ok(x)
                P, Z = False, False
                continue
            e = self.cont.size_expr(self.v, x.i)
            if mt in ("pop_back", "erase"):
                P, Z = True, False
                continue
            if e is None and (x.callee_name or "").startswith(("_Unwind_", "_U", "unw_")):
                continue
            if e is None and (x.callee_name or "").startswith("_ZSt") and not re.search(r"inserter", x.callee_name or ""):
                continue
            if e is None and mt in ("vector", "operator=", "swap", "assign", "insert", "?"):
                if rep:
                    self.c.violation("unbounded:%s" % self.where, "append-below-max_depth", x.where, "the returned trace is filled in %s by %s, which is not bounded by max_depth" % (self.f.dem, self.f.mod.fns[x.callee_name].dem[:120] if x.callee_name in self.f.mod.fns else x.callee_name))
                P, Z = False, False
                continue
            if e is None:
                P, Z = False, False
                continue
            if e == {1: 0}:
                Z = True
                P = self.lin.prove(add(self.D, const(-1)), b, x.i)
                continue
            if rep:
                self.c.count("sized_constructions")
                if not self.lin.prove(add(self.D, e, -1), b, x.i):
                    self.c.violation("sized:%s" % self.where, "size-at-most-max_depth", x.where, "the number of frames computed in %s is not provably between 0 and max_depth (it can wrap or exceed it)" % self.f.dem)
                self.skip_ok(x)
            P, Z = False, False
        return P, Z

    def edge(self, b, k, s):
        P, Z = s
        if P:
            return s
        if Z and self.lin.prove(add(self.D, const(-1)), None, None, (), (b, k)):
            return True, Z
        t = self.f.blocks[b][-1]
        mu = self.cont.mutators(self.v)
        for y in self.sizes:
            if self.f.dominates(y, t) and not self.cont._between(y, t, mu):
                if self.lin.prove(add(add(self.D, self.lin.U(y.ref), -1), const(-1)), None, None, (), (b, k)):
                    return True, Z
        return s


def element_checks(c, f, L, cont, where, v, skip):
    """indices into the vectors used for capturing, and the count given to the stack walker"""
    for p in list(cont.ops):
        for x, mt, rest, sig, cst in cont.ops[p]:
            if mt == "operator[]":
                c.count("element_accesses")
                e = L.U(rest[0])
                now = cont.size_now(p, x)
                if not any(L.prove(add(add(s, e, -1), const(-1)), x.bb, x.i) for s in now):
                    c.violation("index:%s" % where, "storage-bounds", x.where, "an element index in %s is not provably below the size of the vector" % f.dem)
    for x in f.calls():
        if x.callee_name == "backtrace":
            c.count("walker_calls")
            b = f.inst(x.d["ops"][0])
            p = None
            if b is not None and b.op in ("call", "invoke") and method(f, b):
                p = cont.key(obj(f, b)[0])
            n = L.S(x.d["ops"][1], 32)
            now = cont.size_now(p, x) if p else []
            if not any(L.prove(add(s, n, -1), x.bb, x.i) for s in now) or not L.prove(n, x.bb, x.i):
                c.violation("walker:%s" % where, "storage-bounds", x.where, "backtrace() in %s may be given a count that is negative or larger than its buffer" % f.dem)
            # what was skipped is not read
            if p:
                for y, mt, rest, sig, cst in cont.ops[p]:
                    if mt == "operator[]" and not L.prove(add(L.U(rest[0]), L.U(skip), -1), y.bb, y.i):
                        c.violation("skipped:%s" % where, "skip-respected", y.where, "a frame read in %s is not provably past the skipped ones" % f.dem)


def backend(c, cfg):
    m = c.module(cfg, slice_steps(CAP, "", STOP, KEEP))
    f = m.one(CAP)
    where = "%s" % cfg.split("-")[0]
    c.saw("%s [%s]" % (f.dem, cfg))
    sret = 1 if f.args and f.args[0].get("sret") else 0
    if not sret:
        raise AnalysisError("capture_frames does not return through memory")
    skip, depth = "a1", "a2"
    L, cont = lin_for(f, (skip,))
    F = L.F
    D = L.U(depth)
    v = ("arg", 0)
    walkers = [x for x in f.calls() if x.callee_name == "_Unwind_Backtrace"]

    def skip_ok(x):
        if [y for y in f.calls() if y.callee_name == "backtrace"]:
            return
        if not countdown(f, F, x, None, skip):
            c.violation("skip:%s" % where, "skip-respected", x.where, "a frame is appended in %s before the skip count is known to be exhausted" % f.dem)
    d = Depth(c, f, L, cont, v, D, (False, False), where, skip_ok)
    element_checks(c, f, L, cont, where, v, skip)
    if not [x for x in f.insts if x.op == "ret"]:
        raise AnalysisError("capture_frames never returns")
    for w in walkers:
        c.count("walker_calls")
        cb = w.d["ops"][0]
        if cb[0] != "g" or cb[1:] not in m.fns:
            raise AnalysisError("unresolved unwinder callback")
        s = f.inst(w.d["ops"][1])
        fields = {}
        for x in f.insts:
            if x.op == "store" and f.dominates(x, w):
                p = apath(f, x.d["ops"][1])
                b, o = (p[1], p[2]) if p[0] == "gep" else (p, 0)
                if s is not None and b == ("v", s.i):
                    fields[o] = x.d["ops"][0]
        doff = [o for o, r in fields.items() if r == depth]
        voff = [o for o, r in fields.items() if r[0] in "av" and apath(f, r) == v]
        soff = [o for o, r in fields.items() if derives(f, r, None, skip)]
        if not doff:
            c.violation("depth-state:%s" % where, "max_depth-used", w.where, "max_depth does not reach the unwinder callback in %s" % f.dem)
            continue
        if not voff or not soff:
            raise AnalysisError("unwinder state not recognised in %s" % f.dem)
        P = d.inn[w.bb]
        st = d.flow(w.bb, d.inn[w.bb], {i: q for i, q in cont.mutators(v).items() if i < w.i})
        entryP = st[0]
        mcb = c.module(cfg, slice_steps("=" + cb[1:], "", STOP, KEEP))
        g = mcb.fns[cb[1:]]
        c.saw("%s [%s]" % (g.dem, cfg))
        gl, gcont = lin_for(g)
        base = ("arg", 1)

        def fld(o):
            return ("gep", base, o, ()) if o else base
        dl = [x for x in g.insts if x.op == "load" and apath(g, x.d["ops"][0]) == fld(doff[0])]
        vk = ("ld", fld(voff[0]))
        if not dl:
            c.violation("depth-unused:%s" % where, "max_depth-used", g.insts[0].where, "%s never reads max_depth" % g.dem)
            continue
        # one atom stands for max_depth in the callback (it is never stored to)
        rep = gl.U(dl[0].ref)
        for x in dl[1:]:
            gl.canon[x.i] = dl[0].ref
        if any(x.op == "store" and apath(g, x.d["ops"][1]) == fld(doff[0]) for x in g.insts):
            c.violation("depth-changed:%s" % where, "max_depth-used", g.insts[0].where, "%s changes max_depth" % g.dem)

        def gskip(x):
            if not countdown(g, gl.F, x, fld(soff[0]), None):
                c.violation("skip:%s" % where, "skip-respected", x.where, "a frame is appended in %s before the skip count is known to be exhausted" % g.dem)
        gd = Depth(c, g, gl, gcont, vk, rep, (True, False), where, gskip)
        if not any(mt in APPEND for x, mt, *_ in gcont.ops.get(vk, ())):
            c.violation("no-append:%s" % where, "max_depth-used", g.insts[0].where, "%s appends no frames" % g.dem)
        # the assumption on entry: established at the call of the walker and whenever the callback asks to go on
        if not entryP:
            c.violation("first:%s" % where, "append-below-max_depth", w.where, "the stack walk starts in %s although max_depth may be zero" % f.dem)
        for r in g.insts:
            if r.op == "ret":
                go_on(c, g, gd, gl, r, r.d["ops"][0], r.bb, where, set())


def safe_backend(c, cfg):
    """the signal-safe variant writes only below both the size of the caller's buffer and max_depth, and reports no more"""
    m = c.module(cfg, slice_steps(SAFE, "", STOP, KEEP))
    f = m.one(SAFE)
    where = "safe-%s" % cfg.split("-")[0]
    c.saw("%s [%s]" % (f.dem, cfg))
    L = Lin(f)

    def limits(e, b, k, slack, hyp=(), edge=None):
        return all(L.prove(add(add(L.U(a), e, -1), const(-slack)), b, k, hyp, edge) for a in ("a1", "a3"))
    for x in f.insts:
        if x.op == "store" and in_buffer(f, x.d["ops"][1]):
            c.count("buffer_writes")
            if not write_ok(f, L, x, limits):
                c.violation("write:%s" % where, "append-below-max_depth", x.where, "a frame is written by %s at an index that is not provably below the size of the buffer and max_depth" % f.dem)
            if not countdown(f, L.F, x, None, "a2"):
                c.violation("skip:%s" % where, "skip-respected", x.where, "a frame is written by %s before the skip count is known to be exhausted" % f.dem)
        if x.op == "ret":
            c.count("buffer_counts")
            if not limits(L.U(x.d["ops"][0]), x.bb, x.i, 0):
                c.violation("count:%s" % where, "size-at-most-max_depth", x.where, "the count returned by %s is not provably at most the size of the buffer and max_depth" % f.dem)
        if x.op in ("call", "invoke") and any(o[0] == "a" and o == "a0" for o in x.d["ops"]) and not (x.callee_name or "").startswith("llvm."):
            raise AnalysisError("the buffer is handed on by %s" % f.dem)


def in_buffer(f, ref):
    """the address is inside the first argument's array, also through pointers that move along it"""
    st, seen, ends = [ref], set(), set()
    while st:
        r = st.pop()
        if r in seen:
            continue
        seen.add(r)
        x = f.inst(r)
        if x is not None and x.op in ("getelementptr", "bitcast", "freeze"):
            st.append(x.d["ops"][0])
        elif x is not None and x.op == "phi":
            st += [v for v, _ in x.d["phi"]]
        elif x is not None and x.op == "select":
            st += x.d["ops"][1:]
        else:
            ends.add(root(apath(f, r)))
    return ("arg", 0) in ends


def write_ok(f, L, x, limits):
    g = f.inst(x.d["ops"][1])
    if g is None or g.op != "getelementptr" or g.d["ops"][0] != "a0":
        if x.d["ops"][1] == "a0":
            return limits(const(0), x.bb, x.i, 1)
        return ptr_ok(f, L, x, limits)
    var = g.d.get("var") or []
    e = const((g.d.get("off") or 0) // 8)
    if (g.d.get("off") or 0) % 8 or any(s != 8 for _, s in var):
        return False
    for v, _ in var:
        e = add(e, L.U(v))
    return limits(e, x.bb, x.i, 1)


def ptr_ok(f, L, x, limits):
    """writes through a moving pointer: index = number of elements from the start"""
    y = f.inst(x.d["ops"][1])
    if y is None or y.op != "phi":
        return False
    # bytes from the start of the buffer (the buffer itself spans size elements and cannot wrap)
    d = add(L.P(y.ref), L.P("a0"), -1)
    for a in ("a1", "a3"):
        lim = {t: 8 * v for t, v in L.U(a).items()}
        if not L.prove(add(add(lim, d, -1), const(-8)), x.bb, x.i):
            return False
    return True


def go_on(c, g, gd, gl, r, ref, b, where, seen, edge=None):
    """every way to return 'continue' (0) leaves the number of frames below max_depth"""
    if (ref, b) in seen:
        return
    seen.add((ref, b))
    if ref[0] == "c" and ref != "c0":
        return
    x = g.inst(ref)
    if x is not None and x.op == "phi" and x.bb in g.dom[b]:
        for v, p in x.d["phi"]:
            go_on(c, g, gd, gl, r, v, p, where, seen, (p, x.bb))
        return
    if x is not None and x.op == "select" and all(o[0] == "c" for o in x.d["ops"][1:]):
        # the condition on which 0 is returned
        fs = []
        for k, truth in ((1, True), (2, False)):
            if x.d["ops"][k] == "c0":
                gl.F._expand(x.d["ops"][0], truth, fs, 0)
        if not any(o == "c0" for o in x.d["ops"][1:]):
            return
        hyp = []
        for fc in fs:
            i, e, n = gl.fact(fc)
            hyp += i + [("eq", q) for q in e]
        t = g.blocks[b][-1]
        mu = gd.cont.mutators(gd.v)
        ok = gd.out(b)[0] or any(g.dominates(y, t) and not gd.cont._between(y, t, mu) and
                                 gl.prove(add(add(gd.D, gl.U(y.ref), -1), const(-1)), b, 10**9, tuple(hyp)) for y in gd.sizes)
    else:
        ok = (gd.edge(*edge, gd.out(edge[0])) if edge else gd.out(b))[0]
    c.count("continue_exits")
    if not ok:
        c.violation("continue:%s" % where, "append-below-max_depth", r.where, "%s can ask the unwinder for another frame when max_depth frames have been collected" % g.dem)


def run(c):
    c.rule("in every unwinding back-end each append to the returned trace is reached only with size < max_depth and the skip counter exhausted (predicate dataflow over branch facts, "
           "the unwinder callback checked as a loop body), every computed count and index is proved within 0..max_depth / the storage by linear inequalities without wrap-around")
    from chain import depth_chain
    for cfg in CONFIGS + (EXTRA if c.thorough else []):
        backend(c, cfg)
        safe_backend(c, cfg)
    for cfg in (CONFIGS[:2] + CONFIGS[2:3] if not c.thorough else CONFIGS + EXTRA):
        depth_chain(c, cfg)
