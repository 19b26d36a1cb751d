"""Signal-safe outputs: the caller's buffer is written only inside its bounds and the count returned is exactly the number of leading
elements written; a safe object frame is written only inside itself and is completely set on every path."""
import re
from front import AnalysisError, slice_steps
from linear import Lin, add, const
from containers import STOP, KEEP
from flow import Facts, apath, root
from unwinders import SAFE
from scev import layout
from T02 import write_ok, in_buffer

CONFIGS = ["unwind-addr2line", "libunwind-addr2line", "execinfo-libdl", "unwind-addr2line-release", "nothing-nothing"]
EXTRA = ["libunwind-libdl", "unwind-libbacktrace", "execinfo-addr2line", "execinfo-dladdr"]
NS = r"^cpptrace::(v[0-9]+::)?"
FRAME = NS + r"get_safe_object_frame\(unsigned long, cpptrace::(v[0-9]+::)?safe_object_frame\*\)$"
ENTRY = NS + r"safe_generate_raw_trace\(|^ctrace_safe_generate_raw_trace$"
FIND = re.compile(r"^(_dl_find_object|dladdr1?)$")


# ---------------------------------------------------------------------- the trace buffer
def form(f, ref, memo):
    """value of an integer or pointer as a linear form modulo 2^64"""
    if ref in memo:
        return memo[ref]
    memo[ref] = {ref: 1}
    x = f.inst(ref)
    r = None
    if ref == "n":
        r = {}
    elif ref[0] == "c":
        r = {1: int(ref[1:])} if ref[1:].lstrip("-").isdigit() else None
    elif x is not None:
        o = x.d.get("ops", [])
        if x.op in ("ptrtoint", "inttoptr", "bitcast", "freeze"):
            r = form(f, o[0], memo)
        elif x.op in ("add", "sub") and x.ty == "i64":
            r = comb(form(f, o[0], memo), form(f, o[1], memo), 1 if x.op == "add" else -1)
        elif x.op in ("mul", "shl") and x.ty == "i64" and o[1][0] == "c":
            k = int(o[1][1:])
            r = {q: v * (k if x.op == "mul" else 1 << k) for q, v in form(f, o[0], memo).items()}
        elif x.op == "getelementptr":
            r = comb(form(f, o[0], memo), {1: x.d.get("off") or 0}, 1)
            for v, s in x.d.get("var", []):
                r = comb(r, {q: w * s for q, w in form(f, v, memo).items()}, 1)
    if r is not None:
        memo[ref] = {q: v % 2**64 for q, v in r.items() if v % 2**64}
    return memo[ref]


def comb(a, b, k):
    r = dict(a)
    for q, v in b.items():
        r[q] = r.get(q, 0) + k * v
    return {q: v % 2**64 for q, v in r.items() if v % 2**64}


def key(d):
    return tuple(sorted((str(q), q, v) for q, v in d.items()))


def unkey(k):
    return {q: v for _, q, v in k}


class Count:
    """greatest fixpoint: the set of expressions equal to 8 * (number of leading elements written)"""

    def __init__(self, c, f, where):
        self.c, self.f, self.where = c, f, where
        self.memo = {}
        self.inn = {0: frozenset([key({})])}
        wl = [0]
        n = 0
        while wl and n < 5000:
            n += 1
            b = wl.pop()
            s = self.flow(b, self.inn[b])
            for k in dict.fromkeys(f.succs(b)):
                o = self.edge(b, k, s)
                new = o if k not in self.inn else self.inn[k] & o
                if k not in self.inn or new != self.inn[k]:
                    self.inn[k] = new
                    wl.append(k)
        if wl:
            raise AnalysisError("count of written elements does not settle in %s" % f.dem)
        for b in self.inn:
            self.flow(b, self.inn[b], True)

    def off(self, ref):
        return comb(form(self.f, ref, self.memo), {"a0": 1}, -1)

    def flow(self, b, s, rep=False):
        f = self.f
        for x in f.blocks[b]:
            if x.op == "store" and in_buffer(f, x.d["ops"][1]):
                e = key(self.off(x.d["ops"][1]))
                back = {key(comb(unkey(q), {1: 8}, -1)) for q in s}
                if e in s:
                    s = frozenset(key(comb(unkey(q), {1: 8}, 1)) for q in s)
                elif e not in back:
                    if rep and s:
                        self.c.violation("order:%s" % self.where, "leading-elements", x.where, "an element is written that does not directly follow the elements already written")
                    s = frozenset()
            elif x.op == "ret" and rep:
                self.c.count("returned_counts")
                if not self.matches(x.d["ops"][0], s):
                    self.c.violation("returned:%s" % self.where, "count-equals-writes", x.where, "the count returned by %s is not the number of elements written" % f.dem)
        return s

    def matches(self, ref, s):
        f = self.f
        x = f.inst(ref)
        if x is not None and x.op == "sdiv" and x.d["ops"][1] == "c8" or x is not None and x.op == "ashr" and x.d["ops"][1] == "c3":
            return key(form(f, x.d["ops"][0], self.memo)) in s
        return key({q: v * 8 % 2**64 for q, v in form(f, ref, self.memo).items()}) in s

    def edge(self, b, k, s):
        f = self.f
        phis = [x for x in f.blocks[k] if x.op == "phi"]
        mine = {x.ref for x in phis}
        out = set()
        for q in s:
            if all(self.visible(t, k, mine) for _, t, _ in q):
                out.add(q)
        for x in phis:
            for v, p in x.d["phi"]:
                if p != b:
                    continue
                if x.ty == "ptr":
                    if key(self.off(v)) in s:
                        out.add(key(comb({x.ref: 1}, {"a0": 1}, -1)))
                elif x.ty == "i64":
                    if self.matches(v, s):
                        out.add(key({x.ref: 8}))
        return frozenset(out)

    def visible(self, t, k, mine):
        if t == 1 or t[0] == "a":
            return True
        if t in mine:
            return False
        x = self.f.inst(t)
        return x is not None and (x.bb == k or x.bb in self.f.dom[k])


def buffer(c, cfg):
    m = c.module(cfg, slice_steps(SAFE, "", STOP, KEEP))
    f = m.one(SAFE)
    where = cfg.split("-")[0]
    c.saw("%s [%s]" % (f.dem, cfg))
    L = Lin(f)

    def limits(e, b, k, slack, hyp=(), edge=None):
        return all(L.prove(add(add(L.U(a), e, -1), const(-slack)), b, k, hyp, edge) for a in ("a1", "a3"))
    for x in f.insts:
        if x.op == "store" and in_buffer(f, x.d["ops"][1]):
            c.count("buffer_writes")
            if not write_ok(f, L, x, limits):
                c.violation("write:%s" % where, "inside-buffer", x.where, "an element is written at an index that is not provably below both the size of the buffer and max_depth")
        if x.op in ("call", "invoke") and any(in_buffer(f, o) for o in x.d["ops"] if o[0] in "av" and (f.inst(o) is None or f.inst(o).ty == "ptr")) and not (x.callee_name or "").startswith("llvm.lifetime"):
            raise AnalysisError("the buffer is handed on by %s" % f.dem)
    Count(c, f, where)
    # the public functions hand the buffer and its size on unchanged, and return what was counted
    names = [g.name for g in c.module(cfg).defined() if re.search(ENTRY, g.dem)]
    c.need(len(names), "public safe trace functions", 3)
    m = c.module(cfg, slice_steps("=" + ",".join(names), "cpptrace", SAFE))
    for g in m.defined():
        if g.name not in names:
            continue
        c.saw("%s [%s]" % (g.dem, cfg))
        L = Lin(g)
        cs = [x for x in g.calls() if x.callee_name and (re.search(SAFE, m.fns[x.callee_name].dem) or x.callee_name in names) if x.callee_name in m.fns]
        if not cs:
            raise AnalysisError("%s does not reach the unwinder" % g.dem)
        for x in cs:
            c.count("forwarded_buffers")
            o = x.d["ops"]
            if o[0] != "a0" or not L.prove(add(L.U("a1"), L.U(o[1]), -1), x.bb, x.i):
                c.violation("forward:%s" % g.name, "inside-buffer", x.where, "%s does not hand on the caller's buffer with at most its size" % g.dem)
        for x in g.insts:
            if x.op == "store" and in_buffer(g, x.d["ops"][1]):
                c.violation("extra:%s" % g.name, "inside-buffer", x.where, "%s writes to the buffer itself" % g.dem)
            if x.op == "ret":
                for v, b in values(g, x.d["ops"][0], x.bb):
                    y = g.inst(v)
                    reach = [z for z in cs if z.bb == b or g.dominates(z, g.blocks[b][-1]) and normal(g, z, b)]
                    if not (y in cs or v == "c0" and not reach):
                        c.violation("return:%s" % g.name, "count-equals-writes", x.where, "%s does not return the number of elements written" % g.dem)


def normal(g, z, b):
    """block b is reached through the normal return of z"""
    return z.op == "call" or z.d.get("normal") == b or z.d.get("normal") in g.dom[b]


def values(g, ref, b, seen=None):
    seen = seen if seen is not None else set()
    x = g.inst(ref)
    if (ref, b) in seen:
        return
    seen.add((ref, b))
    if x is not None and x.op == "phi":
        for v, p in x.d["phi"]:
            yield from values(g, v, p, seen)
    else:
        yield ref, b


# ---------------------------------------------------------------------- the object frame
class Frame:
    """powerset dataflow over (found, state of every object of the frame's size); state = (raw, rel, highest index of the path known
    to be zero or None, terminator written last)"""

    def __init__(self, c, f, lay, cfg):
        self.c, self.f, self.lay, self.cfg = c, f, lay, cfg
        self.L = Lin(f)
        self.F = Facts(f)
        self.size, self.len = lay["size_safe_frame"], lay["size_safe_path"]
        self.off = [lay["off_safe_frame__" + k] for k in ("raw_address", "address_relative_to_object_start", "object_path")]
        self.objs = ["a1"] + [x.ref for x in f.insts if x.op == "alloca" and x.d.get("size") == self.size]
        self.find = [x for x in f.calls() if FIND.match(x.callee_name or "")]
        blank = (None, None, None, False, None)
        self.inn = {0: {(None if self.find else False, tuple(blank for _ in self.objs))}}
        wl, n = [0], 0
        while wl and n < 3000:
            n += 1
            b = wl.pop(0)
            out = self.flow(b, self.inn[b])
            for k in dict.fromkeys(f.succs(b)):
                s = self.edge(b, k, out)
                if k not in self.inn or not s <= self.inn[k]:
                    self.inn[k] = self.inn.get(k, set()) | s
                    wl.append(k)
                    if len(self.inn[k]) > 400:
                        raise AnalysisError("too many frame states in %s" % f.dem)
        for b in list(self.inn):
            self.flow(b, self.inn[b], True)

    # ------------------------------------------------------------ places
    def locate(self, ref):
        """(object index, offset as a linear expression)"""
        f, L = self.f, self.L
        off = const(0)
        for _ in range(20):
            if ref in self.objs:
                return self.objs.index(ref), off
            x = f.inst(ref)
            if x is None:
                return None
            if x.op == "getelementptr" and x.d.get("off") is not None:
                off = add(off, const(x.d["off"]))
                for v, s in x.d.get("var", []):
                    off = add(off, L.idx(v), s)
                ref = x.d["ops"][0]
            elif x.op in ("bitcast", "freeze"):
                ref = x.d["ops"][0]
            elif x.op == "phi":
                r = root(apath(f, ref))
                st, seen, ends = [ref], set(), set()
                while st:
                    q = st.pop()
                    if q in seen:
                        continue
                    seen.add(q)
                    y = f.inst(q)
                    if q in self.objs:
                        ends.add(q)
                    elif y is not None and y.op in ("getelementptr", "bitcast"):
                        st.append(y.d["ops"][0])
                    elif y is not None and y.op == "phi":
                        st += [v for v, _ in y.d["phi"]]
                    else:
                        ends.add(None)
                if None in ends:
                    return None if ends == {None} or r else None
                if len(ends) != 1:
                    raise AnalysisError("pointer into one of several frames in %s" % f.dem)
                o = ends.pop()
                return self.objs.index(o), add(off, add(L.P(ref), L.P(o), -1))
            else:
                return None
        return None

    def touches(self, ref):
        return ref[0] in "av" and self.locate(ref) is not None

    # ------------------------------------------------------------ transfer
    def flow(self, b, states, rep=False):
        for x in self.f.blocks[b]:
            if x.op == "ret":
                if rep:
                    self.final(x, states)
                continue
            w = self.write(x, rep)
            if w is not None:
                states = {(fd, tuple(self.apply(w, x, i, st, sts) for i, st in enumerate(sts))) for fd, sts in states}
        return states

    def write(self, x, rep):
        """(object, offset, length, kind, value) of a write to a frame"""
        f, L = self.f, self.L
        o = x.d.get("ops", [])
        if x.op == "store":
            r = self.locate(o[1]) if o[1][0] in "av" else None
            if r is None:
                if o[0][0] in "av" and self.touches(o[0]) and self.locate(o[0])[0] == 0:
                    raise AnalysisError("the output frame's address is stored in %s" % f.dem)
                return None
            n = {"i8": 1, "i16": 2, "i32": 4, "i64": 8, "ptr": 8}.get(x.d.get("vty"))
            if n is None:
                raise AnalysisError("store of %s into a frame" % x.d.get("vty"))
            return self.bound((r[0], r[1], const(n), "store", o[0]), x, rep)
        if x.op not in ("call", "invoke"):
            return None
        n = x.callee_name or ""
        if n.startswith(("llvm.lifetime", "llvm.dbg", "llvm.experimental")):
            return None
        at = [k for k, q in enumerate(o) if q[0] in "av" and self.touches(q)]
        if not at:
            return None
        r = self.locate(o[at[0]])
        if re.match(r"(llvm\.)?memset|bzero$", n) and at == [0]:
            ln = o[1] if n == "bzero" else o[2]
            return self.bound((r[0], r[1], L.U(ln), "zero" if n == "bzero" or o[1] == "c0" else "junk", None), x, rep)
        if re.match(r"(llvm\.)?mem(cpy|move)", n) and at[0] == 0:
            src = self.locate(o[1]) if o[1][0] in "av" else None
            whole = src is not None and self.const(src[1]) == 0 and self.const(r[1]) == 0 and o[2] == "c%d" % self.size
            return self.bound((r[0], r[1], L.U(o[2]), "frame" if whole else "copy", src[0] if whole else (o[1], o[2])), x, rep)
        if re.match(r"(llvm\.)?mem(cpy|move)", n) or n in ("strlen", "memchr", "strnlen", "strcmp", "access"):
            return None
        if n == "readlink" and at == [1]:
            return self.bound((r[0], r[1], L.U(o[2]), "junk", None), x, rep)
        if n == "strncpy" and at == [0]:
            return self.bound((r[0], r[1], L.U(o[2]), "copy", (o[1], o[2])), x, rep)
        if n in ("snprintf", "strlcpy") and at == [0]:
            ln = o[1] if n == "snprintf" else o[2]
            return self.bound((r[0], r[1], L.U(ln), "string", None), x, rep)
        if n in ("strcpy", "stpcpy", "strcat", "sprintf") and at[0] == 0:
            if rep:
                self.c.violation("unbounded:%s" % self.cfg, "inside-frame", x.where, "%s writes a string of unknown length into the frame" % n)
            return (r[0], r[1], None, "string", None)
        raise AnalysisError("a safe object frame is handed to %s" % (n or "an indirect call"))

    def const(self, e):
        return e.get(1, 0) if all(q == 1 for q in e) else None

    def bound(self, w, x, rep):
        if rep:
            self.c.count("frame_writes")
            o, off, n, kind, v = w
            k = self.const(off)
            end = self.off[2] + self.len if k is None or k >= self.off[2] or (self.const(n) or 0) != self.size else self.size
            pos = self.f.blocks[x.bb].index(x)
            if not (self.L.prove(off, x.bb, pos) and self.L.prove(add(add(const(end), off, -1), n, -1), x.bb, pos)):
                self.c.violation("bounds:%s" % self.cfg, "inside-frame", x.where, "a write to the object frame is not provably inside it for every path length")
        return w

    def apply(self, w, x, i, st, sts):
        o, off, n, kind, v = w
        if o != i:
            return st
        raw, rel, z, term, first = st
        k, ln = self.const(off), self.const(n) if n is not None else None
        if kind == "frame":
            return sts[v]

        def covers(q, m):
            return k is not None and ln is not None and k <= q and q + m <= k + ln
        # numeric fields
        for idx in (0, 1):
            a = self.off[idx]
            if kind == "store" and k == a and ln == 8:
                val = ("addr" if v == "a0" else "other") if idx == 0 else ("zero" if v == "c0" else v)
            elif kind == "zero" and covers(a, 8):
                val = "other" if idx == 0 else "zero"
            elif k is not None and ln is not None and (k >= a + 8 or k + ln <= a):
                continue
            elif (k is not None and k >= self.off[2]) or k is None and self.L.prove(add(off, const(-self.off[2])), x.bb, self.f.blocks[x.bb].index(x)):
                continue
            else:
                val = None
            if idx == 0:
                raw = val
            else:
                rel = val
        # the path
        p = self.off[2]
        if k is not None and ln is not None and k + ln <= p:
            return raw, rel, z, term, first
        if kind == "zero" and k is not None and ln is not None:
            lo, hi = max(k, p) - p, min(k + ln, p + self.len) - p
            if hi > lo:
                if z is None or hi - 1 > z:
                    z = hi - 1
                term = term or k == p
                if lo == 0:
                    first = "zero"
            return raw, rel, z, term, first
        if kind == "store" and v == "c0" and ln == 1:
            if k == p:
                first = "zero"
            return raw, rel, max(z, k - p) if z is not None and k is not None else (k - p if k is not None else z), True, first
        if k is None or k <= p:
            first = "name"
        if kind == "string":
            return raw, rel, None if z is None or not self.below(off, n, z, x) else z, True, first
        if z is not None and not self.below(off, n, z, x):
            z = None
        # a copy of a whole string with its terminator
        term = kind == "copy" and self.whole(v, x)
        return raw, rel, z, term, first

    def below(self, off, n, z, x):
        """the write ends at or before index z of the path"""
        if n is None:
            return False
        return self.L.prove(add(add(const(self.off[2] + z), off, -1), n, -1), x.bb, self.f.blocks[x.bb].index(x))

    def whole(self, v, x):
        src, n = v
        memo = {}
        for y in self.f.calls():
            if y.callee_name == "strlen" and y.d["ops"][0] == src and (self.f.dominates(y, x) or y.bb == x.bb and y.i < x.i):
                if key(form(self.f, n, memo)) == key(comb({y.ref: 1}, {1: 1}, 1)):
                    return True
        return False

    # ------------------------------------------------------------ paths
    def edge(self, b, k, states):
        fd = None
        for fc in self.F.on_edge(b, k):
            for y in self.find:
                if fc[0] == "cmp" and fc[1] in ("eq", "ne") and {fc[2], fc[3]} == {y.ref, "c0"}:
                    good = 0 if y.callee_name == "_dl_find_object" else 1
                    fd = (fc[1] == "eq") == (good == 0)
                elif fc[0] == "cmp" and fc[1] in ("slt", "sgt") and y.ref in fc[2:4] and y.callee_name == "_dl_find_object":
                    fd = False
        if fd is None:
            return set(states)
        return {(fd, s) for q, s in states if q is None or q == fd}

    def zero_when_missing(self, ref, depth=0):
        """value is 0 whenever the object was not found"""
        if ref in ("zero", "c0"):
            return True
        x = self.f.inst(ref) if ref and ref[0] == "v" else None
        if x is None or depth > 4:
            return False
        if x.op == "phi":
            return all(self.zero_when_missing(v, depth + 1) or
                       all(q is True for q, _ in self.edge(p, x.bb, self.flow(p, self.inn.get(p, set())))) for v, p in x.d["phi"])
        if x.op == "select":
            fs = []
            for v, t in ((x.d["ops"][1], True), (x.d["ops"][2], False)):
                fs = []
                self.F._expand(x.d["ops"][0], t, fs, 0)
                found = any(fc[0] == "cmp" and {fc[2], fc[3]} == {y.ref, "c0"} and (fc[1] == "eq") == (y.callee_name == "_dl_find_object") for fc in fs for y in self.find)
                if not found and not self.zero_when_missing(v, depth + 1):
                    return False
            return True
        return False

    def final(self, x, states):
        if any(fc == ("cmp", "eq", "a1", "n") for fc in self.F.at(x.bb)):
            return
        c = self.c
        for fd, sts in states:
            raw, rel, z, term, first = sts[0]
            c.count("frame_exits")

            def bad(k, msg):
                c.violation("%s:%s" % (k, self.cfg), k, x.where, msg)
            if raw != "addr":
                bad("raw-address-set", "the frame's raw address is not the address asked for on every path")
            if rel is None:
                bad("relative-address-set", "the frame's relative address is not set on every path")
            if z is None and not term:
                bad("path-terminated", "the frame's path is not NUL-terminated on every path (for every object path length)")
            if fd is not True:
                if first != "zero":
                    bad("missing-object", "the path is not empty although no object was found for the address")
                if rel is not None and not self.zero_when_missing(rel):
                    bad("missing-object", "the relative address is not zero although no object was found for the address")


def frame(c, cfg, lay):
    m = c.module(cfg, slice_steps(FRAME, "cpptrace"))
    fs = [f for f in m.defined() if re.search(FRAME, f.dem)]
    if len(fs) != 1:
        raise AnalysisError("get_safe_object_frame not found in %s" % cfg)
    c.saw("%s [%s]" % (fs[0].dem, cfg))
    Frame(c, fs[0], lay, cfg)
    m = c.module(cfg, slice_steps("=ctrace_get_safe_object_frame", "cpptrace", FRAME))
    f = m.fns["ctrace_get_safe_object_frame"]
    cs = [x for x in f.calls() if x.callee_name in m.fns and re.search(FRAME, m.fns[x.callee_name].dem)]
    F = Facts(f)
    for r in f.insts:
        if r.op == "ret" and not any(x.d["ops"] == ["a0", "a1"] and f.dominates(x, r) or x.bb == r.bb for x in cs) and \
                not any(fc[0] == "cmp" and fc[1] == "eq" and set(fc[2:4]) == {"a1", "n"} for fc in F.at(r.bb)):
            c.violation("forward:ctrace", "frame-set", r.where, "ctrace_get_safe_object_frame can return without the frame being set")
    for x in cs:
        if x.d["ops"] != ["a0", "a1"]:
            c.violation("forward:ctrace", "frame-set", x.where, "ctrace_get_safe_object_frame does not hand on its address and its output frame")


def run(c):
    c.rule("every write to the caller's buffer is proved below both its size and max_depth (linear inequalities), consecutive from 0, and the returned value equals the number of writes "
           "(greatest fixpoint over expressions equal to the count); every write to a safe object frame is proved inside it, and on every path (powerset dataflow) the raw address is the "
           "argument, the relative address is set, and the path has a zero byte; where the object lookup failed the path starts with zero and the relative address is zero; "
           "C and C++ layouts are equal")
    lay = layout(c)
    for a, b in (("off_safe_frame__raw_address", "off_c_safe_frame__raw_address"), ("off_safe_frame__address_relative_to_object_start", "off_c_safe_frame__relative_obj_address"),
                 ("off_safe_frame__object_path", "off_c_safe_frame__object_path"), ("size_safe_path", "size_c_safe_path"), ("size_safe_frame", "size_c_safe_frame")):
        c.count("layout_pairs")
        if lay[a] != lay[b]:
            c.violation("layout:" + a, "layout", "include/ctrace/ctrace.h:1", "the C and the C++ signal-safe frame differ in %s" % a)
    for cfg in CONFIGS + (EXTRA if c.thorough else []):
        buffer(c, cfg)
        frame(c, cfg, lay)
