"""Ghost state made explicit: the size of every standard container and the contents of every scalar cell of a local object
are turned into SSA values (synthetic phi/add instructions), so the linear-inequality analysis can reason about them like
about any other integer, loops included.  Container methods are kept as calls in the slice; unknown calls clobber what they
are given."""
import re
from collections import defaultdict
from containers import method, obj, READS, APPEND
from ir import Inst
from linear import Lin, add, const, var

MAXSZ = (1 << 63) - 1
SIZES = {"vector": 24, "basic_string": 32, "deque": 80}
USES = {"size", "length", "empty", "operator[]", "front", "back", "pop_back", "substr", "erase", "insert", "replace", "data", "c_str"}
PURE = re.compile(r"^llvm\.(dbg|experimental\.noalias|assume|umin|umax|smin|smax|ctlz|cttz|ctpop|bswap|expect)|^__cxa_guard|^__assert_fail$|^strlen$|^memchr$|^memcmp$|^strcmp$|^bcmp$")
ALGO = re.compile(r"^_ZSt\d+(upper_bound|lower_bound|binary_search|partition_point|find|find_if|find_if_not|count|count_if|all_of|any_of|none_of|min|max|equal|distance|remove_if|remove)I")
STD = re.compile(r"^_ZN?K?(St|9__gnu_cxx)|^_ZNK?St|^_Zn|^_Zd")


def top(sig):
    """first parameter type of a parameter list"""
    d = 0
    for i, ch in enumerate(sig):
        d += ch in "<(["
        d -= ch in ">)]"
        if ch == "," and d == 0:
            return sig[:i].strip()
    return sig.strip()


class Ghost:
    def __init__(self, f, lin=None, known=None):
        """known(f, x): {arg index} of pointers an opaque call leaves alone, or None if nothing is known about it"""
        self.f = f
        self.known = known
        self.L = lin or Lin(f)
        self.next = max(f.byid, default=0) + 1
        self.sizes = set()          # ghost refs that are container sizes
        self.vars = {}              # var -> {loads}
        self.at = {}                # (inst id) -> {var: ref} value just before the instruction, for instructions that ask
        self._roots()
        self._collect()
        self._ssa()
        self._link()

    # ------------------------------------------------------------------ places
    def place(self, ref, depth=0):
        """(base, constant offset) of a pointer, offset None when it varies"""
        x = self.f.inst(ref)
        if x is None or depth > 30:
            return ref, 0
        if x.op == "getelementptr":
            b, o = self.place(x.d["ops"][0], depth + 1)
            if o is None or x.d.get("off") is None or x.d.get("var"):
                return b, None
            return b, o + x.d["off"]
        if x.op in ("bitcast", "freeze"):
            return self.place(x.d["ops"][0], depth + 1)
        return ref, 0

    def is_local(self, b):
        x = self.f.inst(b)
        return x is not None and x.op == "alloca" or b in self.private

    def _roots(self):
        """allocas whose address never leaves except as a call argument (plus sret result objects)"""
        f = self.f
        self.private = {"a%d" % k for k, a in enumerate(f.args) if a.get("sret")}
        self.leaked = set()
        for x in f.insts:
            if x.op == "store":
                b, _ = self.place(x.d["ops"][0])
                y = f.inst(b)
                if y is not None and y.op == "alloca":
                    self.leaked.add(b)
            elif x.op in ("phi", "select"):
                for v in [w for w, _ in x.d.get("phi", [])] + x.d.get("ops", [])[1:]:
                    b, _ = self.place(v)
                    y = f.inst(b)
                    if y is not None and y.op == "alloca":
                        self.leaked.add(b)

    # ------------------------------------------------------------------ events
    def _collect(self):
        f = self.f
        vs = set()
        moves = []
        self.vty = {}
        for x in f.insts:
            if x.op == "load" and (x.ty or "")[:1] in "ip":
                b, k = self.place(x.d["ops"][0])
                if k is not None:
                    self.vty[("m", b, k)] = x.ty
        for x in f.insts:
            if x.op in ("call", "invoke"):
                m = method(f, x)
                if m:
                    o, rest = obj(f, x)
                    if o:
                        b, k = self.place(o)
                        if k is not None:
                            if m[1] in USES or m[1].startswith(("find", "rfind")):
                                vs.add(("sz", b, k))
                            elif m[1] in SIZES or m[1] in ("operator=", "swap"):
                                moves.append(((b, k), self.place(rest[0]) if rest else (None, None)))
            elif x.op == "load" and (x.ty or "")[:1] in "ip":
                b, k = self.place(x.d["ops"][0])
                if k is not None and self.is_local(b):
                    vs.add(("m", b, k))
            elif x.op == "store":
                b, k = self.place(x.d["ops"][1])
                if k is not None and self.is_local(b):
                    vs.add(("m", b, k))
        # copies spread variables between objects
        copies = []
        for x in f.insts:
            n = x.callee_name or ""
            if n.startswith(("llvm.memcpy", "llvm.memmove")) and x.d["ops"][2][0] == "c":
                d, s = self.place(x.d["ops"][0]), self.place(x.d["ops"][1])
                if d[1] is not None and s[1] is not None:
                    copies.append((d, s, int(x.d["ops"][2][1:])))
            elif x.op in ("call", "invoke"):
                m = method(f, x)
                if m and m[1] in SIZES or m and m[1] == "operator=":
                    o, rest = obj(f, x)
        grew = True
        while grew:
            grew = False
            for d, o in moves:
                if ("sz",) + d in vs and o[0] is not None and o[1] is not None and (("sz",) + o not in vs) and o[0][0] in "av":
                    vs.add(("sz",) + o)
                    grew = True
            for (db, do), (sb, so), n in copies:
                for t, b, k in list(vs):
                    if t == "m" and b == db and do <= k < do + n and self.is_local(sb) and (t, sb, k - do + so) not in vs:
                        vs.add((t, sb, k - do + so))
                        grew = True
                    if t == "m" and b == sb and so <= k < so + n and self.is_local(db) and (t, db, k - so + do) not in vs:
                        vs.add((t, db, k - so + do))
                        grew = True
        self.vs = vs
        self.bybase = defaultdict(list)
        for v in vs:
            self.bybase[v[1]].append(v)

    def new(self, bb, op, **d):
        d.update(i=self.next, op=op)
        d.setdefault("ty", "i64")
        self.next += 1
        x = Inst(d, self.f, bb)
        self.f.byid[x.i] = x
        return x

    def unknown(self, bb, sz):
        x = self.new(bb, "ghost")
        if sz:
            self.sizes.add(x.ref)
        return x.ref

    def effects(self, x, cur):
        """update cur: var -> ref for instruction x"""
        f = self.f

        def clob(v):
            cur[v] = self.unknown(x.bb, v[0] == "sz")

        def clob_range(b, lo, hi):
            for v in self.bybase.get(b, ()):
                if lo is None or hi is None or lo <= v[2] < hi or (v[0] == "sz" and v[2] <= lo < v[2] + 24):
                    clob(v)

        def clob_heap():
            for v in self.vs:
                if not self.is_local(v[1]) or v[1] in self.leaked:
                    clob(v)
        if x.op == "store":
            b, k = self.place(x.d["ops"][1])
            if self.is_local(b):
                if k is None:
                    clob_range(b, None, None)
                else:
                    w = x.d["sz"] if isinstance(x.d.get("sz"), int) else 8
                    for v in self.bybase.get(b, ()):
                        if v[0] == "m" and v[2] != k and k <= v[2] < k + w:
                            clob(v)
                    if ("m", b, k) in self.vs:
                        cur[("m", b, k)] = x.d["ops"][0]
            return
        if x.op not in ("call", "invoke"):
            if x.ref in self.bybase and x.op != "alloca":
                for v in self.bybase[x.ref]:
                    clob(v)
            return
        n = x.callee_name or ""
        if x.ref in self.bybase:
            for v in self.bybase[x.ref]:
                clob(v)
        if n.startswith("llvm.lifetime"):
            b, k = self.place(x.d["ops"][1])
            clob_range(b, None, None)
            return
        if n.startswith(("llvm.memcpy", "llvm.memmove", "llvm.memset")):
            b, k = self.place(x.d["ops"][0])
            ln = int(x.d["ops"][2][1:]) if x.d["ops"][2][0] == "c" else None
            new = {}
            if not n.startswith("llvm.memset") and ln is not None and k is not None:
                sb, so = self.place(x.d["ops"][1])
                if so is not None:
                    for v in self.bybase.get(b, ()):
                        w = ("m", sb, v[2] - k + so)
                        if v[0] == "m" and k <= v[2] < k + ln and w in self.vs:
                            new[v] = cur[w]
            if n.startswith("llvm.memset") and x.d["ops"][1] == "c0" and k is not None and ln is not None:
                for v in self.bybase.get(b, ()):
                    if v[0] == "m" and k <= v[2] < k + ln:
                        new[v] = "c0"
            clob_range(b, k, None if ln is None or k is None else k + ln)
            cur.update(new)
            return
        if PURE.match(n):
            return
        if ALGO.match(n):
            # what they are given by reference is only read; ranges are given by iterators
            return
        m = method(f, x)
        if m:
            o, rest = obj(f, x)
            b, k = self.place(o) if o else (None, None)
            v = ("sz", b, k)
            mt, sig, cst = m[1], m[2], m[3]
            if v in self.vs and not (cst or mt in READS):
                self.update(x, v, mt, sig, rest, cur, clob)
                if not self.is_local(b):
                    for w in self.vs:
                        if w != v and w[0] == "sz" and (not self.is_local(w[1]) or w[1] in self.leaked) and (w[1] != b):
                            clob(w)
            # other arguments: rvalue containers are emptied by moves (handled in update); results through sret
            g = f.mod.fns.get(n)
            if g is not None and g.args and g.args[0].get("sret"):
                b, k = self.place(x.d["ops"][0])
                clob_range(b, k, None)
                w = ("sz", b, k)
                if w in self.vs and mt == "substr":
                    pass
            for q in rest:
                bq, kq = self.place(q)
                if bq in self.bybase and not re.search(r"const ?&$|^unsigned|^char", sig) and "const&" not in sig:
                    for w in self.bybase[bq]:
                        if not (w[0] == "sz" and w in self.moved):
                            if kq is None or w[2] >= kq:
                                clob(w)
            self.moved = set()
            return
        skip = self.known(f, x) if self.known else None
        for j, q in enumerate(x.d["ops"]):
            if q[0] not in "av" or skip is not None and j in skip:
                continue
            bq, kq = self.place(q)
            if bq in self.bybase:
                for w in self.bybase[bq]:
                    if kq is None or w[2] >= kq or not self.is_local(bq):
                        clob(w)
        if not STD.match(n) and skip is None:
            clob_heap()

    moved = set()

    def update(self, x, v, mt, sig, rest, cur, clob):
        f = self.f
        old = cur[v]
        first = top(sig)

        def other():
            b, k = self.place(rest[0])
            return ("sz", b, k)
        if mt in APPEND or mt == "push_back":
            y = self.new(x.bb, "add", ops=[old, "c1"], nuw=True)
            self.sizes.add(y.ref)
            self.pend.append(y)
            cur[v] = y.ref
        elif mt == "pop_back":
            y = self.new(x.bb, "sub", ops=[old, "c1"])
            self.pend.append(y)
            cur[v] = y.ref
        elif mt == "clear" or mt in SIZES and (first == "" or re.match(r"std::(?:__cxx11::)?allocator<.*> const&$", first)):
            cur[v] = "c0"
        elif mt == "resize" or mt in SIZES and first == "unsigned long" or mt == "assign" and first == "unsigned long":
            cur[v] = rest[0]
        elif (mt in SIZES or mt in ("operator=", "swap")) and re.match(r"std::(?:__cxx11::)?(vector|basic_string|deque)<.*>( const)?&&?$", first) and rest and other() in self.vs:
            o = other()
            cur[v] = cur[o]
            if first.endswith("&&"):
                cur[o] = "c0" if mt in SIZES else self.unknown(x.bb, True)
                self.moved = {o}
        elif mt in ("append", "operator+=", "insert"):
            y = self.new(x.bb, "ghost")
            self.sizes.add(y.ref)
            self.pend.append(y)
            self.grow.append((y.ref, old))
            cur[v] = y.ref
        else:
            clob(v)

    # ------------------------------------------------------------------ ssa
    def _ssa(self):
        f = self.f
        nb = len(f.blocks)
        vs = sorted(self.vs, key=str)
        self.pend, self.grow = [], []
        entry = {}
        for v in vs:
            entry[v] = self.unknown(0, v[0] == "sz")
        reach, st = {0}, [0]
        order = []
        while st:
            b = st.pop()
            order.append(b)
            for k in f.succs(b):
                if k not in reach:
                    reach.add(k)
                    st.append(k)
        preds = {b: [p for p in f.preds[b] if p in reach] for b in reach}
        inn, out = {}, {}
        phis = {}
        ptrty = {}
        for b in sorted(reach):
            if b == 0 and not preds[b]:
                inn[b] = dict(entry)
            elif len(preds[b]) == 1 and preds[b][0] != b:
                inn[b] = None
            else:
                inn[b] = {}
                for v in vs:
                    y = self.new(b, "phi", phi=[])
                    phis[y.ref] = (b, v)
                    inn[b][v] = y.ref
        # single-predecessor blocks inherit: process in dominator-friendly order
        todo = sorted(reach)
        self.before = {}
        while todo:
            rest = []
            for b in todo:
                if inn[b] is None:
                    p = preds[b][0]
                    if p not in out:
                        rest.append(b)
                        continue
                    inn[b] = dict(out[p])
                cur = dict(inn[b])
                t = f.blocks[b][-1]
                for x in f.blocks[b]:
                    self.before[x.i] = dict(cur) if x.op in ("call", "invoke", "load", "ret", "getelementptr") else None
                    if not (x is t and x.op == "invoke"):
                        self.effects(x, cur)
                if t.op == "invoke":
                    self.effects(t, cur)
                out[b] = cur
            if len(rest) == len(todo):
                raise RuntimeError("ghost ssa does not make progress")
            todo = rest
        # fill and prune phis
        val = {}
        args = {r: [(out[p][v], p) for p in preds[b]] for r, (b, v) in phis.items()}

        def res(r):
            while r in val:
                r = val[r]
            return r
        ch = True
        while ch:
            ch = False
            for r in list(args):
                s = {res(a) for a, p in args[r]} - {r}
                if len(s) == 1:
                    val[r] = s.pop()
                    del args[r]
                    ch = True
        self.res = res
        for r, l in args.items():
            b, v = phis[r]
            y = f.byid[int(r[1:])]
            y.d["phi"] = [[res(a), p] for a, p in l]
            vals = [a for a, _ in y.d["phi"]]
            if v[0] == "sz":
                self.sizes.add(r)
            else:
                y.d["ty"] = self.vty.get(v) or self._ty(vals, r)
        # widths settle once all phis are known
        for r in args:
            y = f.byid[int(r[1:])]
            if phis[r][1][0] != "sz":
                y.d["ty"] = self.vty.get(phis[r][1]) or self._ty([a for a, _ in y.d["phi"]], r)
            b = phis[r][0]
            f.blocks[b].insert(0, y)
            f.insts.append(y)
        for r, (b, v) in phis.items():
            if r not in args:
                f.byid.pop(int(r[1:]), None)
        for y in self.pend:
            if y.d.get("ops"):
                y.d["ops"] = [res(o) for o in y.d["ops"]]
        self.grow = [(a, res(b)) for a, b in self.grow]
        f._users = None

    def _ty(self, vals, r):
        for a in vals:
            x = self.f.inst(a)
            if x is not None and a != r and x.op != "ghost" and not (x.op == "phi" and not x.d.get("ops") and x.i >= self.next):
                if x.ty:
                    return x.ty
            if a and a[0] == "a":
                return self.f.args[int(a[1:])]["ty"]
        return "i64"

    def value(self, x, v):
        """ref of variable v just before instruction x"""
        d = self.before.get(x.i)
        if d is None or v not in d:
            return None
        return self.res(d[v])

    def size_at(self, x, ref):
        b, k = self.place(ref)
        return None if k is None else self.value(x, ("sz", b, k))

    # ------------------------------------------------------------------ link to the prover
    def _link(self):
        f, L = self.f, self.L
        L.loops = L._loops()
        L.ghost = self
        L.sizes = self.sizes
        for s in self.sizes:
            a = "u:" + s
            L.U(s)
            d = L.defs.get(a)
            if d:
                L.defs[a] = (d[0] + [add(const(MAXSZ), var(a), -1)], d[1], d[2], d[3])
        for a, b in self.grow:
            d = L.defs["u:" + a]
            L.defs["u:" + a] = (d[0] + [add(var("u:" + a), L.U(b), -1)], d[1], d[2], d[3])
        for x in f.insts:
            if x.op == "load" and (x.ty or "")[:1] in "ip":
                b, k = self.place(x.d["ops"][0])
                v = self.value(x, ("m", b, k)) if k is not None and self.is_local(b) else None
                if v is None:
                    continue
                y = f.inst(v)
                ty = y.ty if y is not None else (f.args[int(v[1:])]["ty"] if v[0] == "a" else None)
                if v[0] == "c" or y is not None and y.op == "ghost" or ty is None or ty == x.ty:
                    if y is not None and y.op == "ghost":
                        # the same unknown read twice is the same value
                        y.d["ty"] = x.ty
                    L.canon[x.i] = v
            elif x.op in ("call", "invoke"):
                m = method(f, x)
                if not m:
                    continue
                o, rest = obj(f, x)
                s = self.size_at(x, o) if o else None
                if s is None:
                    continue
                if m[1] in ("size", "length"):
                    L.canon[x.i] = s
                elif m[1] == "empty":
                    L.boolfacts[x.ref] = (([], [L.U(s)]), ([add(L.U(s), const(-1))], []))
                elif m[1].startswith("find") or m[1].startswith("rfind"):
                    r = L.U(x.ref)
                    d = L.defs["u:" + x.ref]
                    hit = [("ge", add(add(L.U(s), r, -1), const(-1)))]
                    if m[1] in ("find", "find_first_of", "find_first_not_of") and rest and re.search(r"unsigned long$", m[2]):
                        hit.append(("ge", add(r, L.U(rest[-1]), -1)))
                    L.defs["u:" + x.ref] = (d[0], d[1], d[2], ("or", [[add(r, const(-((1 << 64) - 1)))], hit]))
                elif m[1] == "compare":
                    pass
            elif x.op == "extractvalue" and x.d.get("idx") == [0]:
                y = f.inst(x.d["ops"][0])
                if y is not None and y.callee_name == "_ZNSi5tellgEv":
                    # a position, or -1 on failure
                    sv, uv = L.S(x.ref), L.U(x.ref)
                    d = L.defs["s:" + x.ref]
                    L.defs["s:" + x.ref] = (d[0] + [add(sv, const(1))], d[1], d[2], d[3])
                    d = L.defs["u:" + x.ref]
                    L.defs["u:" + x.ref] = (d[0], d[1], d[2], ("or", [[add(sv, const(1)), add(uv, const(-((1 << 64) - 1)))], [add(uv, sv, -1)]]))
        L.invs.clear()
        L.more_candidates = self.candidates

    def candidates(self, h):
        """a loop variable used as a position in a container stays within its size"""
        f, L = self.f, self.L
        body = L.loops[h]
        phis = {y.ref for y in f.blocks[h] if y.op == "phi"}
        for b in body:
            for x in f.blocks[b]:
                m = method(f, x) if x.op in ("call", "invoke") else None
                if not m or not m[1] in USES | {"find"}:
                    continue
                o, rest = obj(f, x)
                p = self.place(o) if o else None
                first = next((y for y in f.blocks[h] if y.op in ("call", "invoke", "load") and y.i in self.before), None)
                if not p or p[1] is None or first is None:
                    continue
                s = self.value(first, ("sz",) + p) if first.bb == h else None
                if s is None:
                    continue
                for q in rest:
                    for t in L.U(q):
                        if t != 1 and t[2:] in phis and all(L._avail(a, h) for a in L.U(s)):
                            yield add(L.U(s), var(t), -1)
                            yield add(add(L.U(s), var(t), -1), const(-1))
