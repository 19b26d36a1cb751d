"""Demand-driven linear-inequality analysis over one (sliced) SSA function.

Every integer value has an unsigned view U(x) and, where needed, a signed view S(x), both mathematical integers; machine
arithmetic is only identified with integer arithmetic when it provably cannot wrap (flags, or derived from the facts that
dominate the point).  `Lin.prove(goal, block)` decides  goal >= 0  from dominating branch facts, definitional facts, and
inductive facts about loop phis; elimination is Fourier-Motzkin over the rationals (with the usual integer tightening)."""
from math import gcd
from flow import Facts, apath, neg


def add(a, b, k=1):
    r = dict(a)
    for x, c in b.items():
        r[x] = r.get(x, 0) + k * c
        if r[x] == 0 and x != 1:
            del r[x]
    return r


def const(c):
    return {1: c}


def var(a):
    return {a: 1}


def norm(e):
    """divide by the gcd of the coefficients, tightening the constant for integers"""
    g = 0
    for x, c in e.items():
        if x != 1:
            g = gcd(g, abs(c))
    if g > 1:
        e = {x: (c // g if x != 1 else c // g) for x, c in e.items()}
    return e


def infeasible(ineqs, eqs, cap=900):
    """True if no integer (rational after tightening) assignment satisfies all  e>=0  and  e==0"""
    ineqs = [dict(e) for e in ineqs]
    eqs = [dict(e) for e in eqs]
    while eqs:
        e = eqs.pop()
        vs = [x for x in e if x != 1 and e[x] != 0]
        if not vs:
            if e.get(1, 0) != 0:
                return True
            continue
        unit = [x for x in vs if abs(e[x]) == 1]
        if not unit:
            ineqs += [e, {x: -c for x, c in e.items()}]
            continue
        v = unit[0]
        s = e[v]
        # v = -(e - s v)/s
        rest = {x: -c * s for x, c in e.items() if x != v}

        def sub(q):
            k = q.get(v, 0)
            if not k:
                return q
            q = {x: c for x, c in q.items() if x != v}
            return add(q, rest, k)
        eqs = [sub(q) for q in eqs]
        ineqs = [sub(q) for q in ineqs]
    work = {}

    def put(e):
        e = norm({x: c for x, c in e.items() if c != 0 or x == 1})
        c = e.get(1, 0)
        key = tuple(sorted(((x, k) for x, k in e.items() if x != 1), key=str))
        if not key:
            return c < 0
        if key not in work or work[key] > c:
            work[key] = c
        return False
    for e in ineqs:
        if put(e):
            return True
    while work:
        pos, ngt = {}, {}
        for k in work:
            for x, c in k:
                (pos if c > 0 else ngt).setdefault(x, []).append(k)
        allv = set(pos) | set(ngt)
        v = min(allv, key=lambda x: (len(pos.get(x, ())) * len(ngt.get(x, ())) - len(pos.get(x, ())) - len(ngt.get(x, ())), str(x)))
        P, N = pos.get(v, []), ngt.get(v, [])
        old = {k: work[k] for k in P + N}
        for k in old:
            del work[k]
        for p in P:
            for n in N:
                a, b = dict(p), dict(n)
                ca, cb = a[v], -b[v]
                g = gcd(ca, cb)
                e = {1: old[p] * (cb // g) + old[n] * (ca // g)}
                for x, c in a.items():
                    if x != v:
                        e[x] = e.get(x, 0) + c * (cb // g)
                for x, c in b.items():
                    if x != v:
                        e[x] = e.get(x, 0) + c * (ca // g)
                if put(e):
                    return True
        if len(work) > cap:
            return False
    return False


class Lin:
    def __init__(self, f, extra=None):
        """extra(lin, block, k): additional facts ([ineqs],[eqs]) valid at instruction position k of block"""
        self.f, self.F = f, Facts(f)
        self.extra = extra
        self.more_candidates = None
        self.sizes = set()      # values that are container sizes: never negative
        self.canon = {}         # load id -> representative value
        self.boolfacts = {}     # opaque condition -> ((ineqs, eqs) if true, (ineqs, eqs) if false)
        self.defs = {}          # atom -> (ineqs, eqs, conds, alts)
        self.budget = 0
        self.loops = self._loops()
        self.invs = {}

    # ------------------------------------------------------------ loops
    def _loops(self):
        f = self.f
        out = {}
        for b in range(len(f.blocks)):
            for s in f.succs(b):
                if s in f.dom[b] and (b == 0 or f.preds[b]):
                    body = out.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st += f.preds[x]
        return out

    # ------------------------------------------------------------ values
    def width(self, ref):
        x = self.f.inst(ref)
        ty = x.ty if x is not None else (self.f.args[int(ref[1:])]["ty"] if ref[0] == "a" else "i64")
        return int(ty[1:]) if ty and ty[0] == "i" and ty[1:].isdigit() else 64

    def U(self, ref, w=64):
        """unsigned view; w: width of a constant"""
        if ref[0] == "c":
            v = int(ref[1:])
            return const(v % (1 << w))
        if ref in ("n", "z"):
            return const(0)
        x = self.f.inst(ref)
        if x is not None:
            if x.i in self.canon:
                return self.U(self.canon[x.i])
            if x.op in ("zext", "freeze"):
                return self.U(x.d["ops"][0])
            if x.op == "ptrtoint":
                return self.P(x.d["ops"][0])
        a = "u:" + ref
        if a not in self.defs:
            self._define(a, ref)
        return var(a)

    def S(self, ref, w=64):
        if ref[0] == "c":
            return const(int(ref[1:]))
        if ref in ("n", "z"):
            return const(0)
        x = self.f.inst(ref)
        if x is not None:
            if x.i in self.canon:
                return self.S(self.canon[x.i], w)
            o = x.d.get("ops", [])
            if x.op == "sext":
                return self.S(o[0])
            if x.op == "zext":
                return self.U(o[0])
            if x.op == "freeze":
                return self.S(o[0])
            if x.op in ("add", "sub") and x.d.get("nsw"):
                return add(self.S(o[0]), self.S(o[1]), 1 if x.op == "add" else -1)
        a = "s:" + ref
        if a not in self.defs:
            wd = self.width(ref)
            h = 1 << (wd - 1)
            self.defs[a] = ([add(var(a), const(h)), add(const(h - 1), var(a), -1)], [], [], None)
            u = self.U(ref)
            # equal when either view shows the sign bit clear
            conds = [([var(a)], [add(var(a), u, -1)]), ([add(const(h - 1), u, -1)], [add(var(a), u, -1)]),
                     ([add(const(-1), var(a), -1)], [add(add(u, const(-2 * h)), var(a), -1)])]
            self.defs[a] = (self.defs[a][0], [], conds, None)
        return var(a)

    def P(self, ref):
        """address of a pointer as base atom + constant/linear offset"""
        f = self.f
        if ref in ("n", "z"):
            return const(0)
        if ref[0] == "g":
            n, _, o = ref[1:].partition("@")
            a = "p:g" + n
            self.defs.setdefault(a, ([add(var(a), const(-1))], [], [], None))
            return add(var(a), const(int(o or 0)))
        x = f.inst(ref)
        if x is not None and x.i in self.canon:
            return self.P(self.canon[x.i])
        if x is not None and x.op == "getelementptr" and x.d.get("off") is not None:
            e = add(self.P(x.d["ops"][0]), const(x.d["off"]))
            for v in x.d.get("var", []):
                e = add(e, self.idx(v[0]), v[1])
            return e
        if x is not None and x.op in ("bitcast", "freeze"):
            return self.P(x.d["ops"][0])
        if x is not None and x.op == "inttoptr":
            return self.U(x.d["ops"][0])
        a = "p:" + ref
        if a not in self.defs:
            self.defs[a] = ([var(a)], [], [], self._alts(ref, self.P, a))
        return var(a)

    def idx(self, ref):
        """a GEP index: signed in the IR; unsigned 64-bit source values are non-negative in any valid address computation"""
        x = self.f.inst(ref)
        if ref[0] == "c":
            return const(int(ref[1:]))
        if x is not None and x.op in ("sext",):
            return self.S(x.d["ops"][0])
        if x is not None and x.op == "sub" and x.d["ops"][0] == "c0":
            return {k: -v for k, v in self.U(x.d["ops"][1]).items()}
        return self.U(ref)

    def _forward(self, a, b):
        """both are addresses and the first is the second moved forward inside its object"""
        f = self.f
        x, y = f.inst(a), f.inst(b)
        if x is None or y is None or x.op != "ptrtoint" or y.op != "ptrtoint":
            return False
        base, st, seen = y.d["ops"][0], [x.d["ops"][0]], set()
        while st:
            r = st.pop()
            if r in seen or r == base:
                continue
            seen.add(r)
            z = f.inst(r)
            if z is not None and z.op == "phi":
                st += [v for v, _ in z.d["phi"]]
            elif z is not None and z.op == "getelementptr" and not z.d.get("var") and (z.d.get("off") or 0) >= 0:
                st.append(z.d["ops"][0])
            else:
                return False
        return True

    def _alts(self, ref, view, a):
        x = self.f.inst(ref)
        if x is None:
            return None
        if x.op == "phi":
            return ("phi", x)
        if x.op == "select":
            return ("select", x)
        return None

    def _define(self, a, ref):
        f = self.f
        w = self.width(ref)
        M = (1 << w) - 1
        ineqs, eqs, conds, alts = [var(a), add(const(M), var(a), -1)], [], [], None
        self.defs[a] = (ineqs, eqs, conds, None)
        x = f.inst(ref)
        if x is None:
            return
        o = x.d.get("ops", [])
        me = var(a)
        if x.op == "load" and x.d.get("range"):
            pass
        if x.op in ("add", "sub", "mul", "shl") and w <= 64:
            A, B = self.U(o[0], w), self.U(o[1], w)
            if x.op == "sub":
                s = add(A, B, -1)
                if x.d.get("nuw"):
                    eqs.append(add(me, s, -1))
                elif self._forward(o[0], o[1]):
                    # distance from the start of an array to a pointer that only moves forward in it
                    eqs.append(add(me, s, -1))
                    ineqs.append(add(const(M >> 1), me, -1))
                else:
                    conds.append(([s], [add(me, s, -1)]))
                    conds.append(([add(const(-1), s, -1)], [add(add(me, s, -1), const(-(M + 1)))]))
            elif x.op == "add":
                neg_c = o[1][0] == "c" and int(o[1][1:]) < 0
                s = add(A, const(int(o[1][1:]))) if neg_c else add(A, B)
                if x.d.get("nuw") and not neg_c:
                    eqs.append(add(me, s, -1))
                elif neg_c:
                    conds.append(([s], [add(me, s, -1)]))
                    conds.append(([add(const(-1), s, -1)], [add(add(me, s, -1), const(-(M + 1)))]))
                else:
                    conds.append(([add(const(M), s, -1)], [add(me, s, -1)]))
                    conds.append(([add(s, const(-(M + 1)))], [add(add(me, s, -1), const(M + 1))]))
            else:
                k = None
                if x.op == "mul" and o[1][0] == "c" and int(o[1][1:]) > 0:
                    k = int(o[1][1:])
                if x.op == "shl" and o[1][0] == "c":
                    k = 1 << int(o[1][1:])
                if k is not None:
                    s = {y: c * k for y, c in A.items()}
                    if x.d.get("nuw"):
                        eqs.append(add(me, s, -1))
                    else:
                        conds.append(([add(const(M), s, -1)], [add(me, s, -1)]))
            if x.op in ("add", "sub") and x.d.get("nsw"):
                # the signed identity is exact; link the views
                sv = self.S(ref)
                su = add(sv, {}, 1)
                conds.append(([su], [add(me, su, -1)]))
        elif x.op in ("udiv", "lshr", "ashr", "sdiv") and o[1][0] == "c" and int(o[1][1:]) >= 0:
            k = int(o[1][1:]) if x.op in ("udiv", "sdiv") else 1 << int(o[1][1:])
            if k > 0:
                A = self.U(o[0], w)
                i1, i2 = add(A, {y: c * k for y, c in me.items()}, -1), add(add({y: c * k for y, c in me.items()}, const(k - 1)), A, -1)
                if x.op in ("udiv", "lshr"):
                    if x.d.get("exact"):
                        eqs.append(i1)
                    else:
                        ineqs += [i1, i2]
                else:
                    conds.append(([add(const(M >> 1), A, -1)], [i1] if x.d.get("exact") else []))
                    if not x.d.get("exact"):
                        conds.append(([add(const(M >> 1), A, -1)], [], [i1, i2]))
        elif x.op == "urem":
            ineqs.append(add(self.U(o[0], w), me, -1))
            B = self.U(o[1], w)
            conds.append(([add(B, const(-1))], [], [add(add(B, const(-1)), me, -1)]))
        elif x.op == "and":
            for q in o:
                ineqs.append(add(self.U(q, w), me, -1))
        elif x.op == "trunc":
            A = self.U(o[0])
            ineqs.append(add(A, me, -1))
            conds.append(([add(const(M), A, -1)], [add(me, A, -1)]))
        elif x.op == "sext":
            sv = self.S(o[0])
            conds.append(([sv], [add(me, sv, -1)]))
            conds.append(([add(const(-1), sv, -1)], [add(add(me, sv, -1), const(-(M + 1)))]))
        elif x.op in ("phi", "select"):
            alts = self._alts(ref, self.U, a)
            cmp = f.inst(o[0]) if x.op == "select" else None
            if cmp is not None and cmp.op == "icmp" and cmp.d["pred"][0] == "u":
                l, r = cmp.d["ops"]
                if {l, r} == {o[1], o[2]}:
                    mn = (cmp.d["pred"][1] == "l") == (l == o[1])
                    for q in (l, r):
                        e = self.U(q, w)
                        ineqs.append(add(e, me, -1) if mn else add(me, e, -1))
        elif x.op == "call" and (x.callee_name or "").startswith(("llvm.umin", "llvm.umax")):
            A, B = self.U(o[0], w), self.U(o[1], w)
            mn = "umin" in x.callee_name
            for q in (A, B):
                ineqs.append(add(q, me, -1) if mn else add(me, q, -1))
            alts = ("or", [[add(me, A, -1)], [add(me, B, -1)]])
        self.defs[a] = (ineqs, eqs, conds, alts)

    # ------------------------------------------------------------ facts
    def fact(self, fc):
        """(ineqs, eqs, nes) of a branch fact"""
        if fc[0] == "cmp":
            p, a, b = fc[1:4]
            ptr = self._isptr(a) or self._isptr(b)
            w = self.width(a if a[0] in "va" else b)
            if ptr:
                A, B = self.P(a), self.P(b)
            elif p and p[0] == "s":
                A, B = self.S(a, w), self.S(b, w)
            else:
                A, B = self.U(a, w), self.U(b, w)
            d = add(A, B, -1)
            nd = {x: -c for x, c in d.items()}
            q = p[-2:] if p not in ("eq", "ne") else p
            if p == "eq":
                es = [d]
                if not ptr and ("s:" + a in self.defs or "s:" + b in self.defs):
                    es.append(add(self.S(a, w), self.S(b, w), -1))
                return [], es, []
            if p == "ne":
                if len([x for x in B if x != 1]) == 0 and B.get(1, 0) == 0:
                    return [add(A, const(-1))], [], []
                return [], [], [d]
            return {"lt": ([add(nd, const(-1))], [], []), "le": ([nd], [], []), "gt": ([add(d, const(-1))], [], []), "ge": ([d], [], [])}[q]
        if fc[0] == "sw":
            return [], [add(self.U(fc[1], self.width(fc[1])), const(-(int(fc[2]) % (1 << self.width(fc[1])))))], []
        if fc[0] == "nsw":
            return [], [], [add(self.U(fc[1], self.width(fc[1])), const(-(int(fc[2]) % (1 << self.width(fc[1])))))]
        if fc[0] == "val":
            x = self.f.inst(fc[1])
            if x is not None and x.op == "trunc" and x.ty == "i1":
                # a bool: 0 or 1
                u = self.U(x.d["ops"][0])
                return [], [add(u, const(-1)) if fc[2] else u], []
        if fc[0] == "val" and fc[1] in self.boolfacts:
            i, e = self.boolfacts[fc[1]][0 if fc[2] else 1]
            return list(i), list(e), []
        return [], [], []

    def _isptr(self, ref):
        if ref in ("n", "z") or ref[0] == "g":
            return True
        x = self.f.inst(ref)
        if x is not None:
            return x.ty == "ptr"
        return ref[0] == "a" and self.f.args[int(ref[1:])]["ty"] == "ptr"

    # ------------------------------------------------------------ proving
    def closure(self, goal, ineqs, eqs, nes):
        """add the definitional facts of all atoms connected to the goal; resolve conditional facts"""
        ineqs, eqs = list(ineqs), list(eqs)
        atoms, todo = set(), [x for e in [goal] + ineqs + eqs for x in e if x != 1]
        conds = []
        alts = []

        def grow():
            while todo:
                a = todo.pop()
                if a in atoms or a not in self.defs:
                    continue
                atoms.add(a)
                i, e, cs, al = self.defs[a]
                ineqs.extend(i)
                eqs.extend(e)
                conds.extend(cs)
                if al:
                    alts.append((a, al))
                for q in i + e:
                    todo.extend(x for x in q if x != 1)
                for cnd in cs:
                    for q in cnd[0] + cnd[1] + (cnd[2] if len(cnd) > 2 else []):
                        todo.extend(x for x in q if x != 1)
        grow()
        changed = True
        pend = list(conds)
        rounds = 0
        while changed and rounds < 6:
            changed = False
            rounds += 1
            rest = []
            for cnd in pend:
                if all(self._implied(q, ineqs, eqs) for q in cnd[0]):
                    eqs.extend(cnd[1])
                    if len(cnd) > 2:
                        ineqs.extend(cnd[2])
                    changed = True
                else:
                    rest.append(cnd)
            pend = rest
            nrest = []
            for d in nes:
                if self._implied(d, ineqs, eqs):
                    ineqs.append(add(d, const(-1)))
                    changed = True
                elif self._implied({x: -c for x, c in d.items()}, ineqs, eqs):
                    ineqs.append(add({x: -c for x, c in d.items()}, const(-1)))
                    changed = True
                else:
                    nrest.append(d)
            nes = nrest
        return ineqs, eqs, alts

    def relevant(self, goal, ineqs, eqs):
        at = {x for x in goal if x != 1}
        I, E = list(ineqs), list(eqs)
        oi, oe = [], []
        grow = True
        while grow:
            grow = False
            for L, O in ((I, oi), (E, oe)):
                keep = []
                for e in L:
                    v = {x for x in e if x != 1}
                    if v & at or not v:
                        O.append(e)
                        if not v <= at:
                            at |= v
                            grow = True
                    else:
                        keep.append(e)
                L[:] = keep
        return oi, oe

    def _implied(self, goal, ineqs, eqs):
        if not any(x != 1 for x in goal):
            return goal.get(1, 0) >= 0
        i, e = self.relevant(goal, ineqs, eqs)
        n = add(const(-1), goal, -1)
        return infeasible(i + [n], e)

    def context(self, block, k=None, edge=None):
        """facts holding in block (before instruction position k), or on the edge (p, s)"""
        fs = self.F.on_edge(*edge) if edge else self.F.at(block)
        I, E, N = [], [], []
        for fc in fs:
            i, e, n = self.fact(fc)
            I += i
            E += e
            N += n
        at = edge[0] if edge else block
        for h in self.loops:
            if h in self.f.dom[at]:
                I += self.invariants(h)
        if self.extra:
            b = edge[0] if edge else block
            kk = len(self.f.blocks[b]) if edge else (k if k is not None else 0)
            i, e = self.extra(self, b, kk)
            I += i
            E += e
        return I, E, N

    def prove(self, goal, block, k=None, hyp=(), edge=None, depth=0, splits=()):
        """goal >= 0 at (block, k)"""
        if depth == 0:
            self.budget = 400
        self.budget -= 1
        if self.budget < 0 or depth > 7:
            return False
        if not any(x != 1 for x in goal):
            return goal.get(1, 0) >= 0
        I, E, N = self.context(block, k, edge)
        I += [h for h in hyp if not isinstance(h, tuple)]
        E += [h[1] for h in hyp if isinstance(h, tuple)]
        if self._conflict(I, E):
            return True
        I, E, alts = self.closure(goal, I, E, N)
        if self._implied(goal, I, E):
            return True
        rel_i, rel_e = self.relevant(goal, I, E)
        rel = {x for e in rel_i + rel_e + [goal] for x in e if x != 1}
        # order: atoms of the goal first
        cand = sorted([al for al in alts if al[0] not in splits],
                      key=lambda al: (al[1][0] == "phi" and al[1][1].bb in self.loops, al[0] not in goal, al[0] not in rel, al[1][0] == "phi", al[0]))
        for a, al in cand[:4]:
            if al[0] == "or":
                if all(self.prove(goal, block, k, tuple(hyp) + tuple(e[1] if isinstance(e, tuple) else ("eq", e) for e in br), edge, depth + 1, splits + (a,)) for br in al[1]):
                    return True
            elif al[0] == "select":
                x = al[1]
                c, t, e = x.d["ops"]
                view = self.P if a[0] == "p" else (self.S if a[0] == "s" else self.U)
                w = self.width(x.ref)
                ok = True
                for val, truth in ((t, True), (e, False)):
                    fs = []
                    self.F._expand(c, truth, fs, 0)
                    hi = list(hyp)
                    for fc in fs:
                        i, q, n = self.fact(fc)
                        hi += i + [("eq", z) for z in q]
                    vv = view(val) if a[0] == "p" else view(val, w)
                    hi.append(("eq", add(var(a), vv, -1)))
                    if not self.prove(goal, block, k, tuple(hi), edge, depth + 1, splits + (a,)):
                        ok = False
                        break
                if ok:
                    return True
            elif al[0] == "phi":
                if self._phi(goal, a, al[1], block, k, hyp, edge, depth, splits):
                    return True
        return False

    def _conflict(self, ineqs, eqs):
        """do the facts contradict each other on a single value (an infeasible way in)?"""
        val = {}
        for e in eqs:
            vs = [x for x in e if x != 1]
            if not vs:
                if e.get(1, 0):
                    return True
            elif len(vs) == 1 and abs(e[vs[0]]) == 1:
                v = -e.get(1, 0) * e[vs[0]]
                if val.setdefault(vs[0], v) != v:
                    return True
        if val:
            for e in ineqs:
                vs = [x for x in e if x != 1]
                if len(vs) == 1 and vs[0] in val and e[vs[0]] * val[vs[0]] + e.get(1, 0) < 0:
                    return True
        return False

    def _avail(self, atom, h):
        """atom's value is defined before block h (so it is the same on every visit of a loop headed by h)"""
        if atom == 1:
            return True
        r = atom[2:]
        if r[0] in "ag":
            return True
        x = self.f.inst(r)
        if x is None:
            return r[0] != "v"
        body = self.loops.get(h, set())
        return x.bb not in body and x.bb in self.f.dom[h]

    def _phi(self, goal, a, x, block, k, hyp, edge, depth, splits):
        h = x.bb
        view = self.P if a[0] == "p" else (self.S if a[0] == "s" else self.U)
        w = self.width(x.ref)

        def inc(v):
            return view(v) if a[0] == "p" else view(v, w)
        if h not in self.loops:
            # each way in: the facts of that edge hold as well
            for v, p in x.d["phi"]:
                I, E, N = self.context(None, edge=(p, h))
                hi = list(hyp) + I + [("eq", e) for e in E] + [("eq", add(var(a), inc(v), -1))]
                # sibling phis take the same edge
                for y in self.f.blocks[h]:
                    if y.op == "phi" and y is not x:
                        for pre, vw in (("u:", self.U), ("p:", self.P), ("s:", self.S)):
                            if pre + y.ref in self.defs:
                                vv = dict((q, z) for z, q in y.d["phi"]).get(p)
                                if vv is not None:
                                    hi.append(("eq", add(var(pre + y.ref), vw(vv) if pre == "p:" else vw(vv, self.width(y.ref)), -1)))
                if not self.prove(goal, block, k, tuple(hi), edge, depth + 1, splits + (a,)):
                    return False
            return True
        # loop: is the goal itself inductive?
        phis = {pre + y.ref for y in self.f.blocks[h] if y.op == "phi" for pre in ("u:", "p:", "s:")}
        key = ("inv", h, tuple(sorted(goal.items(), key=str)))
        if key not in splits and all(t == 1 or t in phis or self._avail(t, h) for t in goal):
            if self.inductive(goal, h, depth, splits + (key, a), self.invariants(h)) and (block is None or h in self.f.dom[block]):
                return True
        return False

    def invariants(self, h):
        """inductive facts about the phis of loop header h (greatest subset of the candidates that is jointly inductive)"""
        if h in self.invs:
            return self.invs[h]
        self.invs[h] = []
        cand = list(self.candidates(h))
        # facts on entry first
        save, self.budget = self.budget, 10**6
        body = self.loops[h]
        cand = [e for e in cand if all(self._step(e, h, p, (), ()) for p in self.f.preds[h] if p not in body)]
        while True:
            good = [e for e in cand if all(self._step(e, h, p, tuple(cand), ()) for p in self.f.preds[h] if p in body)]
            if len(good) == len(cand):
                break
            cand = good
        self.budget = save
        self.invs[h] = cand
        return cand

    def _step(self, inv, h, p, hyp, splits, depth=2):
        e = self._subst(inv, h, p)
        if e is None:
            return False
        self.budget = max(self.budget, 60)
        b = self.budget
        self.budget = 60
        r = self.prove(e, None, None, hyp, (p, h), depth + 1, splits)
        self.budget = b
        return r

    def candidates(self, h):
        body = self.loops[h]
        out = []
        phis = [y for y in self.f.blocks[h] if y.op == "phi" and (y.ty == "ptr" or (y.ty or "")[:1] == "i" and y.ty != "i1")]
        inbody = [y for b in body for y in self.f.blocks[b] if y.op == "icmp"]
        for x in phis:
            ptr = x.ty == "ptr"
            w = self.width(x.ref)
            for view in ((self.P,) if ptr else (self.U,) if x.ref in self.sizes else (self.U, self.S)):
                iv = (lambda r: view(r)) if ptr else (lambda r: view(r, w))
                me = view(x.ref) if ptr else view(x.ref, w)
                for v, p in x.d["phi"]:
                    if p not in body:
                        e = iv(v)
                        if all(self._avail(t, h) for t in e):
                            out += [add(me, e, -1), add(e, me, -1)]
                for y in inbody:
                    q, r = y.d["ops"]
                    if view == self.S and y.d["pred"][0] != "s":
                        continue
                    for s, t in ((q, r), (r, q)):
                        if self._isptr(s) != ptr or self._isptr(t) != ptr:
                            continue
                        A, B = iv(s), iv(t)
                        d = add(A, me, -1)
                        if all(u == 1 for u in d) and all(u == 1 or self._avail(u, h) for u in B):
                            out += [add(B, me, -1), add(me, B, -1)]
                if view == self.S:
                    out.append(me)
            for y in phis:
                if y is not x and y.i > x.i:
                    out += self._lockstep(("p:" if ptr else "u:") + x.ref, x, y)
        if self.more_candidates:
            out += list(self.more_candidates(h))
        seen = set()
        for e in out:
            kk = tuple(sorted(e.items(), key=str))
            if kk not in seen and any(t != 1 for t in e):
                seen.add(kk)
                yield e

    def _lockstep(self, a, x, y):
        body = self.loops[x.bb]

        def step(z, view):
            init = [v for v, p in z.d["phi"] if p not in body]
            nxt = [v for v, p in z.d["phi"] if p in body]
            if len(init) != 1 or len(set(nxt)) != 1:
                return None
            n = self.f.inst(nxt[0])
            if n is None:
                return None
            if n.op == "add" and n.d["ops"][0] == z.ref and n.d["ops"][1][0] == "c":
                return init[0], int(n.d["ops"][1][1:])
            if n.op == "getelementptr" and n.d["ops"][0] == z.ref and not n.d.get("var") and n.d.get("off"):
                return init[0], n.d["off"]
            return None
        sx, sy = step(x, None), step(y, None)
        if not sx or not sy or sx[1] == 0 or sy[1] == 0:
            return []
        X, X0 = var(a), (self.P(sx[0]) if a[0] == "p" else self.U(sx[0], self.width(x.ref)))
        py = y.ty == "ptr"
        Y, Y0 = (self.P(y.ref), self.P(sy[0])) if py else (self.U(y.ref), self.U(sy[0], self.width(y.ref)))
        # sy*(X-X0) == sx*(Y-Y0)
        d = add({t: c * sy[1] for t, c in add(X, X0, -1).items()}, add(Y, Y0, -1), -sx[1])
        return [d, {t: -c for t, c in d.items()}]

    def _subst(self, inv, h, p):
        phis = {y.ref: y for y in self.f.blocks[h] if y.op == "phi"}
        e = {1: inv.get(1, 0)}
        for t, c in inv.items():
            if t == 1:
                continue
            r = t[2:]
            if r in phis:
                vs = [v for v, q in phis[r].d["phi"] if q == p]
                if not vs:
                    return None
                view = self.P if t[0] == "p" else (self.S if t[0] == "s" else self.U)
                e = add(e, view(vs[0]) if t[0] == "p" else view(vs[0], self.width(r)), c)
            else:
                e = add(e, var(t), c)
        return e

    def inductive(self, inv, h, depth, splits, more=()):
        body = self.loops[h]
        for p in self.f.preds[h]:
            e = self._subst(inv, h, p)
            if e is None:
                return False
            hyp = (inv,) + tuple(more) if p in body else ()
            if not self.prove(e, None, None, hyp, (p, h), depth + 1, splits):
                return False
        return True
