"""Typestate of result/optional objects: which alternative each object is known to hold, path by path, with predicate
summaries, return summaries and caller obligations."""
import re
from flow import apath, root, subst
from effects import signature, param_kind
from front import AnalysisError

HOLDER = re.compile(r"^_ZN[KRVO]*8cpptrace(2v\d+)?6detail(8optionalI|6ResultI)")
OTHER = {"V": "E", "E": "V"}
LIMIT = 60000


def qual(dem):
    """(class, method, parameter text) of a member function from its demangled name"""
    s = re.sub(r"\[abi:[^\]]*\]", "", dem)
    # parameter list: last balanced (...) at angle depth 0
    depth, end = 0, None
    k = len(s) - 1
    while k >= 0:
        if s[k] == ")":
            if depth == 0 and end is None:
                end = k
            depth += 1
        elif s[k] == "(":
            depth -= 1
            if depth == 0:
                break
        k -= 1
    if end is None or k < 0:
        return None
    params = s[k + 1:end]
    head = s[:k]
    if head.endswith("operator bool"):
        return head[:-len("::operator bool")].split(" ")[-1] if "<" not in head else _cls(head[:-len("::operator bool")]), "operator bool", params
    # drop template arguments of the method
    h = head
    if h.endswith(">") and not h.endswith("operator>"):
        d, j = 0, len(h) - 1
        while j >= 0:
            if h[j] == ">":
                d += 1
            elif h[j] == "<":
                d -= 1
                if d == 0:
                    break
            j -= 1
        h = h[:j]
    i = _last_scope(h)
    if i is None:
        return None
    return _cls(h[:i]), h[i + 2:], params


def _last_scope(h):
    d = 0
    for j in range(len(h) - 1, 0, -1):
        if h[j] in ">)":
            d += 1
        elif h[j] in "<(":
            d -= 1
        elif h[j] == ":" and h[j - 1] == ":" and d == 0:
            return j - 1
    return None


def _cls(s):
    d = 0
    for j in range(len(s) - 1, -1, -1):
        if s[j] in ">)":
            d += 1
        elif s[j] in "<(":
            d -= 1
        elif s[j] == " " and d == 0:
            return s[j + 1:]
    return s


def inner_alloca(p):
    r = root(p)
    return r


class Holders:
    def __init__(self, m):
        self.m = m
        self.meth = {}       # mangled -> (class, method, params) of holder members
        for n, f in m.fns.items():
            if HOLDER.match(n):
                q = qual(f.dem)
                if q:
                    self.meth[n] = q
        self.flag = {}       # class -> (offset, value when it holds the value)
        for n, (cls, me, _) in self.meth.items():
            if me in ("has_value", "operator bool", "is_error") and not m.fns[n].decl:
                r = self._flag(m.fns[n], me)
                if r:
                    self.flag[cls] = r
            elif me == "destroy" and not m.fns[n].decl:
                r = self._flag(m.fns[n], me)
                if r:
                    self.flag.setdefault(cls, r)
        # classes whose discriminator is never read: the constant store of a constructor, coded as in their siblings
        for n, (cls, me, _) in self.meth.items():
            kind = me if me in ("optional", "Result") else None
            if kind is None or cls in self.flag or m.fns[n].decl:
                continue
            vals = {v for c2, (_, v) in self.flag.items() if ("::%s<" % kind) in c2.split("<")[0] + "<"}
            offs = set()
            for x in m.fns[n].insts:
                if x.op == "store" and x.d["ops"][0] in ("c0", "c1"):
                    p = apath(m.fns[n], x.d["ops"][1])
                    if p[0] == "gep" and p[1] == ("arg", 0) and not p[3] and p[2]:
                        offs.add(p[2])
            if len(vals) == 1 and len(offs) == 1:
                self.flag[cls] = (offs.pop(), vals.pop())
        self.pre = {}        # fn -> {(key, need): (inst, what)}
        self.runs = {}
        self.sums = {}
        self.active = set()
        self.obligations = {}    # (where, method) -> None, every unwrap decided
        self.unmet = {}
        self.states = 0
        self._callers = None

    def _flag(self, f, me):
        ld = [x for x in f.insts if x.op == "load"]
        if len(ld) != 1:
            return None
        p = apath(f, ld[0].d["ops"][0])
        off = 0 if p == ("arg", 0) else p[2] if p[0] == "gep" and p[1] == ("arg", 0) and not p[3] else None
        if off is None:
            return None
        ic = [x for x in f.insts if x.op == "icmp"]
        if ic:
            k = [o for o in ic[0].d["ops"] if o[0] == "c"]
            if not k:
                return None
            v = int(k[0][1:])
            if ic[0].d["pred"] == "ne":
                v = 1 - v
        else:
            v = 1
        if me == "is_error":
            v = 1 - v
        return off, v

    # ---- interesting functions
    def callers(self):
        if self._callers is None:
            self._callers = {}
            for f in self.m.defined():
                for x in f.calls():
                    if x.callee_name:
                        self._callers.setdefault(x.callee_name, []).append(x)
        return self._callers

    def need(self, n):
        q = self.meth.get(n)
        if q and q[1] in ("unwrap", "unwrap_value"):
            return "V"
        if q and q[1] == "unwrap_error":
            return "E"
        return None

    def solve(self):
        work = {x.fn.name for n in self.meth if self.need(n) for x in self.callers().get(n, ())}
        done = {}
        todo = sorted(work)
        while todo:
            n = todo.pop(0)
            f = self.m.fns[n]
            if self.need(n):
                continue
            r = Run(self, f)
            new = {k: v for k, v in r.pre.items()}
            if set(new) != set(self.pre.get(n, {})):
                self.pre[n] = new
                for x in self.callers().get(n, ()):
                    if x.fn.name not in todo:
                        todo.append(x.fn.name)
            done[n] = r
            self.states += r.nstates
        self.done = done
        taken = self.m.addr_taken
        for n, r in done.items():
            self.obligations.update({(k, n): v for k, v in r.obl.items()})
            self.unmet.update({(k, n): (r.f, v) for k, v in r.bad.items()})
            for key, (x, what) in r.pre.items():
                if not self.callers().get(n) or n in taken:
                    self.unmet[((x.i, what), n)] = (r.f, (x, what, "no caller can establish it"))

    # ---- summaries
    def exit_states(self, n, k):
        key = ("x", n, k)
        if key in self.sums:
            return self.sums[key]
        f = self.m.fns.get(n)
        if f is None or f.decl or key in self.active or len(f.insts) > 4000:
            return {None}
        self.active.add(key)
        try:
            r = Run(self, f, quiet=True)
            out = {dict(s).get(("arg", k)) for s, _ in r.exits} or {None}
        except TooBig:
            out = {None}
        self.active.discard(key)
        self.sums[key] = out
        return out

    def returns(self, n, k, st):
        key = ("r", n, k, st)
        if key in self.sums:
            return self.sums[key]
        f = self.m.fns.get(n)
        if f is None or f.decl or key in self.active or len(f.insts) > 400:
            return {True, False}
        self.active.add(key)
        try:
            r = Run(self, f, init={("arg", k): st}, quiet=True)
            out = set()
            for s, v in r.exits:
                out |= {v} if v in (True, False) else {True, False}
        except TooBig:
            out = {True, False}
        self.active.discard(key)
        self.sums[key] = out
        return out


class TooBig(Exception):
    pass


class Run:
    def __init__(self, H, f, init=None, quiet=False):
        self.H, self.f, self.m = H, f, H.m
        self.obl, self.bad, self.pre, self.exits = {}, {}, {}, set()
        self.keys = {}
        self._live()
        self._pures()
        self.holders_of = {}
        for x in f.insts:
            if x.op == "store" and x.d["ops"][0][0] == "v":
                v = root(apath(f, x.d["ops"][0])) if x.d.get("vty") == "ptr" else None
                if v and v[0] == "v":
                    self.holders_of.setdefault(v, set()).add(root(apath(f, x.d["ops"][1])))
        st0 = (frozenset((init or {}).items()), frozenset(), frozenset())
        seen, todo = set(), [(0, None, st0)]
        while todo:
            b, pred, s = todo.pop()
            # phis are resolved on entry
            holders, env, pure = dict(s[0]), dict(s[1]), dict(s[2])
            if pred is not None:
                new = {}
                for x in f.blocks[b]:
                    if x.op != "phi":
                        break
                    v = next((v for v, p in x.d["phi"] if p == pred), None)
                    if x.ty == "i1":
                        new[x.ref] = self.value(v, env, holders, pure) if v is not None else None
                    elif x.ref in self.ints:
                        new[x.ref] = self.intval(v, env)
                for r, v in new.items():
                    if v is None:
                        env.pop(r, None)
                    else:
                        env[r] = v
            env = {r: v for r, v in env.items() if r in self.livein[b] or self.f.inst(r).bb == b}
            key = (b, frozenset(holders.items()), frozenset(env.items()), frozenset(pure.items()))
            if key in seen:
                continue
            seen.add(key)
            if len(seen) > LIMIT:
                if quiet:
                    raise TooBig()
                raise AnalysisError("too many states in " + f.dem)
            for nxt in self.block(b, holders, env, pure):
                todo.append(nxt)
        self.nstates = len(seen)

    # ---- precomputation
    def _live(self):
        f = self.f
        n = len(f.blocks)
        use, de = [set() for _ in range(n)], [set() for _ in range(n)]
        phiuse = [set() for _ in range(n)]
        self.ints = set()      # small integer selectors: phis and selects of constants
        for _ in range(3):
            for x in f.insts:
                if x.op == "phi" and x.ty in ("i32", "i8") and any(v[0] == "c" or v in self.ints for v, _ in x.d["phi"]) or \
                   x.op == "select" and x.ty in ("i32", "i8") and all(o[0] == "c" or o in self.ints for o in x.d["ops"][1:]):
                    self.ints.add(x.ref)
        i1 = {x.ref for x in f.insts if x.ty == "i1"} | self.ints
        for b, bl in enumerate(f.blocks):
            for x in bl:
                if x.op == "phi":
                    for v, p in x.d["phi"]:
                        if v in i1:
                            phiuse[p].add(v)
                else:
                    for o in x.d.get("ops", []):
                        if o in i1 and o not in de[b]:
                            use[b].add(o)
                if x.ref in i1:
                    de[b].add(x.ref)
        self.livein = [set(u) for u in use]
        ch = True
        while ch:
            ch = False
            for b in range(n - 1, -1, -1):
                out = set(phiuse[b])
                for s in f.succs(b):
                    out |= self.livein[s]
                new = use[b] | (out - de[b])
                if new != self.livein[b]:
                    self.livein[b] = new
                    ch = True

    def _pures(self):
        cnt = {}
        self.pk = {}
        for x in self.f.insts:
            if x.ty != "i1":
                continue
            k = None
            if x.op in ("call", "invoke") and x.callee_name in self.m.fns:
                fn = self.m.fns[x.callee_name]
                if x.callee_name not in self.H.meth and signature(fn.dem)[1] and x.callee_name.startswith("_ZNK"):
                    k = ("call", x.callee_name, tuple(self.key(o) for o in x.d["ops"]))
            elif x.op == "icmp":
                a = self.key(x.d["ops"][0])
                if "ld" in str(a)[:4]:
                    k = ("icmp", x.d["pred"], a, self.key(x.d["ops"][1]))
            elif x.op == "trunc":
                k = ("t", self.key(x.d["ops"][0]))
            if k is not None:
                self.pk[x.ref] = k
                cnt[k] = cnt.get(k, 0) + 1
        self.pk = {r: k for r, k in self.pk.items() if cnt[k] > 1}

    def key(self, ref):
        if ref in self.keys:
            return self.keys[ref]
        p = self._norm(apath(self.f, ref), 0)
        self.keys[ref] = p
        return p

    def _norm(self, p, d):
        if not isinstance(p, tuple) or not p or d > 12:
            return p
        if p[0] == "v" and isinstance(p[1], int):
            x = self.f.byid.get(p[1])
            if x is not None and x.op in ("call", "invoke") and x.callee_name in self.m.fns:
                need = self.H.need(x.callee_name)
                o = x.d["ops"]
                if need == "V" and not x.d.get("sret") and x.ty == "ptr":
                    return ("in", self.key(o[0]))
                q = self.m.fns[x.callee_name].dem
                if x.ty == "ptr" and len(o) == 1 and re.search(r"::(operator->|operator\*|get|data)\(\) const( &)?$", q):
                    return ("via", q.split("(")[0][-40:], self.key(o[0]))
            return p
        if p[0] == "ld" and isinstance(p[1], tuple):
            q = self._norm(p[1], d + 1)
            # a reference held in a local
            r = root(q)
            if r[0] == "v" and q != r or r[0] == "v" and self.f.byid.get(r[1]) is not None and self.f.byid[r[1]].op == "alloca":
                st = [x for x in self.f.insts if x.op == "store" and self._norm(apath(self.f, x.d["ops"][1]), d + 1) == q]
                if len(st) == 1 and st[0].d.get("vty") == "ptr":
                    return self._norm(apath(self.f, st[0].d["ops"][0]), d + 1)
            return ("ld", q)
        return tuple(self._norm(x, d + 1) if isinstance(x, tuple) else x for x in p)

    # ---- values
    def value(self, ref, env, holders, pure):
        """True / False / ('p', key, state when true) / None"""
        if ref[0] == "c":
            return ref != "c0"
        v = env.get(ref)
        x = self.f.inst(ref)
        if x is not None and x.op == "icmp" and x.d["ops"][0] in self.ints and x.d["ops"][1][0] == "c" and x.d["pred"] in ("eq", "ne"):
            w = self.intval(x.d["ops"][0], env)
            if w is not None:
                return (w[1] == int(x.d["ops"][1][1:])) == (x.d["pred"] == "eq")
        if isinstance(v, tuple) and v[0] == "p":
            s = holders.get(v[1])
            if s is not None:
                return s == v[2]
        if v is not None:
            return v
        x = self.f.inst(ref)
        if x is None:
            return None
        if x.op == "xor":
            o = [q for q in x.d["ops"] if q not in ("c1", "c-1")]
            if len(o) == 1:
                v = self.value(o[0], env, holders, pure)
                if v in (True, False) and v is not None:
                    return not v
                if isinstance(v, tuple) and v[0] == "p":
                    return ("p", v[1], OTHER[v[2]])
                if isinstance(v, tuple) and v[0] == "r":
                    return ("r", v[1], v[3], v[2])
                return None
        if x.op == "freeze":
            return self.value(x.d["ops"][0], env, holders, pure)
        if x.op == "select":
            c = self.value(x.d["ops"][0], env, holders, pure)
            if c in (True, False) and c is not None:
                return self.value(x.d["ops"][1 if c else 2], env, holders, pure)
            a, b = x.d["ops"][1:]
            return None
        if x.op == "trunc" or x.op == "icmp" and x.d["pred"] in ("ne", "eq") and x.d["ops"][1] == "c0":
            j = self.f.inst(x.d["ops"][0])
            if j is not None and j.op == "zext":
                v = self.value(j.d["ops"][0], env, holders, pure)
                if x.op == "icmp" and x.d["pred"] == "eq" and v is not None:
                    return (not v) if v in (True, False) else ("p", v[1], OTHER[v[2]]) if v[0] == "p" else None
                return v
        k = self.pk.get(ref)
        if k is not None and k in pure:
            return pure[k]
        return None

    def intval(self, ref, env):
        if ref is None:
            return None
        if ref[0] == "c":
            return ("i", int(ref[1:]))
        v = env.get(ref)
        return v if isinstance(v, tuple) and v[0] == "i" else None

    def kill(self, holders, pure, env, pred):
        dead = [k for k in holders if pred(k)]
        for k in dead:
            del holders[k]
        for r in [r for r, v in env.items() if isinstance(v, tuple) and v[0] in "pr" and pred(v[1])]:
            del env[r]
        for k in [k for k in pure if any(pred(p) for p in (k[2] if k[0] == "call" else k[1:]) if isinstance(p, tuple))]:
            del pure[k]

    @staticmethod
    def inside(k, q):
        """may the object named k be (part of) what is written through q, or be reached through it?"""
        if k == q:
            return True
        x = k
        while isinstance(x, tuple) and x[0] in ("gep", "ld", "in", "via"):
            y = x[2] if x[0] == "via" else x[1]
            if y == q:
                return True
            if y[0] == "gep" and q[0] == "gep" and y[1] == q[1] and not y[3] and not q[3] and y[2] >= q[2]:
                return True
            x = y
        if k[0] == "gep" and q[0] == "gep" and k[1] == q[1] and (k[3] or q[3] or k[2] >= q[2]):
            return True
        return False

    def setst(self, holders, env, pure, k, s):
        self.kill(holders, pure, env, lambda z: z == k or self.inside(z, k))
        if s is not None:
            holders[k] = s

    # ---- transfer
    def block(self, b, holders, env, pure):
        f, H = self.f, self.H
        bl = f.blocks[b]
        for x in bl:
            if x.op == "store":
                q = self.key(x.d["ops"][1])
                self.flagstore(x, q, holders, env, pure)
            elif x.op in ("call", "invoke"):
                self.call(x, holders, env, pure)
            elif x.ty == "i1" and x.op in ("xor", "freeze", "select", "trunc", "icmp"):
                v = self.value(x.ref, {k: w for k, w in env.items() if k != x.ref}, holders, pure)
                if v is not None:
                    env[x.ref] = v
                else:
                    env.pop(x.ref, None)
        return self.selects(b, [x for x in bl if x.op == "select" and x.ref in self.ints], holders, env, pure)

    def selects(self, b, todo, holders, env, pure):
        """integer selectors: decide their conditions here, on two copies of the state"""
        if not todo:
            return self.finish(b, holders, env, pure)
        x = todo[0]
        ref = x.d["ops"][0]
        c = self.value(ref, env, holders, pure)
        out = []
        for truth in (True, False):
            if c in (True, False) and c is not None and c != truth:
                continue
            h2, e2, p2 = dict(holders), dict(env), dict(pure)
            if isinstance(c, tuple) and not self.assume(c, truth, h2):
                continue
            self.learn(ref, truth, h2, e2, p2, 0)
            if ref[0] == "v":
                e2[ref] = truth
            w = self.intval(x.d["ops"][1 if truth else 2], e2)
            e2.pop(x.ref, None)
            if w is not None:
                e2[x.ref] = w
            out += self.selects(b, todo[1:], h2, e2, p2)
        return out

    def finish(self, b, holders, env, pure):
        f = self.f
        t = f.blocks[b][-1]
        if t.op == "ret":
            v = None
            if t.d["ops"] and f.inst(t.d["ops"][0]) is not None and f.inst(t.d["ops"][0]).ty == "i1" or t.d["ops"] and t.d["ops"][0] in ("c0", "c1", "c-1"):
                v = self.value(t.d["ops"][0], env, holders, pure)
            if isinstance(v, tuple):
                v = None
            self.exits.add((frozenset((k, s) for k, s in holders.items() if root(k)[0] == "arg"), v))
            return []
        out = []
        su = t.d.get("succ", [])
        if t.op == "br" and len(su) == 2:
            ref = t.d["ops"][0]
            v = self.value(ref, env, holders, pure)
            for k, s in enumerate(su):
                truth = k == 0
                h2, e2, p2 = dict(holders), dict(env), dict(pure)
                if v in (True, False) and v is not None:
                    if v != truth:
                        continue
                elif isinstance(v, tuple):
                    if not self.assume(v, truth, h2):
                        continue
                self.learn(ref, truth, h2, e2, p2, 0)
                out.append((s, b, (frozenset(h2.items()), frozenset(e2.items()), frozenset(p2.items()))))
        elif t.op == "switch" and self.intval(t.d["ops"][0], env) is not None:
            k = self.intval(t.d["ops"][0], env)[1]
            s = next((q for v, q in t.d["cases"] if int(v) == k), t.d["default"])
            out.append((s, b, (frozenset(holders.items()), frozenset(env.items()), frozenset(pure.items()))))
        else:
            for s in set(su):
                if t.op == "invoke" and s == t.d["normal"] and s != t.d["unwind"] and t.d.get("noreturn"):
                    continue
                out.append((s, b, (frozenset(holders.items()), frozenset(env.items()), frozenset(pure.items()))))
        return out

    def assume(self, v, truth, holders):
        """narrow holders by a condition; False: impossible"""
        if v[0] == "p":
            want = v[2] if truth else OTHER[v[2]]
            if holders.get(v[1], want) != want:
                return False
            holders[v[1]] = want
            return True
        if v[0] == "r":
            ok = [s for s, rs in (("V", v[2]), ("E", v[3])) if truth in rs]
            cur = holders.get(v[1])
            if cur:
                return cur in ok
            if len(ok) == 1:
                holders[v[1]] = ok[0]
            return bool(ok)
        return True

    def learn(self, ref, truth, holders, env, pure, d):
        if d > 8 or ref[0] != "v":
            return
        x = self.f.inst(ref)
        v = env.get(ref)
        if not isinstance(v, tuple):
            env[ref] = truth
        k = self.pk.get(ref)
        if k is not None:
            pure[k] = truth
        if x is None:
            return
        if x.op == "xor":
            for o in x.d["ops"]:
                if o not in ("c1", "c-1"):
                    self.learn2(o, not truth, holders, env, pure, d)
        elif x.op == "select":
            c, a, bb = x.d["ops"]
            if truth and bb == "c0":
                self.learn2(c, True, holders, env, pure, d); self.learn2(a, True, holders, env, pure, d)
            elif not truth and a in ("c1", "c-1"):
                self.learn2(c, False, holders, env, pure, d); self.learn2(bb, False, holders, env, pure, d)
        elif x.op in ("and", "or") and (x.op == "and") == truth:
            for o in x.d["ops"]:
                self.learn2(o, truth, holders, env, pure, d)
        elif x.op in ("freeze",):
            self.learn2(x.d["ops"][0], truth, holders, env, pure, d)
        elif x.op in ("trunc", "icmp"):
            j = self.f.inst(x.d["ops"][0])
            if j is not None and j.op == "zext" and (x.op == "trunc" or x.d["ops"][1] == "c0"):
                t = truth if x.op == "trunc" or x.d["pred"] == "ne" else not truth
                self.learn2(j.d["ops"][0], t, holders, env, pure, d)

    def learn2(self, ref, truth, holders, env, pure, d):
        v = self.value(ref, env, holders, pure)
        if isinstance(v, tuple):
            self.assume(v, truth, holders)
        self.learn(ref, truth, holders, env, pure, d + 1)

    def flagstore(self, x, q, holders, env, pure):
        H = self.H
        if self.f.name in H.meth and q is not None:
            cls = H.meth[self.f.name][0]
            fl = H.flag.get(cls)
            if fl and (q == ("gep", ("arg", 0), fl[0], ()) or fl[0] == 0 and q == ("arg", 0)):
                v = x.d["ops"][0]
                if v[0] == "c":
                    self.setst(holders, env, pure, ("arg", 0), "V" if int(v[1:]) & 1 == fl[1] & 1 else "E")
                else:
                    self.setst(holders, env, pure, ("arg", 0), None)
                return
        if any(True for k in pure) or holders:
            self.kill(holders, pure, env, lambda z: z[0] != "arg" and self._ldfrom(z, q))

    @staticmethod
    def _ldfrom(z, q):
        """is z named through a load of the location q?"""
        while isinstance(z, tuple) and z[0] in ("gep", "ld", "in", "via", "zext", "sext", "trunc"):
            if z[0] == "ld" and (z[1] == q or z[1][0] == "gep" and q[0] == "gep" and z[1][1] == q[1] and (z[1][3] or q[3])):
                return True
            z = z[2] if z[0] == "via" else z[1]
        return False

    def call(self, x, holders, env, pure):
        H, m = self.H, self.m
        n = x.callee_name
        if n and n.startswith("llvm."):
            if n.startswith("llvm.lifetime"):
                q = self.key(x.d["ops"][1])
                self.kill(holders, pure, env, lambda z: z == q or self.inside(z, q))
            elif n.startswith("llvm.mem"):
                q = self.key(x.d["ops"][0])
                self.kill(holders, pure, env, lambda z: z == q or self.inside(z, q))
            return
        o = x.d["ops"]
        q = H.meth.get(n)
        need = H.need(n)
        if need:
            recv = o[1] if x.d.get("sret") else o[0]
            k = self.key(recv)
            s = holders.get(k)
            self.decide(x, k, s, need, q[1])
            # afterwards the object is known to have been what was asked for (otherwise already reported)
            if s is None:
                holders[k] = need
            if x.d.get("sret"):
                self.setst(holders, env, pure, self.key(o[0]), None)
            return
        if n in H.pre:
            for (key, nd), (ox, what) in H.pre[n].items():
                args = [self.key(a) for a in o]
                k = self._norm(subst(key, args), 0)
                s = holders.get(k)
                self.decide(x, k, s, nd, "%s called by %s" % (what, m.fns[n].short[:60]))
        if q:
            cls, me, ps = q
            k = self.key(o[0])
            if me in ("has_value", "operator bool", "is_error"):
                t = "E" if me == "is_error" else "V"
                if x.ty == "i1":
                    s = holders.get(k)
                    env[x.ref] = (s == t) if s else ("p", k, t)
                return
            last = cls.split("::")[-1] if False else None
            ctor = re.match(r"(optional|Result)$", me)
            same = self.same_class(ps, cls)
            if ctor or me == "operator=":
                if same:
                    self.setst(holders, env, pure, k, holders.get(self.key(o[1])))
                elif me == "operator=" and "nullopt" not in ps:
                    self.setst(holders, env, pure, k, "V")
                else:
                    ss = H.exit_states(n, 0)
                    self.setst(holders, env, pure, k, next(iter(ss)) if len(ss) == 1 else None)
                return
            if me.startswith("~"):
                self.setst(holders, env, pure, k, None)
                return
            if me == "reset":
                ss = H.exit_states(n, 0)
                self.setst(holders, env, pure, k, next(iter(ss)) if len(ss) == 1 else None)
                return
            if me == "swap":
                a, b2 = holders.get(k), holders.get(self.key(o[1]))
                self.setst(holders, env, pure, k, b2)
                self.setst(holders, env, pure, self.key(o[1]), a)
                return
        # any other call
        fns = [m.fns[t] for t in m.targets(x)[0] if t in m.fns]
        sret = bool(x.d.get("sret"))
        if x.ty == "i1":
            env.pop(x.ref, None)
            if len(fns) == 1 and not fns[0].decl and fns[0].name not in H.meth:
                for i, a in enumerate(o):
                    if a[0] not in "va" or not re.search(r"detail::(optional|Result)<", fns[0].dem):
                        continue
                    k = self.key(a)
                    rv, re_ = H.returns(fns[0].name, i, "V"), H.returns(fns[0].name, i, "E")
                    if rv != re_ or len(rv) == 1:
                        s = holders.get(k)
                        r = rv if s == "V" else re_ if s == "E" else None
                        if r is not None and len(r) == 1:
                            env[x.ref] = next(iter(r))
                        elif s is None:
                            env[x.ref] = ("r", k, frozenset(rv), frozenset(re_))
                        break
            pkk = self.pk.get(x.ref)
            if pkk is not None and pkk in pure and x.ref not in env:
                env[x.ref] = pure[pkk]
        touched = []
        for i, a in enumerate(o):
            if a[0] not in "vag":
                continue
            k = self.key(a)
            kinds = {param_kind(fn, len(o), i, sret) for fn in fns} or {None}
            mut = kinds - {"const"}
            if sret and i == 0:
                mut = {"mut"}
            touched.append((k, bool(mut)))
        rts = {root(k) for k, _ in touched}
        for k, mut in touched:
            if mut:
                self.kill(holders, pure, env, lambda z, k=k: z == k or self.inside(z, k))
        esc = {v for v, hs in self.holders_of.items() if hs & rts}
        if esc:
            self.kill(holders, pure, env, lambda z: root(z) in esc)
        if sret and len(fns) == 1:
            ss = H.exit_states(fns[0].name, 0)
            if len(ss) == 1 and next(iter(ss)):
                holders[self.key(o[0])] = next(iter(ss))

    @staticmethod
    def same_class(ps, cls):
        p = re.sub(r"\s*(const)?\s*&{1,2}$", "", ps.strip())
        return p == cls

    def decide(self, x, k, s, need, what):
        idk = (x.i, what)
        self.obl[idk] = x
        if s == need:
            return
        if s is None and root(k)[0] == "arg" and self.f.name not in self.H.meth:
            self.pre.setdefault((k, need), (x, what))
            return
        self.bad.setdefault(idk, (x, what, "it holds the other alternative" if s else "it has not been tested on every path"))
