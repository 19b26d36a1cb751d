"""Model of standard containers whose methods are kept as calls in a slice: sizes, appends, element accesses."""
import re
from collections import defaultdict
from flow import apath, root

VEC = re.compile(r"^std::(?:__cxx11::)?(vector|basic_string|deque)<.*>::(~?\w+(?:\[\]|\+?=)?)\(([^()]*(?:\([^()]*\))*[^()]*)\)( const)?$")
# STOP / KEEP for slices that leave container methods as calls but inline the small std helpers
STOP = r"~^_ZN?K?(St|9__gnu_cxx)"
KEEP = r"^_ZNSt14numeric_limitsI|^_ZSt(3min|3max|4move|7forward|4swap|11__addressof|9addressof|8__addressof)I"


def method(f, x):
    """(container kind, method, args string) of a call on a standard container, or None"""
    g = f.mod.fns.get(x.callee_name or "")
    if g is None:
        return None
    m = VEC.match(g.dem)
    if not m:
        # template member:  void std::vector<..>::emplace_back<..>(..)
        m = re.match(r"^(?:[\w:<>&*, ]+ )?std::(?:__cxx11::)?(vector|basic_string|deque)<.*>::(\w+)<.*>\((.*)\)( const)?$", g.dem)
        if not m:
            return None
    return m.group(1), m.group(2), m.group(3), bool(m.group(4))


READS = {"size", "length", "empty", "capacity", "data", "c_str", "begin", "end", "cbegin", "cend", "rbegin", "rend", "operator[]", "at", "front", "back", "get_allocator",
         "max_size", "find", "rfind", "find_first_of", "find_last_of", "find_first_not_of", "find_last_not_of", "compare", "substr", "reserve", "shrink_to_fit", "copy"}
APPEND = {"push_back", "emplace_back"}


def obj(f, x):
    """the container operand (after an sret result)"""
    g = f.mod.fns.get(x.callee_name or "")
    ops = x.d["ops"]
    k = 1 if g is not None and g.args and g.args[0].get("sret") else 0
    return ops[k] if k < len(ops) else None, ops[k + 1:]


class Containers:
    def __init__(self, f, lin):
        self.f, self.lin = f, lin
        self.ops = defaultdict(list)        # container path -> [(inst, method, args, const)]
        self.at = {}
        for x in f.calls():
            m = method(f, x)
            if not m:
                # any other call that receives the container may change it
                for o in x.d["ops"]:
                    if o[0] in "av":
                        self.at.setdefault(x.i, []).append(("other", o))
                continue
            o, rest = obj(f, x)
            p = self.key(o)
            self.ops[p].append((x, m[1], rest, m[2] if len(m) > 2 else "", m[3]))
        self._reach = {}

    def key(self, ref):
        return apath(self.f, ref)

    def mutators(self, p):
        out = {}
        for x, mt, rest, sig, cst in self.ops.get(p, ()):
            if cst or mt in READS or mt.startswith("~"):
                continue
            out[x.i] = (x, mt, rest, sig)
        for i, l in self.at.items():
            for k, o in l:
                if self.key(o) == p:
                    x = self.f.byid[i]
                    g = self.f.mod.fns.get(x.callee_name or "")
                    if (x.callee_name or "").startswith(("llvm.lifetime", "llvm.dbg")):
                        continue
                    out.setdefault(i, (x, "?", [], ""))
        return out

    def size_expr(self, p, x):
        """linear expression of the size after mutator x, or None"""
        c, mt, rest, sig = self.mutators(p)[x]
        L = self.lin
        if (c.callee_name or "").startswith("llvm.memset"):
            return {1: 0} if c.d["ops"][1] == "c0" else None
        if mt in ("vector", "basic_string"):
            first = sig.split(",")[0].strip()
            if first == "" or "allocator" in first and not first.startswith("std::vector") and not first.startswith("std::__cxx11"):
                return {1: 0}
            if first == "unsigned long":
                return L.U(rest[0])
            return None
        if mt == "resize":
            return L.U(rest[0])
        if mt == "clear":
            return {1: 0}
        if mt == "assign" and sig.startswith("unsigned long"):
            return L.U(rest[0])
        return None

    def reaching(self, p):
        """block -> list by instruction of may-reaching mutators (None = function entry)"""
        if p in self._reach:
            return self._reach[p]
        f, mu = self.f, self.mutators(p)
        inn = [set() for _ in f.blocks]
        inn[0] = {None}
        wl = [0]
        seen = {0}

        def flow(b, upto=None):
            s = set(inn[b])
            for x in f.blocks[b]:
                if upto is not None and x.i >= upto:
                    break
                if x.i in mu:
                    s = {x.i}
            return s
        while wl:
            b = wl.pop()
            o = flow(b)
            for k in f.succs(b):
                if not o <= inn[k] or k not in seen:
                    inn[k] |= o
                    seen.add(k)
                    wl.append(k)
        self._reach[p] = flow
        return flow

    def size_now(self, p, x):
        """expressions equal to size(p) just before instruction x"""
        f = self.f
        out = []
        r = self.reaching(p)(x.bb, x.i)
        mu = self.mutators(p)
        if len(r) == 1 and None not in r:
            d = mu[next(iter(r))][0]
            e = self.size_expr(p, d.i)
            if e is not None and f.dominates(d, x) and not self._between(d, x, mu):
                out.append(e)
        for y, mt, rest, sig, cst in self.ops.get(p, ()):
            if mt in ("size", "length") and f.dominates(y, x) and y is not x and not self._between(y, x, mu):
                out.append(self.lin.U(y.ref))
        return out

    def _between(self, a, b, mu):
        """is there a mutator on a path a -> b that does not pass a again?"""
        f = self.f
        if a.bb == b.bb and a.i < b.i:
            return any(a.i < i < b.i for i in mu)
        if any(f.byid[i].bb == a.bb and i > a.i for i in mu) or any(f.byid[i].bb == b.bb and i < b.i for i in mu):
            return True
        # blocks on a path from a to b avoiding a
        fw, st = set(), [k for k in f.succs(a.bb)]
        while st:
            k = st.pop()
            if k in fw or k == a.bb or k == b.bb:
                continue
            fw.add(k)
            st += f.succs(k)
        bw, st = set(), [k for k in f.preds[b.bb]]
        while st:
            k = st.pop()
            if k in bw or k == a.bb:
                continue
            bw.add(k)
            st += f.preds[k]
        mid = fw & bw
        return any(f.byid[i].bb in mid for i in mu)

    def facts(self, x):
        """(ineqs, eqs) linking size() results to constructions, valid at x"""
        eqs = []
        for p in list(self.ops):
            for y, mt, rest, sig, cst in self.ops[p]:
                if mt in ("size", "length"):
                    u = self.lin.U(y.ref)
                    for e in self.size_now(p, y):
                        d = dict(u)
                        for t, c in e.items():
                            d[t] = d.get(t, 0) - c
                        eqs.append(d)
        return [], eqs


def stable_loads(f, ptr_arg=None):
    """load id -> representative load ref for loads of the same location of an object that only this function touches in
    between: the object's pointer is never passed to a call and the location is never stored to"""
    passed = set()
    stored = set()
    for x in f.insts:
        if x.op in ("call", "invoke"):
            for o in x.d["ops"]:
                if o[0] in "av":
                    p = apath(f, o)
                    q = p[1] if p[0] == "gep" else p
                    passed.add(q)
        elif x.op == "store":
            stored.add(apath(f, x.d["ops"][1]))
    rep, out = {}, {}
    for x in f.insts:
        if x.op != "load" or x.d.get("vol") or x.d.get("atomic"):
            continue
        p = apath(f, x.d["ops"][0])
        q = p[1] if p[0] == "gep" else p
        if q[0] != "arg" or q in passed or p in stored or (p[0] == "gep" and p[3]):
            continue
        r = rep.setdefault(p, x)
        if r is not x and f.dominates(r, x):
            out[x.i] = r.ref
    return out
