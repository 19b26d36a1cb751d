"""Intraprocedural dataflow helpers: branch facts that dominate a block, access paths of pointers, value provenance."""
from collections import defaultdict


def neg(p):
    return {"eq": "ne", "ne": "eq", "ult": "uge", "uge": "ult", "ule": "ugt", "ugt": "ule",
            "slt": "sge", "sge": "slt", "sle": "sgt", "sgt": "sle"}.get(p)


def swap(p):
    return {"eq": "eq", "ne": "ne", "ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule",
            "slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle"}.get(p)


class Facts:
    """facts(b): list of (kind, ...) that hold on entry to block b.
    Kinds: ('cmp', pred, a, b) from integer/pointer compares, ('val', ref, bool) for opaque i1 conditions,
    ('sw', ref, value) / ('nsw', ref, value) from switches."""

    def __init__(self, f):
        self.f = f
        self._memo = {}
        # edges: (pred block, succ index) -> facts; attach to dominated blocks
        self.edge = defaultdict(list)      # block b -> list of (p, facts) such that edge p->b dominates b
        f.preds
        for p in range(len(f.blocks)):
            t = f.blocks[p][-1]
            su = t.d.get("succ", [])
            if t.op == "br" and len(su) == 2 and su[0] != su[1]:
                for k, s in enumerate(su):
                    if self._edge_dom(p, s):
                        self.edge[s].append((p, ("cond", t.d["ops"][0], k == 0)))
            elif t.op == "switch":
                by = defaultdict(list)
                for v, s in t.d["cases"]:
                    by[s].append(v)
                for s in set(su):
                    if not self._edge_dom(p, s):
                        continue
                    if s != t.d["default"] and len(by[s]) == 1:
                        self.edge[s].append((p, ("sw", t.d["ops"][0], by[s][0])))
                    elif s == t.d["default"] and not by[s]:
                        for v, _ in t.d["cases"]:
                            self.edge[s].append((p, ("nsw", t.d["ops"][0], v)))

    def _edge_dom(self, p, s):
        """edge p->s dominates s: every other predecessor of s is itself dominated by s (loop back edge)"""
        f = self.f
        for q in f.preds[s]:
            if q != p and s not in f.dom[q]:
                return False
        return True

    def at(self, b):
        """facts on entry to block b"""
        if b in self._memo:
            return self._memo[b]
        out = []
        self._memo[b] = out
        for d in self.f.dom[b]:
            for p, e in self.edge.get(d, []):
                if e[0] == "cond":
                    self._expand(e[1], e[2], out, 0)
                else:
                    out.append(e)
        return out

    def on_edge(self, p, s):
        """facts on entry to s coming from p (block facts of p plus the edge condition)"""
        out = list(self.at(p))
        t = self.f.blocks[p][-1]
        su = t.d.get("succ", [])
        if t.op == "br" and len(su) == 2 and su[0] != su[1]:
            self._expand(t.d["ops"][0], su[0] == s, out, 0)
        elif t.op == "switch":
            vs = [v for v, x in t.d["cases"] if x == s]
            if s != t.d["default"] and len(vs) == 1:
                out.append(("sw", t.d["ops"][0], vs[0]))
        return out

    def _expand(self, ref, truth, out, depth):
        if depth > 12:
            return
        i = self.f.inst(ref)
        out.append(("val", ref, truth))
        if i is None:
            return
        if i.op == "icmp":
            p = i.d["pred"] if truth else neg(i.d["pred"])
            a, b = i.d["ops"]
            out.append(("cmp", p, a, b))
            # icmp of a zext'd bool against 0/1
            if b in ("c0", "c1", "c-1") and p in ("eq", "ne"):
                j = self.f.inst(a)
                if j is not None and j.op in ("zext", "sext") :
                    t = (b != "c0") == (p == "eq")
                    self._expand(j.d["ops"][0], t, out, depth + 1)
        elif i.op == "xor" and "c-1" in i.d["ops"] or i.op == "xor" and "c1" in i.d["ops"] and i.ty == "i1":
            o = [x for x in i.d["ops"] if x not in ("c-1", "c1")]
            if o:
                self._expand(o[0], not truth, out, depth + 1)
        elif i.op == "and" and i.ty == "i1" and truth or i.op == "or" and i.ty == "i1" and not truth:
            for o in i.d["ops"]:
                self._expand(o, truth, out, depth + 1)
        elif i.op == "select" and i.ty == "i1":
            c, a, b = i.d["ops"]
            if truth and b in ("c0",):
                self._expand(c, True, out, depth + 1); self._expand(a, True, out, depth + 1)
            elif not truth and a in ("c1", "c-1"):
                self._expand(c, False, out, depth + 1); self._expand(b, False, out, depth + 1)
            elif truth and a in ("c0",):
                self._expand(c, False, out, depth + 1); self._expand(b, True, out, depth + 1)
            elif not truth and b in ("c1", "c-1"):
                self._expand(c, True, out, depth + 1); self._expand(a, False, out, depth + 1)
        elif i.op == "freeze" or (i.op == "trunc" and i.ty == "i1"):
            j = self.f.inst(i.d["ops"][0])
            self._expand(i.d["ops"][0], truth, out, depth + 1)
            if j is not None and j.op == "zext":
                self._expand(j.d["ops"][0], truth, out, depth + 1)
        elif i.op == "phi" and i.ty == "i1":
            const = "c0" if truth else None
            live = []
            for v, p in i.d["phi"]:
                if v.startswith("c"):
                    if (v != "c0") == truth:
                        live.append((v, p))
                else:
                    live.append((v, p))
            if len(live) == 1:
                v, p = live[0]
                if not v.startswith("c"):
                    self._expand(v, truth, out, depth + 1)
                for fct in self.on_edge(p, i.bb) if i.bb not in self.f.dom[p] else []:
                    out.append(fct)


def apath(f, ref, depth=0):
    """canonical structural name of a pointer/integer value: equal names denote equal addresses (modulo intervening
    stores for ('ld', ...))"""
    if depth > 24:
        return ("v", ref)
    if ref[0] == "a":
        return ("arg", int(ref[1:]))
    if ref[0] == "g":
        n, _, o = ref[1:].partition("@")
        return ("gep", ("g", n), int(o), ()) if o else ("g", n)
    i = f.inst(ref)
    if i is None:
        return ("k", ref)
    if i.op == "getelementptr" and i.d.get("off") is not None:
        b = apath(f, i.d["ops"][0], depth + 1)
        var = tuple(tuple(v) for v in i.d.get("var", []))
        off = i.d["off"]
        if b[0] == "gep" and not b[3]:
            b, off = b[1], off + b[2]
        elif b[0] == "gep" and not var:
            return ("gep", b[1], b[2] + off, b[3])
        return ("gep", b, off, var) if (off or var) else b
    if i.op == "load":
        return ("ld", apath(f, i.d["ops"][0], depth + 1))
    if i.op in ("bitcast", "freeze", "launder"):
        return apath(f, i.d["ops"][0], depth + 1)
    if i.op in ("zext", "sext", "trunc", "ptrtoint", "inttoptr"):
        return (i.op, apath(f, i.d["ops"][0], depth + 1), i.ty)
    if i.op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "urem", "sdiv", "srem"):
        return (i.op, apath(f, i.d["ops"][0], depth + 1), apath(f, i.d["ops"][1], depth + 1))
    if i.op == "call" and (i.callee_name or "").startswith(("llvm.umin", "llvm.umax", "llvm.smin", "llvm.smax")):
        return (i.callee_name.split(".")[1], apath(f, i.d["ops"][0], depth + 1), apath(f, i.d["ops"][1], depth + 1))
    return ("v", i.i)


def root(p):
    """innermost base of an access path"""
    while isinstance(p, tuple) and p[0] in ("gep", "ld", "zext", "sext", "trunc", "ptrtoint", "inttoptr"):
        p = p[1]
    return p


def subst(p, args):
    """replace ('arg',k) by args[k]"""
    if not isinstance(p, tuple):
        return p
    if p[0] == "arg":
        return args[p[1]] if p[1] < len(args) else p
    q = tuple(subst(x, args) if isinstance(x, tuple) else x for x in p)
    if q[0] == "gep" and q[1][0] == "gep":
        b = q[1]
        return ("gep", b[1], b[2] + q[2], b[3] + q[3])
    return q


def pstr(p, names=None):
    if p[0] == "arg":
        return (names[p[1]] if names and p[1] < len(names) and names[p[1]] else "arg%d" % p[1])
    if p[0] == "ld":
        return "*(%s)" % pstr(p[1], names)
    if p[0] == "gep":
        return "%s+%d%s" % (pstr(p[1], names), p[2], "[*]" if p[3] else "")
    return str(p)
