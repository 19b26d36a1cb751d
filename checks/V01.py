"""Comparisons and nullables: each operation is evaluated over the finite abstract domain of relations between the fields
(null / equal / ordered), which is exact for code that only compares and copies them; every combination is enumerated."""
import itertools, os, re
from front import AnalysisError, slice_steps, VERIF
from scev import layout

PROBE = os.path.join(VERIF, "probes", "values.cpp")
CFG = "unwind-addr2line"
STEPS = slice_steps(r"^vp_", r"^cpptrace::", r"~^_ZSt(eq|ne)I|^_ZNKSt7__cxx1112basic_string") + [("opt", "function(instcombine,simplifycfg,early-cse,instcombine)")]
NULL = ("null",)
TOP = ("top",)
UINT = {"n8": 8, "n32": 32, "n64": 64}
NULLS = {"nn": (1, 1), "an": (1, 0), "bn": (0, 1)}


class Unclear(Exception):
    pass


class Eval:
    """one abstract valuation; values: ('b',0/1) ('s',cell) NULL ('p',base,off) ('c',n) TOP"""

    def __init__(self, f, cells, rel, null=None, width=None, args=None):
        self.f, self.cells, self.rel, self.null, self.width = f, cells, rel, null, width
        self.mem, self.outs, self.steps = {}, set(), 0
        self.args = args or {}

    def run(self):
        self.block(0, None, {}, dict(self.cells), 0)
        if not self.outs:
            raise Unclear("no result")
        return self.outs

    def val(self, env, r, ty=None):
        if r[0] == "c":
            n = int(r[1:])
            if self.null is not None and ty != "i1" and n % (1 << self.width) == self.null % (1 << self.width):
                return NULL
            return ("c", n)
        if r[0] == "a":
            return self.args.get(r, ("p", r, 0))
        if r == "n":
            return ("c", 0)
        return env.get(r, TOP)

    def block(self, b, pred, env, mem, depth):
        f = self.f
        if depth > 400:
            raise Unclear("loop")
        env = dict(env)
        new = {}
        for x in f.blocks[b]:
            if x.op == "phi":
                new[x.ref] = self.val(env, next(v for v, p in x.d["phi"] if p == pred), x.ty)
                if new[x.ref][0] == "c" and x.ty == "i1":
                    new[x.ref] = ("b", new[x.ref][1] & 1)
        env.update(new)
        for x in f.blocks[b]:
            o = x.d.get("ops", [])
            if x.op == "phi":
                continue
            if x.op == "br":
                su = x.d["succ"]
                if len(set(su)) == 1:
                    return self.block(su[0], b, env, mem, depth + 1)
                v = self.bool(self.val(env, o[0], "i1"))
                for k in (0, 1):
                    if v is None or v == 1 - k:
                        self.block(su[k], b, env, mem, depth + 1)
                return
            if x.op == "switch":
                v = self.val(env, o[0], x.ty)
                hit, open_ = False, True
                for n, t in x.d["cases"]:
                    r = self.order(v, self.val(env, "c%d" % n))
                    if r in ("eq", None):
                        self.block(t, b, env, mem, depth + 1)
                    if r == "eq":
                        open_ = False
                        break
                if open_:
                    self.block(x.d["default"], b, env, mem, depth + 1)
                return
            if x.op == "invoke" or x is f.blocks[b][-1] and x.op not in ("ret", "unreachable"):
                raise Unclear(x.op)
            if x.op == "ret":
                r = None
                if o:
                    r = self.val(env, o[0], self.rty)
                    if self.rty == "i1":
                        r = self.bool(r)
                self.outs.add((r, tuple(sorted(mem.items()))))
                return
            if x.op == "unreachable":
                return
            if x.op == "store":
                p = self.val(env, o[1])
                if p[0] != "p":
                    raise Unclear("store")
                mem = dict(mem)
                mem[(p[1], p[2])] = self.val(env, o[0], x.d.get("vty"))
                continue
            env[x.ref] = self.inst(x, o, env, mem)
        return

    @property
    def rty(self):
        if not hasattr(self, "_rty"):
            self._rty = self.f.d.get("rty") or self.f.d.get("ret")
        return self._rty

    def bool(self, v):
        if v[0] == "b":
            return v[1]
        if v[0] == "c":
            return v[1] & 1
        return None

    def order(self, a, b):
        """'eq' 'lt' 'gt' or None"""
        if a == b and a[0] != "top":
            return "eq"
        if NULL in (a, b):
            o = b if a == NULL else a
            if o[0] == "s":
                n = self.isnull(o)
                if n is None:
                    return None
                return "eq" if n else ("gt" if a == NULL else "lt")
            if o[0] == "c":
                return "gt" if a == NULL else "lt"
            return None
        if a[0] == b[0] == "s":
            r = self.rel.get((a[1], b[1]))
            if r is None:
                r = self.rel.get((b[1], a[1]))
                r = {"lt": "gt", "gt": "lt"}.get(r, r)
            return r
        if a[0] == b[0] == "c":
            return "eq" if a[1] == b[1] else "lt" if a[1] < b[1] else "gt"
        return None

    def isnull(self, s):
        return self.rel.get(("null", s[1]))

    def inst(self, x, o, env, mem):
        op = x.op
        v = [self.val(env, r, x.ty if op != "icmp" else None) for r in o]
        if op == "getelementptr":
            p = v[0]
            if p[0] == "p" and x.d.get("off") is not None and not x.d.get("var"):
                return ("p", p[1], p[2] + x.d["off"])
            return TOP
        if op == "load":
            if v[0][0] == "p":
                return mem.get((v[0][1], v[0][2]), TOP)
            return TOP
        if op == "icmp":
            r = self.order(v[0], v[1])
            p = x.d["pred"]
            if r is None:
                return TOP
            if p in ("eq", "ne"):
                return ("b", int((r == "eq") == (p == "eq")))
            if "top" in (v[0][0], v[1][0]):
                return TOP
            return ("b", int({"lt": r == "lt", "le": r != "gt", "gt": r == "gt", "ge": r != "lt"}[p[1:]]))
        if op == "select":
            b = self.bool(v[0])
            if b is None:
                return v[1] if v[1] == v[2] else TOP
            r = v[1] if b else v[2]
            return ("b", r[1] & 1) if x.ty == "i1" and r[0] == "c" else r
        if op in ("and", "or", "xor") and x.ty == "i1":
            a, b = self.bool(v[0]), self.bool(v[1])
            if op == "and" and 0 in (a, b):
                return ("b", 0)
            if op == "or" and 1 in (a, b):
                return ("b", 1)
            if None in (a, b):
                return TOP
            return ("b", a & b if op == "and" else a | b if op == "or" else a ^ b)
        if op in ("zext", "sext", "trunc", "freeze", "bitcast"):
            if v[0][0] == "c" and x.ty == "i1":
                return ("b", v[0][1] & 1)
            return v[0]
        if op == "call":
            n = x.callee_name or ""
            d = self.f.mod.fns[n].dem if n in self.f.mod.fns else n
            s = [mem.get((p[1], p[2]), TOP) if p[0] == "p" else TOP for p in v]
            if re.match(r"^_ZSt(eq|ne)I", n) and len(s) == 2:
                r = self.order(s[0], s[1])
                return TOP if r is None else ("b", int((r == "eq") == n.startswith("_ZSteq")))
            if re.search(r"basic_string<.*>::compare\(std::.*const&\) const$", d) and len(s) == 2:
                r = self.order(s[0], s[1])
                return TOP if r is None else ("c", {"eq": 0, "lt": -1, "gt": 1}[r])
            if re.search(r"basic_string<.*>::(size|length)\(\) const$", d) and s[0][0] == "s":
                return ("s", ("size", s[0][1]))
            if n.startswith("llvm.umin") or n.startswith("llvm.umax"):
                r = self.order(v[0], v[1])
                if r is None:
                    return TOP
                return v[0] if r == "eq" or (r == "lt") == n.startswith("llvm.umin") else v[1]
            return TOP
        return TOP


def show(r):
    return ", ".join("%s: %s" % (k, v) for k, v in r)


def run(c):
    c.rule("for every combination of null/equal/less/greater relations between the operands, each nullable operation yields exactly what its contract says (has_value <=> not null, value_or, ==, !=, reset, assignment, swap), and frame == is true exactly when the six compared fields are equal, != its negation")
    m = c.module(CFG, STEPS, probes=(PROBE,))
    fn = {f.name: f for f in m.defined() if f.name.startswith("vp_")}
    c.need(len(fn), "value operations", 60)
    nullv = {}
    for t in ("n8", "n32", "n64", "ni"):
        for q in ("nullv", "max"):
            f = fn["vp_%s_%s" % (t, q)]
            r = [x for x in f.insts if x.op == "ret"]
            if len(r) != 1 or r[0].d["ops"][0][0] != "c":
                raise AnalysisError("%s is not a constant" % f.name)
            nullv[t, q] = int(r[0].d["ops"][0][1:])
        if nullv[t, "nullv"] != nullv[t, "max"]:
            c.violation("null-value:" + t, "nullable", f.where, "the reserved null value of a nullable is not the documented one (the type's maximum)")

    def ev(name, cells, rel, t, args=None):
        f = fn[name]
        c.count("cases")
        w = {"n8": 8, "n32": 32, "n64": 64, "ni": 32, "frame": 32}.get(t, 64)
        e = Eval(f, cells, rel, nullv.get((t if t != "frame" else "n32", "nullv")), w, args)
        try:
            return e.run()
        except Unclear as u:
            return {(("unclear", str(u)), ())}

    def one(name, cells, rel, t, want, msg, args=None, cell=None):
        """want: expected abstract result value (list of acceptable) or, with cell, content of that cell"""
        outs = ev(name, cells, rel, t, args)
        for r, mem in outs:
            got = r if cell is None else dict(mem).get(cell)
            if got not in want:
                c.violation("%s" % name[3:].split("_", 1)[1] if t else name[3:], "nullable" if t else "frame-comparison", fn[name].insts[0].where, "%s (relations: %s)" % (msg, show(rel.items())))
                return
    A, B, V = ("a0", 0), ("a1", 0), "a1"
    for t in ("n8", "n32", "n64", "ni"):
        p = "vp_%s_" % t
        for n in (0, 1):
            rel = {("null", "x"): n}
            cell = {A: ("s", "x")}
            one(p + "has", cell, rel, t, [1 - n], "nullable::has_value does not say whether the value is the reserved null value")
            one(p + "or", cell, rel, t, [("s", "d")] if n else [("s", "x")], "nullable::value_or does not return the value when present and the alternative otherwise", args={V: ("s", "d")})
            one(p + "value", cell, rel, t, [("s", "x")], "nullable::value does not return the stored value")
            one(p + "reset", cell, rel, t, [NULL], "nullable::reset does not leave it null", cell=A)
            one(p + "assign", cell, rel, t, [("s", "d")], "assigning to a nullable does not store the value", args={V: ("s", "d")}, cell=A)
        one(p + "make", {}, {}, t, [("s", "d")], "constructing a nullable does not store the value", args={V: ("s", "d")}, cell=A)
        one(p + "null", {}, {}, t, [NULL], "nullable::null() is not null", cell=A)
        one(p + "def", {}, {}, t, [NULL], "a default-constructed nullable is not null", cell=A)
        one(p + "ref", {A: ("s", "x")}, {}, t, [("p", "a0", 0)], "nullable::value does not refer to the stored value")
        for r in ("eq", "lt", "gt", "nn", "an", "bn"):
            na, nb = NULLS.get(r, (0, 0))
            rel = {("null", "x"): na, ("null", "y"): nb, ("x", "y"): {"nn": "eq", "an": "gt", "bn": "lt"}.get(r, r)}
            cell = {A: ("s", "x"), B: ("s", "y")}
            eq = int(r in ("eq", "nn"))
            one(p + "eq", cell, rel, t, [eq], "nullable == does not hold exactly when both are null or both hold equal values")
            one(p + "ne", cell, rel, t, [1 - eq], "nullable != is not the negation of ==")
            ok = [("s", "x")] + ([("s", "y")] if eq else [])
            one(p + "swap", cell, rel, t, [("s", "y")] + ([("s", "x")] if eq else []), "nullable::swap does not exchange the values", cell=A)
            one(p + "swap", cell, rel, t, ok, "nullable::swap does not exchange the values", cell=B)
            one(p + "copy", cell, rel, t, [("s", "y")] + ([("s", "x")] if eq else []), "copying a nullable does not copy its value", cell=A)
        c.saw("nullable<%s>" % t)
    # frames
    lay = layout(c)
    off = {k[len("off_frame__"):]: v for k, v in lay.items() if k.startswith("off_frame__")}
    ints, strs = ["raw_address", "object_address", "line", "column"], ["filename", "symbol"]
    cells = {}
    for k in ints + strs + ["is_inline"]:
        cells["a0", off[k]] = ("s", "a." + k)
        cells["a1", off[k]] = ("s", "b." + k)
    dom = [["eq", "lt", "gt"]] * 2 + [["eq", "lt", "gt", "nn", "an", "bn"]] * 2 + [["eq", "lt", "gt", "gtsize"]] * 2 + [["eq", "gt"]]
    bad = {"eq": 0, "ne": 0}
    for combo in itertools.product(*dom):
        rel = {}
        for k, r in zip(ints + strs + ["is_inline"], combo):
            if k in strs:
                rel["size", "a." + k] = None
                rel[("size", "a." + k), ("size", "b." + k)] = "gt" if r == "gtsize" else "eq"
            if k in ("line", "column"):
                rel["null", "a." + k], rel["null", "b." + k] = NULLS.get(r, (0, 0))
            rel["a." + k, "b." + k] = {"gtsize": "gt", "nn": "eq", "an": "gt", "bn": "lt"}.get(r, r)
        rel = {k: v for k, v in rel.items() if v is not None}
        eq = int(all(r in ("eq", "nn") for r in combo[:6]))
        why = show((k, r) for k, r in zip(ints + strs + ["is_inline"], combo))
        for name, want in (("eq", eq), ("ne", 1 - eq)):
            if bad[name] > 2:
                continue
            for r, _ in ev("vp_frame_" + name, cells, rel, "frame"):
                if r != want:
                    bad[name] += 1
                    diff = [k for k, q in zip(ints + strs + ["is_inline"], combo) if q not in ("eq", "nn")]
                    c.violation("frame-%s:%s" % (name, "+".join(diff) or "equal"), "frame-comparison", fn["vp_frame_" + name].insts[0].where,
                                "frame %s can yield %s for frames whose fields relate as {%s}" % ("==" if name == "eq" else "!=", r, why))
                    break
    c.saw("stacktrace_frame == and !=")
