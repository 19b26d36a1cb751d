"""Induction-variable normal form: header phis become init + step * it(loop); addresses become linear expressions over
values, data(container) and iteration numbers.  Used to tell which element of an array or container a field belongs to and
whether a loop goes over all of them."""
import os, re
from front import VERIF, SSA, AnalysisError
from linear import Lin, add, const
from containers import method, obj
from flow import apath
from ir import operands

LAYOUT = os.path.join(VERIF, "probes", "layout.cpp")
ITER = r"^_ZNK?(St|9__gnu_cxx)[0-9]*(__normal_iterator|move_iterator|reverse_iterator|back_insert_iterator)|^_ZN?K?(St|9__gnu_cxx)[a-z0-9_]*(miI|eqI|neI|plI|ltI)|^_ZNSt11char_traitsIcE|^_ZSt(9transform|8for_each|10__niter_|12__niter|11make_move|4copy|6copy_n|13__copy_move_a|14__copy_move_a|12__miter_base|8_Destroy|4fill|6fill_n|8__fill|10__fill)|^_ZSt[0-9]+__(copy|fill|niter|miter)[a-z_0-9]*I|^_ZNSt11__copy_move|^_ZNSt20__copy_move"


def layout(c, cfg="unwind-addr2line"):
    m = c.module(cfg, (), probes=(LAYOUT,))
    out = {}
    for k, g in m.globals.items():
        if k.startswith(("vp_off_", "vp_size_")):
            v = g.get("init")
            if isinstance(v, str) and v[0] == "c":
                v = int(v[1:])
            if not isinstance(v, int):
                raise AnalysisError("layout constant %s not readable" % k)
            out[k[3:]] = v
    return out


class Ev:
    def __init__(self, f, elem=None):
        """elem: function(container call inst) -> element size"""
        self.f, self.L = f, Lin(f)
        self.loops = self.L.loops
        self.elem = elem or self.elem_default
        self.memo = {}
        self.active = set()
        self.nwrites = {}

    def elem_default(self, x):
        return None

    # ------------------------------------------------------------------ expressions
    def ev(self, ref):
        if ref in self.memo:
            return self.memo[ref]
        if ref in self.active:
            return {("v", ref): 1}
        self.active.add(ref)
        try:
            r = self._ev(ref)
        finally:
            self.active.discard(ref)
        if not self.active:
            self.memo[ref] = r
        return r

    def _ev(self, ref):
        f = self.f
        if ref[0] == "c":
            return const(int(ref[1:]))
        if ref == "n":
            return const(0)
        x = f.inst(ref)
        if x is None:
            return {("v", ref): 1}
        o = x.d.get("ops", [])
        if x.op in ("add", "sub"):
            return add(self.ev(o[0]), self.ev(o[1]), 1 if x.op == "add" else -1)
        if x.op in ("mul", "shl") and o[1][0] == "c":
            k = int(o[1][1:]) if x.op == "mul" else 1 << int(o[1][1:])
            return {t: v * k for t, v in self.ev(o[0]).items()}
        if x.op in ("zext", "sext", "trunc", "freeze", "ptrtoint", "inttoptr", "bitcast"):
            return self.ev(o[0])
        if x.op == "getelementptr" and x.d.get("off") is not None:
            r = add(self.ev(o[0]), const(x.d["off"]))
            for v, s in x.d.get("var") or []:
                r = add(r, {t: c * s for t, c in self.ev(v).items()})
            return r
        if x.op == "phi":
            loop = self.loops.get(x.bb)
            if loop:
                ini = {v for v, p in x.d["phi"] if p not in loop}
                st = None
                for v, p in x.d["phi"]:
                    if p in loop:
                        d = add(self.step(v, x.ref, loop), {}, 1) if self.step(v, x.ref, loop) is not None else None
                        if d is None or list(d.keys()) not in ([1], []):
                            st = None
                            break
                        s = d.get(1, 0)
                        if st is not None and st != s:
                            st = None
                            break
                        st = s
                if st is not None and len(ini) == 1:
                    return add(self.ev(ini.pop()), {("it", x.bb): st})
            else:
                vs = {v for v, p in x.d["phi"]}
                if len(vs) == 1:
                    return self.ev(vs.pop())
            return {("v", ref): 1}
        if x.op == "load":
            p = self.ev(o[0])
            return {("ld", tuple(sorted(p.items(), key=str))): 1}
        if x.op in ("call", "invoke"):
            m = method(f, x)
            if m:
                c, rest = obj(f, x)
                e = self.elem(x)
                cp = self.path(c)
                if m[1] in ("begin", "data", "cbegin", "c_str"):
                    return {("data", cp): 1}
                if m[1] in ("size", "length"):
                    return {("size", cp): 1}
                if m[1] in ("end", "cend") and e:
                    return {("data", cp): 1, ("size", cp): e}
                if m[1] in ("operator[]", "at") and e:
                    return add({("data", cp): 1}, {t: v * e for t, v in self.ev(rest[0]).items()})
            n = x.callee_name or ""
            if re.match(r"_ZNKSt16initializer_list.*4sizeEv", n):
                return {("size", self.path(o[0])): 1}
        return {("v", ref): 1}

    def path(self, ref):
        return tuple(sorted(self.ev(ref).items(), key=str))

    def step(self, v, phi, loop, depth=0):
        """v - phi as a constant expression, following adds and geps; phis in the loop must agree"""
        f = self.f
        if v == phi:
            return {}
        x = f.inst(v)
        if x is None or depth > 20 or x.bb not in loop:
            return None
        o = x.d.get("ops", [])
        if x.op in ("add", "sub") and o[1][0] == "c":
            r = self.step(o[0], phi, loop, depth + 1)
            return None if r is None else add(r, const(int(o[1][1:])), 1 if x.op == "add" else -1)
        if x.op == "getelementptr" and x.d.get("off") is not None and not x.d.get("var"):
            r = self.step(o[0], phi, loop, depth + 1)
            return None if r is None else add(r, const(x.d["off"]))
        if x.op == "getelementptr" and x.d.get("off") is not None and all(w[0][0] == "c" for w in x.d["var"]):
            r = self.step(o[0], phi, loop, depth + 1)
            return None if r is None else add(r, const(x.d["off"] + sum(int(w[1:]) * s for w, s in x.d["var"])))
        if x.op in ("zext", "sext", "trunc", "freeze"):
            return self.step(o[0], phi, loop, depth + 1)
        if x.op == "phi" and x.bb not in self.loops:
            rs = [self.step(w, phi, loop, depth + 1) for w, p in x.d["phi"]]
            if rs and all(r is not None and r == rs[0] for r in rs):
                return rs[0]
        return None

    # ------------------------------------------------------------------ loops
    def exits(self, h):
        """exit edges of loop h except into cleanup/unwind code"""
        f, loop = self.f, self.loops[h]
        out = []
        for b in loop:
            t = f.blocks[b][-1]
            for k in dict.fromkeys(f.succs(b)):
                if k not in loop and not (t.op == "invoke" and k == t.d["unwind"]) and not self.dead_end(k):
                    out.append((b, k))
        return out

    def dead_end(self, k):
        """does the block lead only to unreachable/resume?"""
        f = self.f
        seen, st = set(), [k]
        while st:
            b = st.pop()
            if b in seen:
                continue
            seen.add(b)
            if f.blocks[b][-1].op == "ret":
                return False
            st += f.succs(b)
        return True

    def runs_all(self, h, count):
        """every ordinary exit of loop h happens with it(h) == count (it >= count); count: linear expression"""
        ex = self.exits(h)
        if not ex:
            return False
        for b, k in ex:
            ok = False
            for fc in self.L.F.on_edge(b, k):
                if fc[0] != "cmp":
                    continue
                p = fc[1]
                d = add(self.ev(fc[2]), self.ev(fc[3]), -1)
                it = d.get(("it", h), 0)
                if not it:
                    continue
                e = {t: v for t, v in d.items() if t != ("it", h) and v}
                want = {t: -v * it for t, v in count.items() if v}
                if e != want:
                    # i + 1 == count tested at the bottom: it is the number of completed iterations there
                    e2 = add(e, const(-it))
                    if {t: v for t, v in e2.items() if v} != want or k == h:
                        continue
                    if b not in self.latches(h):
                        continue
                if p == "eq" or it > 0 and p in ("uge", "sge") or it < 0 and p in ("ule", "sle"):
                    ok = True
            if not ok:
                return False
        return True

    def latches(self, h):
        return [b for b in self.loops[h] if h in self.f.succs(b)]

    def every_iteration(self, x, h, excuse=()):
        """x runs in every iteration of h, except on edges leading to blocks in excuse / exits"""
        f, loop = self.f, self.loops[h]
        seen, st = set(), [h]
        while st:
            b = st.pop()
            if b in seen or b == x.bb:
                continue
            seen.add(b)
            for k in f.succs(b):
                if k == h:
                    return False
                if k in loop and (b, k) not in excuse:
                    st.append(k)
        return True

    def loop_of(self, b):
        hs = [h for h, l in self.loops.items() if b in l]
        return min(hs, key=lambda h: len(self.loops[h])) if hs else None

    def ev_terms(self, ref):
        """terms of the expression, those inside loads included"""
        out, st = [], list(self.ev(ref).items())
        while st:
            t, v = st.pop()
            if isinstance(t, tuple):
                out.append((t, v))
                if t[0] == "ld":
                    st += list(t[1])
        return out
