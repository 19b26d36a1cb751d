"""Typestate of storage: which object is alive where, which heap block is freed, what a discriminator holds, on every path of a
small function (special members of hand-written holders).  State sets are propagated per block; branches on known values or on
the identity of addresses are followed on one side only."""
import re
from front import AnalysisError

SKIPCLS = re.compile(r"(^|::)(allocator|__new_allocator|new_allocator|initializer_list|\w*iterator)$")
NEW = re.compile(r"^_Zn[wa]")
DEL = re.compile(r"^_Zd[la]")
CAP = 4000


def split(dem):
    """(qualified class, last name, parameter text) of a demangled member function name, or None"""
    d, cur, parts, k = 0, "", [], 0
    s = dem
    while k < len(s):
        ch = s[k]
        if ch in "<(" and not (ch == "(" and d == 0):
            d += 1
        elif ch in ">)" and d:
            d -= 1
        if ch == "(" and d == 0:
            break
        if s.startswith("::", k) and d == 0:
            parts.append(cur); cur = ""; k += 2
            continue
        cur += ch
        k += 1
    parts.append(cur)
    if len(parts) < 2:
        return None
    return "::".join(parts[:-1]), parts[-1], s[k:]


def member_kind(dem):
    """('ctor'|'dtor'|'assign'|'swap', class, params) or None"""
    r = split(dem)
    if not r:
        return None
    cls, last, ps = r
    b = re.sub(r"<.*", "", re.sub(r"\[abi:\w+\]", "", cls.split("::")[-1] if "<" not in cls else re.sub(r"<.*", "", cls).split("::")[-1]))
    last = re.sub(r"\[abi:\w+\]", "", last)
    if last == b or last.startswith(b + "<"):
        return "ctor", cls, ps
    if last == "~_Function_base":
        return "dtor", "std::function", ps
    if last == "~" + b or b == "basic_string" and last == "~basic_string":
        return "dtor", cls, ps
    if last == "operator=":
        return "assign", cls, ps
    if last == "swap":
        return "swap", cls, ps
    return None


class St:
    __slots__ = ("env", "mem", "alive", "heap", "sub", "exc")

    def __init__(self):
        self.env, self.mem, self.alive, self.heap, self.sub = {}, {}, {}, {}, {}

    def copy(self):
        s = St()
        s.env, s.mem, s.alive, s.heap, s.sub = dict(self.env), dict(self.mem), dict(self.alive), dict(self.heap), dict(self.sub)
        return s

    def key(self):
        f = lambda d: tuple(sorted(d.items(), key=str))
        return (f(self.env), f(self.mem), f(self.alive), f(self.heap), f(self.sub))


class Run:
    """exhaustive propagation of one initial state through f; results in .exits [(kind, where, state)] and .errors"""

    def __init__(self, f, init, args, interest=(), track=lambda cls: True):
        self.f, self.m, self.interest, self.track = f, f.mod, interest, track
        self.exits, self.errors, self.nstates = [], [], 0
        s = init.copy()
        for k, v in enumerate(args):
            s.env["a%d" % k] = v
        self.go(s)

    def err(self, x, msg):
        if (x.where, msg) not in [(e[0], e[1]) for e in self.errors]:
            self.errors.append((x.where, msg))

    def dem(self, x):
        n = x.callee_name
        return self.m.fns[n].dem if n in self.m.fns else (n or "")

    # ---- values
    def val(self, s, r):
        if r[0] == "c":
            return ("c", int(r[1:]))
        if r == "n":
            return ("c", 0)
        if r[0] == "g":
            return ("p", r, 0)
        v = s.env.get(r, ("u", r))
        while v in s.sub:
            v = s.sub[v]
        return v

    def load(self, s, p, ref):
        if p[0] != "p" or p[2] is None:
            return ("u", ref)
        k = (p[1], p[2])
        if k not in s.mem:
            s.mem[k] = ("u", k)
        v = s.mem[k]
        while v in s.sub:
            v = s.sub[v]
        return v

    def deref(self, s, x, p, what):
        if p[0] == "p" and s.heap.get(p[1]) == "freed":
            self.err(x, "%s memory that has already been deleted" % what)
        if p == ("c", 0):
            return False       # null: not followed
        return True

    # ---- propagation
    def go(self, s0):
        st, seen = [(0, None, s0)], set()
        while st:
            b, pred, s = st.pop()
            k = (b, pred, s.key())
            if k in seen:
                continue
            seen.add(k)
            self.nstates += 1
            if self.nstates > CAP:
                raise AnalysisError("%s: too many typestates" % self.f.dem)
            st += self.block(b, pred, s.copy())

    def block(self, b, pred, s):
        f = self.f
        work, out = [(s, 0)], []
        insts = f.blocks[b]
        new = {x.ref: self.val(s, next(v for v, p in x.d["phi"] if p == pred)) for x in insts if x.op == "phi"}
        s.env.update(new)
        while work:
            s, i = work.pop()
            while i < len(insts):
                x = insts[i]
                i += 1
                if x.op == "phi":
                    continue
                r = self.inst(s, x, work, i, out, b)
                if r == "stop":
                    break
        return out

    def fork(self, s, v):
        """states with boolean v true / false"""
        if v[0] == "c":
            return [(s, bool(v[1]))]
        if v[0] == "p":
            return [(s, True)]
        t, e = s.copy(), s.copy()
        if v[0] == "cmp":
            _, pred, a, c = v
            if a[0] == "u" and c[0] in ("c", "p"):
                (t if pred == "eq" else e).sub[a] = c
                if c == ("c", 0) and a in ():
                    pass
        elif v[0] == "not":
            return [(q, not w) for q, w in self.fork(s, v[1])]
        else:
            t.sub[v], e.sub[v] = ("c", 1), ("c", 0)
        return [(t, True), (e, False)]

    def cmp(self, pred, a, b):
        if a[0] == b[0] == "c":
            m = {"eq": a[1] == b[1], "ne": a[1] != b[1], "ult": a[1] % 2**64 < b[1] % 2**64, "ugt": a[1] % 2**64 > b[1] % 2**64,
                 "slt": a[1] < b[1], "sgt": a[1] > b[1]}
            if pred in m:
                return ("c", int(m[pred]))
        if pred in ("eq", "ne"):
            same = None
            if a == b:
                same = True
            elif a[0] == b[0] == "p" and a[2] is not None and b[2] is not None:
                same = False
            elif {a[0], b[0]} == {"p", "c"}:
                same = False
            if same is not None:
                return ("c", int(same == (pred == "eq")))
            if a[0] == "c":
                a, b = b, a
            if b[0] == "c" and a[0] in ("cmp", "not", "bool") :
                v = a
                return v if (b[1] != 0) == (pred == "eq") else ("not", v)
            return ("cmp", pred, a, b)
        return ("u", ("cmp", pred, a, b))

    def inst(self, s, x, work, i, out, b):
        o = x.d.get("ops", [])
        op = x.op
        if op == "alloca":
            s.env[x.ref] = ("p", "al%d" % x.i, 0)
        elif op == "getelementptr":
            p = self.val(s, o[0])
            off = x.d.get("off")
            var = x.d.get("var") or []
            vs = [(self.val(s, v), k) for v, k in var]
            if p[0] == "p" and p[2] is not None and off is not None and all(v[0] == "c" for v, _ in vs):
                s.env[x.ref] = ("p", p[1], p[2] + off + sum(v[1] * k for v, k in vs))
            elif p[0] == "p":
                s.env[x.ref] = ("p", p[1], None)
            elif off == 0 and not var:
                s.env[x.ref] = p
            else:
                s.env[x.ref] = ("u", (p, off, tuple(map(str, vs))))
        elif op in ("bitcast", "zext", "sext", "trunc", "freeze", "ptrtoint", "inttoptr"):
            v = self.val(s, o[0])
            if op == "trunc" and v[0] == "c":
                w = int(x.ty[1:]) if x.ty[0] == "i" and x.ty[1:].isdigit() else 64
                v = ("c", v[1] & ((1 << w) - 1))
            s.env[x.ref] = v
        elif op == "icmp":
            s.env[x.ref] = self.cmp(x.d["pred"], self.val(s, o[0]), self.val(s, o[1]))
        elif op in ("and", "or", "xor", "add", "sub"):
            a, c = self.val(s, o[0]), self.val(s, o[1])
            if a[0] == c[0] == "c":
                s.env[x.ref] = ("c", {"and": a[1] & c[1], "or": a[1] | c[1], "xor": a[1] ^ c[1], "add": a[1] + c[1], "sub": a[1] - c[1]}[op])
            elif op == "xor" and x.ty == "i1" and c[0] == "c" and c[1]:
                s.env[x.ref] = ("not", a)
            elif op == "and" and c[0] == "c" and c[1] in (1, -1, 255):
                s.env[x.ref] = a
            elif op == "and" and ("c", 0) in (a, c):
                s.env[x.ref] = ("c", 0)
            elif op == "and" and x.ty == "i1" and a[0] == "c":
                s.env[x.ref] = c
            elif op == "or" and x.ty == "i1" and ("c", 0) in (a, c):
                s.env[x.ref] = c if a == ("c", 0) else a
            else:
                s.env[x.ref] = ("u", (op, a, c))
        elif op == "select":
            for q, w in self.fork(s, self.val(s, o[0])):
                q.env[x.ref] = self.val(q, o[1] if w else o[2])
                work.append((q, i))
            return "stop"
        elif op == "load":
            p = self.val(s, o[0])
            if not self.deref(s, x, p, "reads"):
                return "stop"
            s.env[x.ref] = self.load(s, p, x.ref)
        elif op == "store":
            p = self.val(s, o[1])
            if not self.deref(s, x, p, "writes"):
                return "stop"
            if p[0] == "p" and p[2] is not None:
                s.mem[(p[1], p[2])] = self.val(s, o[0])
        elif op in ("call", "invoke"):
            return self.call(s, x, work, i, out, b)
        elif op == "br":
            if o and len(dict.fromkeys(x.d["succ"])) > 1:
                for q, w in self.fork(s, self.val(s, o[0])):
                    out.append((x.d["succ"][0 if w else 1], b, q))
            else:
                out.append((x.d["succ"][0], b, s))
            return "stop"
        elif op == "switch":
            v = self.val(s, o[0])
            for k in dict.fromkeys(x.d["succ"]):
                out.append((k, b, s.copy()))
            if v[0] == "c" and x.d.get("cases"):
                cs = dict((c, t) for c, t in x.d["cases"])
                del out[-len(dict.fromkeys(x.d["succ"])):]
                out.append((cs.get(v[1], cs.get("c%d" % v[1], x.d["succ"][0])), b, s))
            return "stop"
        elif op == "ret":
            self.exits.append(("ret", x, s))
            return "stop"
        elif op == "resume":
            self.exits.append(("exc", x, s))
            return "stop"
        elif op == "unreachable":
            return "stop"
        elif op in ("insertvalue", "extractvalue", "landingpad"):
            s.env[x.ref] = ("u", x.ref)
        elif x.ty != "void":
            s.env[x.ref] = ("u", x.ref)
        return None

    def next(self, s, x, out, b, res=None, throws=True):
        """after a call: normal successor, and the unwind edge with the state before its effects"""
        if x.op == "invoke":
            succ = [k for k in x.d["succ"] if k != x.d["unwind"]]
            out.append((succ[0] if succ else x.d["succ"][0], b, s))
            return "stop"
        return None

    def call(self, s, x, work, i, out, b):
        n = x.callee_name or ""
        d = self.dem(x)
        o = x.d["ops"]
        vs = [self.val(s, r) for r in o]
        if n.startswith("llvm."):
            if n.startswith("llvm.mem") and vs[0][0] == "p":
                self.deref(s, x, vs[0], "writes")
                if n.startswith("llvm.memset"):
                    return None
                self.deref(s, x, vs[1], "reads")
                dst, src, ln = vs[0], vs[1], vs[2]
                if ln[0] == "c" and dst[2] is not None:
                    for k in [k for k in s.mem if k[0] == dst[1] and dst[2] <= k[1] < dst[2] + ln[1]]:
                        del s.mem[k]
                    if src[0] == "p" and src[2] is not None:
                        offs = {k[1] for k in s.mem if k[0] == src[1]} | set(self.interest)
                        for q in offs:
                            if src[2] <= q < src[2] + ln[1]:
                                s.mem[(dst[1], dst[2] + q - src[2])] = self.load(s, ("p", src[1], q), x.ref)
            elif n.startswith("llvm.lifetime.end") and vs[-1][0] == "p":
                for k in [k for k in s.mem if k[0] == vs[-1][1]]:
                    del s.mem[k]
            if x.ty != "void":
                s.env[x.ref] = ("u", x.ref)
            return None
        if x.op == "invoke":
            e = s.copy()
            # the callee failed: nothing constructed
            out.append((x.d["unwind"], b, e))
        elif not x.d.get("nounwind") and not (n in self.m.fns and self.m.fns[n].nounwind) and not DEL.match(n):
            self.exits.append(("exc", x, s.copy()))
        if n in ("__cxa_throw", "__cxa_rethrow", "_ZSt9terminatev", "__clang_call_terminate", "abort"):
            if x.op == "call" and n in ("__cxa_throw", "__cxa_rethrow"):
                self.exits.append(("exc", x, s))
            return "stop"
        if NEW.match(n):
            h = "h%d" % x.i
            s.heap[h] = "live"
            for k in [k for k in s.mem if k[0] == h]:
                del s.mem[k]
            s.env[x.ref] = ("p", h, 0)
            return self.next(s, x, out, b)
        if DEL.match(n):
            p = vs[0]
            if p[0] == "p":
                if s.heap.get(p[1]) == "freed":
                    self.err(x, "deletes memory twice")
                elif s.heap.get(p[1]) == "live":
                    left = [k for k in s.alive if k[0] == p[1]]
                    if left:
                        self.err(x, "frees memory while an object in it is still alive")
                    s.heap[p[1]] = "freed"
            return self.next(s, x, out, b)
        mk = member_kind(d) if d != n else None
        ptrs = [v for v in vs if v[0] == "p"]
        for v in vs:
            if v[0] == "p":
                self.deref(s, x, v, "uses")
            if v == ("c", 0) and mk and v is vs[0] and mk[0] != "swap" and o[0] != "n" and False:
                pass
        if mk and vs and vs[0][0] == "p" and vs[0][2] is not None and not SKIPCLS.search(re.sub(r"<.*", "", mk[1])) and self.track(mk[1]):
            kind, cls, ps = mk
            me = (vs[0][1], vs[0][2])
            src = next(((v[1], v[2]) for v in vs[1:] if v[0] == "p" and v[2] is not None), None)
            org = s.alive[src][1] if src in s.alive else ("arg", src) if src else None
            if kind == "ctor":
                if me in s.alive:
                    self.err(x, "constructs a %s over a live %s" % (short(cls), short(s.alive[me][0])))
                if src == me:
                    self.err(x, "constructs a %s from itself" % short(cls))
                if src in s.alive and s.alive[src][0] != cls:
                    self.err(x, "constructs a %s from storage holding a %s" % (short(cls), short(s.alive[src][0])))
                if re.search(r"\(%s(const)?&&?\)" % re.escape(cls.replace(" ", "")), ps.replace(" ", "")) and src and src not in s.alive and (src[0] in self.typed(s)):
                    self.err(x, "constructs a %s from storage in which none is alive" % short(cls))
                s.alive[me] = (cls, org)
                if ps.rstrip(")").endswith("&&") and src in s.alive:
                    s.alive[src] = (s.alive[src][0], "moved")
            elif kind == "dtor":
                if me not in s.alive:
                    if me[0] in self.typed(s) or self.was(s, me):
                        self.err(x, "destroys a %s that is not alive" % short(cls))
                elif s.alive[me][0] != cls and short(s.alive[me][0]) != short(cls):
                    self.err(x, "destroys a %s in storage holding a %s" % (short(cls), short(s.alive[me][0])))
                s.alive.pop(me, None)
            elif kind == "assign" and src:
                if me not in s.alive and me[0] in self.typed(s):
                    self.err(x, "assigns to a %s that is not alive" % short(cls))
                if me in s.alive:
                    if me != src:
                        s.alive[me] = (s.alive[me][0], org)
                    if ps.rstrip(")").endswith("&&") and src in s.alive and src != me:
                        s.alive[src] = (s.alive[src][0], "moved")
            elif kind == "swap" and src and me in s.alive and src in s.alive:
                a, c = s.alive[me], s.alive[src]
                s.alive[me], s.alive[src] = (a[0], c[1]), (c[0], a[1])
            if x.ty != "void":
                s.env[x.ref] = vs[0] if kind == "assign" else ("u", x.ref)
            return self.next(s, x, out, b)
        if re.search(r"\bswap<|::swap\(", d) and len(ptrs) == 2:
            ks = [(p[1], p[2]) for p in ptrs]
            if all(k in s.alive for k in ks):
                a, c = s.alive[ks[0]], s.alive[ks[1]]
                s.alive[ks[0]], s.alive[ks[1]] = (a[0], c[1]), (c[0], a[1])
            else:
                a, c = self.load(s, ptrs[0], x.ref), self.load(s, ptrs[1], x.ref)
                s.mem[ks[0]], s.mem[ks[1]] = c, a
            return self.next(s, x, out, b)
        g = self.m.fns.get(n)
        if re.search(r"std::exchange<", d) and len(ptrs) >= 1:
            s.env[x.ref] = self.load(s, vs[0], x.ref)
            v1 = self.val(s, o[1])
            s.mem[(vs[0][1], vs[0][2])] = self.load(s, v1, x.ref) if v1[0] == "p" else ("u", x.ref)
            return self.next(s, x, out, b)
        if x.ty != "void":
            s.env[x.ref] = ("u", x.ref)
            if re.search(r"std::(move|forward|addressof|__addressof|launder)<", d) and ptrs:
                s.env[x.ref] = ptrs[0]
        for k, v in enumerate(vs):
            if v[0] == "p" and v[1].startswith("al") and x.d.get("sret") and k == 0:
                self.sret(s, x, v)
        return self.next(s, x, out, b)

    def sret(self, s, x, v):
        pass

    def typed(self, s):
        """objects whose lifetimes are fully known: the holders under analysis and fresh heap blocks"""
        return self.known

    known = ()

    def was(self, s, me):
        return False


def short(c):
    c = re.sub(r"<.*", "", c)
    return c.split("::")[-1]
