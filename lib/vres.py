"""Typestate of system resources: a forward powerset dataflow over one function (helpers and RAII classes inlined). Every acquiring call
splits the state into its outcomes; values and the memory cells of objects that hold resources are tracked as constants, resources or
unknown, so that `if(fd != -1) close(fd)` in a destructor is decided by what the cell holds."""
import re
from front import AnalysisError

# callee -> kind
ACQUIRE = {"pipe": "pipe", "pipe2": "pipe", "fork": "fork", "vfork": "fork", "fopen": "ptr", "fopen64": "ptr", "popen": "ptr", "fdopen": "ptr", "opendir": "ptr",
           "open": "fd", "open64": "fd", "openat": "fd", "dup": "fd", "__cxa_demangle": "ptr", "malloc": "ptr", "calloc": "ptr", "strdup": "ptr"}
RELEASE = {"close": "fd", "fclose": "file", "pclose": "file", "closedir": "file", "free": "mem", "waitpid": "pid", "_ZdaPv": "mem", "_ZdaPvm": "mem"}
# calls whose result is -1 (or an error pointer) on failure and a size, offset or address otherwise
TESTED = {"read", "pread", "readlink", "readlinkat", "write", "lseek", "lseek64", "ftell", "ftello", "mmap", "mmap64", "recv"}
ENDS = {"_exit", "exit", "abort", "_Exit", "quick_exit"}
IGNORE = re.compile(r"llvm\.(lifetime|dbg|experimental|assume)")
NAMES = {"pipe": "pipe end", "fork": "child process", "fd": "descriptor", "ptr": "handle or buffer"}
LIMIT = 3000


def bases(f, ref):
    """every object an address may belong to, through moving pointers"""
    st, seen, out = [ref], set(), set()
    while st:
        r = st.pop()
        if r in seen:
            continue
        seen.add(r)
        x = f.inst(r)
        if x is not None and x.op in ("getelementptr", "bitcast", "freeze"):
            st.append(x.d["ops"][0])
        elif x is not None and x.op == "phi":
            st += [v for v, _ in x.d["phi"]]
        elif x is not None and x.op == "select":
            st += x.d["ops"][1:]
        else:
            out.add(r)
    return out


SIZE = {"i1": 1, "i8": 1, "i16": 2, "i32": 4, "i64": 8, "ptr": 8}


def const(ref):
    if ref == "n":
        return ("i", 0)
    if ref[0] == "c" and ref[1:].lstrip("-").isdigit():
        return ("i", int(ref[1:]))
    if ref.startswith("i(c") and ref[3:-1].lstrip("-").isdigit():
        return ("i", int(ref[3:-1]))
    if ref[0] == "g":
        return ("g", ref[1:])
    return None


class Typestate:
    def __init__(self, c, f, acquire=ACQUIRE, free_like=r"free", entry=(), where="", report=None, nothrow=frozenset()):
        self.c, self.f, self.mod = c, f, f.mod
        self.acquire, self.free_like = acquire, re.compile(free_like)
        self.where = where or f.dem
        self.report = report or (lambda kind, x, msg: c.violation("%s:%s" % (kind, self.where), kind, x.where, msg))
        self.seen, self.nothrow = set(), nothrow
        self.sites = [x for x in f.calls() if x.callee_name in acquire]
        self.tested = [x for x in f.calls() if x.callee_name in TESTED]
        self.tracked = self.objects(entry)
        self.live = self.liveness()
        self.ends, self.owners = [], False
        self.run(entry)

    # ------------------------------------------------------------ what is tracked
    def objects(self, entry):
        f = self.f
        T = {b for (b, k), v in entry}
        R = {x.ref for x in self.sites if self.acquire[x.callee_name] not in ("pipe",)}
        for x in self.sites:
            if self.acquire[x.callee_name] == "pipe":
                T |= bases(f, x.d["ops"][0])
        P = set()
        ch = True
        while ch:
            n = len(T) + len(R) + len(P)
            # an object reached through a pointer kept in another local object
            via = {b for t in T if f.inst(t) is not None and f.inst(t).op == "load" for b in bases(f, f.inst(t).d["ops"][0]) if self.local(b)}
            T |= via
            for x in f.insts:
                if x.op == "store" and x.d["ops"][0][0] == "v" and bases(f, x.d["ops"][1]) & via:
                    T |= {b for b in bases(f, x.d["ops"][0]) if self.local(b)}
                if x.op == "store" and (x.d["ops"][0] in R or x.d["ops"][0][0] in "va" and (x.d["ops"][0] in P or self.local(x.d["ops"][0]) in T)):
                    T |= bases(f, x.d["ops"][1])
                elif x.op == "load" and bases(f, x.d["ops"][0]) & T:
                    R.add(x.ref)
                elif x.op in ("phi", "select", "bitcast", "freeze", "zext", "sext", "trunc", "ptrtoint", "inttoptr", "getelementptr"):
                    if any(o in R for o in ([v for v, _ in x.d["phi"]] if x.op == "phi" else x.d["ops"])):
                        R.add(x.ref)
                    elif x.ty == "ptr" and bases(f, x.ref) & T:
                        P.add(x.ref)
                elif x.op == "call" and re.match(r"llvm\.mem(cpy|move)", x.callee_name or "") and bases(f, x.d["ops"][1]) & T:
                    T |= bases(f, x.d["ops"][0])
            ch = len(T) + len(R) + len(P) != n
        self.interest = R | P
        return T

    def local(self, ref):
        x = self.f.inst(ref)
        return ref if x is not None and x.op == "alloca" else None

    def touches(self, ref):
        return bool(bases(self.f, ref) & self.tracked)

    def place(self, ref, vals):
        """(object, offset) of an address, or None when it varies"""
        f, off = self.f, 0
        for _ in range(30):
            v = vals.get(ref)
            if v is not None and v[0] == "p":
                return v[1], v[2] + off
            x = f.inst(ref)
            if x is None or x.op not in ("getelementptr", "bitcast", "freeze"):
                return (None if x is not None and x.op in ("phi", "select") else ref), off
            if x.op == "getelementptr":
                if x.d.get("off") is None:
                    return None, 0
                off += x.d["off"]
                for q, sc in x.d.get("var", []):
                    i = self.val(q, vals)
                    if i is None or i[0] != "i":
                        return None, 0
                    off += i[1] * sc
            ref = x.d["ops"][0]
        return None, 0

    def liveness(self):
        f = self.f
        use, dfn = [set() for _ in f.blocks], [set() for _ in f.blocks]
        for b, ins in enumerate(f.blocks):
            for x in ins:
                if x.op != "phi":
                    for o in x.d.get("ops", []):
                        if o[0] == "v" and o not in dfn[b]:
                            use[b].add(o)
                dfn[b].add(x.ref)
        out = [set() for _ in f.blocks]
        inn = [set() for _ in f.blocks]
        ch = True
        while ch:
            ch = False
            for b in range(len(f.blocks) - 1, -1, -1):
                o = set()
                for s in f.succs(b):
                    o |= inn[s] - {x.ref for x in f.blocks[s] if x.op == "phi"}
                    for x in f.blocks[s]:
                        if x.op == "phi":
                            o |= {v for v, p in x.d["phi"] if p == b}
                i = use[b] | (o - dfn[b])
                if i != inn[b] or o != out[b]:
                    inn[b], out[b], ch = i, o, True
        return inn

    # ------------------------------------------------------------ fixpoint
    def run(self, entry):
        f = self.f
        cells = frozenset(((b, k), v) for (b, k), v in entry)
        res = frozenset(((v[1], v[2]), "live") for (b, k), v in entry if v[0] == "r")
        inn = {0: {(cells, frozenset(), res)}}
        wl = [0]
        done = set()
        total = 0
        while wl:
            b = wl.pop()
            for s in list(inn[b]):
                if (b, s) in done:
                    continue
                done.add((b, s))
                total += 1
                if total > LIMIT * 20 or len(inn[b]) > LIMIT:
                    raise AnalysisError("too many resource states in %s" % f.dem)
                for k, t in self.block(b, s):
                    if t not in inn.setdefault(k, set()):
                        inn[k].add(t)
                        wl.append(k)
        self.c.count("resource_states", total)

    def val(self, ref, vals):
        k = const(ref)
        if k is None:
            k = vals.get(ref)
        if k is None and ref in self.tracked:
            k = ("p", ref, 0)
        return k

    def block(self, b, state):
        f = self.f
        work = [(0, dict(state[0]), dict(state[1]), dict(state[2]))]
        ins = f.blocks[b]
        while work:
            i, cells, vals, res = work.pop()
            while i < len(ins):
                x = ins[i]
                i += 1
                if x.op == "phi":
                    continue
                if x.op in ("call", "invoke"):
                    if x.op == "call" and not x.d.get("nounwind") and x.callee_name and x.callee_name not in self.nothrow and x.callee_name not in self.acquire \
                            and x.callee_name not in TESTED and not x.callee_name.startswith("llvm.") and not self.callee(x, vals) and not self.child(res):
                        self.exit(x, cells, vals, res)
                    outs = self.call(x, cells, vals, res)
                    if outs is None:
                        break
                    for o in outs[1:]:
                        work.append((i if x.op == "call" else len(ins) + 1, *o) if x.op == "call" else ("inv", x, *o))
                    cells, vals, res = outs[0]
                    if x.op == "invoke":
                        yield from self.leave_invoke(x, b, cells, vals, res)
                        for w in [w for w in work if w[0] == "inv"]:
                            work.remove(w)
                            yield from self.leave_invoke(w[1], b, *w[2:])
                        break
                elif x.op in ("ret", "resume"):
                    self.exit(x, cells, vals, res)
                    break
                elif x.op == "unreachable":
                    break
                elif x.op in ("br", "switch"):
                    for k in self.branch(x, vals):
                        yield self.go(b, k, cells, vals, res)
                    break
                else:
                    self.step(x, cells, vals, res)

    def leave_invoke(self, x, b, cells, vals, res):
        n = x.callee_name
        libc = n in TESTED or n in self.acquire and n != "_Znam" or n in RELEASE or n in ENDS or n == "dup2"
        libc = libc or n in self.nothrow or x.callee_name is None and self.callee(x, vals)
        yield self.go(b, x.d["normal"], cells, vals, res)
        if not libc and not (n in self.mod.fns and x.d.get("nounwind")):
            # the call did not return a value on this edge
            v = {k: q for k, q in vals.items() if k != x.ref}
            r = dict(res)
            if n in self.acquire:
                r = {k: q for k, q in res.items() if k[0] != x.i}
            yield self.go(b, x.d["unwind"], cells, v, r)

    def go(self, b, k, cells, vals, res):
        new = {}
        for x in self.f.blocks[k]:
            if x.op == "phi":
                for v, p in x.d["phi"]:
                    if p == b:
                        q = self.val(v, vals)
                        if q is not None and (q[0] in "fF" or q[0] == "p" and x.ref in self.interest or (q[0] == "r" or x.ty in ("i1", "i8", "i32", "ptr")) and (x.ref in self.interest or x.ty == "i1")):
                            new[x.ref] = q
        keep = {r: v for r, v in vals.items() if r in self.live[k]}
        keep.update(new)
        return k, (frozenset(cells.items()), frozenset(keep.items()), frozenset(res.items()))

    def branch(self, x, vals):
        f = self.f
        s = list(dict.fromkeys(f.succs(x.bb)))
        if x.op == "br" and len(x.d.get("ops", [])) == 3:
            v = self.val(x.d["ops"][0], vals)
            if v is not None and v[0] == "i":
                return [x.d["succ"][0] if v[1] else x.d["succ"][1]]
        if x.op == "switch":
            v = self.val(x.d["ops"][0], vals)
            cs = x.d.get("cases")
            if v is not None and cs is not None and "default" in x.d:
                can = []
                for cv, t in cs:
                    hit = self.cmp("eq", v, ("i", int(str(cv).lstrip("c"))))
                    if hit == ("i", 1):
                        return [t]
                    if hit is None:
                        can.append(t)
                return list(dict.fromkeys(can + [x.d["default"]]))
        return s

    # ------------------------------------------------------------ transfer
    def step(self, x, cells, vals, res):
        f = self.f
        o = x.d.get("ops", [])
        if x.op == "store":
            v = self.val(o[0], vals)
            if self.touches(o[1]) or (vals.get(o[1]) or "-")[0] == "p":
                b, k = self.place(o[1], vals)
                n = SIZE.get(x.d.get("vty"), 8)
                if b is None:
                    raise AnalysisError("variable offset into an object holding resources in %s" % f.dem)
                self.put(cells, b, k, n, v)
                if v is not None and v[0] == "r" and (f.inst(b) is None or f.inst(b).op != "alloca"):
                    self.hand(x, v, res)
            elif v is not None and v[0] == "r":
                self.hand(x, v, res)
        elif x.op == "load":
            b, k = self.place(o[0], vals)
            if b is not None and (b, k) in cells:
                vals[x.ref] = cells[(b, k)]
            else:
                vals.pop(x.ref, None)
        elif x.op == "getelementptr" and self.failed_index(x, o, vals):
            vals.pop(x.ref, None)
        elif x.op == "getelementptr":
            b, k = self.place(x.ref, {q: v for q, v in vals.items() if q != x.ref})
            if b is not None and x.ref in self.interest and (b in self.tracked):
                vals[x.ref] = ("p", b, k)
            else:
                vals.pop(x.ref, None)
        elif x.op in ("add", "sub", "mul", "shl"):
            a = [self.val(q, vals) for q in o]
            fs = [v for v in (self.val(q, vals) for q in o) if v is not None and v[0] in "fF"]
            if fs:
                vals[x.ref] = ("F", fs[0][1])
            elif all(q is not None and q[0] == "i" for q in a):
                p, q = a[0][1], a[1][1]
                vals[x.ref] = ("i", p + q if x.op == "add" else p - q if x.op == "sub" else p * q if x.op == "mul" else p << (q & 63))
            else:
                vals.pop(x.ref, None)
        elif x.op in ("icmp", "select", "trunc", "zext", "sext", "xor", "and", "or", "bitcast", "freeze", "ptrtoint", "inttoptr"):
            r = self.calc(x, o, vals)
            if r is None:
                vals.pop(x.ref, None)
            else:
                vals[x.ref] = r
        else:
            if x.op == "insertvalue":
                v = self.val(o[1], vals)
                if v is not None and v[0] == "r":
                    self.hand(x, v, res)
            vals.pop(x.ref, None)

    def failed_index(self, x, o, vals):
        for q in o:
            v = self.val(q, vals)
            if v is not None and v[0] in "fF":
                self.failed(x, v, "as an offset or address")
                return True
        return False

    def failed(self, x, v, how):
        self.say("failed-result", x, "the result of %s is used %s although the call may have failed" % (next(y.callee_name + " at " + y.where for y in self.tested if y.i == v[1]), how))

    def put(self, cells, b, k, n, v):
        for q in [q for q in cells if q[0] == b and k - 8 < q[1] < k + n and q[1] >= k]:
            del cells[q]
        if v is not None:
            if n == 8 and v[0] == "i" and v[1] not in (0,):
                u = v[1] % 2**64
                cells[(b, k)] = ("i", self.s32(u)) if u >> 32 in (0, 0xffffffff) else v
                cells[(b, k + 4)] = ("i", self.s32(u >> 32))
            elif n == 8 and v[0] == "i":
                cells[(b, k)] = v
                cells[(b, k + 4)] = v
            else:
                cells[(b, k)] = v

    @staticmethod
    def s32(u):
        u &= 0xffffffff
        return u - 2**32 if u >> 31 else u

    def calc(self, x, o, vals):
        a = [self.val(q, vals) for q in o]
        if x.op in ("bitcast", "freeze", "zext", "sext", "trunc", "ptrtoint", "inttoptr"):
            if a[0] is not None and x.op == "trunc" and a[0][0] == "i" and x.ty == "i1":
                return ("i", a[0][1] & 1)
            return a[0]
        if x.op == "icmp":
            return self.cmp(x.d["pred"], a[0], a[1])
        if x.op == "select":
            if a[0] is not None and a[0][0] == "i":
                return a[1] if a[0][1] else a[2]
            return a[1] if a[1] == a[2] else None
        if x.op in ("and", "or", "xor") and x.ty in ("i1", "i8", "i32"):
            if all(q is not None and q[0] == "i" for q in a):
                p, q = a[0][1], a[1][1]
                r = p & q if x.op == "and" else p | q if x.op == "or" else p ^ q
                return ("i", r & 1 if x.ty == "i1" else r)
            if x.ty == "i1" and x.op == "and" and ("i", 0) in a:
                return ("i", 0)
            if x.ty == "i1" and x.op == "or" and any(q is not None and q[0] == "i" and q[1] for q in a):
                return ("i", 1)
        return None

    def cmp(self, p, a, b):
        if a is None or b is None or a[0] == "F" or b[0] == "F":
            return None
        a, b = (("i", -1) if q[0] == "f" else q for q in (a, b))
        if a[0] == "p" and b[0] == "p":
            if a[1] != b[1]:
                return ("i", int(p == "ne")) if p in ("eq", "ne") else None
            a, b = ("i", a[2]), ("i", b[2])
        if "p" in (a[0], b[0]):
            return ("i", int(p == "ne")) if p in ("eq", "ne") and ("i", 0) in (a, b) else None
        if a[0] == "i" and b[0] == "i":
            s, t = a[1], b[1]
            u, w = s % 2**64, t % 2**64
            return ("i", int({"eq": s == t, "ne": s != t, "slt": s < t, "sle": s <= t, "sgt": s > t, "sge": s >= t, "ult": u < w, "ule": u <= w, "ugt": u > w, "uge": u >= w}[p]))
        if a[0] == "i":
            a, b = b, a
            p = {"slt": "sgt", "sle": "sge", "sgt": "slt", "sge": "sle", "ult": "ugt", "ule": "uge", "ugt": "ult", "uge": "ule"}.get(p, p)
        if b[0] == "i" and a[0] in "rg":
            # a resource: descriptor >= 0, process id > 0, pointer not null; address of a function: not null
            kind = self.kind(a) if a[0] == "r" else "ptr"
            lo = 1 if kind in ("fork", "ptr") else 0
            n = b[1]
            if p in ("eq", "ne") and n < lo:
                return ("i", int(p == "ne"))
            if kind in ("fd", "pipe", "fork"):
                if p in ("slt", "sle") and (n <= lo if p == "slt" else n < lo):
                    return ("i", 0)
                if p in ("sgt", "sge") and (n < lo if p == "sgt" else n <= lo):
                    return ("i", 1)
            elif p == "ugt" and n == 0:
                return ("i", 1)
        if a[0] == "r" and a == b and p in ("eq", "ne"):
            return ("i", int(p == "eq"))
        return None

    def kind(self, v):
        return v[3]

    def child(self, res):
        return any(s == "child" for s in res.values())

    # ------------------------------------------------------------ calls
    def callee(self, x, vals):
        """(function, index of the argument it releases) of an indirect call through a known deleter"""
        v = self.val(x.d["callee"], vals) if x.callee_name is None else ("g", x.callee_name)
        if v is None or v[0] != "g":
            return None
        return self.releases(v[1])

    def releases(self, name, depth=0):
        g = self.mod.fns.get(name)
        if name in RELEASE:
            return RELEASE[name], 0
        if g is None or g.decl or depth > 3 or len(g.blocks) > 12:
            return None
        for y in g.calls():
            r = self.releases(y.callee_name, depth + 1) if y.callee_name and y.callee_name != name else None
            if r and y.d["ops"][r[1]][0] == "a":
                return r[0], int(y.d["ops"][r[1]][1:])
        return None

    def call(self, x, cells, vals, res):
        """list of (cells, vals, res) after the call; None when it does not return"""
        f, n = self.f, x.callee_name
        o = x.d["ops"]
        here = (cells, vals, res)
        if n and IGNORE.match(n):
            return [here]
        if n in ENDS:
            return None
        if n in self.acquire and not (n == "__cxa_demangle" and o[1] != "n"):
            return self.obtain(x, self.acquire[n], cells, vals, res)
        for q in o:
            v = self.val(q, vals)
            if v is not None and v[0] in "fF" and n != "llvm.expect.i64":
                self.failed(x, v, "as an argument of %s" % (n and self.mod.fns[n].dem if n in self.mod.fns else n))
        if n in TESTED:
            self.use_all(x, o, vals, cells, res)
            self.c.saw("%s at %s" % (n, x.where))
            return [(cells, {k: q for k, q in vals.items() if k != x.ref}, res), (dict(cells), {**vals, x.ref: ("f", x.i)}, dict(res))]
        r = self.callee(x, vals)
        if n == "waitpid" and o[2] != "c0":
            r = None                     # WNOHANG: it may return without the child
        if r and (n is None or n in RELEASE or n in self.mod.fns):
            self.free(x, self.val(o[r[1]], vals), r[0], res)
            vals.pop(x.ref, None)
            return [here]
        if n and re.match(r"llvm\.mem(cpy|move)", n):
            if self.touches(o[0]) or self.touches(o[1]):
                d, s = self.place(o[0], vals), self.place(o[1], vals)
                if o[2][0] != "c" or d[0] is None or s[0] is None:
                    raise AnalysisError("an object holding resources is copied at a variable place in %s" % f.dem)
                ln = int(o[2][1:])
                new = {(d[0], q[1] - s[1] + d[1]): v for q, v in cells.items() if q[0] == s[0] and s[1] <= q[1] < s[1] + ln}
                self.put(cells, d[0], d[1], ln, None)
                cells.update(new)
                for v in new.values():
                    if v[0] == "r" and (f.inst(d[0]) is None or f.inst(d[0]).op != "alloca"):
                        self.hand(x, v, res)
            return [here]
        if n and n.startswith("llvm.memset") and self.touches(o[0]):
            d = self.place(o[0], vals)
            if d[0] is None:
                raise AnalysisError("an object holding resources is filled at a variable place in %s" % f.dem)
            ln = int(o[2][1:]) if o[2][0] == "c" else 8
            fill = {"c0": 0, "c-1": -1, "c255": -1}.get(o[1])
            self.put(cells, d[0], d[1], ln, None)
            if fill is not None:
                for k in range(d[1], d[1] + ln, 4):
                    cells[(d[0], k)] = ("i", fill)
            return [here]
        for q in o:
            v = self.val(q, vals)
            if v is not None and v[0] == "r":
                self.use(x, v, res)
            if q[0] in "va" and self.touches(q):
                y = f.inst(self.place(q, vals)[0] or "n")
                if y is None or y.op != "alloca":
                    continue
                held = [v for k, v in cells.items() if k[0] == y.ref and v[0] == "r"]
                g = self.mod.fns.get(n or "")
                if n and self.free_like.search(n):
                    for v in held:
                        self.free(x, v, "mem", res)
                elif held and g is not None and not g.decl and not re.match(r"_ZNK?S|_ZS", n):
                    raise AnalysisError("an object holding resources is handed to %s in %s" % (g.dem[:80], f.dem))
        if n in ("dup2", "fread", "fseek"):
            self.use_all(x, o, vals, cells, res)
        if n == "kill":
            v = self.val(o[0], vals)
            if v is not None and v[0] == "i" and v[1] <= 0:
                self.say("wrong-child", x, "kill is given the result of a failed fork, it signals every process")
        vals.pop(x.ref, None)
        return [here]

    def use_all(self, x, o, vals, cells, res):
        f, n = self.f, x.callee_name
        for q in o:
            v = self.val(q, vals)
            if v is not None and v[0] == "r":
                self.use(x, v, res)
        q = o[3] if n == "fread" else o[0]
        y = f.inst(q)
        if y is not None and y.op == "load" and self.touches(y.d["ops"][0]) and self.val(q, vals) is None:
            self.say("unset-resource", x, "%s uses a descriptor that was never obtained" % n)
        v = self.val(q, vals)
        if v is not None and v[0] == "i" and v[1] < 0:
            self.say("unset-resource", x, "%s uses a descriptor that is closed or was never obtained" % n)

    def obtain(self, x, kind, cells, vals, res):
        f = self.f
        mine = [(x.i, 0)]
        if kind == "pipe":
            b, k = self.place(x.d["ops"][0], vals)
            if b is None:
                raise AnalysisError("a pipe is made at a variable place in %s" % f.dem)
            mine = [(x.i, (b, k, j)) for j in (0, 1)]
        for k in mine:
            if res.get(k) == "live":
                self.say("leak", x, "a %s is obtained again while the one from the previous iteration is still held" % NAMES[kind])
        clean = {k: s for k, s in res.items() if k not in mine}
        self.c.saw("%s at %s" % (x.callee_name, x.where))
        if kind == "pipe":
            good = dict(cells)
            for i, j in mine:
                good[(j[0], j[1] + 4 * j[2])] = ("r", i, j, "pipe")
            return [(good, {**vals, x.ref: ("i", 0)}, {**clean, **{k: "live" for k in mine}}), (dict(cells), {**vals, x.ref: ("i", -1)}, dict(clean))]
        v = ("r", x.i, 0, kind)
        out = [(dict(cells), {**vals, x.ref: v}, {**clean, (x.i, 0): "live"})]
        if kind == "fork":
            out.append((dict(cells), {**vals, x.ref: ("i", 0)}, {**clean, (x.i, 0): "child"}))
        if x.callee_name not in ("_Znam", "_Znwm"):
            out.append((dict(cells), {**vals, x.ref: ("i", 0 if kind == "ptr" else -1)}, dict(clean)))
        return out

    def name(self, v):
        x = self.f.insts[v[1]] if isinstance(v[1], int) and v[1] < len(self.f.insts) and self.f.insts[v[1]].i == v[1] else next((y for y in self.f.insts if y.i == v[1]), None)
        end = " (%s end)" % ("read", "write")[v[2][2]] if v[3] == "pipe" else ""
        return "%s%s obtained at %s" % (NAMES[v[3]], end, x.where if x is not None else "the caller")

    def free(self, x, v, how, res):
        if v is None:
            return
        if v[0] == "i":
            if how == "file" and v[1] == 0 and x.callee_name in RELEASE:
                self.say("unset-resource", x, "%s is given a null handle" % x.callee_name)
            if how == "pid" and v[1] < 0:
                self.say("wrong-child", x, "waitpid is given the result of a failed fork, it waits for an unrelated child")
            return
        if v[0] != "r":
            return
        self.c.count("releases")
        s = res.get((v[1], v[2]))
        right = {"pipe": "fd", "fd": "fd", "fork": "pid"}.get(v[3])
        if right and how != right or not right and how in ("fd", "pid"):
            self.say("wrong-release", x, "the %s is released by the wrong function" % self.name(v))
        if s == "released" and not self.child(res):
            self.say("double-release", x, "the %s is released twice" % self.name(v))
        elif s == "released":
            self.say("double-release", x, "the %s is closed twice in the child" % self.name(v))
        elif s == "handed":
            self.say("double-release", x, "the %s is released here and also kept by the object it was given to" % self.name(v))
        if s != "child":
            res[(v[1], v[2])] = "released"

    def hand(self, x, v, res):
        s = res.get((v[1], v[2]))
        if s == "released":
            self.say("use-after-release", x, "the %s is handed out after it was released" % self.name(v))
        elif s == "live":
            res[(v[1], v[2])] = "handed"

    def use(self, x, v, res):
        if res.get((v[1], v[2])) == "released" and (self.f.mod.fns.get(x.callee_name or "") is None or True):
            self.say("use-after-release", x, "the %s is used after it was released" % self.name(v))

    def exit(self, x, cells, vals, res):
        if x.op == "ret":
            for o in x.d.get("ops", []):
                v = self.val(o, vals)
                if v is not None and v[0] == "r":
                    self.owners = True
                    self.hand(x, v, res)
                if v is not None and v[0] in "fF" and self.f.d.get("rty", self.f.d.get("ret")) == "ptr":
                    self.failed(x, v, "as the address returned")
            self.ends.append((x, cells, vals, res))
        if self.child(res):
            self.say("child-continues", x, "the forked child can return into the caller's program")
            return
        for (i, k), s in res.items():
            if s == "live":
                y = next((z for z in self.f.insts if z.i == i), None)
                kind = self.acquire.get(y.callee_name) if y is not None else "ptr"
                self.say("leak", y if y is not None else x, "the %s is not released on every path (%s)" % (
                    self.name(("r", i, k, kind)), "exception leaving the function" if x.op != "ret" else "return at %s" % x.where))

    def say(self, kind, x, msg):
        if (kind, x.i, msg) not in self.seen:
            self.seen.add((kind, x.i, msg))
            self.report(kind, x, msg)
