"""ELF reading: every read is proved to stay inside its source and destination, every index and offset taken from the file is
proved to lie inside the table it indexes, and every multi-byte field is used only in the file's byte order."""
import re
import containers
from front import AnalysisError, slice_steps
from containers import method, obj
from ghost import Ghost
from bounds import obligations, element
from linear import add, const, var
from flow import Facts
from scev import ITER

P = r"^_ZNK?8cpptrace(2v[0-9]+)?6detail"
TAG = r"(B5cxx11)?E"
KNOWN = r"10get_strtab|12get_sections|10get_symtab|18get_dynamic_symtab|15get_header_info"
PUBLIC = r"13get_pc_ranges|13lookup_symbol|18get_symtab_entries|26get_dynamic_symtab_entries|21get_module_image_base|4open"
ROOTS = P + r"(3elf(" + PUBLIC + "|" + KNOWN + ")" + TAG + r"|[0-9]+\w*file\w*10read_bytesE)"
STOP = containers.STOP + r"|3elf(" + KNOWN + r")E|8microfmt|14internal_errorC|6detail(3log|6do_log|12byte_swapper|8byteswap)"
CFG = "unwind-addr2line-release"
READ = re.compile(P + r"\d+\w*10read_bytesE")
SWAP = re.compile(r"6detail(8byteswap|12byte_swapper)")


def pos(f, x):
    return f.blocks[x.bb].index(x)


def is_read(m, x):
    n = x.callee_name
    if n:
        return bool(READ.match(n))
    if not x.d.get("callee", "").startswith("v"):
        return False
    ts, kind = m.targets(x)
    return kind == "virtual" and bool(ts) and all(READ.match(t) for t in ts)


def short_fn(f):
    g = re.sub(r"\[abi:\w+\]", "", f.dem)
    g = re.search(r"([\w~]+::[\w~]+)\(", g)
    return g.group(1) if g else f.name


class Fn:
    def __init__(self, c, m, f):
        self.c, self.m, self.f = c, m, f
        self.G = Ghost(f, known=lambda g, x: {j for j in range(len(x.d["ops"])) if not x.d.get("sret") or j > 0} if is_read(m, x) else None)
        self.L = self.G.L
        self.F = Facts(f)
        self.name = short_fn(f)
        self.hyps()
        self.stable()

    def stable(self):
        """loads of one field of a table element with nothing in between that writes it"""
        f = self.f
        groups = {}
        for x in f.insts:
            if x.op == "load":
                b, k = self.G.place(x.d["ops"][0])
                y = f.inst(b)
                if k is not None and y is not None and y.op in ("call", "invoke", "phi", "select", "load"):
                    groups.setdefault((self.canon(b), k, x.ty), []).append(x)
        # differences of two positions in one container, first the byte distance, then the number of elements
        for x in f.insts:
            if x.op == "sub" and self.root(x.d["ops"][0]) is not None and self.root(x.d["ops"][0]) == self.root(x.d["ops"][1]):
                d = add(self.ptr(x.d["ops"][0]), self.ptr(x.d["ops"][1]), -1)
                if self.prove(d, x):
                    e = add(self.L.U(x.ref), d, -1)
                    self.eqs.append((x, [e, {q: -v for q, v in e.items()}]))
            elif x.op == "sdiv" and x.d.get("exact") and x.d["ops"][1][0] == "c" and any(y.ref == x.d["ops"][0] for y, _ in self.eqs):
                k = int(x.d["ops"][1][1:])
                e = add({q: v * k for q, v in self.L.U(x.ref).items()}, self.L.U(x.d["ops"][0]), -1)
                self.eqs.append((x, [e, {q: -v for q, v in e.items()}]))
        for l in groups.values():
            for y in l:
                best = None
                for x in l:
                    if x is not y and (x.bb == y.bb and pos(f, x) < pos(f, y) or x.bb != y.bb and f.dominates(x, y)) and self.quiet(x, y):
                        best = x
                        break
                if best is not None:
                    d = add(self.L.U(best.ref), self.L.U(y.ref), -1)
                    self.eqs.append((y, [d, {q: -v for q, v in d.items()}]))

    def ptr(self, ref):
        x = self.f.inst(ref)
        return self.L.P(x.d["ops"][0] if x is not None and x.op == "ptrtoint" else ref)

    def root(self, ref):
        x = self.f.inst(ref)
        if x is None or x.op != "ptrtoint":
            return None
        c = self.container_of(x.d["ops"][0])
        return c and self.G.place(c)

    def quiet(self, x, y):
        """no instruction on a path from x to y writes table elements"""
        f = self.f
        # blocks on paths x -> y that do not pass x again
        fw, st = set(), [s for s in f.succs(x.bb)]
        if x.bb == y.bb:
            return all(self.harmless(z) for z in f.blocks[x.bb][pos(f, x) + 1:pos(f, y)])
        while st:
            b = st.pop()
            if b in fw or b == x.bb:
                continue
            fw.add(b)
            if b != y.bb:
                st += f.succs(b)
        bw, st = set(), list(f.preds[y.bb])
        while st:
            b = st.pop()
            if b in bw or b == x.bb:
                continue
            bw.add(b)
            st += f.preds[b]
        if y.bb in bw:
            return False
        mid = [z for b in (fw & bw) - {y.bb} for z in f.blocks[b]]
        return all(self.harmless(z) for z in f.blocks[x.bb][pos(f, x) + 1:] + mid + f.blocks[y.bb][:pos(f, y)])

    def harmless(self, z):
        f = self.f
        if z.op == "store":
            b, k = self.G.place(z.d["ops"][1])
            y = f.inst(b)
            if b[0] == "a" or y is not None and y.op == "alloca":
                return True
            m = method(f, y) if y is not None and y.op in ("call", "invoke") else None
            return bool(y is not None and y.op in ("call", "invoke") and not m)
        if z.op not in ("call", "invoke"):
            return True
        n = z.callee_name or ""
        if n.startswith(("llvm.mem",)):
            b = self.G.place(z.d["ops"][0])[0]
            y = f.inst(b)
            return b[0] == "a" or y is not None and y.op == "alloca"
        if n.startswith("llvm.") or is_read(self.m, z) or "14internal_errorC" in n or SWAP.search(n) or re.search("6detail(3log|6do_log)", n):
            return True
        m = method(f, z)
        if m:
            # a container writes only its own elements; tables are not modified while their elements are in use
            return m[3] or m[1] in containers.READS or m[1].startswith("~") or m[0] != "vector" or bool(re.search(r"vector<char", f.mod.fns[n].dem)) or m[1] in ("vector",)
        return bool(re.match(r"_ZNK|_ZN\w*C[12]E|_ZSt|_ZN9__gnu_cxx", n)) or not n

    def canon(self, ref):
        for _ in range(30):
            x = self.f.inst(ref)
            if x is None:
                break
            if x.i in self.L.canon:
                ref = self.L.canon[x.i]
            elif x.op in ("bitcast", "freeze"):
                ref = x.d["ops"][0]
            else:
                break
        return ref

    def elt(self, x):
        """element size of the container class of a call"""
        g = self.f.mod.fns[x.callee_name]
        if re.search(r"(vector|basic_string)<(unsigned |signed )?char", g.dem):
            return 1
        cls = re.match(r"(.*)::~?[\w=\[\]+]+\(", re.sub(r" const$", "", g.dem))
        cls = cls.group(1) if cls else g.dem
        for y in self.f.calls():
            m = method(self.f, y)
            if m and m[1] in ("begin", "end", "data") and self.f.mod.fns[y.callee_name].dem.startswith(cls + "::"):
                st, seen = [y.ref], set()
                while st:
                    r = st.pop()
                    if r in seen:
                        continue
                    seen.add(r)
                    for u in self.f.users.get(r, ()):
                        if u.op == "phi":
                            st.append(u.ref)
                        elif u.op == "getelementptr" and u.d["ops"][0] == r:
                            if u.d.get("var"):
                                return u.d["var"][0][1]
                            q = u
                            # p + 1 that feeds back into the loop variable
                            if any(w.op == "phi" for w in self.f.users.get(q.ref, ())) and q.d.get("off"):
                                return abs(q.d["off"])
        return None

    def hyps(self):
        """end() - begin() and data() of one container at one size"""
        self.hyp, self.eqs = [], []
        pts = {}
        for x in self.f.calls():
            m = method(self.f, x)
            if m and m[1] in ("begin", "end", "data", "cbegin", "cend"):
                o, _ = obj(self.f, x)
                s = self.G.size_at(x, o)
                if s is not None:
                    pts.setdefault((self.G.place(o), s), []).append((m[1].lstrip("c"), x))
        for (o, s), l in pts.items():
            b = [x for k, x in l if k != "end"]
            for k, x in l:
                if not b or x is b[0]:
                    continue
                e = self.elt(x)
                if k == "end" and e is None:
                    continue
                d = add(self.L.P(x.ref), self.L.P(b[0].ref), -1)
                if k == "end":
                    d = add(d, {q: v * e for q, v in self.L.U(s).items()}, -1)
                self.hyp += [d, {q: -v for q, v in d.items()}]

    def prove(self, goal, x, extra=()):
        return self.L.prove(goal, x.bb, pos(self.f, x), self.known(x) + tuple(extra))

    def known(self, x):
        return tuple(self.hyp) + tuple(h for y, l in self.eqs if y is x or y.bb == x.bb and y.i < x.i or y.bb != x.bb and self.f.dominates(y, x) for h in l)

    # ---------------------------------------------------------------- regions
    def region(self, ref, x):
        """(base ref, capacity in bytes as a linear expression, offset expression, what) of a pointer"""
        f, L = self.f, self.L
        off = const(0)
        for _ in range(30):
            ref = self.canon(ref)
            y = f.inst(ref)
            if y is not None and y.op == "getelementptr" and y.d.get("off") is not None:
                off = add(off, const(y.d["off"]))
                for v in y.d.get("var", []):
                    off = add(off, L.idx(v[0]), v[1])
                ref = y.d["ops"][0]
                continue
            break
        y = f.inst(ref)
        if ref[0] == "a":
            k = int(ref[1:]) + 1
            if k < len(f.args) and f.args[k]["ty"] == "i64":
                return ref, L.U("a%d" % k), off, "span argument"
        if y is None:
            return None
        if y.op == "alloca":
            return ref, const(y.d["size"]), off, "object"
        if y.op == "load":
            b, k = self.G.place(y.d["ops"][0])
            if k is None or self.stored(b, k) or self.stored(b, k + 8):
                return None
            for z in f.insts:
                if z.op == "load" and z.ty == "i64" and self.G.place(z.d["ops"][0]) == (b, k + 8) and (f.dominates(z, x) or z.bb == x.bb and z.i < x.i):
                    return ref, L.U(z.ref), off, "span member"
        if y.op in ("call", "invoke"):
            m = method(f, y)
            if m and m[1] in ("data", "begin", "c_str"):
                o, _ = obj(f, y)
                s, e = self.G.size_at(x, o), self.elt(y)
                if s is not None and e:
                    return ref, {q: v * e for q, v in L.U(s).items()}, off, "container " + m[0]
        return None

    def stored(self, b, k):
        return any(z.op == "store" and self.G.place(z.d["ops"][1]) == (b, k) for z in self.f.insts)

    def inside(self, ref, length, x, what):
        """obligation: [ref, ref + length) lies in the region of ref"""
        self.c.count("region_obligations")
        self.c.saw("%s at %s" % (what, x.where))
        r = self.region(ref, x)
        if r is None:
            self.c.violation("%s:%s:region" % (self.name, what), "unbounded-region", x.where, "%s: the extent of the memory is not known here" % what)
            return
        b, cap, off, kind = r
        ok = self.prove(add(add(cap, off, -1), length, -1), x) and self.prove(off, x)
        if not ok:
            self.c.violation("%s:%s" % (self.name, what), "out-of-bounds", x.where,
                             "%s is not provably inside the %s it uses for every file content (sums and products may wrap)" % (what, kind))

    # ---------------------------------------------------------------- checks
    def accesses(self):
        c, f, L = self.c, self.f, self.L
        for x, kind, o, e in obligations(f, self.G):
            c.count("index_obligations")
            c.saw("%s at %s" % (kind, x.where))
            if e is None or not self.prove(e, x):
                c.violation("%s:%s" % (self.name, kind), "out-of-bounds", x.where, "%s is not provably inside the container for every file content" % kind)
        for x in f.calls():
            n = x.callee_name or ""
            a = x.d["ops"]
            if is_read(self.m, x):
                c.count("file_reads")
                k = 1 if x.d.get("sret") else 0
                self.inside(a[k + 1], L.U(a[k + 2]), x, "destination of a file read")
            elif re.match(r"llvm\.mem(cpy|move)|memcpy$|memmove$", n) and a[2][0] != "c":
                self.inside(a[0], L.U(a[2]), x, "copy destination")
                self.inside(a[1], L.U(a[2]), x, "copy source")
            elif n == "fread":
                one = [o for o in a[1:3] if o == "c1"]
                if not one:
                    raise AnalysisError("M01: fread with element size and count both variable at %s" % x.where)
                self.inside(a[0], L.U(a[2] if a[1] == "c1" else a[1]), x, "destination of fread")

    def offsets(self):
        """pointers formed with a variable offset into a container's buffer and used"""
        c, f = self.c, self.f
        for x in f.insts:
            if x.op != "getelementptr" or not x.d.get("var"):
                continue
            r = self.region(x.ref, x)
            if r is None or not r[3].startswith("container"):
                continue
            uses = [u for u in f.users.get(x.ref, ()) if u.op in ("call", "invoke", "load", "store", "phi", "ptrtoint", "select") and not (u.op == "call" and u.callee_name and is_lifetime(u))]
            # end-of-range computations only feed differences
            if uses and all(u.op == "ptrtoint" for u in uses) or not uses:
                continue
            c.count("offset_obligations")
            c.saw("offset into a table at %s" % x.where)
            b, cap, off, kind = r
            goal = add(add(cap, off, -1), const(-1))
            ok = True
            for u in uses:
                if u.op == "phi":
                    at = [self.L.prove(goal, p, len(f.blocks[p]), self.known(f.blocks[p][-1]), edge=None) for v, p in u.d["phi"] if v == x.ref]
                    ok = ok and all(at)
                else:
                    ok = ok and self.prove(goal, u)
            if not ok or not self.prove(off, x):
                c.violation("%s:table offset" % self.name, "out-of-bounds", x.where,
                            "an offset taken from the file is added to a table's address without a check against the table's size")

    def iterators(self):
        c, f = self.c, self.f
        for x in f.insts:
            if x.op != "load":
                continue
            ref = x.d["ops"][0]
            for _ in range(10):
                ref = self.canon(ref)
                y = f.inst(ref)
                if y is not None and y.op == "getelementptr" and not y.d.get("var"):
                    ref = y.d["ops"][0]
                else:
                    break
            cont = self.container_of(ref)
            if not cont:
                continue
            c.count("iterator_dereferences")
            if not self.valid(ref, x, cont):
                c.violation("%s:iterator" % self.name, "out-of-bounds", x.where, "an element is read through an iterator not shown to be inside the table")

    def container_of(self, ref, depth=0, seen=None):
        """container operand an iterator value comes from"""
        seen = seen or set()
        ref = self.canon(ref)
        y = self.f.inst(ref)
        if y is None or ref in seen or depth > 12:
            return None
        seen.add(ref)
        if y.op in ("call", "invoke"):
            m = method(self.f, y)
            if m and m[1] in ("begin", "end", "cbegin", "cend"):
                return obj(self.f, y)[0]
            if re.match(r"_ZSt11(upper|lower)_bound|_ZSt[0-9]+find", y.callee_name or ""):
                return self.container_of(y.d["ops"][0], depth + 1, seen)
            return None
        if y.op == "getelementptr":
            return self.container_of(y.d["ops"][0], depth + 1, seen)
        if y.op in ("phi", "select"):
            for v in ([v for v, _ in y.d["phi"]] if y.op == "phi" else y.d["ops"][1:]):
                r = self.container_of(v, depth + 1, seen)
                if r:
                    return r
        return None

    def edge(self, ref, name, cont):
        y = self.f.inst(self.canon(ref))
        m = method(self.f, y) if y is not None and y.op in ("call", "invoke") else None
        return bool(m and m[1] in (name, "c" + name) and self.G.place(obj(self.f, y)[0]) == self.G.place(cont))

    def differs(self, facts, ref, name, cont):
        ref = self.canon(ref)
        return any(fc[0] == "cmp" and fc[1] in ("ne", "ult", "ugt") and ref in (self.canon(fc[2]), self.canon(fc[3])) and
                   any(self.edge(q, name, cont) for q in fc[2:4]) for fc in facts)

    def valid(self, ref, x, cont, facts=None, depth=0):
        """the iterator points at an element: it differs from end and cannot lie before begin"""
        f = self.f
        ref = self.canon(ref)
        y = f.inst(ref)
        facts = self.F.at(x.bb) if facts is None else facts
        if y is None or depth > 4:
            return False
        if y.op == "phi":
            notend = self.differs(facts, ref, "end", cont)
            for v, p in y.d["phi"]:
                v = self.canon(v)
                z = f.inst(v)
                if self.edge(v, "end", cont):
                    if not notend:
                        return False
                elif self.edge(v, "begin", cont):
                    if not (notend or self.differs(self.F.on_edge(p, y.bb), v, "end", cont)):
                        return False
                elif z is not None and z.op == "getelementptr" and self.canon(z.d["ops"][0]) == ref:
                    if not notend or (z.d.get("off") or 0) <= 0 or z.d.get("var"):
                        return False
                elif not self.valid(v, x, cont, list(self.F.on_edge(p, y.bb)) + list(facts), depth + 1):
                    return False
            return True
        if y.op == "select":
            ok = True
            for v, t in ((y.d["ops"][1], True), (y.d["ops"][2], False)):
                fs = list(facts)
                self.F._expand(y.d["ops"][0], t, fs, 0)
                if self.edge(v, "end", cont) and self.differs(facts, ref, "end", cont):
                    continue
                ok = ok and self.valid(v, x, cont, fs, depth + 1)
            return ok
        if y.op == "getelementptr":
            k = y.d.get("off")
            base = self.canon(y.d["ops"][0])
            z = f.inst(base)
            e = k is not None and not y.d.get("var") and k < 0
            if e and z is not None and (re.match(r"_ZSt11(upper|lower)_bound", z.callee_name or "") or self.edge(base, "end", cont)):
                return self.differs(facts, base, "begin", cont)
            return False
        if re.match(r"_ZSt11(upper|lower)_bound", y.callee_name or "") or self.edge(ref, "begin", cont):
            return self.differs(facts, ref, "end", cont)
        return False

    # ---------------------------------------------------------------- raw file contents
    def raw_places(self):
        """(base, offset or None) of memory holding bytes as read from the file, followed through copies"""
        f = self.f
        objs, conts = {}, set()
        for x in f.calls():
            if is_read(self.m, x):
                k = 1 if x.d.get("sret") else 0
                b, o = self.G.place(self.canon(x.d["ops"][k + 1]))
                y = f.inst(b)
                if y is not None and y.op == "alloca":
                    objs.setdefault(b, set()).add(x.i)
                elif y is not None and y.op in ("call", "invoke"):
                    m = method(f, y)
                    if m:
                        conts.add(self.G.place(obj(f, y)[0]))
        changed = True
        while changed:
            changed = False
            for x in f.calls():
                if re.match(r"llvm\.mem(cpy|move)", x.callee_name or ""):
                    s, d = self.G.place(x.d["ops"][1])[0], self.G.place(x.d["ops"][0])[0]
                    y = f.inst(d)
                    if s in objs and d not in objs and y is not None and y.op == "alloca":
                        objs[d] = {x.i}
                        changed = True
        return objs, conts

    def raw_values(self):
        f = self.f
        objs, conts = self.raw_places()
        for x in f.insts:
            if x.op != "load" or x.ty in ("ptr", "i8", "i1"):
                continue
            b, k = self.G.place(x.d["ops"][0])
            if b in objs and k is not None and self.holds_file(x, b, k):
                yield x
            else:
                ref = x.d["ops"][0]
                for _ in range(10):
                    ref = self.canon(ref)
                    y = f.inst(ref)
                    if y is not None and y.op == "getelementptr":
                        ref = y.d["ops"][0]
                    else:
                        break
                cont = self.container_of(ref)
                if cont is None and y is not None and y.op in ("call", "invoke"):
                    mm = method(f, y)
                    cont = obj(f, y)[0] if mm and mm[1] in ("operator[]", "data", "front", "back", "at") else None
                if cont and self.G.place(cont) in conts:
                    yield x

    def holds_file(self, x, b, k):
        """the place is not the discriminator beside the object (which is stored to directly)"""
        return not any(z.op == "store" and z.d.get("vty") == x.ty and self.G.place(z.d["ops"][1]) == (b, k) for z in self.f.insts)

    def byte_order(self, polarity):
        c, f = self.c, self.f
        n = 0
        for x in self.raw_values():
            n += 1
            c.count("file_fields")
            c.saw("file field read at %s" % x.where)
            for u in f.users.get(x.ref, ()):
                if u.op in ("call", "invoke") and SWAP.search(u.callee_name or ""):
                    if polarity is not None and not self.endian(self.F.at(u.bb), u.bb, False, polarity):
                        c.violation("%s:swap" % self.name, "wrong-byte-order", u.where, "a file field is byte-swapped when the file has the host's byte order")
                    continue
                if u.op == "phi":
                    for v, p in u.d["phi"]:
                        if v == x.ref and not self.endian(self.F.on_edge(p, u.bb), p, True, polarity):
                            c.violation("%s:raw field" % self.name, "wrong-byte-order", x.where,
                                        "a multi-byte field of the file is used without conversion although its byte order may differ")
                    continue
                if u.op == "select" and x.ref in u.d["ops"][1:]:
                    fs = []
                    self.F._expand(u.d["ops"][0], u.d["ops"][1] == x.ref, fs, 0)
                    if self.endian(fs, u.bb, True, polarity):
                        continue
                if not (u.op in ("call",) and is_lifetime(u)):
                    if self.endian(self.F.at(u.bb), u.bb, True, polarity):
                        continue
                    c.violation("%s:raw field" % self.name, "wrong-byte-order", x.where,
                                "a multi-byte field of the file is used without conversion although its byte order may differ")
        return n

    def endian(self, facts, blk, native, polarity):
        """the facts say the file has (native) / has not the host's byte order"""
        off, val = polarity
        for fc in facts:
            ref = t = None
            if fc[0] == "val":
                ref, t = fc[1], fc[2]
            elif fc[0] == "cmp" and fc[1] in ("eq", "ne"):
                for q, o in ((fc[2], fc[3]), (fc[3], fc[2])):
                    if o in ("c0", "c1"):
                        ref, t = q, (o == "c1") == (fc[1] == "eq")
            if ref is None:
                continue
            for _ in range(5):
                y = self.f.inst(self.canon(ref))
                if y is not None and y.op in ("trunc", "zext"):
                    ref = y.d["ops"][0]
                else:
                    break
            if y is not None and y.op == "load":
                b, k = self.G.place(y.d["ops"][0])
                if k == off and b[0] == "a":
                    return t == (native == val)
        return False


def is_lifetime(x):
    return (x.callee_name or "").startswith(("llvm.lifetime", "llvm.dbg", "llvm.experimental"))


# ---------------------------------------------------------------------- byte order of the object
def polarity(c, m, little=True):
    """(offset of the byte-order flag in the ELF object, value of the flag for files of the host's order)"""
    out = set()
    for f in m.defined():
        if not re.match(P + r"3elf4openE", f.name):
            continue
        fn = Fn(c, m, f)
        for x in f.insts:
            if x.op != "icmp" or x.d["pred"] not in ("eq", "ne"):
                continue
            for q, o in (x.d["ops"], x.d["ops"][::-1]):
                if o[0] != "c" or o not in ("c1", "c2"):
                    continue
                y = f.inst(q)
                while y is not None and y.op in ("zext", "sext", "trunc"):
                    y = f.inst(y.d["ops"][0])
                if y is None or y.op != "load" or y.ty != "i8":
                    continue
                if fn.read_offset(y) != 5:
                    continue
                lsb = (o == "c1") == (x.d["pred"] == "eq")       # flag true <=> file is little endian
                for k in fn.stored_at(x):
                    out.add((k, lsb == little))
    return out


def _read_offset(self, y):
    """constant file offset of the read that fills the place a value is loaded from"""
    objs, _ = self.raw_places()
    b, k = self.G.place(y.d["ops"][0])
    seen = set()
    st = [b]
    offs = set()
    while st:
        b = st.pop()
        if b in seen:
            continue
        seen.add(b)
        for x in self.f.calls():
            if is_read(self.m, x):
                s = 1 if x.d.get("sret") else 0
                if self.G.place(self.canon(x.d["ops"][s + 1]))[0] == b:
                    o = x.d["ops"][s + 3]
                    offs.add(int(o[1:]) if o[0] == "c" else None)
            elif re.match(r"llvm\.mem(cpy|move)", x.callee_name or "") and self.G.place(x.d["ops"][0])[0] == b:
                st.append(self.G.place(x.d["ops"][1])[0])
        for x in self.f.insts:
            if x.op == "store" and self.G.place(x.d["ops"][1])[0] == b and x.d.get("vty") == "i8":
                z = self.f.inst(x.d["ops"][0])
                if z is not None and z.op == "load":
                    st.append(self.G.place(z.d["ops"][0])[0])
    return offs.pop() if len(offs) == 1 else None


def _stored_at(self, x):
    """offsets in an object at which the flag computed by x is stored, or passed to the object's constructor"""
    out = set()
    st, seen = [x.ref], set()
    while st:
        r = st.pop()
        if r in seen:
            continue
        seen.add(r)
        for u in self.f.users.get(r, ()):
            if u.op in ("zext", "trunc", "phi", "select", "xor"):
                st.append(u.ref)
            elif u.op == "store" and u.d["ops"][0] == r:
                b, k = self.G.place(u.d["ops"][1])
                out.add(k)
                for l in self.f.insts:
                    if l.op == "load" and self.G.place(l.d["ops"][0]) == (b, k):
                        st.append(l.ref)
            elif u.op in ("call", "invoke"):
                g = self.m.fns.get(u.callee_name or "")
                if g is not None and not g.decl and r in u.d["ops"]:
                    a = "a%d" % u.d["ops"].index(r)
                    sub = Fn(self.c, self.m, g)
                    t2, s2 = [a], set()
                    while t2:
                        q = t2.pop()
                        if q in s2:
                            continue
                        s2.add(q)
                        for w in g.users.get(q, ()):
                            if w.op in ("zext", "trunc"):
                                t2.append(w.ref)
                            elif w.op == "store" and w.d["ops"][0] == q and sub.G.place(w.d["ops"][1])[0] == "a0":
                                out.add(sub.G.place(w.d["ops"][1])[1])
    return {k for k in out if k}


Fn.read_offset = _read_offset
Fn.stored_at = _stored_at


# ---------------------------------------------------------------------- byte swapping
def bits(f, ref, memo):
    """list of source bits (least significant first): index into the argument, None = 0"""
    if ref in memo:
        return memo[ref]
    x = f.inst(ref)

    def width(ty):
        return int(ty[1:])
    if ref[0] == "c":
        return int(ref[1:])
    if x is None:
        return None
    o = [bits(f, r, memo) for r in x.d.get("ops", [])]
    w = width(x.ty) if re.match(r"i\d+$", x.ty or "") else None
    r = None
    if w and o and o[0] is not None:
        if x.op == "zext":
            r = o[0] + [None] * (w - len(o[0]))
        elif x.op == "trunc":
            r = o[0][:w]
        elif x.op == "sext":
            r = None if o[0][-1] is not None else o[0] + [None] * (w - len(o[0]))
            if r is None:
                r = o[0] + ["s"] * (w - len(o[0]))
        elif x.op in ("shl", "lshr", "ashr") and isinstance(o[1], int) and isinstance(o[0], list):
            k = o[1]
            if x.op == "shl":
                r = ([None] * k + o[0])[:w]
            else:
                r = o[0][k:] + ([None] * k if x.op == "lshr" or o[0][-1] is None else ["s"] * k)
        elif x.op == "and":
            a, b = (o[0], o[1]) if isinstance(o[0], list) else (o[1], o[0])
            if isinstance(b, int) and isinstance(a, list):
                r = [q if (b >> i) & 1 else None for i, q in enumerate(a)]
        elif x.op in ("or", "add", "xor") and isinstance(o[0], list) and isinstance(o[1], list):
            r = []
            for p, q in zip(o[0], o[1]):
                r.append("x" if p is not None and q is not None else p if q is None else q)
        elif x.op in ("call", "invoke") and (x.callee_name or "").startswith("llvm.bswap"):
            n = len(o[0]) // 8
            r = [b for k in range(n) for b in o[0][8 * (n - 1 - k):8 * (n - k)]]
        elif x.op == "freeze":
            r = o[0]
    memo[ref] = r
    return r


def check_swap(c):
    base = c.module(CFG)
    names = "=" + ",".join(f.name for f in base.defined() if re.match(P + r"8byteswapI", f.name))
    if names == "=":
        return
    m = c.module(CFG, slice_steps(names, "cpptrace", r"^$a", ""))
    for f in m.defined():
        if not re.match(P + r"8byteswapI", f.name):
            continue
        w = re.match(r"i(\d+)$", f.args[-1]["ty"])
        if not w:
            raise AnalysisError("M01: byteswap of a non-integer: %s" % f.dem)
        w = int(w.group(1))
        memo = {"a%d" % (len(f.args) - 1): list(range(w))}
        n = w // 8
        want = [8 * (n - 1 - k // 8) + k % 8 for k in range(w)]
        for x in f.insts:
            if x.op == "ret":
                c.count("byte_swaps")
                got = bits(f, x.d["ops"][0], memo)
                c.saw("byte order conversion of %d bits" % w)
                if got is None:
                    raise AnalysisError("M01: byte swap of %d bits not understood" % w)
                if got != want:
                    c.violation("byteswap:%d" % w, "wrong-byte-swap", x.where, "the %d-bit byte order conversion does not reverse the bytes" % w)


# ---------------------------------------------------------------------- success of a read
def check_success(c, fn):
    """a read reports success only when everything asked for was read"""
    f = fn.f
    errs = [x for x in f.calls() if "14internal_errorC" in (x.callee_name or "") and x.d["ops"] and fn.G.place(x.d["ops"][0])[0] == "a0"]
    calls = [x for x in f.calls() if (x.callee_name or "") in ("fread", "fseek", "fseeko", "read", "pread")]
    fills = calls or [x for x in f.calls() if re.match(r"llvm\.mem(cpy|move)|memcpy", x.callee_name or "") and x.d["ops"][2][0] != "c"]
    n = 0
    for x in f.insts:
        if x.op != "store" or x.d["ops"][0][0] != "c" or x.d.get("vty") != "i32":
            continue
        b, k = fn.G.place(x.d["ops"][1])
        if b != "a0":
            continue
        if any(f.dominates(e, x) or e.bb == x.bb and e.i < x.i for e in errs):
            continue
        n += 1
        c.count("read_success_exits")
        ok = False
        facts = fn.F.at(x.bb)
        if calls:
            rd = [y for y in calls if y.callee_name == "fread"]
            sk = [y for y in calls if y.callee_name.startswith("fseek")]
            ok = bool(rd) and all(any(eqf(fn, fc, y.ref, y.d["ops"][2]) for fc in facts) for y in rd) and \
                all(any(eqf(fn, fc, y.ref, "c0") for fc in facts) for y in sk)
        else:
            ok = any(f.dominates(y, x) or y.bb == x.bb and y.i < x.i for y in fills)
        if not ok:
            c.violation("%s:success" % fn.name, "short-read-accepted", x.where, "a read reports success although the bytes may not all have been read")
    c.need(n, "success exits of %s" % fn.name, 1)


def eqf(fn, fc, a, b):
    return fc[0] == "cmp" and fc[1] == "eq" and {fn.canon(fc[2]), fn.canon(fc[3])} == {fn.canon(a), fn.canon(b)}


def zero_filled(f, z):
    """resize(n) or vector(n): new elements are zero"""
    m = method(f, z)
    if not m or m[1] not in ("resize", "vector"):
        return False
    g = f.mod.fns[z.callee_name].dem
    return bool(re.search(r"(resize|vector)\(unsigned long(, std::allocator<[^(]*const&)?\)", g))


def terminated(c, fn):
    """a character table read from the file ends in a zero byte when it is handed out"""
    f = fn.f
    for x in f.calls():
        if not is_read(fn.m, x):
            continue
        k = 1 if x.d.get("sret") else 0
        r = fn.region(x.d["ops"][k + 1], x)
        if r is None or not r[3].startswith("container"):
            continue
        y = f.inst(r[0])
        if fn.elt(y) != 1:
            continue
        c.count("string_tables")
        o, _ = obj(f, y)
        n = fn.L.U(x.d["ops"][k + 2])
        if fn.prove(add(add(add(r[1], r[2], -1), n, -1), const(-1)), x) and any(
                zero_filled(f, z) and fn.G.place(obj(f, z)[0]) == fn.G.place(o) and (f.dominates(z, x) or z.bb == x.bb and z.i < x.i) for z in f.calls()):
            continue        # the last byte keeps the zero it was created with
        ok = False
        for z in f.insts:
            if z.op == "store" and z.d["ops"][0] == "c0" and z.d.get("vty") == "i8":
                e = element(f, z.d["ops"][1])
                if e and fn.G.place(e[0]) == fn.G.place(o) and f.dominates(x, z):
                    ok = True
        if not ok:
            c.violation("%s:terminator" % fn.name, "unterminated-table", x.where, "a string table is handed out without a terminating zero byte")


def run(c):
    c.rule("every virtual file read fits its destination and every copy/fread fits source and destination (linear arithmetic over 64-bit "
           "values that may wrap); every container index, table offset and iterator dereference is inside the table under the facts that "
           "hold there; a read reports success only after all bytes were read; string tables are zero-terminated; every multi-byte value "
           "loaded from memory filled from the file is used only through the byte-order conversion, chosen by the flag taken from "
           "e_ident[EI_DATA]; the conversion reverses the bytes (bit-level evaluation)")
    base = c.module(CFG)
    names = [f.name for f in base.defined() if re.match(ROOTS, f.name)]
    c.need(len([n for n in names if re.search(r"3elf(" + PUBLIC + ")", n)]), "ELF reader entry points", 5)
    c.need(len([n for n in names if READ.match(n)]), "file read functions", 2)
    m = c.module(CFG, slice_steps("=" + ",".join(names), "cpptrace", STOP, containers.KEEP + "|^_ZNK?St17reference_wrapper|" + ITER))
    pol = polarity(c, m)
    if len(pol) != 1:
        raise AnalysisError("M01: byte-order flag of the ELF object not identified (%d candidates)" % len(pol))
    pol = pol.pop()
    fields = 0
    for f in m.defined():
        if f.name not in names:
            continue
        c.count("functions")
        fn = Fn(c, m, f)
        fn.accesses()
        fn.offsets()
        fn.iterators()
        if READ.match(f.name):
            check_success(c, fn)
        else:
            fields += fn.byte_order(pol)
            terminated(c, fn)
    c.need(fields, "multi-byte file fields", 10)
    check_swap(c)
