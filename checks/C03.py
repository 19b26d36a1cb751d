"""field-by-field dependence of converted frames: which source field each destination field is computed from, for every element."""
import re
from front import AnalysisError, slice_steps
from containers import STOP, KEEP, APPEND, method, obj
from unwinders import NORMAL
from linear import add, const
from scev import Ev, ITER, layout
from C02 import key, leaf_values, returned, NEWA, ld

CONFIGS = ["unwind-addr2line"]
EXTRA = ["libunwind-libdl", "execinfo-libdl", "nothing-nothing"]
KEEPA = KEEP + "|" + ITER
COPY = re.compile(r"^(llvm\.mem(cpy|move)|memcpy$|memmove$)")


class Flow:
    def __init__(self, f, lay):
        self.f, self.lay = f, lay
        self.E = Ev(f, self.elem)
        self.users = {}
        for x in f.insts:
            if x.op in ("call", "invoke"):
                for k, o in enumerate(x.d["ops"]):
                    if o[0] in "av":
                        self.users.setdefault(key(self.E.ev(o)), []).append((x, k))
            elif x.op == "store":
                self.users.setdefault(("st", key(self.base(self.E.ev(x.d["ops"][1])))), []).append((x, 1))

    def base(self, e):
        """expression without constants and iteration terms"""
        return {t: v for t, v in e.items() if v and t != 1 and not (isinstance(t, tuple) and t[0] == "it")}

    def elem(self, x):
        d = self.f.mod.fns[x.callee_name].dem
        m = re.search(r"std::vector<([\w:]*(?:unsigned long)?)[,>]", d)
        if not m:
            return None
        t = m.group(1)
        return 8 if t == "unsigned long" else self.lay["size_frame"] if t.endswith("::stacktrace_frame") else self.lay["size_object_frame"] if t.endswith("::object_frame") else None

    def split(self, e):
        """(base key, loop, stride, offset) of an address"""
        its = [(t[1], v) for t, v in e.items() if isinstance(t, tuple) and t[0] == "it" and v]
        if len(its) > 1:
            return key(self.base(e)), "?", 0, e.get(1, 0)
        return key(self.base(e)), (its[0][0] if its else None), (its[0][1] if its else 0), e.get(1, 0)

    def sources(self, ref, out=None, seen=None):
        """addresses (split) of all memory the value is computed from"""
        out = set() if out is None else out
        seen = set() if seen is None else seen
        if ref in seen:
            return out
        seen.add(ref)
        f, E = self.f, self.E
        x = f.inst(ref)
        if x is None:
            return out
        if x.op == "load":
            out.add(self.split(E.ev(x.d["ops"][0])))
            a = f.inst(x.d["ops"][0])
            if a is not None and a.op == "alloca":
                self.content(x.d["ops"][0], out, seen)
            return out
        if x.op == "phi":
            for v, p in x.d["phi"]:
                self.sources(v, out, seen)
            return out
        if x.op == "alloca":
            self.content(ref, out, seen)
            return out
        if x.op in ("call", "invoke"):
            m = method(f, x)
            if m:
                o, rest = obj(f, x)
                self.object(o, out, seen)
                for r in rest:
                    self.sources(r, out, seen)
                return out
            if NEWA.match(x.callee_name or ""):
                self.content(ref, out, seen)
                return out
            for o in x.d["ops"]:
                self.object(o, out, seen)
            return out
        for o in x.d.get("ops", []):
            if o[0] in "v":
                self.sources(o, out, seen)
        return out

    def object(self, o, out, seen):
        """an object given by address: a temporary (its content) or a field somewhere"""
        f = self.f
        if o[0] not in "av":
            return
        x = f.inst(o)
        if x is not None and x.op in ("phi", "select") and x.ty == "ptr":
            if o not in seen:
                seen.add(o)
                for v in ([v for v, _ in x.d["phi"]] if x.op == "phi" else x.d["ops"][1:]):
                    self.object(v, out, seen)
            return
        if x is not None and x.op in ("alloca", "phi", "select", "call", "invoke"):
            self.sources(o, out, seen)
            if x.op not in ("call", "invoke"):
                return
        if (x is None and f.args[int(o[1:])]["ty"] == "ptr") or x is not None and x.ty == "ptr" and x.op in ("getelementptr",):
            # pointer to a field
            out.add(self.split(self.E.ev(o)))
        elif x is not None and x.op == "load":
            self.sources(o, out, seen)

    def content(self, ref, out, seen):
        """what is written to the object at ref"""
        k = key(self.E.ev(ref))
        for x, n in self.users.get(k, ()):
            m = method(self.f, x)
            name = x.callee_name or ""
            if name.startswith("llvm.lifetime") or m and (m[3] or m[1].startswith("~")):
                continue
            if COPY.match(name) and n != 0:
                continue
            g = self.f.mod.fns.get(name)
            if g is not None and g.d.get("args") and n < len(g.args) and g.args[n].get("readonly"):
                continue
            if n != 0 and not m and g is not None and g.args and g.args[0].get("sret"):
                continue
            for j, o in enumerate(x.d["ops"]):
                if j != n and o[0] in "av":
                    if COPY.match(name) and j == 1:
                        self.deref(o, out, seen)
                    else:
                        self.object(o, out, seen) if self.is_ptr(o) else self.sources(o, out, seen)
        for x, n in self.users.get(("st", key(self.base(self.E.ev(ref)))), ()):
            self.sources(x.d["ops"][0], out, seen)

    def deref(self, o, out, seen):
        x = self.f.inst(o)
        if x is None or x.op == "getelementptr" or x.op == "load":
            out.add(self.split(self.E.ev(o)))
        self.sources(o, out, seen)

    def is_ptr(self, o):
        x = self.f.inst(o)
        return x.ty == "ptr" if x is not None else self.f.args[int(o[1:])]["ty"] == "ptr"


def field_at(off, fields, sizes):
    for n, o in fields.items():
        if o <= off < o + sizes.get(n, 1):
            return n
    return None


def direct(fl, ref, seen=None):
    """the loads of which ref is one, unchanged (or null replaced by the sentinel)"""
    f, E = fl.f, fl.E
    x = f.inst(ref)
    seen = seen or set()
    if ref in seen:
        return True
    seen.add(ref)
    if x is None:
        return False
    if x.op == "load":
        return True
    if x.op in ("zext", "sext", "trunc", "freeze"):
        return direct(fl, x.d["ops"][0], seen)
    if x.op == "icmp" and x.d["pred"] == "ne" and x.d["ops"][1] == "c0":
        return direct(fl, x.d["ops"][0], seen)
    if x.op == "and" and x.d["ops"][1] == "c1":
        return direct(fl, x.d["ops"][0], seen)
    if x.op == "phi":
        for v, p in x.d["phi"]:
            if v in ("c-1", "c4294967295"):
                if not any(fc[0] == "cmp" and fc[1] == "eq" and fc[3] in ("c-1", "c4294967295") and direct(fl, fc[2]) for fc in E.L.F.on_edge(p, x.bb)):
                    return False
            elif not direct(fl, v, seen):
                return False
        return True
    return False


def compare(c, fl, name, what, writes, dfields, dsizes, sfields, ssizes, pair, dstride, sbase_ok, sstride, count):
    """writes: {dst field: [(inst, value refs or ('content', ref), split address)]}"""
    f, E = fl.f, fl.E

    def bad(x, tag, why):
        c.violation("%s:%s" % (name, tag), "field-flow", x.where if x is not None else "%s:%s" % (f.file, f.line), why)
    for d in dfields:
        if d not in pair:
            continue
        ws = writes.get(d, [])
        if not ws:
            bad(None, "unset:" + d, "%s does not set %s of the %s" % (name, d, what))
            continue
        got = set()
        for x, srcs, loop, numeric in ws:
            c.count("field_writes")
            for b, h, st, off in srcs:
                if not sbase_ok(b):
                    # constants and other data
                    continue
                s = field_at(off, sfields, ssizes)
                got.add(s)
                if s is None:
                    continue
                if h != loop or h is not None and st != sstride:
                    bad(x, "element:" + d, "%s takes %s of a %s from another element" % (name, d, what))
            if numeric is not None and not direct(fl, numeric):
                bad(x, "changed:" + d, "%s does not carry %s unchanged (or with the sentinel for an absent value)" % (name, d))
        if got != {pair[d]}:
            bad(ws[0][0], "field:" + d, "%s computes %s of the %s from %s" % (name, d, what, ", ".join(sorted(str(g) for g in got)) or "nothing"))


def run_forward(c, cfg, lay, name, dpre, spre, pair, expect):
    m = c.module(cfg, slice_steps("=" + name, "", STOP, KEEPA, NORMAL))
    f = m.fns[name]
    fl = Flow(f, lay)
    E = fl.E
    c.saw("%s [%s]" % (name, cfg))

    def bad(x, tag, why):
        c.violation("%s:%s" % (name, tag), "field-flow", x.where if x is not None else "%s:%s" % (f.file, f.line), why)
    rets = []
    for x in f.insts:
        if x.op == "ret":
            for v in x.d["ops"]:
                rets += [l for l, _ in returned(f, v)]
    arrays = sorted({l for l in rets if f.inst(l) is not None and NEWA.match(f.inst(l).callee_name or "")})
    counts = [l for l in rets if f.inst(l) is not None and f.inst(l).ty == "i64"]
    if not arrays or not counts:
        raise AnalysisError("the array %s returns was not recognised" % name)
    dfields = {k.split("__")[1]: v for k, v in lay.items() if k.startswith("off_%s__" % dpre)} if dpre else {"address": 0}
    sfields = {k.split("__")[1]: v for k, v in lay.items() if k.startswith("off_%s__" % spre)} if spre else {"address": 0}
    ssz = {n: (lay["size_string"] if n in ("filename", "symbol", "object_path") else 4 if n in ("line", "column") else 1 if n == "is_inline" else 8) for n in sfields}
    dsz = {n: (4 if n in ("line", "column") else 1 if n == "is_inline" else 8) for n in dfields}
    dst = lay["size_" + dpre] if dpre else 8
    sst = lay["size_" + spre] if spre else 8
    srcs_c = set()
    for a in arrays:
        ak = key({("v", a): 1})
        writes = {}
        covered = False
        for x in f.insts:
            if x.op == "store":
                b, h, st, off = fl.split(E.ev(x.d["ops"][1]))
                if b != ak:
                    continue
                d = field_at(off, dfields, dsz)
                val = x.d["ops"][0]
                ss = fl.sources(val)
                numeric = val if d not in ("filename", "symbol", "obj_path", "object_path") else None
                writes.setdefault(d, []).append((x, ss, h, numeric))
                srcs_c |= {s[0] for s in ss}
                if h is not None:
                    if st != dst:
                        bad(x, "stride", "%s does not fill consecutive elements" % name)
                    if not any(E.runs_all(h, E.ev(n)) for n in counts):
                        bad(x, "range", "%s does not fill exactly the elements it reports" % name)
                    if not E.every_iteration(x, h):
                        bad(x, "every", "%s leaves %s of some elements unset" % (name, d))
                    covered = True
            elif COPY.match(x.callee_name or ""):
                b, h, st, off = fl.split(E.ev(x.d["ops"][0]))
                if b != ak or dpre:
                    continue
                s = fl.split(E.ev(x.d["ops"][1]))
                writes.setdefault("address", []).append((x, {s}, h, None))
                srcs_c.add(s[0])
                n = E.ev(x.d["ops"][2])
                if not any(key(n) == key({t: v * 8 for t, v in E.ev(k).items()}) for k in counts):
                    bad(x, "range", "%s does not copy exactly the addresses it reports" % name)
                covered = True
        if not covered:
            raise AnalysisError("how %s fills its array was not recognised" % name)
        okbase = lambda b: len(b) == 1 and b[0][0][0] == "data"
        compare(c, fl, name, "result", writes, dfields, dsz, sfields, ssz, pair, dst, okbase, sst, counts)
    # the elements come from the trace that the call before produced, the count is its size
    conts = {b[0][0][1] for b in srcs_c if len(b) == 1 and b[0][0][0] == "data"}
    for n in counts:
        e = key(E.ev(n))
        if not any(e == key({("size", k): 1}) for k in conts):
            bad(f.inst(n), "count", "%s reports a count that is not the number of frames of the trace it converts" % name)
    origin(c, fl, name, conts, expect, lay)


def origin(c, fl, name, conts, expect, lay):
    """the converted container was produced by the expected function from the addresses the caller passed / just captured"""
    f, E = fl.f, fl.E

    def bad(x, tag, why):
        c.violation("%s:%s" % (name, tag), "field-flow", x.where if x is not None else "%s:%s" % (f.file, f.line), why)
    for k in conts:
        for want in expect:
            prod = [x for x in f.calls() if x.d.get("sret") and E.path(x.d["ops"][0]) == k]
            if len(prod) != 1:
                raise AnalysisError("where %s gets its trace was not recognised" % name)
            x = prod[0]
            d = f.mod.fns[x.callee_name].dem if x.callee_name in f.mod.fns else ""
            c.count("origins")
            if want == "capture":
                if not re.search(r"::capture_frames\(", d):
                    bad(x, "origin", "%s does not work on a freshly captured trace" % name)
                break
            if not re.search(r"::%s\(" % want, d):
                bad(x, "origin", "%s converts the result of %s instead of %s" % (name, d, want))
                break
            k = E.path(x.d["ops"][1])
        if expect[-1] != "capture":
            filled(c, fl, name, k, lay)


def filled(c, fl, name, k, lay):
    """container k holds the raw addresses of the argument trace, all of them"""
    f, E = fl.f, fl.E

    def bad(x, tag, why):
        c.violation("%s:%s" % (name, tag), "field-flow", x.where, why)
    obj_ = "object" in name.split("resolve_")[1].split("_trace")[0]
    pre = "c_object_trace" if obj_ else "c_raw_trace"
    stride = lay["size_c_object_frame"] if obj_ else 8
    off = lay["off_c_object_frame__raw_address"] if obj_ else 0
    base = {("v", "a0"): 1}
    F, N = ld(add(base, const(lay["off_%s__frames" % pre]))), ld(add(base, const(lay["off_%s__count" % pre])))
    kF, kD = key(F), key({("data", k): 1})
    n = 0
    sized = False
    counts = [N]
    mts = [(method(f, x)[1], obj(f, x)[1]) for x in f.calls() if method(f, x) and E.path(obj(f, x)[0]) == k]
    if not any(mt in APPEND or mt in ("insert", "pop_back", "erase", "clear", "assign") for mt, r in mts):
        made = [r for mt, r in mts if mt in ("vector", "resize") and r]
        if made and all(key(E.ev(r[0])) == key(N) for r in made):
            counts.append({("size", k): 1})
    for x in f.insts:
        if x.op == "store":
            b, h, st, o = fl.split(E.ev(x.d["ops"][1]))
            if b != kD:
                continue
            n += 1
            for s in fl.sources(x.d["ops"][0]):
                if s[0] != kF:
                    continue
                if s[3] != off or s[1] != h or (h is not None and (s[2] != stride or st != 8)):
                    bad(x, "address", "%s resolves something other than the raw address of each frame" % name)
            if not any(s[0] == kF for s in fl.sources(x.d["ops"][0])):
                bad(x, "address", "%s resolves addresses that are not those of the trace it is given" % name)
            if h is not None and not (any(E.runs_all(h, q) for q in counts) and E.every_iteration(x, h)):
                bad(x, "all", "%s does not resolve every frame of the trace" % name)
            c.count("address_copies")
        elif COPY.match(x.callee_name or ""):
            b, h, st, o = fl.split(E.ev(x.d["ops"][0]))
            if b != kD:
                continue
            n += 1
            c.count("address_copies")
            s = fl.split(E.ev(x.d["ops"][1]))
            if s[0] != kF or s[3] != 0 or o != 0 or stride != 8:
                bad(x, "address", "%s resolves something other than the raw addresses of the trace" % name)
            if key(E.ev(x.d["ops"][2])) != key({t: 8 * v for t, v in N.items()}):
                bad(x, "all", "%s does not resolve every frame of the trace" % name)
        elif x.op in ("call", "invoke") and method(f, x):
            o, rest = obj(f, x)
            if E.path(o) != k:
                continue
            mt = method(f, x)[1]
            if mt in APPEND:
                n += 1
                c.count("address_copies")
                h = E.loop_of(x.bb)
                ss = fl.sources(rest[0]) | ({fl.split(E.ev(rest[0]))} if rest[0][0] in "av" else set())
                ok = [s for s in ss if s[0] == kF]
                if not ok or any(s[3] != off or s[1] != h or s[2] != stride for s in ok):
                    bad(x, "address", "%s resolves something other than the raw address of each frame" % name)
                elif h is None or not (E.runs_all(h, N) and E.every_iteration(x, h)):
                    bad(x, "all", "%s does not resolve every frame of the trace" % name)
            elif mt in ("vector", "assign", "insert", "resize") and rest:
                es = [key(E.ev(r)) for r in rest if r[0] in "avc"]
                if key(N) in es:
                    sized = True
                elif kF in es and key(add(F, {t: 8 * v for t, v in N.items()})) in es and stride == 8:
                    n += 1
                    c.count("address_copies")
                elif kF in es and key(add(F, {t: 8 * v for t, v in N.items()})) not in es:
                    bad(x, "all", "%s does not resolve every frame of the trace" % name)
                elif mt == "vector" and rest and any(e and e[0][0] == 1 for e in es[:1]):
                    bad(x, "all", "%s resolves a number of frames other than the count of the trace" % name)
    if not n:
        raise AnalysisError("how %s takes the addresses of its trace was not recognised" % name)


def run_reverse(c, cfg, lay, name):
    m = c.module(cfg, slice_steps("=" + name, "", STOP, KEEPA, NORMAL))
    f = m.fns[name]
    fl = Flow(f, lay)
    E = fl.E
    c.saw("%s [%s]" % (name, cfg))

    def bad(x, tag, why):
        c.violation("%s:%s" % (name, tag), "field-flow", x.where if x is not None else "%s:%s" % (f.file, f.line), why)
    base = {("v", "a0"): 1}
    F, N = ld(add(base, const(lay["off_c_trace__frames"]))), ld(add(base, const(lay["off_c_trace__count"])))
    kF = key(F)
    dfields = {k.split("__")[1]: v for k, v in lay.items() if k.startswith("off_frame__")}
    sfields = {k.split("__")[1]: v for k, v in lay.items() if k.startswith("off_c_frame__")}
    dsz = {n: (lay["size_string"] if n in ("filename", "symbol") else 4 if n in ("line", "column") else 1 if n == "is_inline" else 8) for n in dfields}
    ssz = {n: (4 if n in ("line", "column") else 1 if n == "is_inline" else 8) for n in sfields}
    tmps = [x for x in f.insts if x.op == "alloca" and "stacktrace_frame" in (x.d.get("aty") or "") and x.d.get("size") == lay["size_frame"]]
    done = 0
    for t in tmps:
        bk = key({("v", t.ref): 1})
        writes = {}
        apps = []
        for x in f.insts:
            if x.op == "store":
                b, h, st, off = fl.split(E.ev(x.d["ops"][1]))
                if b == bk:
                    d = field_at(off, dfields, dsz)
                    if d in ("filename", "symbol"):
                        continue
                    ss = fl.sources(x.d["ops"][0])
                    if not ss and leaf_values(f, x.d["ops"][0])[0][0] in "cn":
                        continue        # the default-initialised value
                    writes.setdefault(d, []).append((x, ss, E.loop_of(x.bb), x.d["ops"][0]))
            elif x.op in ("call", "invoke"):
                mm = method(f, x)
                if mm:
                    o, rest = obj(f, x)
                    b, h, st, off = fl.split(E.ev(o))
                    if b == bk and not mm[3] and not mm[1].startswith("~"):
                        ss = set()
                        for r in rest:
                            if r[0] in "av":
                                fl.object(r, ss, set()) if fl.is_ptr(r) else fl.sources(r, ss, set())
                        if ss:
                            writes.setdefault(field_at(off, dfields, dsz), []).append((x, ss, E.loop_of(x.bb), None))
                    if any(key(E.ev(r)) == bk for r in rest if r[0] in "av"):
                        apps.append((x, mm[1]))
        if not writes:
            continue
        done += 1
        pair = {n: n for n in dfields if n in sfields}
        compare(c, fl, name, "C++ frame", writes, dfields, dsz, sfields, ssz, pair, lay["size_frame"], lambda b: b == kF, lay["size_c_frame"], None)
        for x, mt in apps:
            h = E.loop_of(x.bb)
            c.count("appends")
            if h is None or not E.runs_all(h, N):
                bad(x, "range", "%s does not convert exactly the frames of the trace" % name)
            elif not E.every_iteration(x, h):
                bad(x, "every", "%s leaves frames of the trace out" % name)
    if not done:
        raise AnalysisError("how %s converts frames was not recognised" % name)


def run(c):
    c.rule("with the conversion helpers inlined, every field written to an element of a result is traced back to the loads and string accesses it is computed from; these must be exactly the field "
           "of the same meaning, of the same element (induction-variable normal form), numbers unchanged apart from the sentinel, every element written, and the count that of the source; "
           "the addresses resolved are those of the argument trace")
    lay = layout(c)
    fp = {"raw_address": "raw_address", "object_address": "object_address", "line": "line", "column": "column", "filename": "filename", "symbol": "symbol", "is_inline": "is_inline"}
    op = {"raw_address": "raw_address", "obj_address": "object_address", "obj_path": "object_path"}
    for a, b in (("raw_address", "raw_address"), ("address_relative_to_object_start", "relative_obj_address"), ("object_path", "object_path")):
        c.count("layout_pairs")
        if lay["off_safe_frame__" + a] != lay["off_c_safe_frame__" + b] or lay["size_safe_frame"] != lay["size_c_safe_frame"]:
            c.violation("safe-frame:" + a, "layout", "include/ctrace/ctrace.h:1", "%s of the C and the C++ signal-safe frame are at different offsets, so the C API returns the wrong field" % a)
    for cfg in CONFIGS + (EXTRA if c.thorough else []):
        run_forward(c, cfg, lay, "ctrace_generate_raw_trace", None, None, {"address": "address"}, ["capture"])
        run_forward(c, cfg, lay, "ctrace_generate_object_trace", "c_object_frame", "object_frame", op, ["get_frames_object_info", "capture"])
        run_forward(c, cfg, lay, "ctrace_generate_trace", "c_frame", "frame", fp, ["resolve_frames", "capture"])
        run_forward(c, cfg, lay, "ctrace_resolve_raw_trace", "c_frame", "frame", fp, ["resolve_frames"])
        run_forward(c, cfg, lay, "ctrace_resolve_raw_trace_to_object_trace", "c_object_frame", "object_frame", op, ["get_frames_object_info"])
        run_forward(c, cfg, lay, "ctrace_resolve_object_trace", "c_frame", "frame", fp, ["resolve_frames"])
        run_reverse(c, cfg, lay, "ctrace_stacktrace_to_string")
