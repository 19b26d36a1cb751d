"""ownership of what the C API hands out: typestate of the free functions, allocation/deallocation pairing, no foreign frees."""
import re
from front import AnalysisError, slice_steps
from containers import STOP, KEEP
from unwinders import NORMAL
from linear import add, const
from scev import Ev, ITER, layout
from flow import root, apath

CONFIGS = ["unwind-addr2line"]
EXTRA = ["libunwind-libdl", "execinfo-libdl", "unwind-libbacktrace", "nothing-nothing"]
DELA = re.compile(r"^_ZdaPv")
DEL = re.compile(r"^(_ZdlPv|_ZdaPv|free$|realloc$|cfree$)")
NEWA = re.compile(r"^_Znam")
NEW = re.compile(r"^(_Znwm|_Znam|malloc$|calloc$|strdup$|strndup$|realloc$|aligned_alloc$|__cxa_demangle$)")
KEEPA = KEEP + "|" + ITER


def key(e):
    return tuple(sorted(((t, v) for t, v in e.items() if v), key=str))


def leaf_values(f, ref, blocks=None, seen=None):
    """leaves of a value through phis/selects/casts; blocks: phi edges only from these blocks"""
    seen = set() if seen is None else seen
    if ref in seen:
        return []
    seen.add(ref)
    x = f.inst(ref)
    if x is None:
        return [ref]
    if x.op == "phi":
        return [l for v, p in x.d["phi"] if blocks is None or p in blocks for l in leaf_values(f, v, blocks, seen)]
    if x.op == "select":
        return [l for v in x.d["ops"][1:] for l in leaf_values(f, v, blocks, seen)]
    if x.op in ("bitcast", "freeze"):
        return leaf_values(f, x.d["ops"][0], blocks, seen)
    return [ref]


def reach(f, x):
    """blocks reachable after x (its own block only through a cycle), and the rest of its own block"""
    seen, st = set(), list(f.succs(x.bb))
    while st:
        b = st.pop()
        if b in seen:
            continue
        seen.add(b)
        st += f.succs(b)
    return seen


def null_edge(E, k):
    """is edge b->k taken only when the value with expression key is null?"""
    def t(b, s):
        return any(fc[0] == "cmp" and fc[1] == "eq" and fc[3] in ("n", "c0") and key(E.ev(fc[2])) == k for fc in E.L.F.on_edge(b, s))
    return t


def ld(e):
    return {("ld", key(e)): 1}


def stores_at(E, e):
    return [x for x in E.f.insts if x.op == "store" and key(E.ev(x.d["ops"][1])) == key(e)]


def zero_writes(E, e):
    """instructions that set the field at e to zero"""
    f = E.f
    out = [x for x in f.insts if x.op == "store" and x.d["ops"][0] in ("n", "c0") and key(E.ev(x.d["ops"][1])) == key(e)]
    for x in f.calls():
        if (x.callee_name or "").startswith("llvm.memset") and x.d["ops"][1] == "c0" and x.d["ops"][2][0] == "c":
            d = add(e, E.ev(x.d["ops"][0]), -1)
            if set(t for t, v in d.items() if v) <= {1} and 0 <= d.get(1, 0) < int(x.d["ops"][2][1:]):
                out.append(x)
    for x in f.insts:
        # a store wider than the field, e.g. of a zero vector
        if x.op == "store" and x.d["ops"][0] in ("z", "zero") and x.d.get("sz", 0) > 8:
            d = add(e, E.ev(x.d["ops"][1]), -1)
            if set(t for t, v in d.items() if v) <= {1} and 0 <= d.get(1, 0) < x.d["sz"]:
                out.append(x)
    return out


def check_free(c, cfg, name, frames, count, size, fields):
    m = c.module(cfg, slice_steps("=" + name, "", STOP, KEEPA, NORMAL))
    f = m.fns[name]
    E = Ev(f)
    c.saw("%s [%s]" % (name, cfg))

    def bad(x, tag, why):
        c.violation("%s:%s" % (name, tag), "free-typestate", x.where if x is not None else "%s:%s" % (f.file, f.line), why)
    base = {("v", "a0"): 1}
    fa = add(base, const(frames))
    F = ld(fa)
    kF = key(F)
    dels = [x for x in f.calls() if DEL.match(x.callee_name or "")]
    want = {}
    for fl, off in fields.items():
        want[fl] = off
    own, elems = [], {}
    for x in dels:
        c.count("deletes")
        e = E.ev(x.d["ops"][0])
        k = key(e)
        if not DELA.match(x.callee_name):
            bad(x, "form:%s" % x.callee_name, "%s releases memory allocated with new[] by a different form of deallocation" % name)
        if k == kF:
            own.append(x)
            continue
        fl = None
        if len(k) == 1 and k[0][1] == 1 and isinstance(k[0][0], tuple) and k[0][0][0] == "ld":
            d = add(dict(k[0][0][1]), F, -1)
            its = [t for t, v in d.items() if isinstance(t, tuple) and t[0] == "it" and v]
            if len(its) == 1 and d[its[0]] == -size and count is not None:
                # counting down: element count - 1 - it
                d = add(add(d, {t: v * size for t, v in ld(add(base, const(count))).items()}, -1), {its[0]: 2 * size, 1: size})
            if len(its) == 1 and d.get(its[0]) == size and not [t for t, v in d.items() if v and t not in (1, its[0])]:
                off = d.get(1, 0)
                fl = next((n for n, o in want.items() if o == off), None)
                if fl:
                    elems.setdefault(fl, []).append((x, its[0][1]))
        if fl is None:
            bad(x, "unexpected", "%s releases something other than the array of the trace and the strings of its frames (or frames other than the first count)" % name)
    if not own:
        bad(None, "array", "%s does not release the array" % name)
    cnt = ld(add(base, const(count))) if count is not None else None
    for fl in want:
        if fl not in elems:
            bad(None, "leak:" + fl, "%s does not release %s of every frame" % (name, fl))
            continue
        for x, h in elems[fl]:
            k = key(E.ev(x.d["ops"][0]))
            ne = null_edge(E, k)
            exc = {(b, s) for b in E.loops[h] for s in f.succs(b) if ne(b, s)}
            c.count("element_loops")
            if not E.runs_all(h, cnt):
                bad(x, "range:" + fl, "the loop of %s that releases %s does not go over exactly count frames" % (name, fl))
            if not E.every_iteration(x, h, exc):
                bad(x, "skipped:" + fl, "%s does not release %s of some frames" % (name, fl))
            # the loop is reached before the array is released, and on every path that releases it
            for o in own:
                if h not in f.dom[o.bb]:
                    bad(x, "path:" + fl, "%s can release the array without releasing %s" % (name, fl))
    # at most once
    for x in dels:
        r = reach(f, x)
        for y in dels:
            if key(E.ev(x.d["ops"][0])) != key(E.ev(y.d["ops"][0])):
                continue
            if y is x:
                its = [t for t, v in E.ev_terms(x.d["ops"][0]) if t[0] == "it"]
                if x.bb in r and not its:
                    bad(x, "twice", "%s releases the same pointer repeatedly" % name)
            elif y.bb in r and not (set(E.loops.get(E.loop_of(x.bb), ())) & {y.bb} and y.i < x.i and not straight(f, x, y, E)) or y.bb == x.bb and y.i > x.i:
                bad(y, "twice", "%s can release the same pointer twice" % name)
    # nothing of the array is used after its release
    for o in own:
        r = reach(f, o)
        for y in f.insts:
            if (y.bb in r or y.bb == o.bb and y.i > o.i) and y.op in ("load", "store"):
                p = E.ev(y.d["ops"][0 if y.op == "load" else 1])
                if ("ld", key(fa)) in p:
                    bad(y, "after-free", "%s uses the array after releasing it" % name)
    # the array is released on every path (null excepted), and then the object is reset
    nulled = {x.i for x in zero_writes(E, fa)}
    zeroed = {x.i for x in zero_writes(E, add(base, const(count)))} if count is not None else None
    ownset = {x.i for x in own}
    ne, na = null_edge(E, kF), null_edge(E, key(base))
    seen, st = set(), [(0, (False, False, zeroed is None, False))]
    while st:
        b, s = st.pop()
        if (b, s) in seen:
            continue
        seen.add((b, s))
        fr, nu, ze, ex = s
        for x in f.blocks[b]:
            if x.i in ownset:
                fr = True
            if x.i in nulled:
                nu = True
            elif x.op == "store" and key(E.ev(x.d["ops"][1])) == key(fa):
                nu = False
            if zeroed is not None and x.i in zeroed:
                ze = True
            if x.op == "ret":
                c.count("exits")
                if fr and not (nu and ze):
                    bad(x, "reset", "%s can return with the released object's pointer or count left set" % name)
                if not fr and not ex:
                    bad(x, "leak", "%s can return without releasing the array" % name)
        for k in dict.fromkeys(f.succs(b)):
            st.append((k, (fr, nu, ze, ex or ne(b, k) or na(b, k))))


def straight(f, x, y, E):
    """can y be reached from x without taking a back edge?"""
    seen, st = set(), [k for k in f.succs(x.bb) if k not in f.dom[x.bb]]
    while st:
        b = st.pop()
        if b in seen:
            continue
        seen.add(b)
        st += [k for k in f.succs(b) if k not in f.dom[b]]
    return y.bb in seen


def publics(m):
    return [f for f in m.defined() if f.name.startswith("ctrace_") and f.dem == f.name]


def check_other(c, cfg, name, out_strings):
    """functions other than the free functions: release only what they allocated and do not hand out; everything handed out
    comes from its own new[]"""
    m = c.module(cfg, slice_steps("=" + name, "", STOP, KEEPA, NORMAL))
    f = m.fns[name]
    E = Ev(f)
    c.saw("%s [%s]" % (name, cfg))

    def bad(x, tag, why):
        c.violation("%s:%s" % (name, tag), "ownership", x.where, why)
    handed = {}
    for x in f.insts:
        if x.op == "ret":
            for v in (x.d["ops"] or []):
                for l, b in returned(f, v):
                    handed.setdefault(l, []).append(x)
    dels = [x for x in f.calls() if DEL.match(x.callee_name or "")]
    for x in dels:
        c.count("other_deletes")
        for l in leaf_values(f, x.d["ops"][0]):
            y = f.inst(l)
            r = root(apath(f, l))
            if r[0] == "arg":
                bad(x, "foreign", "%s releases memory that belongs to its caller" % name)
                continue
            n = (y.callee_name or "") if y is not None and y.op in ("call", "invoke") else None
            if n and NEWA.match(n) and not DELA.match(x.callee_name):
                bad(x, "form", "%s releases an array allocated with new[] by a different form of deallocation" % name)
            if l in handed:
                # is it returned on a path that released it?
                rb = reach(f, x) | {x.bb}
                for t in f.insts:
                    if t.op == "ret" and t.bb in rb:
                        for v in t.d["ops"] or []:
                            if l in [w for w, _ in returned(f, v, reach(f, x) | ({x.bb}))]:
                                bad(x, "dangling", "%s can return memory it has released" % name)
    n = 0
    for l, rets in handed.items():
        y = f.inst(l)
        if l in ("n", "u") or l[0] == "c":
            continue
        if y is not None and y.op in ("call", "invoke"):
            if NEW.match(y.callee_name or ""):
                n += 1
                c.count("handed_out")
                if not NEWA.match(y.callee_name):
                    bad(y, "alloc-form", "%s hands out memory allocated by %s, which the free functions do not match" % (name, y.callee_name))
                continue
            if (y.ty or "") == "ptr" and not y.d.get("sret"):
                bad(y, "borrowed", "%s hands out a pointer it does not own" % name)
        elif y is not None and y.op == "load" and y.ty == "ptr" or l[0] == "a" and f.args[int(l[1:])]["ty"] == "ptr" or l[0] == "g" or y is not None and y.op == "getelementptr":
            bad(rets[0], "borrowed", "%s hands out a pointer it does not own" % name)
    # strings stored into an array that is handed out
    arr = [l for l in handed if f.inst(l) is not None and NEWA.match(f.inst(l).callee_name or "")]
    seen = {}
    for x in f.insts:
        if x.op != "store" or x.d.get("vty") != "ptr":
            continue
        e = E.ev(x.d["ops"][1])
        a = [l for l in arr if e.get(("v", l)) == 1]
        if not a:
            continue
        h = E.loop_of(x.bb)
        for l in leaf_values(f, x.d["ops"][0]):
            y = f.inst(l)
            if l == "n":
                continue
            c.count("strings_handed_out")
            if y is None or not NEWA.match(y.callee_name or ""):
                bad(x, "string-form", "a string handed out by %s does not come from new[]" % name)
            elif h is not None and E.loop_of(y.bb) != h:
                bad(x, "shared", "a string handed out by %s is shared between frames" % name)
            elif seen.setdefault(l, x) is not x and key(E.ev(seen[l].d["ops"][1])) != key(e):
                bad(x, "shared", "two strings handed out by %s share one allocation" % name)
    return n


def returned(f, ref, blocks=None, seen=None):
    """(leaf, inst) of the pointers inside a returned aggregate / sret"""
    seen = set() if seen is None else seen
    if ref in seen:
        return []
    seen.add(ref)
    x = f.inst(ref)
    if x is None:
        return [(ref, None)]
    if x.op == "insertvalue":
        return returned(f, x.d["ops"][0], blocks, seen) + returned(f, x.d["ops"][1], blocks, seen)
    if x.op == "phi":
        return [l for v, p in x.d["phi"] if blocks is None or p in blocks for l in returned(f, v, blocks, seen)]
    if x.op == "select":
        return [l for v in x.d["ops"][1:] for l in returned(f, v, blocks, seen)]
    if x.op in ("bitcast", "freeze"):
        return returned(f, x.d["ops"][0], blocks, seen)
    return [(ref, x)]


def run(c):
    c.rule("free functions, with their helpers inlined: every delete matches new[]; the array and the strings of exactly the frames 0..count-1 (induction-variable normal form of the loop) are "
           "released once, null excepted, and not used afterwards; pointer and count are reset on every exit that released.  Every other C function releases only allocations of its own that it "
           "does not return, and what it hands out comes from a new[] of its own, one per string")
    o = layout(c)
    for cfg in CONFIGS + (EXTRA if c.thorough else []):
        check_free(c, cfg, "ctrace_free_raw_trace", o["off_c_raw_trace__frames"], o["off_c_raw_trace__count"], 8, {})
        check_free(c, cfg, "ctrace_free_object_trace", o["off_c_object_trace__frames"], o["off_c_object_trace__count"], o["size_c_object_frame"], {"obj_path": o["off_c_object_frame__obj_path"]})
        check_free(c, cfg, "ctrace_free_stacktrace", o["off_c_trace__frames"], o["off_c_trace__count"], o["size_c_frame"],
                   {"filename": o["off_c_frame__filename"], "symbol": o["off_c_frame__symbol"]})
        check_free(c, cfg, "ctrace_free_owning_string", 0, None, 0, {})
        m = c.module(cfg, ())
        fs = [f.name for f in publics(m) if not f.name.startswith("ctrace_free_")]
        c.need(len(fs), "C API functions", 12)
        n = 0
        for name in fs:
            n += check_other(c, cfg, name, o)
        c.need(n, "allocations handed out", 8)
