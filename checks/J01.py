"""JIT object registry: tables and key fields discovered from registration; unregistering and clearing purge every table by
the same key; lookup answers only inside a range; the range table stays sorted; nothing is registered before it is validated."""
import re
import containers
from front import AnalysisError, slice_steps
from containers import method, obj
from ghost import Ghost
from scev import ITER
from flow import Facts, apath
from ir import operands

NSP = r"^cpptrace::(v[0-9]+::)?detail::"
ROOTS = NSP + r"(register_jit_object|unregister_jit_object|clear_all_jit_objects|lookup_jit_object)\("
STEPS = slice_steps(ROOTS, "cpptrace", containers.STOP + "|elf|8microfmt", containers.KEEP + "|" + ITER)
ADD = {"push_back", "emplace_back", "insert", "emplace"}
CFG = "unwind-addr2line-release"


def glob(f, o, b=None):
    """(global, offset) of a pointer into static storage"""
    if o and o[0] == "g":
        n, _, k = o[1:].partition("@")
        return n, int(k or 0)
    x = f.inst(o)
    if x is not None and x.op == "getelementptr" and not x.d.get("var") and x.d.get("off") is not None:
        r = glob(f, x.d["ops"][0])
        return r and (r[0], r[1] + x.d["off"])
    return None


def table_calls(f):
    for x in f.calls():
        m = method(f, x)
        if m and m[0] in ("vector", "deque"):
            o, rest = obj(f, x)
            t = glob(f, o)
            if t:
                yield x, t, m, rest


def reach_without(f, stops, start=0, targets=None):
    """blocks from which a normal return is reached from start without passing a block in stops"""
    seen, st = set(), [start]
    while st:
        b = st.pop()
        if b in seen or b in stops:
            continue
        seen.add(b)
        t = f.blocks[b][-1]
        if t.op == "ret":
            return b
        for k in f.succs(b):
            if not (t.op == "invoke" and k == t.d["unwind"]):
                st.append(k)
    return None


def chase(f, G, ref, depth=0):
    """follow canonical loads / single-source copies"""
    while depth < 20:
        x = f.inst(ref)
        if x is None:
            return ref
        if x.i in G.L.canon:
            ref = G.L.canon[x.i]
        elif x.op in ("bitcast", "freeze", "inttoptr", "ptrtoint"):
            ref = x.d["ops"][0]
        elif x.op == "phi" and len({v for v, _ in x.d["phi"]} - {x.ref}) == 1:
            ref = next(iter({v for v, _ in x.d["phi"]} - {x.ref}))
        else:
            return ref
        depth += 1
    return ref


def fields_of(f, G, x, place, size=64):
    """offset -> value stored in a local element object at x"""
    out = {}
    for t, b, k in G.bybase.get(place[0], ()):
        if t == "m" and k >= place[1]:
            v = G.value(x, ("m", b, k))
            if v is not None:
                out[k - place[1]] = chase(f, G, v)
    return out


def callback_fns(c, full, x):
    """repository functions a standard algorithm may call back"""
    par = full.reachable([x.callee_name])
    return [full.fns[n] for n in par if n in full.fns and not full.fns[n].decl and full.fns[n].file and
            re.match(r"(src|include)/", full.fns[n].file) and len(full.fns[n].args) == 2 and boolean(full.fns[n])]


def boolean(g):
    for y in g.insts:
        if y.op == "ret":
            v = g.inst(y.d["ops"][0]) if y.d.get("ops") else None
            return v is not None and v.ty == "i1" or bool(y.d.get("ops")) and v is None and y.d["ops"][0][0] == "c"
    return False


def predicate(full, fs):
    """('eq', key offset) of a two-argument predicate (closure, element); None if it is something else"""
    out = set()
    for g in fs:
        rets = [y for y in g.insts if y.op == "ret"]
        for r in rets:
            v = g.inst(r.d["ops"][0]) if r.d["ops"] else None
            if v is None or v.op != "icmp" or v.d["pred"] != "eq":
                return None
            offs = []
            for o in v.d["ops"]:
                p = place(g, o)
                offs.append(p)
            el = [p[2] for p in offs if p and p[0] == "a1" and p[1] == 1]
            cl = [p for p in offs if p and p[0] == "a0"]
            if len(el) != 1 or len(cl) != 1:
                return None
            out.add(el[0])
    return next(iter(out)) if len(out) == 1 else None


def place(g, o, depth=0):
    """(argument, number of loads, last offset) of a value"""
    loads, off = 0, 0
    while depth < 20:
        depth += 1
        if o[0] == "a":
            return o, loads, off
        x = g.inst(o)
        if x is None:
            return None
        if x.op == "load":
            loads += 1
            o = x.d["ops"][0]
            if loads > 1 and off:
                return None
        elif x.op == "getelementptr" and not x.d.get("var") and x.d.get("off") is not None:
            off += x.d["off"]
            o = x.d["ops"][0]
        elif x.op in ("bitcast", "freeze"):
            o = x.d["ops"][0]
        else:
            return None
    return None


def less_fields(fs, value_first):
    """offset compared by a strict ordering: (element < element) or, value_first, (value < element)"""
    out = set()
    for g in fs:
        rets = [y for y in g.insts if y.op == "ret"]
        if len(rets) != 1:
            return None
        v = g.inst(rets[0].d["ops"][0])
        if v is None or v.op != "icmp" or v.d["pred"] not in ("ult", "ugt"):
            return None
        a, b = v.d["ops"] if v.d["pred"] == "ult" else v.d["ops"][::-1]
        A, B = place(g, a), place(g, b)
        if not A or not B:
            return None
        if value_first:
            if A[0] != g_first(g, 1) or B[0] != g_first(g, 2) or A[1] > 1 or B[1] != 1:
                return None
            out.add(B[2])
        else:
            if A[0] != g_first(g, 0) or B[0] != g_first(g, 1) or A[1] != 1 or B[1] != 1 or A[2] != B[2]:
                return None
            out.add(A[2])
    return next(iter(out)) if len(out) == 1 else None


def g_first(g, k):
    return "a%d" % k


def run(c):
    c.rule("the registry's tables and the field of their elements that holds the key, the range bounds and the object are taken from "
           "the values registration stores; unregistering erases from every table, on every path, exactly the elements whose key field "
           "equals its argument; clearing empties every table; lookup reports an object only under the facts low <= pc (or the position "
           "found by a binary search over the table sorted by low) and pc < high of that element; no fallible step follows the first insertion")
    m = c.module(CFG, STEPS)
    full = c.module(CFG)
    F = {}
    for f in m.defined():
        q = re.search(NSP + r"(\w+)\(", f.dem)
        if q and re.search(ROOTS, f.dem):
            F[q.group(2)] = f
    c.need(len(F), "JIT registry functions", 4)
    c.count("functions", len(F))
    reg, G = F["register_jit_object"], Ghost(F["register_jit_object"])
    tables = {}
    owner = {}
    for x, t, mt, rest in table_calls(reg):
        if mt[1] not in ADD or not rest:
            continue
        p = G.place(rest[-1])
        fl = fields_of(reg, G, x, p) if p[1] is not None else {}
        keys = [k for k, v in fl.items() if v == "a0"]
        c.count("insertions")
        c.saw("insertion into %s+%d at %s" % (t[0], t[1], x.where))
        if not keys:
            c.violation("key:%d" % t[1], "no-key", x.where, "an element is added to a table without the registered address as its key")
        tables.setdefault(t, []).append((x, fl, keys, p))
    c.need(len(tables), "tables filled by registration", 1)
    rng = {}
    gets = {x.ref for x in reg.calls() if re.search(r"unique_ptr.*3getEv$", x.callee_name or "")}
    for t, l in tables.items():
        for x, fl, keys, p in l:
            low = [k for k, v in fl.items() if is_field(reg, v, 0)]
            high = [k for k, v in fl.items() if is_field(reg, v, 8)]
            ob = [k for k, v in fl.items() if v in gets]
            if low and high and ob:
                rng[t] = (low[0], high[0], ob[0], x, fl)
    c.need(len(rng), "table of code ranges", 1)
    t0, (kl, kh, ko, xi, fl) = next(iter(rng.items()))
    # the object a range points to is the one handed to an owning table
    x0 = reg.inst(fl[ko])
    up = x0.d["ops"][0]
    owned = False
    for x in reg.calls():
        if re.search(r"unique_ptr.*C[12]EO", x.callee_name or "") and x.d["ops"][1] == up:
            b, k = G.place(x.d["ops"][0])
            for t, l in tables.items():
                owned |= any(p[0] == b and reg.dominates(x, y) for y, _, _, p in l)
    for t, l in tables.items():
        for y, _, _, p in l:
            mt = method(reg, y)
            if mt[1] in ("emplace_back", "emplace") and up in y.d["ops"]:
                owned = True
    if not owned:
        c.violation("owner", "object-not-owned", xi.where, "the object a range refers to is not kept in any table")
    # sortedness
    lookup = F["lookup_jit_object"]
    GL = Ghost(lookup)
    binary = [x for x in lookup.calls() if re.match(r"_ZSt(11upper_bound|11lower_bound|15partition_point)", x.callee_name or "")]
    if binary:
        for x, fl_, keys, p in tables[t0]:
            mt = method(reg, x)
            ok = False
            if mt[1] in ("insert", "emplace"):
                o, rest = obj(reg, x)
                pos = reg.inst(chase(reg, G, rest[0]))
                if pos is not None and re.match(r"_ZSt11(upper|lower)_bound", pos.callee_name or "") and whole(reg, G, pos, t0):
                    fs = callback_fns(c, full, pos)
                    ok = less_fields(fs, False) == kl
            if not ok:
                for y in reg.calls():
                    if re.match(r"_ZSt(4sort|11stable_sort)", y.callee_name or "") and whole(reg, G, y, t0) and less_fields(callback_fns(c, full, y), False) == kl:
                        ok = reach_without(reg, {y.bb}, x.bb) is None
            c.count("sorted_insertions")
            if not ok:
                c.violation("sorted:%d" % t0[1], "not-sorted", x.where, "ranges are not inserted in the order the lookup's binary search relies on")
    # nothing fallible after the first insertion
    muts = [x for l in tables.values() for x, *_ in l]
    for x in muts:
        after = after_blocks(reg, x)
        for y in reg.calls():
            g = m.fns.get(y.callee_name or "")
            if g is not None and g.args and g.args[0].get("sret") and re.search(r"elf::|mach", g.dem) and (y.bb in after or y.bb == x.bb and y.i > x.i):
                c.violation("early:%s" % (y.callee_name or "")[:80], "registered-before-validated", y.where,
                            "a step that can reject the object runs after it was added to a table")
    # unregister
    un = F["unregister_jit_object"]
    GU = Ghost(un)
    for t, l in tables.items():
        keys = [set(k) for _, _, k, _ in l if k]
        keys = set.intersection(*keys) if keys else set()
        er = []
        for x, tt, mt, rest in table_calls(un):
            if tt != t or mt[1] != "erase":
                continue
            c.count("purges")
            c.saw("purge of %s+%d at %s" % (t[0], t[1], x.where))
            why = purge(c, full, un, GU, x, t, rest, keys)
            if why:
                c.violation("purge:%d" % t[1], "wrong-purge", x.where, why)
            er.append(x.bb)
        for x in un.calls():
            if re.search(r"^_ZSt8erase_ifI", x.callee_name or "") and glob(un, x.d["ops"][0]) == t:
                c.count("purges")
                if predicate(full, callback_fns(c, full, x)) not in keys:
                    c.violation("purge:%d" % t[1], "wrong-purge", x.where, "erase condition is not equality of the key field")
                er.append(x.bb)
        loops = {h: b for h, b in GU.L.loops.items() if any(e in b for e in er)}
        stops = set(er) | set(loops)
        b = reach_without(un, stops)
        if b is not None:
            c.violation("unpurged:%d" % t[1], "table-not-purged", un.blocks[b][-1].where,
                        "unregistering can return without removing the object's entries from a table that refers to it")
    # clear
    cl = F["clear_all_jit_objects"]
    for t in tables:
        stops = {x.bb for x, tt, mt, rest in table_calls(cl) if tt == t and (mt[1] == "clear" or mt[1] == "erase" and len(rest) == 2 and
                 edge_call(cl, rest[0], "begin", t) and edge_call(cl, rest[1], "end", t))}
        c.count("clears", len(stops))
        b = reach_without(cl, stops)
        if b is not None:
            c.violation("uncleared:%d" % t[1], "table-not-cleared", cl.blocks[b][-1].where,
                        "clearing all objects can leave entries in a table")
    check_lookup(c, full, lookup, GL, t0, kl, kh, ko)


def is_field(f, v, off):
    """value loaded from an element of the object's range list at off"""
    x = f.inst(v)
    if x is None or x.op != "load":
        return False
    k, o = 0, x.d["ops"][0]
    y = f.inst(o)
    while y is not None and y.op == "getelementptr" and not y.d.get("var"):
        k += y.d.get("off") or 0
        o = y.d["ops"][0]
        y = f.inst(o)
    return k == off and y is not None and (y.op == "phi" or y.op in ("call", "invoke"))


def after_blocks(f, x):
    seen, st = set(), list(f.succs(x.bb))
    while st:
        b = st.pop()
        if b in seen:
            continue
        seen.add(b)
        st += f.succs(b)
    return seen


def edge_call(f, ref, name, t, G=None):
    x = f.inst(chase(f, G, ref) if G else ref)
    m = method(f, x) if x is not None and x.op in ("call", "invoke") else None
    return bool(m and m[1] in (name, "c" + name) and glob(f, obj(f, x)[0]) == t)


def whole(f, G, x, t):
    o = x.d["ops"]
    return edge_call(f, o[0], "begin", t, G) and edge_call(f, o[1], "end", t, G)


def purge(c, full, f, G, x, t, rest, keys):
    """why the erase call x does not remove exactly the elements with the key, or None"""
    if len(rest) == 2:
        a = f.inst(chase(f, G, rest[0]))
        if a is None or not re.match(r"_ZSt9remove_if", a.callee_name or ""):
            return "erased range does not come from remove_if"
        if not whole(f, G, a, t):
            return "not the whole table is searched"
        if not edge_call(f, rest[1], "end", t, G):
            return "erased range does not extend to the end of the table"
        k = predicate(full, callback_fns(c, full, a))
        if k is None or k not in keys:
            return "elements are not selected by equality of the key field with the argument"
        env = a.d["ops"][2]
        if env != "a0":
            b, off = G.place(env)
            v = G.value(a, ("m", b, 0))
            y = f.inst(v) if v else None
            if v != "a0" and not (v and G.place(v)[0] in {q for q in [v]} and G.value(a, ("m", G.place(v)[0], 0)) == "a0"):
                return "elements are compared with something other than the argument"
        return None
    # one element, in a loop, guarded by key == argument
    p = rest[0]
    for fc in Facts(f).at(x.bb):
        if fc[0] == "cmp" and fc[1] == "eq":
            for q, o in ((fc[2], fc[3]), (fc[3], fc[2])):
                y = f.inst(q)
                if chase(f, G, o) == "a0" and y is not None and y.op == "load":
                    b, k = G.place(y.d["ops"][0])
                    if k in keys and (b == p or chase(f, G, b) == chase(f, G, p)):
                        return None
    return "an element is erased without its key being equal to the argument"


def check_lookup(c, full, f, G, t, kl, kh, ko):
    F = Facts(f)
    L = G.L
    res = "a0"
    n = 0
    for x in f.insts:
        if x.op != "store":
            continue
        b, k = G.place(x.d["ops"][1])
        if b != res or k != 0 or x.d.get("vty") != "ptr":
            continue
        n += 1
        c.count("lookup_results")
        v = f.inst(chase(f, G, x.d["ops"][0]))
        if v is None or v.op != "load":
            c.violation("lookup:object", "unknown-object", x.where, "the object returned is not read from the range table")
            continue
        eb, ek = elem(f, G, v.d["ops"][0])
        if ek % 32 != ko % 32 and ek != ko:
            c.violation("lookup:object", "wrong-field", x.where, "the object returned is not the one stored with the range")
            continue
        base = ek - ko
        low = high = False
        for fc in F.at(x.bb):
            if fc[0] != "cmp":
                continue
            for p, q, r in ((fc[1], fc[2], fc[3]), (swap(fc[1]), fc[3], fc[2])):
                if chase(f, G, q) != "a1":
                    continue
                y = f.inst(chase(f, G, r))
                if y is None or y.op != "load" or elem(f, G, y.d["ops"][0])[0] != eb:
                    continue
                o = elem(f, G, y.d["ops"][0])[1] - base
                if o == kh and p == "ult":
                    high = True
                if o == kl and p in ("uge", "ugt"):
                    low = low or p == "uge"
        if not low:
            low = searched(c, full, f, G, eb, base, t, kl, x)
        if not high:
            c.violation("lookup:high", "outside-range", x.where, "an object is returned without the address being below the end of its range")
        if not low:
            c.violation("lookup:low", "outside-range", x.where, "an object is returned without the address being at or above the start of its range")
    c.need(n, "objects returned by lookup", 1)


def swap(p):
    return {"ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule"}.get(p, p)


def elem(f, G, ref):
    """(element base value, offset)"""
    k = 0
    for _ in range(30):
        ref = chase(f, G, ref)
        x = f.inst(ref)
        if x is not None and x.op == "getelementptr" and not x.d.get("var") and x.d.get("off") is not None:
            k += x.d["off"]
            ref = x.d["ops"][0]
        else:
            break
    return ref, k


def searched(c, full, f, G, eb, base, t, kl, at):
    """the element is the last one whose low is not above the address: upper_bound(table, pc) - 1, with upper_bound != begin"""
    size = 32
    cands = [(eb, base, at.bb, [])]
    x = f.inst(eb)
    if x is not None and x.op in ("phi", "select"):
        # the other way in is the 'not found' position, excluded before use
        alts = []
        if x.op == "phi":
            alts = [(v, p, G.L.F.on_edge(p, x.bb)) for v, p in x.d["phi"]]
        else:
            cnd, a, b = x.d["ops"]
            for v, tr in ((a, True), (b, False)):
                fs = list(G.L.F.at(x.bb))
                G.L.F._expand(cnd, tr, fs, 0)
                alts.append((v, x.bb, fs))
        cands = []
        for v, p, fs in alts:
            b, k = elem(f, G, v)
            y = f.inst(b)
            m = method(f, y) if y is not None and y.op in ("call", "invoke") else None
            if m and m[1] in ("end", "cend") and k == 0:
                if not excluded(f, G, at, eb, t):
                    return False
                continue
            cands.append((b, k + base, p, fs))
    ok = bool(cands)
    for b, k, blk, fs in cands:
        y = f.inst(b)
        if y is None or not re.match(r"_ZSt11upper_bound", y.callee_name or "") or not whole(f, G, y, t) or k >= 0:
            return False
        # not the first position: there is an element before it
        if not any(fc[0] == "cmp" and fc[1] in ("ne", "ugt", "ult") and b in [chase(f, G, q) for q in fc[2:4]] and
                   any(edge_call(f, q, "begin", t, G) for q in fc[2:4]) for fc in list(fs) + G.L.F.at(blk)):
            return False
        pv = y.d["ops"][2]
        pb, pk = G.place(pv)
        if G.value(y, ("m", pb, pk)) != "a1" and pv != "a1":
            return False
        fs = [g for g in callback3(full, y)]
        if less_value(fs) != kl:
            return False
    return ok


def callback3(full, x):
    par = full.reachable([x.callee_name])
    return [full.fns[n] for n in par if n in full.fns and not full.fns[n].decl and full.fns[n].file and re.match(r"(src|include)/", full.fns[n].file)]


def less_value(fs):
    out = set()
    for g in fs:
        if len(g.args) != 3:
            continue
        r = less_fields([g], True)
        if r is None:
            return None
        out.add(r)
    return next(iter(out)) if len(out) == 1 else None


def excluded(f, G, at, eb, t):
    for fc in Facts(f).at(at.bb):
        if fc[0] == "cmp" and fc[1] == "ne":
            for q, o in ((fc[2], fc[3]), (fc[3], fc[2])):
                if chase(f, G, q) == eb or q == eb:
                    y = f.inst(chase(f, G, o))
                    m = method(f, y) if y is not None and y.op in ("call", "invoke") else None
                    if m and m[1] in ("end", "cend"):
                        return True
    return False
