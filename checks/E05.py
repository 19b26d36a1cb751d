"""Interceptor purity and protection typestate: the interceptor never reports a catch and collects only under the real handler's
answer; installation writes exactly one table pointer, with the replacement table sealed first and protections restored after."""
import os, re
from front import AnalysisError, slice_steps, VERIF, CONFIGS as ALLCFG
from pe import NS, specialise, setter_globals
from absorb import SETTER, noreturn, reporters, accessors
from throws import Throws, EXHAUST, IOS, tname
from flow import Facts, apath
from mem import base
from E04 import tls

PROBE = os.path.join(VERIF, "probes", "traced.cpp")
CFG = "unwind-addr2line"
COLLECT = NS + r"detail::maybe_collect_trace\(std::type_info"
PREPARE = NS + r"detail::do_prepare_unwind_interceptor\("
INTER = NS + r"detail::unwind_interceptor<.*>::can_catch\("
PREP_T = r"cpptrace::(v[0-9]+::)?detail::prepare_unwind_interceptor<"
SLOT = 6 * 8              # __do_catch in the libstdc++ type-info table, from the table's start
ENTRY = 2 * 8             # address point of the table
TABLE = 11 * 8
UNROLL = ("opt", "function(loop-simplify,lcssa,loop-mssa(loop-rotate),loop(indvars,loop-unroll-full),sroa,early-cse<memssa>,simplifycfg)")


def ret_consts(f):
    """values returned, through phis"""
    out, st, seen = set(), [x.d["ops"][0] for x in f.insts if x.op == "ret"], set()
    while st:
        r = st.pop()
        if r in seen:
            continue
        seen.add(r)
        x = f.inst(r)
        if x is not None and x.op == "phi":
            st += [v for v, _ in x.d["phi"]]
        elif x is not None and x.op == "select":
            st += x.d["ops"][1:]
        else:
            out.add(r)
    return out


def interceptors(c):
    m = c.module(CFG, slice_steps(INTER + "|" + PREP_T, "", r"maybe_collect_trace\(|do_prepare_unwind_interceptor\("), probes=(PROBE,))
    fs, ps = m.find(INTER), m.find(PREP_T)
    c.need(len(fs), "interceptor instantiations", 2)
    c.need(len(ps), "interceptor installations")
    cc = {}
    for f in fs:
        c.count("interceptors"); c.saw(f.dem)
        t = re.search(r"unwind_interceptor<(.*)>::can_catch\(", f.dem).group(1)
        cc[t] = f.name
        w = f.insts[0].where
        if ret_consts(f) != {"c0"}:
            c.violation("catches:" + t, "never-catches", w, "the interceptor for %s can report that it catches the exception" % t)
        for x in f.calls():
            g = m.fns.get(x.callee_name)
            if g is None or not re.search(COLLECT, g.dem):
                continue
            o = x.d["ops"]
            ti = m.fns.get(o[0][1:]) or m.globals.get(o[0][1:]) if o[0][0] == "g" else None
            want = {"void": "_ZTIv"}.get(t)
            name = o[0][1:].split("@")[0] if o[0][0] == "g" else ""
            if want is None:
                d = (ti or {}).get("dem") if isinstance(ti, dict) else None
                ok = d == "typeinfo for " + t if d else name.startswith("_ZTI")
            else:
                ok = name == want
            if not ok:
                c.violation("wrong-type:" + t, "asks-real-handler", x.where, "the interceptor for %s asks whether another type would be caught" % t)
            if o[1:4] != ["a1", "a2", "a3"]:
                c.violation("wrong-args:" + t, "asks-real-handler", x.where, "the interceptor for %s does not pass the thrown type and object on" % t)
    for f in ps:
        t = re.search(r"prepare_unwind_interceptor<(.*)>\(", f.dem).group(1)
        cs = [x for x in f.calls() if re.search(PREPARE, m.fns[x.callee_name].dem if x.callee_name in m.fns else "")]
        if not cs:
            c.violation("not-installed:" + t, "installs", f.insts[0].where, "preparing the interceptor for %s does not install it" % t)
        for x in cs:
            o = x.d["ops"]
            name = o[0][1:].split("@")[0] if o[0][0] == "g" else "?"
            if "unwind_interceptor" not in name or not name.startswith("_ZTI"):
                c.violation("installs-in:" + t, "installs", x.where, "the interceptor for %s is installed in the type information of another type" % t)
            if t in cc and o[1] != "g" + cc[t]:
                c.violation("installs-what:" + t, "installs", x.where, "the interceptor for %s installs another function" % t)


def collector(c, cfg):
    m = c.module(cfg, slice_steps(COLLECT, r"^cpptrace::", r"type_info::operator|capture_frames|lazy_trace_holder::|::log::|log_and"))
    fs = m.find(COLLECT)
    if len(fs) != 1:
        raise AnalysisError("collector not found")
    f = fs[0]
    F = Facts(f)
    c.saw("%s [%s]" % (f.dem, cfg))
    catch, void = set(), set()
    for x in f.calls():
        if x.callee_name is None:
            p = apath(f, x.d["callee"])
            if p == ("ld", ("gep", ("ld", ("arg", 0)), SLOT - ENTRY, ())):
                if x.d["ops"] == ["a0", "a1", "a2", "a3"]:
                    catch.add(x.ref)
                else:
                    c.violation("collector:args", "asks-real-handler", x.where, "the real handler is not asked about the exception being thrown [%s]" % cfg)
            else:
                c.violation("collector:slot", "asks-real-handler", x.where, "the collector calls something other than the real handler's catch test [%s]" % cfg)
        elif re.match(r"_ZNKSt9type_info(eq|ne)E", x.callee_name or ""):
            o = x.d["ops"]
            if {o[0], o[1]} == {"a0", "g_ZTIv"}:
                void.add((x.ref, "eqE" in x.callee_name))
    if not catch:
        c.violation("collector:never-asks", "asks-real-handler", f.insts[0].where, "the collector does not ask the real handler whether it catches [%s]" % cfg)

    def caught(conds):
        return any(k[0] == "val" and (k[1] in catch and k[2] or (k[1], k[2]) in void) for k in conds)

    def acts(x):
        if x.op in ("call", "invoke"):
            d = m.fns[x.callee_name].dem if x.callee_name in m.fns else ""
            return bool(re.search(r"^cpptrace::", d)) and not re.search(r"::log::", d)
        if x.op == "store":
            return any(b[0] == "g" and tls(m, b[1]) for b in base(f, x.d["ops"][1]))
        return False
    seen, st, n = set(), [(0, None, False)], 0
    while st:
        b, pred, ok = st.pop()
        if (b, pred, ok) in seen:
            continue
        seen.add((b, pred, ok))
        for x in f.blocks[b]:
            if acts(x):
                n += 1
                if not ok:
                    c.violation("collector:unconditional", "collects-only-if-caught", x.where, "a trace can be collected although the handler would not catch the exception [%s]" % cfg)
        t = f.blocks[b][-1]
        su = t.d.get("succ", [])
        if t.op == "br" and len(su) == 2:
            ref = t.d["ops"][0]
            ph = f.inst(ref)
            if ph is not None and ph.op == "phi" and ph.bb == b and pred is not None:
                ref = next(v for v, p in ph.d["phi"] if p == pred)
            for k, s in enumerate(su):
                if ref[0] == "c" and (ref != "c0") != (k == 0):
                    continue
                out = []
                F._expand(ref, k == 0, out, 0)
                st.append((s, b, ok or caught(out)))
        else:
            for s in set(su):
                st.append((s, b, ok))
    c.count("collecting_actions", n)
    if not n:
        raise AnalysisError("nothing is collected")


def surgery(c, cfg):
    m = c.module(cfg, slice_steps(PREPARE, r"^cpptrace::", r"get_page_protections|::log::|microfmt|internal_error|basic_string|log_and") + [UNROLL])
    fs = m.find(PREPARE)
    if len(fs) != 1:
        raise AnalysisError("installation function not found")
    f = fs[0]
    F = Facts(f)
    c.saw("%s [%s]" % (f.dem, cfg))
    order = {x.i: k for k, x in enumerate(f.insts)}

    def strip(r):
        """look through casts and reloads of the same local"""
        return apath(f, r)

    def exact(r):
        """(base ref, constant offset) of an address"""
        off = 0
        for _ in range(20):
            x = f.inst(r)
            if x is None:
                return r, off
            if x.op == "getelementptr" and x.d.get("off") is not None and not x.d.get("var"):
                off += x.d["off"]
                r = x.d["ops"][0]
            elif x.op in ("bitcast", "freeze"):
                r = x.d["ops"][0]
            else:
                return r, off
        return r, off

    def ok_known(ref, block, const, pred="eq"):
        return any(k[0] == "cmp" and k[1] == pred and {k[2], k[3]} == {ref, const} for k in F.at(block))

    def v(key, x, msg):
        c.violation("install:" + key, "protections", x.where, "installing the interceptor %s [%s]" % (msg, cfg))
    pages = {x.ref for x in f.calls() if x.callee_name in ("mmap", "mmap64")}
    if not pages:
        raise AnalysisError("no page is allocated for the replacement table")
    # state: block, index of facts: copied, slot, sealed(ref), open (ptr path, len path, ref), published, exceptional
    ALL = frozenset(range(0, TABLE, 8))
    init = (frozenset(), False, None, None, False, False)
    seen, st = set(), [(0, init)]
    pubs = 0
    while st:
        b, s = st.pop()
        if (b, s) in seen:
            continue
        seen.add((b, s))
        copied, slot, sealed, opened, pub, exc = s
        dead = False
        for x in f.blocks[b]:
            tgt = None
            if x.op == "store":
                tgt, size, val = x.d["ops"][1], x.d.get("sz"), x.d["ops"][0]
            elif x.op in ("call", "invoke"):
                n = x.callee_name or ""
                if n.startswith(("llvm.memcpy", "llvm.memmove", "llvm.memset")) or n in ("memcpy", "memmove", "memset"):
                    tgt, size, val = x.d["ops"][0], x.d["ops"][2], x.d["ops"][1]
                elif n == "mprotect":
                    c.count("protection_changes")
                    p, ln, pr = x.d["ops"][:3]
                    bs, off = exact(p)
                    if bs in pages:
                        if off:
                            v("seal-address", x, "does not seal the whole replacement table")
                        if pr[0] != "c" or int(pr[1:]) & 2:
                            v("not-sealed", x, "leaves the replacement table writable")
                        else:
                            if not (ALL - {SLOT} <= copied and slot):
                                v("sealed-early", x, "seals the replacement table before it is complete")
                            sealed = x.ref
                    elif opened is None:
                        if pr[0] == "c" and int(pr[1:]) & 2:
                            if pub:
                                v("reopen", x, "makes the page writable again after the table pointer was written")
                            opened = (strip(p), strip(ln), x.ref)
                        else:
                            v("protect", x, "changes the protection of memory it did not make writable")
                    else:
                        if strip(p) != opened[0]:
                            v("restore-where", x, "restores the protection of another page than the one it made writable")
                        if strip(ln) != opened[1]:
                            v("restore-length", x, "restores the protection of another length than it made writable")
                        y = f.inst(pr)
                        if y is None:
                            v("restore-what", x, "does not restore the page's previous protection")
                        else:
                            o = f.byid[int(opened[2][1:])]
                            if not f.dominates(y, o):
                                v("restore-late", x, "restores a protection read only after the page was made writable")
                            if y.op in ("call", "invoke") and not any(strip(q) == opened[0] for q in y.d["ops"] if q[0] == "v"):
                                v("restore-other", x, "restores the protection of another page")
                        opened = None
                    continue
                elif n in ("pkey_mprotect", "mremap", "munmap"):
                    v(n, x, "uses %s on the page" % n)
            if x.op == "ret" and opened is not None and not exc:
                v("not-restored", x, "can finish without restoring the page's protection")
            if tgt is None:
                continue
            bs, off = exact(tgt)
            y = f.inst(bs)
            if y is not None and (y.op == "alloca" or y.op in ("call", "invoke") and (y.callee_name in ("__cxa_allocate_exception",) or y.callee_name in ("_Znwm",))):
                continue
            c.count("writes")
            if bs in pages:
                if sealed:
                    v("write-sealed", x, "writes the replacement table after sealing it")
                if not ok_known(bs, b, "i(c-1)", "ne"):
                    v("page-unchecked", x, "writes the replacement table without having checked its allocation")
                n = size if x.op == "store" else int(size[1:]) if size[0] == "c" else 0
                if x.op == "store" and off == SLOT and val == "a1":
                    slot, copied = True, copied - {SLOT}
                    continue
                vi = f.inst(val)
                if x.op == "store":
                    src = exact(vi.d["ops"][0]) if vi is not None and vi.op == "load" else None
                else:
                    src = exact(val)
                y = f.inst(src[0]) if src else None
                if y is not None and y.op == "load" and exact(y.d["ops"][0]) == ("a0", 0) and src[1] == off - ENTRY and not off % 8 and n and not n % 8:
                    copied |= {k for k in range(off, off + n, 8)}
                    slot = slot and not off <= SLOT < off + n
                else:
                    v("slot:%d" % off, x, "changes another entry of the replacement table, or copies it from elsewhere")
            elif bs == "a0" and off == 0 and x.op == "store" and size == 8:
                pubs += 1
                if pub:
                    v("twice", x, "writes the table pointer twice")
                pub = True
                vb, vo = exact(val)
                if vb not in pages or vo != ENTRY:
                    v("publishes", x, "makes the type point to something other than the replacement table")
                if not sealed:
                    v("unsealed-use", x, "uses the replacement table before it is read-only")
                elif not ok_known(sealed, b, "c0"):
                    v("seal-unchecked", x, "uses the replacement table without knowing that it is read-only")
                if opened is None:
                    v("not-writable", x, "writes the table pointer while the page is not writable")
                else:
                    if not ok_known(opened[2], b, "c0"):
                        v("open-unchecked", x, "writes the table pointer without knowing that the page is writable")
                    if "('arg', 0)" not in str(opened[0]):
                        v("wrong-page", x, "makes another page writable than the one holding the table pointer")
            else:
                v("writes-elsewhere", x, "writes memory other than its own table and the type's table pointer")
        s2 = (copied, slot, sealed, opened, pub, exc)
        t = f.blocks[b][-1]
        for q in set(t.d.get("succ", [])):
            if t.op == "invoke" and noreturn(t) and q == t.d["normal"]:
                continue
            st.append((q, s2[:5] + (exc or t.op == "invoke" and q == t.d["unwind"],)))
    c.count("states", len(seen)); c.count("publications", pubs)
    if not pubs:
        c.violation("install:nothing", "protections", f.insts[0].where, "installing the interceptor never writes the type's table pointer [%s]" % cfg)


def permissions(c, cfg):
    """the previous protection is what the kernel reports: each permission letter of a map entry sets its own bit"""
    m = c.module(cfg, slice_steps(r"detail::read_map_entry\(|detail::.*(map_entry|address_range).*istream", "", r"optional<|istream|internal_error|microfmt"))
    fs = [f for f in m.defined() if any(re.search(r"operator>>.*char&\)", m.fns[x.callee_name].dem) for x in f.calls() if x.callee_name in m.fns)]
    for f in fs:
        rd = []
        for x in f.calls():
            d = m.fns[x.callee_name].dem if x.callee_name in m.fns else ""
            if re.search(r"operator>><.*>\(.*char&\)$", d) or re.search(r"operator>>\(.*char&\)$", d):
                rd.append(x)
        cells = [next(iter(base(f, x.d["ops"][1]))) for x in rd]
        if len(cells) != 3 or len(set(cells)) != 3:
            c.notes.append("map entry letters not recognised in " + f.dem)
            continue
        want = {cells[k]: (ch, bit) for k, (ch, bit) in enumerate(((114, 1), (119, 2), (120, 4)))}
        last = rd[-1]

        badletter = []

        def truth(ref, env):
            x = f.inst(ref)
            if x is None or x.op != "icmp" or x.d["pred"] not in ("eq", "ne"):
                return None
            a, k = x.d["ops"]
            for _ in range(3):
                y = f.inst(a)
                if y is not None and y.op in ("sext", "zext", "trunc"):
                    a = y.d["ops"][0]
            y = f.inst(a)
            if y is None or y.op != "load" or k[0] != "c":
                return None
            cs = base(f, y.d["ops"][0])
            for cell in cells:
                if cs == {cell}:
                    if int(k[1:]) != want[cell][0]:
                        badletter.append(k)
                        return "bad"
                    return env[cell] == (x.d["pred"] == "eq")
            return None

        for bits in range(8):
            env = {cell: bool(bits >> k & 1) for k, cell in enumerate(cells)}
            got = set()

            def val(ref, vals):
                if ref[0] == "c":
                    return int(ref[1:])
                x = f.inst(ref)
                if x is None:
                    return None
                if x.op == "phi":
                    return vals.get(ref)
                o = x.d.get("ops", [])
                if x.op == "select":
                    t = truth(o[0], env)
                    return None if t is None or t == "bad" else val(o[1] if t else o[2], vals)
                if x.op in ("or", "add", "and", "xor"):
                    a, b2 = val(o[0], vals), val(o[1], vals)
                    if a is None or b2 is None:
                        return None
                    return a | b2 if x.op == "or" else a + b2 if x.op == "add" else a & b2 if x.op == "and" else a ^ b2
                if x.op == "shl" and o[1][0] == "c":
                    a = val(o[0], vals)
                    return None if a is None else a << int(o[1][1:])
                if x.op in ("zext", "sext", "trunc", "freeze"):
                    t = truth(o[0], env)
                    if t in (True, False):
                        return int(t)
                    return val(o[0], vals)
                return None
            # walk from the last read
            st, seen = [(last.bb, None, ())], set()
            while st:
                b, pred, vs = st.pop()
                if (b, pred, vs) in seen or len(seen) > 4000:
                    continue
                seen.add((b, pred, vs))
                vals = dict(vs)
                new = {}
                if pred is not None:
                    for x in f.blocks[b]:
                        if x.op == "phi":
                            r = val(next(q for q, p in x.d["phi"] if p == pred), vals)
                            new[x.ref] = r
                vals.update(new)
                for x in f.blocks[b]:
                    if x.op == "store" and x.d.get("sz") == 4:
                        r = val(x.d["ops"][0], vals)
                        if r is not None:
                            got.add(r)
                t = f.blocks[b][-1]
                su = t.d.get("succ", [])
                if t.op == "br" and len(su) == 2:
                    tr = truth(t.d["ops"][0], env)
                    if tr == "bad":
                        tr = None
                    if tr is not None:
                        su = [su[0 if tr else 1]]
                if t.op == "invoke":
                    su = [t.d["normal"]] if not noreturn(t) else []
                for q in su:
                    st.append((q, b, tuple(sorted((k, r) for k, r in vals.items() if r is not None))))
            c.count("permission_cases")
            exp = sum(1 << k for k in range(3) if bits >> k & 1)
            if got and got - {0} != ({exp} - {0}) and exp not in got or badletter:
                c.violation("permissions:%d" % bits, "reads-protections", last.where, "a mapping's permission letters are not read as its protection (%s gives %s) [%s]" % (exp, sorted(map(str, got)), cfg))


def run(c):
    c.rule("every interceptor instantiation returns false on every path and passes its own handler type and the thrown type and object on; every collecting action of the collector is on a path where the real handler's catch test (or the catch-all test) answered yes")
    c.rule("on every path of the installation: only the new page and the 8 bytes of the type's table pointer are written, the table is copied whole with one entry replaced and sealed (checked) before the pointer is written, the page is writable only in between, and its previous protection is restored before every normal end")
    c.rule("no exception but memory exhaustion leaves the installation function, whatever the absorb setting")
    interceptors(c)
    for cfg in ["unwind-addr2line", "execinfo-libdl"]:
        collector(c, cfg)
        surgery(c, cfg)
    permissions(c, CFG)
    cfg = next(k for k, v in ALLCFG.items() if v.ndebug)   # ASSERT preconditions are other properties
    _, gs = setter_globals(c, cfg, SETTER)
    for value in (0, 1):
        mo = c.module(cfg, specialise({g: value for g in gs}))
        th = Throws(mo, False, override=accessors(mo), std_throws=False)
        f = mo.one(PREPARE)
        c.count("throw_sets")
        for t in th.out.get(f.name, {}):
            if t not in EXHAUST and t != IOS:
                c.violation("escapes:" + t, "static-initialisation", "%s:%s" % (f.file, f.line), "installing an interceptor can let %s escape static initialisation (absorb=%d)" % (tname(t), value), th.why(f.name, t))
