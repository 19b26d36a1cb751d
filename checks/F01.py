"""Formatter value semantics: typestate of the settings object behind each formatter over every path of the special members;
effect analysis of every formatting call."""
import os, re
from front import AnalysisError, slice_steps, VERIF
from lifetime import Run, St, short as cshort
from fmt import *
from effects import param_kind
from flow import root
from scev import ITER
from F02 import short
from E02 import PROBE

XSTOP = r"8basename|11get_snippet|16stacktrace_frame[CD]"


def track(cls):
    return not re.search(r"allocator|iterator", re.sub(r"<.*", "", cls))


def run(c):
    c.rule("on every path, exceptional ones included, of copying, moving, assigning (self-assignment included) and destroying a formatter: settings are never used after deletion, never deleted twice, never leaked, never shared by two formatters; a copy's every option comes from the same option of the source")
    c.rule("no print, format or to_string entry point stores to, or passes to a modifying function, anything reached from the formatter or from the trace or frame it is given")
    _, fl = option_fields(c)
    offs = {o: sorted(v)[0] for o, v in fl.items()}
    if any(len(v) != 3 for v in offs.values()):
        raise AnalysisError("formatter options are not stored one indirection away: %s" % offs)
    poff = {v[1] for v in offs.values()}
    if len(poff) != 1:
        raise AnalysisError("formatter options in several blocks")
    poff = poff.pop()
    offs = {o: v[2] for o, v in offs.items()}
    steps = slice_steps(r"^vp_fmt_", r"^cpptrace::|^vp_", r"~^_ZNK?(St|9__gnu_cxx)|^_ZSt", KEEP) + [SIMPL]
    m = c.module(CFG, steps, probes=(PROBE,))
    fn = {n: m.one(r"^vp_fmt_%s$" % n) for n in ("make_live", "copy", "copyassign", "moveassign", "move", "dtor")}
    interest = set(offs.values())
    r = Run(fn["make_live"], St(), [("p", "this", 0)], interest=interest, track=track)
    rets = [e for e in r.exits if e[0] == "ret"]
    if len(rets) != 1 or r.errors:
        raise AnalysisError("formatter's default constructor not understood: %s" % r.errors)
    e = rets[0][2]
    p = e.mem.get(("this", poff))
    if not p or p[0] != "p" or e.heap.get(p[1]) != "live":
        raise AnalysisError("formatter does not hold a settings block")
    shape = {o: cl for (b, o), (cl, _) in e.alive.items() if b == p[1]}

    def live(s, ob):
        h = "H" + ob
        s.heap[h] = "live"
        s.mem[(ob, poff)] = ("p", h, 0)
        for o, cl in shape.items():
            s.alive[(h, o)] = (cl, h)

    def moved(s, ob):
        s.mem[(ob, poff)] = ("c", 0)
    ini = {"live": live, "moved-from": moved}

    def case(name, kinds, alias=None):
        s = St()
        for ob, k in kinds.items():
            ini[k](s, ob)

        class R(Run):
            known = ("Hthis", "Hother")
        f = fn[name]
        r = R(f, s, [("p", "this", 0), ("p", alias or "other", 0)][:len(f.args)], interest=interest, track=track)
        label = "%s(%s%s)" % (name, ", ".join("%s=%s" % (k, v) for k, v in sorted(kinds.items(), reverse=True)), ", self" if alias else "")
        c.saw("formatter " + label); c.count("cases"); c.count("paths", len(r.exits)); c.count("states", r.nstates)
        key = "%s:%s" % (name, "self" if alias else "-".join(kinds.values()))
        for w, msg in r.errors:
            c.violation("%s:%s" % (key, msg[:40]), "settings-lifetime", w, "formatter %s: %s" % (label, msg))
        if not any(h == "ret" for h, _, _ in r.exits):
            raise AnalysisError("formatter %s: no way out" % label)
        for how, x, e in r.exits:
            objs = ["this", "other"] if not alias else ["this"]
            if name == "dtor" or name in ("copy", "move") and how == "exc":
                objs = [o for o in objs if o != "this"]
            if name == "dtor":
                objs = []
            held = {}
            for ob in objs:
                v = e.mem.get((ob, poff))
                if v is None or v[0] not in "pc":
                    c.violation(key + ":unset", "settings-lifetime", x.where, "formatter %s: %s ends without definite settings" % (label, ob))
                    continue
                if v[0] == "p":
                    if e.heap.get(v[1]) != "live":
                        c.violation(key + ":dangling", "settings-lifetime", x.where, "formatter %s: %s keeps deleted settings%s" % (label, ob, " after an exception" if how == "exc" else ""))
                    if v[1] in held:
                        c.violation(key + ":shared", "settings-lifetime", x.where, "formatter %s: both formatters end with the same settings" % label)
                    held[v[1]] = ob
            for h, st in e.heap.items():
                if st == "live" and h not in held:
                    c.violation(key + ":leak", "settings-lifetime", x.where, "formatter %s: leaks settings%s" % (label, " after an exception" if how == "exc" else ""))
            if how != "ret" or name == "dtor":
                continue
            # contents
            v = e.mem[("this", poff)]
            want = kinds["this"] if alias else kinds["other"]
            src = "Hthis" if alias else "Hother"
            if want == "live" and v[0] != "p":
                c.violation(key + ":empty", "equal-settings", x.where, "formatter %s: ends without settings" % label)
            elif want == "live" and v[1] != src:
                for o, off in offs.items():
                    got = e.alive.get((v[1], off))
                    if got is not None:
                        ok = got[1] == src
                    else:
                        q = e.mem.get((v[1], off))
                        ok = q == ("u", (src, off))
                    if not ok:
                        c.violation("%s:copy-%s" % (name, o), "equal-settings", x.where, "formatter %s: the copy's %s does not come from the original's" % (label, o))
            if name in ("copy", "copyassign") and not alias:
                if e.mem.get(("other", poff)) != ("p", "Hother", 0) or any(og == "moved" for (b, _), (_, og) in e.alive.items() if b == "Hother"):
                    c.violation(key + ":source", "equal-settings", x.where, "formatter %s: changes the formatter it copies" % label)
            if name in ("move", "moveassign") and not alias and want == "live" and v[0] == "p" and v[1] != "Hother" and e.heap.get("Hother") == "live" and e.mem.get(("other", poff)) != ("p", "Hother", 0):
                c.violation(key + ":lost", "equal-settings", x.where, "formatter %s: loses settings" % label)
    case("copy", {"other": "live"})
    case("move", {"other": "live"})
    for k in ini:
        case("dtor", {"this": k})
        case("copyassign", {"this": k, "other": "live"})
        for k2 in ini:
            case("moveassign", {"this": k, "other": k2})
        case("moveassign", {"this": k}, alias="this")
    case("copyassign", {"this": "live"}, alias="this")

    # formatting never modifies
    RX = FMT + "|" + WRAP + "|" + NS + r"operator<<\(std::(ostream|basic_ostream<.*>)&, cpptrace::(v\d+::)?stacktrace(_frame)? const&\)"
    mm = c.module(CFG, slice_steps(RX, INC, STOP + "|" + XSTOP, KEEP + "|" + ITER))
    fs = [f for f in roots(mm, RX) if not f.dem.startswith("ctrace")]
    c.need(len(fs), "formatting entry points", 24)
    for f in fs:
        ps, k0 = params(f.dem), this_of(f)
        free = f.dem.startswith(("cpptrace::v1::operator<<", "cpptrace::operator<<")) or re.match(NS + r"operator<<", f.dem)
        ro = set() if free else {k0}
        for k, q in enumerate(ps):
            if re.search(r"stacktrace(_frame)? const&$", q):
                ro.add(k + (0 if free else k0 + 1))
        c.saw(f.dem); c.count("entry_points")
        ix = {f.args[k]["name"] if False else "a%d" % k for k in ro}

        def from_ro(ref, depth=0, seen=None):
            """is the address reached from a read-only argument (through loads and element accessors)?"""
            seen = seen if seen is not None else set()
            if ref in ix:
                return True
            x = f.inst(ref) if ref[0] == "v" else None
            if x is None or ref in seen:
                return False
            seen.add(ref)
            o = x.d.get("ops", [])
            if x.op in ("getelementptr", "bitcast", "freeze"):
                return from_ro(o[0], depth, seen)
            if x.op == "load":
                if x.ty != "ptr":
                    return False
                return from_ro(o[0], depth, seen)
            if x.op == "phi":
                return any(from_ro(v, depth, seen) for v, _ in x.d["phi"])
            if x.op == "select":
                return any(from_ro(v, depth, seen) for v in o[1:])
            if x.op in ("call", "invoke") and x.ty == "ptr" and not x.d.get("sret"):
                g = mm.fns.get(x.callee_name)
                if g is not None and re.search(r"(::(operator\[\]|at|begin|end|data|front|back|operator\*|operator->|base|c_str)(\[abi:\w+\])?\([^)]*\)( const)?$)", g.dem):
                    return from_ro(o[0], depth, seen)
            return False
        for x in f.insts:
            c.count("instructions")
            if x.op == "store" and from_ro(x.d["ops"][1]):
                c.violation("writes:%s" % short(f), "formatting-is-const", x.where, "%s modifies the formatter or the trace it formats" % f.dem)
            elif x.op in ("call", "invoke"):
                g = mm.fns.get(x.callee_name)
                n = x.callee_name or ""
                for k, o in enumerate(x.d["ops"]):
                    if o[0] not in "av" or not from_ro(o):
                        continue
                    if n.startswith("llvm."):
                        if n.startswith("llvm.mem") and k == 0:
                            c.violation("writes:%s" % short(f), "formatting-is-const", x.where, "%s modifies the formatter or the trace it formats" % f.dem)
                        continue
                    if g is None:
                        continue
                    y = f.inst(o)
                    if y is not None and y.ty != "ptr":
                        continue
                    pk = param_kind(g, len(x.d["ops"]), k, bool(x.d.get("sret")))
                    if pk in ("mut", "this") or pk is None and not re.search(r"\bconst\b", g.dem):
                        if re.search(r"::(operator\[\]|at|begin|end|data|front|back|operator\*|operator->|operator!=|operator==|operator-|operator\+|base|c_str|size)(\[abi:\w+\])?\(", g.dem) or re.search(r"normal_iterator|find_if|reverse_iterator", g.dem):
                            continue
                        if pk is None and re.search(r"string_view", g.dem) and not re.search(r"[&*]", "".join(q for q in params(g.dem) or [] if "const" not in q)):
                            continue
                        if not g.name.startswith("_Z") and g.decl:
                            continue
                        c.violation("passes:%s:%s" % (short(f), cshort(g.dem.split("(")[0])), "formatting-is-const", x.where,
                                    "%s hands part of the formatter or of the trace it formats to %s, which may modify it" % (f.dem, g.dem[:100]))
