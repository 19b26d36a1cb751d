"""Holders: typestate of storage and discriminator over every path of every special member and accessor, for every initial
alternative and for aliased operands."""
import os, re
from front import AnalysisError, slice_steps, VERIF
from lifetime import Run, St, short
from fmt import KEEP, SIMPL

PROBE = os.path.join(VERIF, "probes", "holders.cpp")
CFG = "unwind-addr2line-release"
STOP = r"~^_ZNK?(St|9__gnu_cxx)|^_ZSt|14internal_error[CDa]|16stacktrace_frame[CD]|3log5error|3log5debug|8log_and|9microfmt|8microfmt|6detail(11assert_fail|5panic)|9raw_trace7resolve|29should_absorb|_Z[A-Z]*8cpptrace.*6detail3log"
STEPS = slice_steps(r"^vp_(opt|res|lazy)_", r"^cpptrace::|^vp_", STOP, KEEP) + [SIMPL]
ROOTS = {"opt": ["null", "value"], "res": ["value", "error"], "lazy": ["raw", "resolved"]}


class Kind:
    def __init__(self, name, alive, cells):
        self.name, self.alive, self.cells = name, alive, cells

    def put(self, s, obj, origin):
        for o, c in self.alive.items():
            s.alive[(obj, o)] = (c, origin)
        for o, v in self.cells.items():
            s.mem[(obj, o)] = ("c", v)


def track(cls):
    return re.search(r"basic_string|::vector|internal_error", cls) is not None


def kinds(m, h):
    """learn what each alternative looks like from the constructors that establish it"""
    raw = {}
    for k in ROOTS[h]:
        f = m.one(r"^vp_%s_make_%s$" % (h, k))
        s = St()
        r = Run(f, s, [("p", "this", 0), ("p", "arg", 0)], track=track)
        rets = [e for e in r.exits if e[0] == "ret"]
        if r.errors or len(rets) != 1:
            raise AnalysisError("%s: constructor of alternative %s not understood (%s)" % (h, k, r.errors))
        e = rets[0][2]
        al = {o: c for (b, o), (c, _) in e.alive.items() if b == "this"}
        ce = {o: v[1] for (b, o), v in e.mem.items() if b == "this" and v[0] == "c"}
        raw[k] = (al, ce)
    disc = [o for o in set.intersection(*[set(c) for _, c in raw.values()]) if len({c[o] for _, c in raw.values()}) == len(raw)]
    if not disc:
        raise AnalysisError("%s: no discriminator found" % h)
    return {k: Kind(k, al, {o: ce[o] for o in disc}) for k, (al, ce) in raw.items()}


def state_of(s, obj, ks):
    """the alternative obj is in, or a description of the inconsistency"""
    al = {o: c for (b, o), (c, _) in s.alive.items() if b == obj}
    for k in ks.values():
        if al == k.alive and all(s.mem.get((obj, o)) == ("c", v) for o, v in k.cells.items()):
            return k.name, None
    d = [k.name for k in ks.values() if all(s.mem.get((obj, o)) == ("c", v) for o, v in k.cells.items())]
    return None, "discriminator says %s but %s alive" % ("/".join(d) or "nothing definite", ", ".join("a " + short(c) for c in al.values()) + " is" if al else "nothing is")


def origins(s, obj):
    return {og for (b, o), (c, og) in s.alive.items() if b == obj}


def run(c):
    c.rule("each holder's alternatives are learnt from the constructors that establish them (what is alive where, what the discriminator holds); on every path, exceptional ones included, of every special member, for every initial alternative of both operands and for self-assignment, every holder that remains ends in one of those states and nothing is constructed over, assigned to, read from or destroyed in storage where it is not alive")
    c.rule("copies and assignments end in the source's alternative, made from the source's own payload, and leave the source of a copy unchanged; accessors touch an alternative only where it is alive")
    m = c.module(CFG, STEPS, probes=(PROBE,))
    n = 0
    for h in ROOTS:
        ks = kinds(m, h)
        c.saw("%s: %s" % (h, {k.name: (sorted(map(short, k.alive.values())), k.cells) for k in ks.values()}))

        def check(fn, ini, alias=None, holders=("this", "other"), args=None, want=None):
            """ini: {object: kind name or None}"""
            f = m.one(r"^vp_%s_%s$" % (h, fn))
            s = St()
            for ob, k in ini.items():
                if k:
                    ks[k].put(s, ob, ob)
            if args is None:
                args = [("p", "this", 0), ("p", alias or "other", 0)]

            class R(Run):
                known = ("this", "other")
            r = R(f, s, args, track=track)
            c.count("paths", len(r.exits)); c.count("states", r.nstates)
            label = "%s %s(%s%s)" % (h, fn, ", ".join("%s=%s" % (a, k) for a, k in sorted(ini.items(), reverse=True)), ", self" if alias else "")
            c.saw(label)
            for w, msg in r.errors:
                c.violation("%s:%s:%s:%s" % (h, fn, "self" if alias else "-".join(str(k) for k in ini.values()), msg[:40]), "alternative-alive", w, "%s: %s" % (label, msg))
            if not r.exits:
                raise AnalysisError(label + ": no way out found")
            for how, x, e in r.exits:
                for (b, o), (cl, _) in e.alive.items():
                    if b.startswith("al"):
                        c.violation("%s:%s:temp" % (h, fn), "alternative-alive", x.where, "%s: a temporary %s is never destroyed" % (label, short(cl)))
                for ob in set(list(ini) + ["this"]) - ({"other"} if alias else set()):
                    gone = fn == "dtor" or fn in ("copy", "move") and ob == "this" and how == "exc" or (ob == "this" and fn in ("value_or", "opt_value") and not ini.get("this") )
                    st, why = state_of(e, ob, ks)
                    if gone:
                        if any(b == ob for b, _ in e.alive):
                            c.violation("%s:%s:leak" % (h, fn), "alternative-alive", x.where, "%s: leaves its alternative alive" % label)
                        continue
                    if st is None:
                        c.violation("%s:%s:%s:state-%s" % (h, fn, "self" if alias else "-".join(str(k) for k in ini.values()), how), "discriminator-matches", x.where,
                                    "%s: %s%s" % (label, why, " after an exception" if how == "exc" else ""))
                    elif how == "ret" and want and ob in want:
                        k, og = want[ob]
                        if st != k:
                            c.violation("%s:%s:kind" % (h, fn), "same-alternative", x.where, "%s: %s ends as %s instead of %s" % (label, ob, st, k))
                        elif og is not None and ks[k].alive and origins(e, ob) != {og}:
                            c.violation("%s:%s:origin" % (h, fn), "same-payload", x.where, "%s: %s does not end with the payload of %s" % (label, ob, og))
            return r
        for k in ks:
            for fn in ("copy", "move"):
                if h == "res" and fn == "copy":
                    continue
                check(fn, {"other": k}, want={"this": (k, "other"), **({"other": (k, "other")} if fn == "copy" else {})}); n += 1
            check("dtor", {"this": k}, args=[("p", "this", 0)]); n += 1
            for fn in ("copyassign", "moveassign"):
                check(fn, {"this": k}, alias="this", want={"this": (k, "this")}); n += 1
                for k2 in ks:
                    check(fn, {"this": k, "other": k2}, want={"this": (k2, "other"), **({"other": (k2, "other")} if fn == "copyassign" else {})}); n += 1
        one = [("p", "this", 0)]
        for k in ks:
            if h == "opt":
                check("has", {"this": k}, args=one, want={"this": (k, "this")})
                check("reset", {"this": k}, args=one, want={"this": ("null", None)})
                check("assign_null", {"this": k}, args=one, want={"this": ("null", None)})
                check("assign_value", {"this": k}, args=one + [("p", "arg", 0)], want={"this": ("value", None)})
                for k2 in ks:
                    check("swap", {"this": k, "other": k2}, want={"this": (k2, "other"), "other": (k, "this")})
                check("swap", {"this": k}, alias="this", want={"this": (k, "this")})
                r = check("value_or", {"other": k}, args=[("p", "out", 0), ("p", "other", 0), ("p", "arg", 0)], want={"other": (k, "other")})
                n += 6
            elif h == "res":
                for fn in ("has", "err", "drop"):
                    check(fn, {"this": k}, args=one, want={"this": (k, "this")}); n += 1
                check("value_or", {"other": k}, args=[("p", "out", 0), ("p", "other", 0), ("p", "arg", 0)], want={"other": (k, None)})
                check("opt_value", {"other": k}, args=[("p", "out", 0), ("p", "other", 0)], want={"other": (k, None)}); n += 2
            else:
                check("resolved", {"this": k}, args=one, want={"this": (k, "this")})
                check("cget", {"this": k}, args=one, want={"this": (k, "this")})
                check("raw", {"this": k}, args=one, want={"this": (k, "this")})
                check("get", {"this": k}, args=one, want={"this": ("resolved", None if k == "raw" else "this")}); n += 4
        # what the queries report
        for fn, yes in ((("opt", "has"), "value"), (("res", "has"), "value"), (("res", "err"), "error"), (("lazy", "resolved"), "resolved")):
            if fn[0] != h:
                continue
            for k in ks:
                s = St(); ks[k].put(s, "this", "this")
                r = Run(m.one(r"^vp_%s_%s$" % fn), s, one, track=track)
                for how, x, e in r.exits:
                    v = r.val(e, x.d["ops"][0]) if how == "ret" else None
                    if v != ("c", int(k == yes)) and not (v and v[0] == "c" and bool(v[1]) == (k == yes)):
                        c.violation("%s:query" % h, "query-reads-discriminator", x.where, "%s %s does not report %s for a holder of %s" % (h, fn[1], k == yes, k))
                n += 1
        # accessors hand out the alternative that is alive
        if h == "lazy":
            for fn, k in (("cget", "resolved"), ("raw", "raw")):
                for k2 in ks:
                    s = St(); ks[k2].put(s, "this", "this")
                    r = Run(m.one(r"^vp_lazy_%s$" % fn), s, one, track=track)
                    rets = [x for how, x, e in r.exits if how == "ret"]
                    if k2 != k and rets:
                        c.violation("lazy:%s:%s" % (fn, k2), "accessor-checks", rets[0].where, "lazy %s hands out the %s alternative of a holder of the other" % (fn, k))
                    if k2 == k and not rets:
                        c.violation("lazy:%s:%s" % (fn, k2), "accessor-checks", "%s:%s" % (m.one(r"^vp_lazy_%s$" % fn).file, 0), "lazy %s does not hand out the %s alternative" % (fn, k))
                    n += 1
    c.count("cases", n)
    c.need(n, "holder cases", 60)
