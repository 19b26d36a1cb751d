"""Lock sets: every mutable static is atomic, immutable after its guarded initialisation, or always accessed under one lock."""
import re
from front import AnalysisError
from locks import shared_globals, lock_module, Held, SYNC_TYPES, lockid
from effects import Effects, derive, uses
from flow import apath, root
from ir import base_name

CONFIGS = ["unwind-addr2line", "unwind-libbacktrace", "execinfo-libdl"]
REMOVES = re.compile(r"::(erase|clear|extract|swap|operator=|assign|reset|pop_\w+|resize|merge|_M_erase)$")


def tokens(held, kind):
    out = set()
    for t in held:
        if t[0] == "init":
            continue
        if t[0] == "rd":
            if kind == "R":
                out.add(t[1])
        else:
            out.add(t)
    return out


def lock_name(t):
    return str(root(t[1] if t[0] == "once" else t)[1])


def run(c):
    c.rule("lockset: for every mutable non-thread-local variable of static storage duration, over every entry point that touches it (same-file helpers and lock wrappers "
           "inlined): type is std::atomic / a lock, or every use outside its guarded initialisation only reads, or all such uses hold one common global lock; pointers reached "
           "through it that are used after the lock is released, or returned, are only read from (and nothing is ever removed from the container), or used under one common lock by every caller")
    for cfg in CONFIGS if c.thorough else CONFIGS[:2]:
        m = c.module(cfg)
        gl = [g for g in shared_globals(m)]
        live = [g for g in gl if not SYNC_TYPES.match(g.get("dtype") or "")]
        c.count("atomic_or_lock", len(gl) - len(live))
        ms, ent, acc = lock_module(c, cfg, m, live)
        eff = Effects(m)
        helds = {}

        def held(f):
            k = (f.mod.json, f.name)
            if k not in helds:
                helds[k] = Held(f)
            return helds[k]
        c.need(len(live), "shared mutable statics", 3)
        for f in m.defined():
            for x in f.calls():
                if x.callee_name == "backtrace_create_state":
                    c.count("libbacktrace_states")
                    if x.d["ops"][1] == "c0":
                        c.violation("backtrace-threaded:" + f.dem, "threaded-state", x.where, "the shared libbacktrace state is created without thread support [%s]" % cfg)
        for g in live:
            n = g["name"]
            c.count("statics")
            c.saw(g["dem"] + " " + cfg)
            evs = []          # (fn, inst, kind, why, lockset)
            leaks = []        # (fn, 'own'|'reached')
            guard = "_ZGV" + n[2:]
            fns = [ms.fns[e] for e in ent if not ms.fns[e].decl]
            once = {}
            for f in fns:
                if not any(o[0] == "g" and o[1:].split("@")[0] == n for x in f.insts for o in x.d.get("ops", []) + [v for v, _ in x.d.get("phi", [])]):
                    continue
                c.count("accessing_entries")
                h = held(f)
                # own: addresses inside the variable; reached: everything else
                own = {"g" + n}
                ch = True
                while ch:
                    ch = False
                    for x in f.insts:
                        if x.op in ("getelementptr", "bitcast", "select", "phi") and x.ref not in own:
                            src = [v for v, _ in x.d["phi"]] if x.op == "phi" else x.d["ops"]
                            if any(o in own or (o[0] == "g" and o.split("@")[0] in own) for o in src):
                                own.add(x.ref); ch = True
                glob_init = re.match(r"^(__cxx_global_var_init|_GLOBAL__)", f.name)
                base_held = once_lambda(m, f)
                D, H = derive(f, {"g" + n})
                for x, kind, why in uses(eff, f, own):
                    hs = h.at.get(x.i)
                    if hs is None:
                        continue
                    if glob_init or any(t[0] == "init" and t[1] in (("g", guard),) for t in hs):
                        c.count("init_uses")
                        continue
                    if kind in ("ret", "leak"):
                        leaks.append((f, "own"))
                        continue
                    if x.op in ("call", "invoke") and lockid(f, x.d["ops"][0]) in tokens(hs, "W"):
                        continue
                    c.count("uses")
                    evs.append((f, x, kind, why, tokens(hs, kind) | base_held))
                for x, kind, why in uses(eff, f, D - own):
                    hs = h.at.get(x.i)
                    if hs is None or any(t[0] == "init" for t in hs):
                        continue
                    if kind in ("ret", "leak"):
                        leaks.append((f, "reached"))
                    else:
                        evs.append((f, x, "r" + kind, why, tokens(hs, "R") | base_held))
                for a in H:
                    if a[0] == "a":
                        leaks.append((f, "reached"))
            # addresses that leak to callers
            for f, what in list(dict.fromkeys(leaks)):
                for fn in m.defined():
                    for x, ts, k in m.cg[fn.name]:
                        if f.name in ts:
                            g2 = (lock_caller(c, cfg, m, ms, fn))
                            hh = held(g2)
                            for y in g2.calls():
                                if y.callee_name != f.name:
                                    continue
                                seeds = set() if y.d.get("sret") else {y.ref}
                                D, H = derive(g2, seeds, {y.d["ops"][0]} if y.d.get("sret") else ())
                                for z, kind, why in uses(eff, g2, D):
                                    if kind in ("R", "W") and hh.at.get(z.i) is not None:
                                        evs.append((g2, z, ("" if what == "own" else "l") + kind, why, tokens(hh.at[z.i], kind)))
                                        c.count("leaked_uses")
            own_evs = [e for e in evs if e[2] in ("R", "W")]
            wr = [e for e in own_evs if e[2] == "W"]
            common = None
            if wr:
                for e in own_evs:
                    common = e[4] if common is None else common & e[4]
                if not common:
                    # blame: the uses not covered by the most common lock
                    cnt = {}
                    for e in own_evs:
                        for t in e[4]:
                            cnt[t] = cnt.get(t, 0) + 1
                    best = max(cnt, key=lambda t: cnt[t]) if cnt else None
                    bad = [e for e in own_evs if best is None or best not in e[4]]
                    e = ([b for b in bad if b[2] == "W"] or bad)[0]
                    c.violation("race:%s:%s" % (g["dem"], e[0].dem), "common-lock", e[1].where,
                                "%s is %s here %s, and is modified at %s (%s): no lock covers all of its accesses [%s]" %
                                (g["dem"], "modified" if e[2] == "W" else "read", ("holding " + ", ".join(sorted(lock_name(t) for t in e[4]))) if e[4] else "with no lock held", wr[0][1].where, str(wr[0][3])[:200], cfg),
                                ["%s in %s at %s holding %s" % (a[2], a[0].dem[:80], a[1].where, sorted(lock_name(t) for t in a[4])) for a in own_evs][:12])
                    continue
                c.count("lock_protected")
            else:
                c.count("immutable_after_init")
            common = common or set()
            reach = [e for e in evs if e[2] in ("rR", "rW") and not (e[4] & common)]
            # objects reached through the variable and used once the lock is gone
            for e in reach:
                if e[2] == "rW":
                    c.violation("reach:%s:%s" % (g["dem"], e[0].dem), "used-after-unlock", e[1].where,
                                "an object reached through %s is modified without its lock (%s) [%s]" % (g["dem"], str(e[3])[:120], cfg))
            lk = [e for e in evs if e[2] in ("lR", "lW")]
            lw = [e for e in lk if e[2] == "lW"]
            if lw:
                inter = None
                for e in lk:
                    inter = e[4] if inter is None else inter & e[4]
                if not inter:
                    e = lw[0]
                    c.violation("leak:%s:%s" % (g["dem"], e[0].dem), "used-after-unlock", e[1].where,
                                "an object cached in %s is handed out and modified here (%s) with no lock common to all its users [%s]" % (g["dem"], str(e[3])[:120], cfg))
            if wr and (reach or lk):
                for e in own_evs:
                    x = e[1]
                    if x.op in ("call", "invoke") and x.callee_name in m.fns and REMOVES.search(base_name(m.fns[x.callee_name].dem)) and e[2] == "W":
                        if not one_shot(m, e[0], x):
                            u = (reach or lk)[0]
                            c.violation("remove:%s:%s" % (g["dem"], e[0].dem), "escaping-cache-insert-only", x.where,
                                        "%s replaces or removes contents of %s although references into it are used outside its lock (in %s) [%s]" % (base_name(m.fns[x.callee_name].dem), g["dem"], u[0].dem[:80], cfg))


def once_lambda(m, f):
    """lock token for a function that is only run through std::call_once on one flag"""
    mm = re.search(r"(\{lambda\([^{}]*\)#\d+\}|\$_\d+)::operator\(\)\([^()]*\)( const)?$", f.dem)
    if not mm:
        return set()
    cl = f.dem[:mm.end(1)]
    flags = set()
    for g in m.defined():
        for x in g.calls():
            cn = x.callee_name or ""
            if cn.startswith("_ZSt9call_once") and cl in m.fns[cn].dem:
                p = apath(g, x.d["ops"][0])
                flags.add(p if root(p)[0] == "g" else None)
    return {("once", flags.pop())} if len(flags) == 1 and None not in flags else set()


def lock_caller(c, cfg, m, ms, fn):
    """the version of a calling function in which lock wrappers are visible"""
    if fn.name in ms.fns and not ms.fns[fn.name].decl:
        return ms.fns[fn.name]
    return fn


def one_shot(m, f, x):
    """the write is gated by a flag that is only ever set"""
    from flow import Facts
    F = Facts(f)
    for fact in F.at(x.bb):
        if fact[0] == "val":
            continue
        if fact[0] == "cmp":
            for o in fact[2:]:
                i = f.inst(o)
                while i is not None and i.op in ("trunc", "zext", "and"):
                    i = f.inst(i.d["ops"][0])
                if i is not None and i.op == "load" and i.d["ops"][0][0] == "g":
                    if flag_only_set(m, i.d["ops"][0]):
                        return True
    for fact in F.at(x.bb):
        if fact[0] == "val" and fact[2] is False:
            i = f.inst(fact[1])
            while i is not None and i.op in ("trunc", "zext", "and", "icmp"):
                i = f.inst(i.d["ops"][0])
            if i is not None and i.op == "load" and i.d["ops"][0][0] == "g" and flag_only_set(m, i.d["ops"][0]):
                return True
    return False


def flag_only_set(m, ref):
    n = ref[1:]
    st = [x for f in m.defined() for x in f.insts if x.op == "store" and x.d["ops"][1] == ref]
    return bool(st) and all(x.d["ops"][0][0] == "c" and x.d["ops"][0] != "c0" for x in st)
