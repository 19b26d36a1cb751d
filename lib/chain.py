"""The chain of physical stack frames between a trace-generating entry point and the unwinder: skip and max_depth arguments
followed as affine expressions, frames counted as intervals ([1,1] only when inlining and tail calls are ruled out)."""
import os, re
from front import AnalysisError, SSA, VERIF
from ir import base_name

CAPTURE = re.compile(r"^cpptrace::(v\d+::)?detail::(safe_)?capture_frames\((.*)\)$")
PROBE = os.path.join(VERIF, "probes", "chain.cpp")
BIG = 1 << 62
LAMBDA = re.compile(r"lambda|\$_[0-9]+::operator")


def sizes(f):
    """index of the skip and depth parameters: the trailing size_t parameters (positional, as in the public API)"""
    m = re.search(r"\(([^()]*)\)( const)?$", f.dem)
    ps = [p.strip() for p in m.group(1).split(",")] if m and m.group(1).strip() else []
    sret = 1 if f.args and f.args[0].get("sret") else 0
    this = len(f.args) - sret - len(ps)
    if not ps and f.args and not m:
        # C function: the argument list is in the IR
        ks = [k for k, a in enumerate(f.args) if a["ty"] == "i64"]
        if len(f.args) - sret == 2:
            return ks[0], ks[1]
        if len(ks) == 3:
            return ks[1], ks[2]
        return None, None
    k0 = len(f.args) - len(ps)
    ul = [k0 + k for k, p in enumerate(ps) if p == "unsigned long"]
    if ps and ps[0] == "unsigned long*":        # (buffer, size, skip[, max_depth])
        return (ul[1] if len(ul) > 1 else None), (ul[2] if len(ul) > 2 else None)
    if len(ul) == len(ps) and len(ul) in (1, 2):
        return ul[0], (ul[1] if len(ul) == 2 else None)
    return None, None


def affine(f, ref, seen=()):
    """list of (arg index or None, constant) alternatives, or None if not affine in one argument"""
    if ref[0] == "c":
        v = int(ref[1:])
        return [(None, v)]
    if ref[0] == "a":
        return [(int(ref[1:]), 0)]
    x = f.inst(ref)
    if x is None or ref in seen:
        return None
    o = x.d.get("ops", [])
    if x.op in ("freeze", "zext", "sext"):
        return affine(f, o[0], seen + (ref,))
    if x.op in ("add", "sub") and o[1][0] == "c":
        l = affine(f, o[0], seen + (ref,))
        d = int(o[1][1:])
        return None if l is None else [(k, c + (d if x.op == "add" else -d)) for k, c in l]
    if x.op in ("add",) and o[0][0] == "c":
        l = affine(f, o[1], seen + (ref,))
        return None if l is None else [(k, c + int(o[0][1:])) for k, c in l]
    if x.op in ("phi", "select"):
        vs = [v for v, _ in x.d["phi"]] if x.op == "phi" else o[1:]
        out = []
        for v in vs:
            l = affine(f, v, seen + (ref,))
            if l is None:
                return None
            out += l
        return sorted(set(out), key=str)
    return None


TRIVIAL = re.compile(r"^llvm\.(lifetime|dbg|assume|experimental\.noalias)|^__cxa_end_cleanup")


def tail_safe(m, f, x):
    """can the call x not become a tail call?"""
    if x.op == "invoke" and not x.d.get("nounwind"):
        t = x.callee_name
        g = m.fns.get(t)
        if g is None or not g.d.get("nounwind"):
            return True
    # a pointer to this frame is passed on
    for o in x.d["ops"]:
        r, n = o, 0
        while n < 8:
            y = f.inst(r)
            if y is None:
                break
            if y.op == "alloca":
                return True
            if y.op not in ("getelementptr", "bitcast"):
                break
            r, n = y.d["ops"][0], n + 1
    # something must still be done afterwards on every path to the return
    ret = (f.d.get("ret") or "void") != "void"
    seen, st = set(), [(x.bb, x.i)]
    while st:
        b, after = st.pop()
        done = False
        for y in f.blocks[b]:
            if y.i <= after:
                continue
            if y.op in ("call", "invoke") and not TRIVIAL.match(y.callee_name or "") and y is not x:
                done = True
                break
            if y.op == "store":
                p = f.inst(y.d["ops"][1])
                if p is None or p.op != "alloca":
                    done = True
                    break
            if y.op == "ret":
                if ret and y.d["ops"] and not flows(f, y.d["ops"][0], x.ref):
                    done = True
                    break
                return False
            if y.op in ("unreachable", "resume"):
                done = True
                break
        if done:
            continue
        t = f.blocks[b][-1]
        for k in t.d.get("succ", []):
            if t.op == "invoke" and t is x and k == t.d["unwind"]:
                continue
            if k not in seen:
                seen.add(k)
                st.append((k, -1))
    return True


def flows(f, ref, src, seen=None):
    seen = seen or set()
    if ref == src:
        return True
    x = f.inst(ref)
    if x is None or ref in seen:
        return False
    seen.add(ref)
    if x.op == "phi":
        return any(flows(f, v, src, seen) for v, _ in x.d["phi"])
    return False


NOUNWIND = ("opt", "cgscc(function-attrs),function(sroa,early-cse,simplifycfg)")


WALK = re.compile(r"_Unwind_Backtrace$|backtrace$|(unw_|_U[A-Za-z0-9_]*)(step|backtrace)$")


def reach_ext(m, name):
    out, seen, st = set(), {name}, [name]
    while st:
        n = st.pop()
        if n not in m.fns or not m.fns[n].blocks:
            out.add(n)
            continue
        for x, ts, k in m.cg[n]:
            for t in ts:
                if t not in seen:
                    seen.add(t)
                    st.append(t)
    return out


def contracts(c, cfg, probe=True):
    """function -> list of sites (callee, inst, skip alternatives, depth alternatives, physical frames (lo, hi))"""
    m = c.module(cfg, (SSA, NOUNWIND), probes=(PROBE,) if probe else ())
    caps = [f for f in m.defined() if CAPTURE.match(f.dem)]
    if len(caps) < 2:
        raise AnalysisError("unwinder entry points not found in %s" % cfg)
    # an entry point that never reaches an unwinder captures nothing: skip has no meaning there
    real = [f for f in caps if any(WALK.match(e) for e in reach_ext(m, f.name))]
    caps = real if real or "nothing" not in cfg else caps
    if not caps:
        raise AnalysisError("no unwinder entry point reaches an unwinder in %s" % cfg)
    callers = {}
    for f in m.defined():
        for x, ts, k in m.cg[f.name]:
            if k == "direct" and ts[0] in m.fns:
                callers.setdefault(ts[0], []).append((f, x))
    chain, st = {f.name: [] for f in caps}, [f.name for f in caps]
    while st:
        n = st.pop()
        g = m.fns[n]
        for f, x in callers.get(n, ()):
            # a function with no skip parameter that is not part of the generation chain ends it
            if f.name not in chain:
                chain[f.name] = []
                if not terminal(f):
                    st.append(f.name)
            if not any(s[1] is x for s in chain[f.name]):
                chain[f.name].append((g, x))
    return m, caps, chain


def terminal(f):
    """where following callers stops: client code of the probe, except macro lambdas"""
    return not LAMBDA.search(f.dem) and (f.dem.startswith("vp_") or not f.file.startswith(("src/", "include/")))


def phys(m, f, x):
    """how many stack frames f certainly (lo) / possibly (hi) occupies while call x runs"""
    if f.d.get("alwaysinline"):
        return (0, 0), "is always inlined"
    if not f.d.get("noinline") and not f.d.get("optnone"):
        return (0, 1), "can be inlined into its caller"
    if not tail_safe(m, f, x):
        return (0, 1), "makes a call that can become a tail call"
    return (1, 1), ""


def solve(c, cfg, want):
    """contract of every chain function: list of (skip arg or None, lo, hi, depth, site, why).  lo..hi = frames above the
    function's own caller at which the trace starts (plus the skip argument)."""
    m, caps, chain = contracts(c, cfg)
    con = {}
    for f in caps:
        s, d = sizes(f)
        con[f.name] = [(s, 0, 0, ("arg", d), None, "")]
    inprog = set()

    def get(n):
        if n in con:
            return con[n]
        if n in inprog:
            raise AnalysisError("recursive trace generation through %s" % m.fns[n].dem)
        inprog.add(n)
        f = m.fns[n]
        out = []
        for g, x in chain[n]:
            (plo, phi), why = phys(m, f, x)
            for s, lo, hi, dep, _, w0 in get(g.name):
                ops = x.d["ops"]
                if lo is None:
                    # reported where it arises
                    out.append((None, None, None, ("?", None), None, w0))
                    continue
                if s is None:
                    sk = [(None, 0)]
                else:
                    sk = affine(f, ops[s])
                if dep[0] == "arg" and dep[1] is not None:
                    dd = affine(f, ops[dep[1]])
                    dl = [("?", None)] if dd is None else [(("arg", k) if k is not None else ("const", v)) if (k is None or v == 0) else ("off", (k, v)) for k, v in dd]
                else:
                    dl = [dep]
                if sk is None:
                    out.append((None, None, None, dl[0], x, "the skip given to %s is not its own skip plus a constant" % g.dem))
                    continue
                for k, v in sk:
                    if abs(v) >= BIG:
                        continue
                    for d1 in dl:
                        out.append((k, lo + v - phi, hi + v - plo, d1, x, why or w0))
        con[n] = out
        inprog.discard(n)
        return out
    for n in chain:
        get(n)
    return m, chain, con, caps


_cache = {}


def solved(c, cfg):
    if cfg not in _cache:
        _cache[cfg] = solve(c, cfg, None)
    if cfg not in c.configs:
        c.configs.append(cfg)
    return _cache[cfg]


def depth_chain(c, cfg):
    """every generation function hands the unwinder its own max_depth, or no limit"""
    m, chain, con, caps = solved(c, cfg)
    n = 0
    for name, l in con.items():
        f = m.fns[name]
        if f in caps or terminal(f):
            continue
        s, d = sizes(f)
        n += 1
        c.count("depth_arguments_followed", len(l))
        for k, lo, hi, dep, x, why in l:
            if x is None:
                continue
            if d is not None and dep != ("arg", d):
                c.violation("depth-arg:%s" % base_name(f.dem), "max_depth-used", x.where, "%s does not hand its max_depth on unchanged [%s]" % (f.dem, cfg))
            if d is None and dep not in (("const", -1), ("const", (1 << 64) - 1)):
                c.violation("depth-arg:%s" % base_name(f.dem), "max_depth-used", x.where, "%s has no max_depth parameter but limits the depth to %s [%s]" % (f.dem, dep[1], cfg))
    c.need(n, "trace-generating functions", 15)
