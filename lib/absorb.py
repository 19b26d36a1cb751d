"""Shared by T03 and E01: the absorb switch, the reporting functions that honour it, and exception-handler analysis."""
import re
from front import AnalysisError, SSA, slice_steps
from throws import Throws, EXHAUST, ANY, tname
from flow import Facts, apath
from pe import NS, setter_globals, specialise, other_writers, INLINE_ATOMICS
from ir import base_name

SETTER = NS + r"absorb_trace_exceptions\(bool\)"
EPTR = "NSt15__exception_ptr13exception_ptrE"


def is_virtual_what(m, x):
    """a virtual call to what()/message() of the caught (user) exception object"""
    ts, k = m.targets(x)
    return k == "virtual" and any(re.search(r"(4what|7message)Ev$", t) for t in ts)


def sinks(m):
    """functions that hand a message to the user's log callback"""
    return {f.name for f in m.defined() if re.search(r"std::function<void \(cpptrace::(v\d+::)?log_level, char const\*\)>::operator\(\)", f.dem)}


def reach_log(m):
    """functions from which the log callback is reachable through direct calls"""
    snk = sinks(m)
    rev = {}
    for f in m.defined():
        for x, ts, k in m.cg[f.name]:
            if k == "direct":
                rev.setdefault(ts[0], set()).add(f.name)
    out, st = set(snk), list(snk)
    while st:
        for p in rev.get(st.pop(), ()):
            if p not in out:
                out.add(p)
                st.append(p)
    return out


def reporters(m):
    """repository functions whose only parameter is an exception_ptr and that reach the logger"""
    rl = reach_log(m)
    return [f for f in m.defined() if f.file.startswith(("src/", "include/")) and f.name in rl and
            re.search(r"\(std::__exception_ptr::exception_ptr( const&|&&)?\)$", f.dem) and f.name.endswith((EPTR, "RK" + EPTR, "O" + EPTR))]


def null_edge(F, f, p, s):
    """does edge p->s imply that the exception_ptr argument 0 is empty?"""
    return any(x[0] == "cmp" and x[1] == "eq" and "n" in x[2:] and apath(f, [o for o in x[2:] if o != "n"][0]) == ("ld", ("arg", 0))
               for x in F.on_edge(p, s) if x[0] == "cmp" and x[2] != x[3])


def walk(f, start, stop_call, edge_ok=lambda p, s: True, unwind=lambda x: True):
    """blocks reachable from (block, index) where calls satisfying stop_call end the path; returns (visited exits)"""
    exits, seen, st = [], set(), [start]
    while st:
        b, k = st.pop()
        if (b, k) in seen:
            continue
        seen.add((b, k))
        stopped = False
        for x in f.blocks[b][k:]:
            if x.op in ("call", "invoke"):
                r = stop_call(x)
                if r == "stop":
                    if x.op == "invoke" and unwind(x):
                        pass
                    stopped = True
                    break
            if x.op in ("ret", "resume"):
                exits.append(x)
        if stopped:
            continue
        t = f.blocks[b][-1]
        for s in t.d.get("succ", []):
            if t.op == "invoke" and s == t.d["unwind"] and not unwind(t):
                continue
            if edge_ok(b, s):
                st.append((s, 0))
    return exits


class Mode:
    """the program specialised to one value of the absorb switch"""

    def __init__(self, c, cfg, gs, value, user=False, override_reporters=False):
        self.m = c.module(cfg, specialise({g: value for g in gs}))
        self.value = value
        self.rep = reporters(self.m)
        if not self.rep:
            raise AnalysisError("no exception-reporting function found in " + cfg)
        ov = {f.name: set() for f in self.rep} if override_reporters else None
        self.th = Throws(self.m, user, override=ov)


def propagators(c, cfg, gs, rep):
    """reporting functions that, with absorbing off, can only return when given an empty exception_ptr"""
    out, bad = set(), {}
    for f in rep:
        rx = "^" + re.escape(f.dem) + "$"
        rx = rx.replace("\\ ", " ").replace("\\:", ":")
        s = c.module(cfg, specialise({g: 0 for g in gs}) + slice_steps(rx))
        g = s.fns[f.name]
        F = Facts(g)
        ex = [x for x in walk(g, (0, 0), lambda x: "stop" if noreturn(x) and x.op == "call" else None, lambda p, q: not null_edge(F, g, p, q) and not noret_edge(g, p, q)) if x.op == "ret"]
        if ex:
            bad[f.name] = ex[0]
        else:
            out.add(f.name)
    return out, bad


def noreturn(x):
    return x.d.get("noreturn") or x.callee_name in ("_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE", "__cxa_rethrow", "__cxa_throw", "abort", "_ZSt9terminatev")


def noret_edge(f, p, s):
    t = f.blocks[p][-1]
    return t.op == "invoke" and noreturn(t) and s == t.d["normal"] and s != t.d["unwind"]


def handler_exits(f, x, stops):
    """normal ways out of the handler beginning at begin_catch x: 'ret' instructions reachable without passing a
    propagating call (stops: predicate) or a rethrow"""
    blk = f.blocks[x.bb]
    k = next(i for i, y in enumerate(blk) if y is x) + 1
    return [e for e in walk(f, (x.bb, k), lambda y: "stop" if (stops(y) or (noreturn(y) and y.op == "call")) else None,
                            lambda p, q: not noret_edge(f, p, q)) if e.op == "ret"]


def off_throws(m, rep, user=False, **kw):
    """may-throw sets with absorbing off: a reporting function re-raises what the enclosing handler of the call caught"""
    return Throws(m, user, reraise={f.name for f in rep}, **kw)


def accessors(m):
    """checked accessors of the internal optional/result types: their precondition is property M05, so here they are
    taken not to fail"""
    return {f.name: set() for f in m.defined() if re.search(r"::detail::(optional|Result)<", f.dem) and
            re.search(r">::(unwrap[a-z_]*|value[a-z_]*|error[a-z_]*)\(", f.dem.replace(", 0>::", ">::"))}
