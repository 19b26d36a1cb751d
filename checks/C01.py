"""C API exception-freedom (interprocedural may-throw) and null tolerance (dominating null-check analysis)."""
import re
from front import slice_steps
from throws import Throws, tname
from flow import Facts, apath, root, pstr
from ir import base_name

ROOT = r"^ctrace_[a-z_]*$"
SAFE_GROUP = re.compile(r"^ctrace_(safe_generate_raw_trace|get_safe_object_frame)$")   # documented: caller-owned buffers
CONFIGS = ["unwind-addr2line", "libunwind-libdl"]
EXTRA = ["execinfo-libdl", "unwind-libbacktrace", "nothing-nothing", "libunwind-addr2line"]
STDIO = {"fprintf": 1, "printf": 0, "fputs": 0, "puts": 0, "snprintf": 2, "sprintf": 1, "dprintf": 1}
CSTR = {"strlen", "strcmp", "strncmp", "strcpy", "strncpy", "strcat", "strchr", "strrchr", "strdup", "atoi", "strtol", "memchr"}
MEMCPY = re.compile(r"^(llvm\.)?(memcpy|memmove|memcmp)")


def bases(f, F, ref, facts=(), seen=None):
    """(pointer value, facts guarding its selection) for every value a pointer may stand for, looking through phis,
    selects and offsets"""
    seen = seen if seen is not None else set()
    if ref in seen:
        return []
    seen.add(ref)
    i = f.inst(ref)
    facts = list(facts)
    if i is None:
        return [(ref, facts)]
    if i.op == "phi":
        r = []
        for v, p in i.d["phi"]:
            r += bases(f, F, v, facts + F.on_edge(p, i.bb), seen)
        return r
    if i.op == "select":
        r = []
        for k, t in ((1, True), (2, False)):
            ex = []
            F._expand(i.d["ops"][0], t, ex, 0)
            r += bases(f, F, i.d["ops"][k], facts + ex, seen)
        return r
    if i.op == "getelementptr":
        return bases(f, F, i.d["ops"][0], facts, seen)
    return [(ref, facts)]


def derefs(f):
    """(inst, pointer ref) for every pointer that must be non-null at inst"""
    for x in f.insts:
        if x.op == "load":
            yield x, x.d["ops"][0]
        elif x.op == "store":
            yield x, x.d["ops"][1]
        elif x.op in ("call", "invoke"):
            n = x.callee_name or ""
            ops = x.d["ops"]
            if n in STDIO:
                for o in ops[STDIO[n]:]:
                    if o[0] in "av":
                        yield x, o
            elif n in CSTR:
                yield x, ops[0]
                if n.startswith("strc") or n.startswith("strn"):
                    if len(ops) > 1 and ops[1][0] in "av":
                        yield x, ops[1]
            elif MEMCPY.match(n):
                yield x, ops[0]
                yield x, ops[1]
            elif n.startswith(("_ZNS", "_ZNKS", "_ZS")):     # library: every char const* / object pointer must be valid
                for o in ops:
                    if o[0] in "av":
                        yield x, o


def is_ptr(f, ref):
    if ref[0] == "a":
        return f.args[int(ref[1:])]["ty"] == "ptr"
    i = f.inst(ref)
    return i is not None and i.ty == "ptr"


def null_check(c, m, cfg):
    for f in m.defined():
        if not re.match(ROOT, f.dem) or SAFE_GROUP.match(f.dem):
            continue
        params = [k for k, a in enumerate(f.args) if a["ty"] == "ptr" and not a.get("sret") and not a.get("byval")]
        if not params:
            continue
        c.saw("null tolerance of " + f.dem)
        F = Facts(f)
        names = [a.get("n") or "arg%d" % k for k, a in enumerate(f.args)]
        for x, p in derefs(f):
            if not is_ptr(f, p):
                continue
            for b, extra in bases(f, F, p):
                if not is_ptr(f, b):
                    continue
                path = apath(f, b)
                r = root(path)
                if r[0] != "arg" or r[1] not in params:
                    continue
                c.count("pointer_uses")
                ok = False
                for fact in F.at(x.bb) + extra:
                    if fact[0] == "cmp" and fact[1] == "ne":
                        for q, o in ((fact[2], fact[3]), (fact[3], fact[2])):
                            if o == "n" and q[0] in "av" and (q == b or apath(f, q) == path):
                                ok = True
                if not ok:
                    c.violation("null:%s:%s" % (f.dem, pstr(path, names)), "unchecked-null", x.where,
                                "%s uses %s without a dominating null check [%s]" % (f.dem, pstr(path, names), cfg))


def run(c):
    c.rule("no exception type remains in the computed exception set of any extern C function, with allocation failure and "
           "user callbacks throwing, and no non-throwing (noexcept) boundary below one of them can be reached by an exception; "
           "every use of a pointer parameter (or of the frame array / strings reached from it) is dominated by a null check of it")
    for cfg in CONFIGS + (EXTRA if c.thorough else []):
        m = c.module(cfg)
        th = Throws(m)
        roots = [f for f in m.find(ROOT)]
        c.need(len(roots), "C API functions in " + cfg, 25)
        for f in roots:
            c.count("entry_points")
            c.saw("exceptions of " + f.dem)
            for t in th.out.get(f.name, {}):
                c.violation("throws:" + f.dem, "exception-escapes", "%s:%s" % (f.file, f.line),
                            "%s can let %s propagate to its C caller [%s]" % (f.dem, tname(t), cfg), th.why(f.name, t))
        capi_files = {f.file for f in roots}
        par = m.reachable([f.name for f in roots])
        for n in par:
            f = m.fns.get(n)
            if f is None or f.decl:
                continue
            c.count("functions")
            if f.file in capi_files:
                for t, x in th.term.get(n, {}).items():
                    if x.bb in th.live.get(n, ()):
                        c.violation("terminate:%s" % base_name(f.dem), "terminates", x.where,
                                    "%s is non-throwing but %s can reach its boundary, terminating the program [%s]" % (f.dem, tname(t), cfg), m.path(par, n))
        s = c.module(cfg, slice_steps(ROOT, "^ctrace::"))
        null_check(c, s, cfg)
    c.need(c.counts.get("pointer_uses", 0), "uses of C API pointer parameters", 20)
