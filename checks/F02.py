"""Colour: partial evaluation of every print/format/string/snippet path for each colour argument and mode."""
import re
from front import AnalysisError
from fmt import *
from ir import base_name, operands
from absorb import reach_log

MODES = {"always": 0, "none": 1, "automatic": 2}
# wrappers hand their colour argument to a formatter method: kept as calls in the wrappers' own slices
WSTOP = r"9formatter(5print|6format)B?|^_ZNK8cpptrace[v0-9]*10stacktrace9to_string|^_ZNK8cpptrace[v0-9]*16stacktrace_frame9to_string"


def modes(m):
    """colour mode enumerators from the type information"""
    for t in m.dtypes:
        if t["name"].endswith("color_mode"):
            return {e["n"]: e["val"] for e in t["members"] if "val" in e}
    raise AnalysisError("enumeration color_mode not found")


def esc_ops(m, x):
    """[(operand, events)] of the escape strings instruction x mentions"""
    out = []
    for o in operands(x):
        s = gstr(m, o)
        if s is not None and "\x1b" in s:
            out.append((o, esc_events(s)))
    return out


def esc_users(m):
    """functions whose own code mentions an escape string"""
    return {f.name for f in m.defined() if any(esc_ops(m, x) for x in f.insts)}


def colour_off(c, base, m, f, what, dirty):
    bad = False
    for x in f.insts:
        if x.op == "icmp":
            continue
        for o, ev in esc_ops(m, x):
            c.violation("off:%s" % short(f), "no-escape-when-off", x.where,
                        "%s still emits the escape sequence %r when %s" % (f.dem, gstr(m, o), what))
            bad = True
        if x.op in ("call", "invoke"):
            t = x.callee_name
            if t and t in base.fns and t != f.name:
                g = base.fns[t]
                k = has_bool(g) if is_colour_fn(g) else None
                if k is not None:
                    if x.d["ops"][k] not in ("c0",):
                        c.violation("off-call:%s:%s" % (short(f), short(g)), "no-escape-when-off", x.where,
                                    "%s calls %s with a colour argument that is not off although %s" % (f.dem, g.dem, what))
                elif t in dirty:
                    c.violation("off-call:%s:%s" % (short(f), short(g)), "no-escape-when-off", x.where,
                                "%s calls %s, which can emit escape sequences, although %s" % (f.dem, g.dem, what))
    return bad


def is_colour_fn(g):
    return bool(re.search(FMT + "|" + WRAP + "|" + OTHER, g.dem)) and has_bool(g) is not None


def short(f):
    return re.sub(r"cpptrace::(v\d+::)?|\[abi:\w+\]|std::(__cxx11::)?|basic_string<.*?>>|\s", "", f.dem.split(" const")[0])[:80]


def classes(m, f, ref, depth=0, seen=None):
    """event lists a pointer may denote: set of tuples; () for a string without escapes / unknown pointer"""
    seen = seen if seen is not None else set()
    if ref in seen:
        return set()
    seen.add(ref)
    s = gstr(m, ref)
    if s is not None:
        return {tuple(esc_events(s))}
    x = f.inst(ref)
    if x is not None and depth < 8:
        if x.op == "select":
            return classes(m, f, x.d["ops"][1], depth + 1, seen) | classes(m, f, x.d["ops"][2], depth + 1, seen)
        if x.op == "phi":
            return set().union(*[classes(m, f, v, depth + 1, seen) for v, _ in x.d["phi"]])
    return {()}


def colour_on(c, m, f, what):
    """with colour on: nothing but colour decides; every start is reset before the next start and before returning"""
    n = 0
    for x in f.insts:
        if x.op in ("select", "phi"):
            cl = classes(m, f, x.ref)
            if x.ty == "ptr" and len(cl) > 1 and () in cl:
                vals = x.d["ops"][1:] if x.op == "select" else [v for v, _ in x.d["phi"]]
                if any(gstr(m, v) == "" for v in vals):
                    c.violation("on:%s" % short(f), "colour-argument-decides", x.where,
                                "%s may leave out an escape sequence although %s" % (f.dem, what))
    # typestate
    ev = {}
    for x in f.insts:
        if x.op in ("call", "invoke", "store") and (x.callee_name or "") not in ("strlen", "strcmp", "memcmp", "strchr"):
            es = []
            for o in (x.d["ops"][:1] if x.op == "store" else x.d["ops"]):
                if o[0] in "gv":
                    for t in classes(m, f, o):
                        if t and list(t) not in es:
                            es.append(list(t))
            if x.op == "store":
                ev[x.i] = [es[0]] if es else []
            else:
                # a call's escape arguments are emitted in argument order
                ev[x.i] = [list(next(iter(t))) for t in [[q for q in classes(m, f, o) if q] for o in x.d["ops"] if o[0] in "gv"] if t]
    state = {0: frozenset(["off"])}
    wl = [0]
    starts = 0
    while wl:
        b = wl.pop()
        st = set(state[b])
        for x in f.blocks[b]:
            for seq in ev.get(x.i, []):
                for e in seq:
                    if e == "start":
                        starts += 1
                        if "on" in st:
                            c.violation("nest:%s" % short(f), "start-then-reset", x.where,
                                        "%s starts a colour while an earlier colour may not have been reset" % f.dem)
                        st = {"on"}
                    else:
                        st = {"off"}
            if x.op == "ret" and "on" in st:
                c.violation("unreset:%s" % short(f), "start-then-reset", x.where, "%s may return with a colour still active" % f.dem)
        t = f.blocks[b][-1]
        for s in t.d.get("succ", []):
            if t.op == "invoke" and s == t.d.get("unwind"):
                continue
            new = state.get(s, frozenset()) | st
            if new != state.get(s):
                state[s] = new
                wl.append(s)
    return starts


def placeholders(fmt):
    """number of arguments a microfmt format string consumes"""
    n, i = 0, 0
    while i < len(fmt):
        ch = fmt[i]
        if ch in "{}" and fmt[i:i + 2] == ch * 2:
            i += 2
            continue
        mm = re.match(r"\{[<>]?(\d+|\{\})?(:[^}]{1,2})?\}", fmt[i:])
        if ch == "{" and mm:
            n += 2 if mm.group(1) == "{}" else 1
            i += mm.end()
            continue
        i += 1
    return n


def format_strings(c, m, f):
    """every microfmt call consumes exactly the arguments it is given (a dropped placeholder loses a reset)"""
    for x in f.calls():
        g = m.fns.get(x.callee_name)
        if g is None or not re.search(r"microfmt::detail::format<", g.dem):
            continue
        args = x.d["ops"]
        s = next((gstr(m, o) for o in args if gstr(m, o) is not None), None)
        lst = args[-1]
        a = f.inst(lst)
        if s is None or a is None or a.op != "alloca":
            continue
        ns = [y.d["ops"][0] for y in f.insts if y.op == "store" and apath(f, y.d["ops"][1]) == ("gep", ("v", a.i), 8, ())]
        ns = [k for k in ns if k[0] == "c"]
        if len(ns) != 1:
            continue
        c.count("format_strings")
        if placeholders(s) != int(ns[0][1:]):
            c.violation("fmt:%s:%s" % (short(f), s[:30]), "format-consumes-arguments", x.where,
                        "%s formats %r with %s arguments but it has %d placeholders" % (f.dem, s, ns[0][1:], placeholders(s)))


def run(c):
    c.rule("with the colour argument fixed to false, with never-colour mode and no argument, and for string formatting in automatic mode, no instruction left after partial evaluation mentions an escape string and no callee that can emit one is called with colour on")
    c.rule("with the colour argument true (or always-colour mode and no argument) no branch other than the data's own decides about an escape and the configured mode is not consulted")
    c.rule("typestate over the specialised functions: a colour start is followed by a reset before the next start and before every return; every format string consumes exactly its arguments")
    base = c.module(CFG)
    md = modes(base)
    dirty = esc_users(base)
    # what a call can reach without going through a user callback or the log
    rl = set(reach_log(base))
    call = {f.name: {x.callee_name for x in f.calls() if x.callee_name in base.fns} for f in base.defined()}
    dirtyreach = set()
    for n in call:
        seen, st = {n}, [n]
        while st:
            for t in call.get(st.pop(), ()):
                if t not in seen and not (t in rl and re.search(r"::detail::(\w+::)*\w+\(char const\*\)$", base.fns[t].dem)):
                    seen.add(t); st.append(t)
        if seen & dirty:
            dirtyreach.add(n)
    _, fields = option_fields(c)
    modef = fields["colors"]
    if len(modef) != 1:
        raise AnalysisError("colour mode stored in %d places" % len(modef))
    mode = next(iter(modef))
    A = FMT + "|" + OTHER
    sa = roots_steps(A)
    plain = c.module(CFG, sa)
    ra = roots(plain, A)
    withc = [f for f in ra if has_bool(f) is not None]
    noc = [f for f in ra if has_bool(f) is None]
    c.need(len(withc), "functions with a colour argument", 11)
    c.need(len(noc), "functions without a colour argument", 8)
    sb = roots_steps(WRAP, WSTOP)
    rb = [f for f in roots(c.module(CFG, sb), WRAP) if has_bool(f) is not None]
    c.need(len(rb), "wrappers with a colour argument", 5)

    def spec(steps, args):
        return c.module(CFG, steps + [("xform", args), SIMPL, SIMPL, FOLD, SIMPL])
    escs = lambda m, f: sum(len(esc_ops(m, x)) for x in f.insts)
    tty = [n for n in ("isatty",) if n in base.fns]
    ret = lambda v: sum([["--const-ret", "%s=%d" % (n, v)] for n in tty], [])
    starts = {}

    def on(m, f, what, other=None):
        """colour is on in the specialised program m: every escape stays, whatever the terminal and mode"""
        g = m.fns[f.name]
        n = colour_on(c, m, g, what)
        es = escs(m, g)
        c.count("on_cases"); c.saw("%s: %s" % (f.dem, what))
        calls = [x for x in g.calls() if x.callee_name in base.fns and is_colour_fn(base.fns[x.callee_name])]
        for x in calls:
            k = has_bool(base.fns[x.callee_name])
            if x.d["ops"][k] not in ("c1", "c-1"):
                c.violation("on-call:%s" % short(g), "colour-argument-decides", x.where, "%s does not pass its colour setting on to %s although %s" % (g.dem, base.fns[x.callee_name].dem, what))
        if n == 0 and not calls:
            c.violation("on-none:%s" % short(g), "colour-argument-decides", "%s:%s" % (g.file, g.line), "%s emits no colour although %s" % (g.dem, what))
        w0, e0 = starts.setdefault(f.name, (what, es))
        if e0 != es:
            c.violation("on-differs:%s" % short(g), "colour-argument-decides", "%s:%s" % (g.file, g.line),
                        "%s emits different escapes (%s against %s places) when %s and when %s" % (g.dem, es, e0, what, w0))
        return g

    for steps, rs in ((sa, withc), (sb, rb)):
        m = spec(steps, sum([["--arg", "%s:%d=0" % (f.name, has_bool(f))] for f in rs], []))
        for f in rs:
            colour_off(c, base, m, m.fns[f.name], "its colour argument is off", dirtyreach)
            c.count("off_cases"); c.saw("%s colour=false" % f.dem)
        arg = sum([["--arg", "%s:%d=1" % (f.name, has_bool(f))] for f in rs], [])
        for name in ("none", "automatic", "always") if steps is sa else ("none",):
            for t in (0, 1):
                if t and name != "none":
                    continue
                fm = [f for f in rs if re.search(FMT, f.dem)]
                m = spec(steps, arg + ret(t) + sum([load_args(f, mode, md[name]) for f in fm], []))
                for f in rs:
                    g = on(m, f, "its colour argument is on (mode %s, terminal %s)" % (name, "yes" if t else "no"))
                    if name == "none" and not t:
                        format_strings(c, m, g)
    starts.clear()
    for t in (0, 1):
        m = spec(sa, ret(t) + sum([load_args(f, mode, md["always"]) for f in noc], []))
        for f in noc:
            on(m, f, "the mode is always (terminal %s)" % ("yes" if t else "no"))
    for name in ("none", "automatic"):
        rs = [f for f in noc if name == "none" or re.search(r"::format\W", f.dem)]
        m = spec(sa, sum([load_args(f, mode, md[name]) for f in rs], []))
        for f in rs:
            g = m.fns[f.name]
            c.saw("%s mode=%s" % (f.dem, name))
            colour_off(c, base, m, g, "the colour mode is %s and there is no colour argument" % name, dirtyreach)
            c.count("off_cases")
    # the no-argument wrappers use a formatter's configured mode; string conversions without an argument are colourless
    for f in roots(c.module(CFG, sb), WRAP):
        if has_bool(f) is None and "to_string" in f.dem:
            colour_off(c, base, c.module(CFG, sb + [SIMPL]), c.module(CFG, sb + [SIMPL]).fns[f.name], "it converts to a string without a colour argument", dirtyreach - {x for x in dirtyreach if x in base.fns and re.search(FMT, base.fns[x].dem) and has_bool(base.fns[x]) is None})
            c.count("off_cases")
