"""Formatter options: which option fields each setter writes, each overload reads, and what each option value leaves in the
specialised print path."""
import re
from front import AnalysisError
from fmt import *
from scev import ITER, layout
from fmtloop import Loop, reads
from F02 import short

XSTOP = r"8basename|11get_snippet|16stacktrace_frame[CD]"
WSTOP = r"9formatter(5print|6format|8snippets|[CD][12])B?"
WRAPX = WRAP + "|" + NS + r"operator<<\(std::(ostream|basic_ostream<.*>)&, cpptrace::(v\d+::)?stacktrace(_frame)? const&\)"
TRACE_OPTS = [o for o in SETTERS if o != "colors"]
FRAME_OPTS = ["addresses", "paths", "columns", "symbols", "transform", "break_before_filename"]


def enum(m, name):
    for t in m.dtypes:
        if t["name"].endswith(name):
            return {e["n"]: e["val"] for e in t["members"] if "val" in e}
    raise AnalysisError("enumeration %s not found" % name)


STREAMS = {"_ZSt4cout": "cout", "_ZSt4cerr": "cerr", "_ZSt4clog": "clog", "stdout": "stdout", "stderr": "stderr"}


class Path:
    """one formatting overload specialised to one option combination"""

    def __init__(self, f, off, fsize):
        self.f = f
        self.P = Parts(f, off, fsize)
        self.calls = [(x, self.P.dem(x)) for x in f.calls()]

    def loads(self, fld):
        """frame-field reads that feed something (integers: the value read; strings: content passed on)"""
        out = []
        for x in self.f.insts:
            if x.op == "load" and not x.ty == "ptr":
                for b, k in self.P.bases(x.d["ops"][0]):
                    if (b == "in" or isinstance(b, tuple) and b[0] == "al" and self.P.framelike(b[1])) and self.P.field.get(k) == fld:
                        out.append(x)
        return out

    def called(self, rx):
        return [x for x, d in self.calls if re.search(rx, d)]

    def newlines(self):
        """outputs whose literal text contains a line break"""
        return [x for x, d in self.calls if OUTPUT.search(d) and any(o == "c10" or "\n" in (gstr(self.P.m, o) or "") for o in x.d["ops"])]


def dest(P, x, d, ps, k0):
    """where an output goes: {('arg', k)} stream/file parameters, {'cout', 'cerr', ...} globals, {'buffer'}"""
    if re.match(r"f?putc|fputs|fprintf|fwrite", d):
        o = x.d["ops"][-1] if not d.startswith("fprintf") else x.d["ops"][0]
    elif re.match(r"printf|puts", d):
        return {"stdout"}
    else:
        o = x.d["ops"][0]
    out = set()

    def add(bs, depth):
        for b, _ in bs:
            if not isinstance(b, tuple):
                continue
            if b[0] == "g":
                n = b[1][1:].split("@")[0]
                if n in STREAMS:
                    out.add(STREAMS[n])
            elif b[0] == "arg":
                k = int(b[1][1:])
                if k >= k0 + 1 and k - k0 - 1 < len(ps) and re.search(r"ostream|FILE", ps[k - k0 - 1]):
                    out.add(("arg", k))
            elif b[0] == "al":
                if re.search(r"ostringstream|basic_ostringstream|stringstream", P.f.byid[b[1]].d.get("aty") or ""):
                    out.add("buffer")
                elif depth < 3:
                    for w in P.writers(b[1]):
                        if w.op == "store":
                            add(P.bases(w.d["ops"][0]), depth + 1)
                        elif re.search(r"ostream_iterator|back_insert_iterator", P.dem(w)):
                            for q in w.d["ops"][1:]:
                                add(P.bases(q), depth + 1)
            elif b[0] == "v":
                y = P.f.byid[b[1]]
                if y.op in ("call", "invoke") and depth < 6:      # stream << a << b: the result is the stream
                    for q in y.d["ops"][:1]:
                        add(P.bases(q), depth + 1)
                elif y.op == "load" and y.d["ops"][0][1:] in STREAMS:
                    out.add(STREAMS[y.d["ops"][0][1:]])
    add(P.bases(o), 0)
    return out


def run(c):
    c.rule("each formatter setter writes exactly one option field, distinct from every other setter's, from its own argument")
    c.rule("every overload that formats a trace (8) or a frame (11) reads each option field that applies to it")
    c.rule("partial evaluation per option value: what the option names is present in the specialised path exactly for the values that ask for it")
    c.rule("indent and stream/file arguments reach the output; nothing is written anywhere else; the plain and the snippet wrappers use formatters without and with snippets, on the trace and stream they were given")
    base = c.module(CFG)
    lay = layout(c)
    off = {k: lay["off_frame__" + k] for k in FIELDS}
    fsize = lay["size_frame"]
    sm, fl = option_fields(c)

    # (a) setters
    for o in SETTERS:
        f = sm.find(NS + r"formatter::%s\(" % o)[0]
        if len(fl[o]) != 1:
            c.violation("setter:%s" % o, "setter-writes-its-field", "%s:%s" % (f.file, f.line), "formatter::%s writes %d option fields instead of one" % (o, len(fl[o])))
        for o2 in SETTERS:
            if o2 < o and fl[o] & fl[o2]:
                c.violation("setter:%s:%s" % (o2, o), "setter-writes-its-field", "%s:%s" % (f.file, f.line), "formatter::%s and formatter::%s write the same option field" % (o2, o))
        P = Parts(f, off, fsize)
        got = False
        for x in f.insts:
            if x.op == "store" or x.op in ("call", "invoke"):
                ptrs = x.d["ops"][1:] if x.op == "store" else x.d["ops"]
                if any(tuple(ch) in fl[o] for ch in [chain(apath(f, r)) for r in ptrs if r[0] in "av"] if ch):
                    vals = x.d["ops"][:1] if x.op == "store" else x.d["ops"]
                    for v in vals:
                        if ("arg", 1) in P.atoms(v) | P.deref(v) or any(b == ("arg", "a1") for b, _ in P.bases(v)):
                            got = True
                    if x.op == "store" and x.d["ops"][0][0] == "c":
                        c.violation("setter-const:%s" % o, "setter-writes-its-field", x.where, "formatter::%s stores a constant instead of its argument" % o)
        if not got:
            c.violation("setter-arg:%s" % o, "setter-writes-its-field", "%s:%s" % (f.file, f.line), "formatter::%s does not store its argument" % o)
        c.count("setters")
    one = {o: sorted(fl[o])[0] for o in SETTERS}

    # (b) overloads read their options
    steps = slice_steps(FMT, INC, STOP + "|" + XSTOP, KEEP + "|" + ITER)
    m0 = c.module(CFG, steps)
    fs = roots(m0, FMT)
    T = [f for f in fs if any(re.search(r"stacktrace const&$", p) for p in params(f.dem))]
    F = [f for f in fs if any(re.search(r"stacktrace_frame const&$", p) for p in params(f.dem))]
    c.need(len(T), "trace overloads", 8); c.need(len(F), "frame overloads", 11)
    for f in T + F:
        k0 = this_of(f)
        read = set()
        for x in f.insts:
            refs = x.d["ops"][:1] if x.op == "load" else x.d["ops"] if x.op in ("call", "invoke") else []
            for r in refs:
                if r[0] in "av":
                    ch = chain(apath(f, r))
                    if ch and ch[0] == k0:
                        read.add((0,) + tuple(ch[1:]))
        opts = (TRACE_OPTS if f in T else FRAME_OPTS) + (["colors"] if has_bool(f) is None else [])
        for o in opts:
            c.count("overload_option_pairs")
            if one[o] not in read:
                c.violation("ignored:%s:%s" % (o, short(f)), "overload-reads-option", "%s:%s" % (f.file, f.line), "%s never reads the option set by formatter::%s" % (f.dem, o))
        c.saw(f.dem)

    # (c) option values
    has_t = [n for n, g in base.fns.items() if HAS_TRANSFORM.search(g.dem)]
    has_f = [n for n, g in base.fns.items() if HAS_FILTER.search(g.dem)]
    the_f = [n for n, g in base.fns.items() if FILTER.search(g.dem)]
    if not has_t or not has_f or not the_f:
        raise AnalysisError("std::function queries for transform/filter not found")
    pre = {"t": has_t, "f": has_f, "fr": the_f}

    def spec(**kw):
        args = []
        for k, v in kw.items():
            if k in pre:
                args += sum([["--const-ret", "%s=%d" % (n, v)] for n in pre[k]], [])
            else:
                args += sum([load_args(f, one[k], v) for f in T + F], [])
        m = c.module(CFG, steps + [("xform", args), SIMPL, SIMPL, FOLD, SIMPL])
        return {f.name: Path(m.fns[f.name], off, fsize) for f in T + F}

    AM, PM, SYM = enum(base, "address_mode"), enum(base, "path_mode"), enum(base, "symbol_mode")
    PR, PT, SN, BN = NS + r"prune_symbol", NS + r"prettify_symbol", r"get_snippet", r"detail::basename"
    ld = lambda k: (lambda p: bool(p.loads(k)), "use of the frame's %s" % k)
    cl = lambda rx, what: (lambda p: bool(p.called(rx)), what)
    prune, pretty, snip, bname = cl(PR, "call to prune_symbol"), cl(PT, "call to prettify_symbol"), cl(SN, "snippet"), cl(BN, "call to basename")
    filt, trans = cl(FILTER.pattern, "call of the filter"), cl(TRANSFORM.pattern, "call of the transform")
    raw, obj, col = ld("raw_address"), ld("object_address"), ld("column")
    B = dict(t=0, hide_exception_machinery=0)
    rows = [
        (T + F, "addresses", "raw", dict(B, f=0, addresses=AM["raw"]), [raw], [obj]),
        (T + F, "addresses", "object", dict(B, f=0, addresses=AM["object"]), [obj], [raw]),
        (T + F, "addresses", "none", dict(B, f=0, addresses=AM["none"]), [], [raw, obj]),
        (T + F, "paths", "full", dict(B, paths=PM["full"]), [], [bname]),
        (T + F, "paths", "basename", dict(B, paths=PM["basename"]), [bname], []),
        (T, "snippets", "true", dict(B, snippets=1), [snip], []),
        (T, "snippets", "false", dict(B, snippets=0), [], [snip]),
        (T + F, "columns", "true", dict(B, snippets=0, columns=1), [col], []),
        (T + F, "columns", "false", dict(B, snippets=0, columns=0), [], [col]),
        (T + F, "symbols", "full", dict(B, symbols=SYM["full"]), [], [prune, pretty]),
        (T + F, "symbols", "pruned", dict(B, symbols=SYM["pruned"]), [prune], [pretty]),
        (T + F, "symbols", "pretty", dict(B, symbols=SYM["pretty"]), [pretty], [prune]),
        (T, "filter", "set", dict(B, f=1), [filt], []),
        (T, "filter", "not set", dict(B, f=0), [], [filt]),
        (T + F, "transform", "set", dict(t=1, f=0, hide_exception_machinery=0), [trans], []),
        (T + F, "transform", "not set", dict(B, f=0), [], [trans]),
    ]
    cache = {}

    def get(kw):
        k = tuple(sorted(kw.items()))
        if k not in cache:
            cache[k] = spec(**kw)
        return cache[k]
    for rs, o, val, kw, yes, no in rows:
        ps = get(kw)
        for f in rs:
            p = ps[f.name]
            c.count("option_value_cases")
            for fn, what in yes:
                if not fn(p):
                    c.violation("value:%s=%s:%s" % (o, val, short(f)), "option-value-honoured", "%s:%s" % (f.file, f.line), "%s: no %s left when %s is %s" % (f.dem, what, o, val))
            for fn, what in no:
                if fn(p):
                    c.violation("value:%s=%s:%s" % (o, val, short(f)), "option-value-honoured", "%s:%s" % (f.file, f.line), "%s: %s although %s is %s" % (f.dem, what, o, val))
    # the snippet is asked for with the configured context, the frame's own file, line and column; other printing uses the transformed frame
    for f in T:
        p = get(dict(B, snippets=1))[f.name]
        for x in p.called(SN):
            at = [p.P.atoms(o) | p.P.deref(o) for o in x.d["ops"]]
            if not any(("opt", one["snippet_context"]) in a for a in at):
                c.violation("context:%s" % short(f), "option-value-honoured", x.where, "%s asks for a snippet without using the configured snippet context" % f.dem)
            for fld in ("filename", "line", "column"):
                if not any(t[0] == "frame" and t[2] == fld for a in at for t in a) and not any(b == "in" and p.P.field.get(k) == fld for o in x.d["ops"] for b, k in p.P.bases(o)):
                    c.violation("snippet-%s:%s" % (fld, short(f)), "option-value-honoured", x.where, "%s asks for a snippet without the frame's %s" % (f.dem, fld))
    for f in F:
        p = get(dict(t=1, f=0, hide_exception_machinery=0))[f.name]
        for x, org, fld in reads(p.P, set(range(len(p.f.blocks)))):
            if org != {"transform"}:
                c.violation("untransformed:%s" % short(f), "option-value-honoured", x.where, "%s prints the %s of the frame before the transform" % (f.dem, fld))
                break
    # header
    for f in T:
        p = get(dict(B, snippets=0, columns=0))[f.name]
        if not any(one["header"] == (0,) + tuple(ch[1:]) for x, d in p.calls if OUTPUT.search(d) for ch in [chain(apath(p.f, o)) for o in x.d["ops"] if o[0] in "av"] if ch) and \
           not any(("opt", one["header"]) in a for _, a in p.P.outputs()):
            c.violation("header:%s" % short(f), "option-value-honoured", "%s:%s" % (f.file, f.line), "%s never outputs the configured header" % f.dem)
    # break before the file name, indentation
    on, offp = get(dict(B, f=0, snippets=0, break_before_filename=1)), get(dict(B, f=0, snippets=0, break_before_filename=0))
    for f in T + F:
        a, b = on[f.name], offp[f.name]
        if len(a.newlines()) <= len(b.newlines()):
            c.violation("value:break:%s" % short(f), "option-value-honoured", "%s:%s" % (f.file, f.line), "%s: the same line breaks with and without break_before_filename" % f.dem)
        ps, k0 = params(f.dem), this_of(f)
        ind = [k0 + 1 + k for k, q in enumerate(ps) if q == "unsigned long"]
        for k in ind:
            c.count("indent_arguments")
            if not any(("arg", k) in at for _, at in a.P.outputs()):
                c.violation("indent:%s" % short(f), "indent-used", "%s:%s" % (f.file, f.line), "%s ignores its indentation argument" % f.dem)
    # placeholders
    show, hide = get(dict(B, f=1, fr=0, filtered_frame_placeholders=1)), get(dict(B, f=1, fr=0, filtered_frame_placeholders=0))
    for f in T:
        n = lambda p: sum(1 for x, d in p.calls if OUTPUT.search(d))
        if n(show[f.name]) <= n(hide[f.name]):
            c.violation("value:placeholders:%s" % short(f), "option-value-honoured", "%s:%s" % (f.file, f.line), "%s: filtered frames are output the same with and without placeholders" % f.dem)
    # hiding the exception machinery looks at the symbols
    h1, h0 = get(dict(t=1, f=0, hide_exception_machinery=1)), get(dict(t=1, f=0, hide_exception_machinery=0))
    for f in T:
        if not Loop(h1[f.name].f, off, fsize).start():
            c.violation("value:hide=1:%s" % short(f), "option-value-honoured", "%s:%s" % (f.file, f.line), "%s does not skip the exception machinery although hiding it is on" % f.dem)
        if Loop(h0[f.name].f, off, fsize).start():
            c.violation("value:hide=0:%s" % short(f), "option-value-honoured", "%s:%s" % (f.file, f.line), "%s does not start at the first frame although hiding the exception machinery is off" % f.dem)
    # (d) destinations
    allp = get(dict(B))
    for f in T + F:
        p, ps, k0 = allp[f.name], params(f.dem), this_of(f)
        st = [k0 + 1 + k for k, q in enumerate(ps) if re.search(r"ostream|FILE", q)]
        isfile = any("FILE" in q for q in ps)
        if re.search(r"::format(\[|$)", f.dem.split("(")[0]):
            want, final = {"buffer"}, None
        elif not st:
            want, final = {"cout"}, None
        elif isfile:
            want, final = {"buffer", ("arg", st[0])}, ("arg", st[0])
        else:
            want, final = {("arg", st[0])}, None
        seen = set()
        for x, d in p.calls:
            if not OUTPUT.search(d):
                continue
            ds = dest(p.P, x, d, ps, k0)
            seen |= ds
            c.count("outputs")
            for t in ds - want:
                c.violation("dest:%s:%s" % (short(f), t), "output-goes-to-destination", x.where, "%s writes to %s instead of the destination it was given" % (f.dem, t if isinstance(t, str) else "argument %d" % t[1]))
        if not (want & seen) or final and final not in seen:
            c.violation("dest-none:%s" % short(f), "output-goes-to-destination", "%s:%s" % (f.file, f.line), "%s writes nothing to the destination it was given" % f.dem)
    # (e) wrappers
    mw = c.module(CFG, slice_steps(WRAPX, INC, STOP + "|" + WSTOP, KEEP) + [SIMPL])
    ws = [f for f in roots(mw, WRAPX) if not f.dem.startswith("ctrace")]
    c.need(len(ws), "wrappers", 8)
    for f in ws:
        ps, k0 = params(f.dem), this_of(f)
        if re.search(r"operator<<", f.dem):
            obj, args = 1, {0: "stream"}
        else:
            obj, args = k0, {k0 + 1 + k: q for k, q in enumerate(ps)}
        uses = [x for x in f.calls() if x.callee_name in mw.fns and re.search(FMT + "|" + WRAPX, mw.fns[x.callee_name].dem)]
        if not uses:
            c.violation("wrapper:%s" % short(f), "wrapper-delegates", "%s:%s" % (f.file, f.line), "%s does not format through a formatter" % f.dem)
        snippets = set()
        for x in f.calls():
            if x.callee_name in mw.fns and re.search(NS + r"formatter::snippets\(", mw.fns[x.callee_name].dem):
                snippets.add(x.d["ops"][1] not in ("c0",))
        want = "with_snippets" in f.dem
        if (True in snippets) != want:
            c.violation("wrapper-snippets:%s" % short(f), "wrapper-delegates", "%s:%s" % (f.file, f.line), "%s uses a formatter with snippets %s" % (f.dem, "off" if want else "on"))
        for x in uses:
            c.count("wrapper_calls"); c.saw(f.dem)
            g = mw.fns[x.callee_name]
            ops = x.d["ops"]
            if "a%d" % obj not in ops:
                c.violation("wrapper-trace:%s" % short(f), "wrapper-delegates", x.where, "%s does not pass its own trace to %s" % (f.dem, g.dem))
            for k, q in args.items():
                if q == "bool" and has_bool(g) is None:
                    c.violation("wrapper-colour:%s" % short(f), "wrapper-delegates", x.where, "%s drops its colour argument" % f.dem)
                if (q == "stream" or "ostream" in q) and not ("a%d" % k in ops or re.search(r"::format(\[|$)", g.dem.split("(")[0])):
                    c.violation("wrapper-stream:%s" % short(f), "wrapper-delegates", x.where, "%s does not print to the stream it was given" % f.dem)
