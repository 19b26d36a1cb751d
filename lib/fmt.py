"""The formatting entry points as sliced, specialised programs: option fields, colour arguments, escape sequences."""
import re
from front import AnalysisError, slice_steps
from flow import apath
from pe import NS
from effects import param_kind

STOP = r"~^_ZNK?(St|9__gnu_cxx)|^_ZSt|8microfmt6detail(6format|8do_write)|12prune_symbol|15prettify_symbol|11get_manager|^_ZN8cpptrace[v0-9]*6detail(11assert_fail|5panic)"
KEEP = r"^_ZNSt14numeric_limitsI|^_ZSt(3min|3max|4move|7forward|4swap|11__addressof|9addressof|8__addressof)I"
INC = r"^cpptrace::|^ctrace"
FMT = NS + r"formatter::(print|format)(\[abi:[a-z0-9]+\])?\("
WRAP = NS + r"stacktrace(_frame)?::(print|print_with_snippets|to_string)(\[abi:[a-z0-9]+\])?\(|^ctrace_stacktrace_to_string$"
OTHER = NS + r"get_snippet(\[abi:[a-z0-9]+\])?\(|^ctrace_print_stacktrace$"
FOLD = ("xform", ["--fold-flags"])
SIMPL = ("opt", "function(simplifycfg,sroa,early-cse<memssa>,instsimplify,simplifycfg,jump-threading,gvn<no-pre>,sccp,simplifycfg,adce)")
CFG = "unwind-addr2line-release"       # assertions compiled out: the formatting code alone

SETTERS = ["header", "colors", "addresses", "paths", "snippets", "snippet_context", "columns", "symbols",
           "filtered_frame_placeholders", "filter", "transform", "break_before_filename", "hide_exception_machinery"]


def esc_events(s):
    return ["reset" if x in ("0", "") else "start" for x in re.findall("\x1b\\[([0-9;]*)m?", s)] if "\x1b" in s else []


def gstr(m, ref):
    """the string constant a reference denotes, or None"""
    if ref[0] != "g":
        return None
    n, _, o = ref[1:].partition("@")
    g = m.globals.get(n)
    if not g or not isinstance(g.get("init"), dict):
        return None
    s = g["init"].get("str")
    return None if s is None else s[int(o) if o else 0:].split("\0")[0]


def has_bool(f):
    """index of the colour parameter: the function's only bool/ctrace_bool parameter"""
    ps = params(f.dem)
    if ps is None:       # C function
        ix = [k for k, a in enumerate(f.args) if a["ty"] in ("i1", "i8") and not a.get("sret")]
        return ix[-1] if ix else None
    k0 = len(f.args) - len(ps)
    ix = [k for k, p in enumerate(ps) if p == "bool"]
    return k0 + ix[0] if ix else None


def params(dem):
    m = re.search(r"\((.*)\)( const)?$", dem)
    if not m:
        return None
    out, d, cur = [], 0, ""
    for ch in m.group(1):
        if ch in "<(":
            d += 1
        elif ch in ">)":
            d -= 1
        if ch == "," and not d:
            out.append(cur.strip()); cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def chain(p):
    """('ld'/'gep' path rooted at an argument) -> [arg, off0, off1, ...] or None"""
    offs = []
    while True:
        if p[0] == "gep":
            if p[3]:
                return None
            offs.append(p[2]); p = p[1]
        else:
            offs.append(0)
        if p[0] == "ld":
            p = p[1]
        elif p[0] == "arg":
            return [p[1]] + offs[::-1]
        else:
            return None


def option_fields(c, cfg=CFG):
    """{option: set of chains written by its setter}; also the sizes"""
    m = c.module(cfg, slice_steps(NS + r"formatter::(%s)\(" % "|".join(SETTERS), INC, STOP, KEEP))
    out = {}
    for o in SETTERS:
        fs = m.find(NS + r"formatter::%s\(" % o)
        if len(fs) != 1:
            raise AnalysisError("formatter setter %s matches %d functions" % (o, len(fs)))
        f = fs[0]
        w = set()
        for x in f.insts:
            if x.op == "store":
                ch = chain(apath(f, x.d["ops"][1]))
                if ch and ch[0] == 0 and len(ch) > 2:
                    w.add(tuple(ch))
            elif x.op in ("call", "invoke"):
                g = m.fns.get(x.callee_name)
                # a mutating standard-library call on the field (assignment/swap/move)
                for k, r in enumerate(x.d["ops"]):
                    if r[0] not in "av":
                        continue
                    ch = chain(apath(f, r))
                    if ch and ch[0] == 0 and len(ch) > 2 and (g is None or k == 0 and not g.dem.endswith(" const") or "swap" in g.dem or "exchange" in g.dem or g.dem.startswith("llvm.mem")):
                        w.add(tuple(ch))
        if not w:
            raise AnalysisError("formatter setter %s writes no option field" % o)
        out[o] = w
    return m, out


def this_of(f):
    """index of the object argument (after an sret result)"""
    return 1 if f.args and f.args[0].get("sret") else 0


def load_args(f, ch, v):
    """fix every load of the formatter option at `ch` to v in method f"""
    return ["--const-load", "%s:%s=%d" % (f.name, ".".join(map(str, [this_of(f)] + list(ch[1:]))), v)]


def roots_steps(rx, extra_stop=""):
    return slice_steps(rx, INC, STOP + ("|" + extra_stop if extra_stop else ""), KEEP)


def roots(m, rx):
    return [f for f in m.find(rx) if not f.decl and not f.internal]


# ---------------------------------------------------------------------------------- what an output consists of
FIELDS = ("raw_address", "object_address", "line", "column", "filename", "symbol", "is_inline")
TRANSFORM = re.compile(r"^std::function<cpptrace::(v\d+::)?stacktrace_frame \(cpptrace::(v\d+::)?stacktrace_frame\)>::operator\(\)")
FILTER = re.compile(r"^std::function<bool \(cpptrace::(v\d+::)?stacktrace_frame const&\)>::operator\(\)")
HAS_TRANSFORM = re.compile(r"^std::function<cpptrace::(v\d+::)?stacktrace_frame \(cpptrace::(v\d+::)?stacktrace_frame\)>::operator bool")
HAS_FILTER = re.compile(r"^std::function<bool \(cpptrace::(v\d+::)?stacktrace_frame const&\)>::operator bool")
OUTPUT = re.compile(r"microfmt::detail::format<|std::operator<<|std::basic_ostream<.*>::(operator<<|write|put)\b|^(fwrite|fputs|fputc|putc|fprintf|printf|puts)$")
FRAMECTOR = re.compile(r"stacktrace_frame::(stacktrace_frame|operator=)\(")
PURE = re.compile(r"^llvm\.(lifetime|dbg|assume|experimental)|::~\w+\(\)$|^(strlen|strcmp|memcmp)$")


class Parts:
    """dependence of outputs on frame fields, options and arguments, in one specialised (inlined) formatting function"""

    def __init__(self, f, off, fsize):
        self.f, self.m, self.fsize = f, f.mod, fsize
        self.field = {v: k for k, v in off.items()}
        k0 = this_of(f)
        ps = params(f.dem) or []
        self.frame_arg = self.trace_arg = None
        for k, p in enumerate(ps):
            if re.search(r"stacktrace_frame const&$", p):
                self.frame_arg = "a%d" % (k0 + 1 + k)
            elif re.search(r"stacktrace const&$", p):
                self.trace_arg = "a%d" % (k0 + 1 + k)
        self.this = "a%d" % k0
        self._b, self._w, self._c, self._a, self._done, self._fl = {}, None, {}, {}, set(), {}
        self.solve()

    def solve(self):
        """iterate the mutually dependent contents to a fixed point"""
        size = -1
        while size != sum(map(len, self._c.values())):
            size = sum(map(len, self._c.values()))
            self._a, self._done = {}, set()
            for x in self.f.insts:
                if x.op == "alloca":
                    self.content(x.i)
        self._a = {}

    def dem(self, x):
        n = x.callee_name
        return self.m.fns[n].dem if n in self.m.fns else (n or "")

    # pointers: {(base, offset)}; base: 'in', ('al', id), ('opt', chain...), ('arg', k), ('v', id)
    def bases(self, ref, seen=()):
        if ref in self._b:
            return self._b[ref]
        if ref in seen or len(seen) > 40:
            return set()
        r = self._bases(ref, seen + (ref,))
        if not seen:
            self._b[ref] = r
        return r

    def _bases(self, ref, seen):
        if ref == self.frame_arg:
            return {("in", 0)}
        if ref[0] == "a":
            return {(("arg", ref), 0)}
        if ref[0] == "g":
            return {(("g", ref), 0)}
        x = self.f.inst(ref)
        if x is None:
            return set()
        o = x.d.get("ops", [])
        if x.op == "alloca":
            return {(("al", x.i), 0)}
        if x.op == "getelementptr":
            out = set()
            for b, k in self.bases(o[0], seen):
                if x.d.get("off") is None:
                    out.add((b, None))
                elif k is not None:
                    n = k + x.d["off"]
                    out.add((b, n % self.fsize if b == "in" else (n if not x.d.get("var") else None)))
                else:
                    out.add((b, None))
            return out
        if x.op in ("phi", "select"):
            vs = [v for v, _ in x.d["phi"]] if x.op == "phi" else o[1:]
            return set().union(*[self.bases(v, seen) for v in vs])
        if x.op in ("bitcast", "freeze"):
            return self.bases(o[0], seen)
        if x.op == "load":
            if x.ty == "ptr":
                for b, k in self.bases(o[0], seen):
                    if b == ("arg", self.trace_arg):
                        return {("in", 0)}
                    if isinstance(b, tuple) and b[0] == "al":
                        out = set()
                        for w in self.writers(b[1]):
                            if w.op == "store" and w.d["ops"][0] != ref and w.d["ops"][0][0] in "va":
                                out |= self.bases(w.d["ops"][0], seen)
                        if out:
                            return out
            return {(("v", x.i), 0)}
        if x.op in ("call", "invoke"):
            if re.search(r"::vector<.*stacktrace_frame.*>::(operator\[\]|at|begin|cbegin|data|front|back|end|cend)\(|normal_iterator<cpptrace::(v\d+::)?stacktrace_frame.*operator", self.dem(x)):
                return {("in", 0)}
        return {(("v", x.i), 0)}

    def writers(self, al):
        if self._w is None:
            self._w = {}
            for x in self.f.insts:
                if x.op == "store":
                    ps = [x.d["ops"][1]]
                elif x.op in ("call", "invoke") and not PURE.search(self.dem(x)):
                    g = self.m.fns.get(x.callee_name)
                    n = len(x.d["ops"])
                    ps = [o for i, o in enumerate(x.d["ops"]) if o[0] == "v" and not (g is not None and g.name.startswith("_Z") and param_kind(g, n, i, bool(x.d.get("sret"))) == "const")]
                else:
                    continue
                for p in ps:
                    for b, _ in self.bases(p):
                        if isinstance(b, tuple) and b[0] == "al":
                            self._w.setdefault(b[1], []).append(x)
        return self._w.get(al, [])

    def framelike(self, al):
        """a stack slot that holds a frame at its start: a frame, or a holder in which one is constructed"""
        if al not in self._fl:
            self._fl[al] = "stacktrace_frame" in (self.f.byid[al].d.get("aty") or "") or any(
                w.op != "store" and FRAMECTOR.search(self.dem(w)) and (("al", al), 0) in self.bases(w.d["ops"][0]) for w in self.writers(al))
        return self._fl[al]

    def content(self, al):
        """atoms of what may be stored in an alloca"""
        out = self._c.setdefault(al, set())
        if al in self._done:
            return out
        self._done.add(al)
        seen, st = {al}, [al]
        while st:
            a = st.pop()
            for w in self.writers(a):
                d = self.dem(w) if w.op != "store" else ""
                if TRANSFORM.search(d) and w.d["ops"][0][0] == "v" and any(b == ("al", a) for b, _ in self.bases(w.d["ops"][0])):
                    out.add(("frame", "transform", None))
                    continue
                for o in (w.d["ops"][:1] if w.op == "store" else w.d["ops"]):
                    for b, k in self.bases(o):
                        if isinstance(b, tuple) and b[0] == "al":
                            if b[1] not in seen:
                                if self.framelike(b[1]) and not self.framelike(a):
                                    out |= self.at(b, k)
                                else:
                                    seen.add(b[1]); st.append(b[1])
                        elif b == "in":
                            out.add(("frame", "input", None if self.framelike(a) else self.field.get(k)))
                    if w.op == "store" or not self.framelike(a):
                        out |= self.atoms(o)
        return out

    def at(self, b, k):
        """atoms of the memory at (base, offset)"""
        if b == "in":
            return {("frame", "input", self.field.get(k))}
        if isinstance(b, tuple) and b[0] == "al":
            if self.framelike(b[1]):
                return {("frame", t[1], self.field.get(k)) for t in self.content(b[1]) if t[0] == "frame"}
            return self.content(b[1])
        if isinstance(b, tuple) and b[0] == "arg":
            return {("arg", int(b[1][1:]))}
        if isinstance(b, tuple) and b[0] == "v":
            ch = chain(apath(self.f, "v%d" % b[1]))
            if ch and "a%d" % ch[0] == self.this:
                ch = [0] + ch[1:-1] + [k]
                return {("opt", tuple(ch))} if k is not None else set()
        return set()

    def atoms(self, ref):
        """what a value depends on"""
        if ref in self._a:
            return self._a[ref]
        out, seen, st = set(), set(), [ref]
        self._a[ref] = out
        while st:
            r = st.pop()
            if r in seen:
                continue
            seen.add(r)
            if r[0] == "a":
                out.add(("arg", int(r[1:])))
                continue
            x = self.f.inst(r)
            if x is None:
                continue
            if x.op == "load":
                for b, k in self.bases(x.d["ops"][0]):
                    out |= self.at(b, k)
                ch = chain(apath(self.f, x.d["ops"][0]))
                if ch and "a%d" % ch[0] == self.this and len(ch) > 2:
                    out.add(("opt", (0,) + tuple(ch[1:])))
            elif x.op == "phi":
                out.add(("phi", x.i))
                st += [v for v, _ in x.d["phi"]]
            elif x.op in ("call", "invoke"):
                out.add(("call", x.i))
                for o in x.d["ops"]:
                    out |= self.deref(o)
                    st.append(o)
            elif x.op not in ("alloca", "landingpad"):
                st += x.d.get("ops", [])
        return out

    def deref(self, o):
        out = set()
        for b, k in self.bases(o):
            out |= self.at(b, k)
        return out

    def outputs(self):
        """[(inst, atoms)] of every call that writes to a stream, file or string being built"""
        out = []
        for x in self.f.calls():
            d = self.dem(x)
            if not OUTPUT.search(d):
                continue
            a = set()
            for o in x.d["ops"]:
                a |= self.atoms(o) | self.deref(o)
            out.append((x, a))
        return out


def fields(atoms, origin=None):
    return {t[2] for t in atoms if t[0] == "frame" and (origin is None or t[1] == origin)}
