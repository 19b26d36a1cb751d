"""Snippets: container accesses and buffer fills proved in bounds, the printed range includes the target line, no errors."""
import re
import containers
from front import AnalysisError, slice_steps
from throws import Throws, EXHAUST, IOS
from absorb import accessors
from ghost import Ghost
from bounds import obligations, element, FILL
from containers import method, obj
from linear import add, const, var
from flow import Facts

ENTRY = r"^cpptrace::(v[0-9]+::)?detail::get_snippet(\[abi:[a-z0-9]+\])?\("
STEPS = slice_steps(ENTRY, "cpptrace", containers.STOP + "|8microfmt", containers.KEEP + "|4fposI|^_ZSteqI11__mbstate|^_ZStneI11__mbstate")
CONFIGS = ["unwind-addr2line"]
EXTRA = ["libunwind-libdl"]
LIMIT = 1 << 31


def pos(f, x):
    return f.blocks[x.bb].index(x)


class Fields:
    """what is known about the fields of the elements of a vector kept beside a string: every element ever appended was
    proved to lie within the string, and the string does not change after the first append"""

    def __init__(self, f, G):
        self.f, self.G = f, G
        self.memo = {}

    def container_class(self, x):
        g = self.f.mod.fns.get(x.callee_name or "")
        m = re.match(r"^(?:.* )?(std::(?:__cxx11::)?vector<.*>)::", g.dem)
        return m.group(1) if m else None

    def within(self, cls, off, dk):
        """field `off` of every element of any vector of class cls is <= size of the string dk bytes from the vector"""
        key = (cls, off, dk)
        if key in self.memo:
            return self.memo[key]
        f, G = self.f, self.G
        n = 0
        ok = True
        for x in f.calls():
            m = method(f, x)
            if not m or m[0] != "vector" or self.container_class(x) != cls:
                continue
            if m[3] or m[1] in containers.READS or m[1].startswith("~") or m[1] in ("clear", "pop_back"):
                continue
            o, rest = obj(f, x)
            b, k = G.place(o)
            if m[1] == "vector" and not rest:
                continue
            if m[1] == "vector" and re.search(r"&&$", m[2].strip()):
                continue
            if m[1] not in containers.APPEND or not rest or k is None:
                ok = False
                break
            n += 1
            e, ek = G.place(rest[0])
            v = G.value(x, ("m", e, ek + off)) if ek is not None else None
            s = G.value(x, ("sz", b, k + dk))
            if v is None or s is None or not G.L.prove(add(G.L.U(s), G.L.U(v), -1), x.bb, pos(f, x)):
                ok = False
                break
            # the string keeps its length from here on
            seen, st = set(), [(x.bb, pos(f, x) + 1)]
            while st and ok:
                bb, i = st.pop()
                for y in f.blocks[bb][i:]:
                    my = method(f, y) if y.op in ("call", "invoke") else None
                    if my and not (my[3] or my[1] in containers.READS or my[1].startswith("~")):
                        oy, _ = obj(f, y)
                        if G.place(oy) == (b, k + dk):
                            ok = False
                for q in f.succs(bb):
                    if q not in seen:
                        seen.add(q)
                        st.append((q, 0))
        self.memo[key] = ok and n > 0
        return self.memo[key]

    def hyp(self, x, ref, sb, sk):
        """facts about loads from elements that ref depends on, for the string at (sb, sk)"""
        f, G = self.f, self.G
        out = []
        st, seen = [ref], set()
        while st:
            r = st.pop()
            y = f.inst(r)
            if y is None or r in seen:
                continue
            seen.add(r)
            if y.op == "load":
                el = element(f, y.d["ops"][0])
                if el and not el[4]:
                    b, k = G.place(el[0])
                    cls = self.container_class(el[2])
                    if k is not None and cls and b == sb and self.within(cls, el[3], sk - k):
                        s = G.value(x, ("sz", sb, sk))
                        out.append(add(G.L.U(s), G.L.U(y.ref), -1))
            elif y.op in ("add", "sub", "zext", "trunc", "select", "phi"):
                st += y.d.get("ops", []) + [v for v, _ in y.d.get("phi", [])]
        return out


def check_bounds(c, f, G, cfg):
    fields = Fields(f, G)
    bad = set()
    n = 0
    for x, kind, o, e in obligations(f, G):
        n += 1
        c.count("access_obligations")
        c.saw("%s at %s" % (kind, x.where))
        hyp = ()
        if kind == "substring start" and e is not None:
            b, k = G.place(o)
            hyp = tuple(fields.hyp(x, obj(f, x)[1][0], b, k))
        if e is None or not G.L.prove(e, x.bb, pos(f, x), hyp):
            bad.add(x.i)
            c.violation("bounds:%s" % x.where.split(":")[0] + ":" + short_fn(x) + ":" + kind, "out-of-bounds", x.where,
                        "%s not provably inside the container for every path, line and context size [%s]" % (kind, cfg))
    for x in f.calls():
        n_ = x.callee_name or ""
        if not FILL.match(n_):
            continue
        a = x.d["ops"]
        bi, li = (1, 2) if n_.startswith("_ZNSi") else (1, 2) if n_ in ("read", "pread") else (0, 2)
        el = element(f, a[bi])
        if el is None:
            continue
        c.count("buffer_fills")
        s = G.size_at(x, el[0])
        ln = G.L.S(a[li]) if n_.startswith("_ZNSi") else G.L.U(a[li])
        ok = s is not None and not el[4] and G.L.prove(add(add(G.L.U(s), add(ln, G.L.U(el[1])), -1), const(-el[3])), x.bb, pos(f, x))
        c.saw("fill at %s" % x.where)
        if not ok:
            c.violation("fill:" + short_fn(x), "buffer-overrun", x.where, "read into a buffer not provably large enough [%s]" % cfg)
    for x in f.calls():
        m = method(f, x)
        if m and m[1] == "resize":
            o, rest = obj(f, x)
            c.count("load_sizes")
            if not G.L.prove(add(const(LIMIT), G.L.U(rest[0]), -1), x.bb, pos(f, x)):
                c.violation("limit:" + short_fn(x), "no-size-limit", x.where, "amount of memory reserved for the file is not limited [%s]" % cfg)
    return n


def short_fn(x):
    l = x.d.get("loc") or []
    fns = [l[k + 2] for k in range(0, len(l), 3) if "/usr/" not in l[k + 1]]
    m = re.findall(r"\d+([a-z_]\w*?)(?=\d|E|B|C)", fns[0]) if fns else []
    return m[-1] if m else "?"


def target_args(f):
    """size_t parameters: target line, context size"""
    return ["a%d" % k for k, a in enumerate(f.args) if a["ty"] == "i64"]


def check_target(c, f, G, cfg):
    """the loop that prints lines starts at or before the target line and ends at or after it"""
    L = G.L
    t = target_args(f)[0]
    found = 0
    for x in f.insts:
        if x.op != "icmp" or x.d["pred"] not in ("eq", "ne") or t not in x.d["ops"]:
            continue
        i = [o for o in x.d["ops"] if o != t]
        y = f.inst(i[0]) if i else None
        if y is None or y.op != "phi" or y.bb not in L.loops:
            continue
        h = y.bb
        if (h, y.ref) in c.__dict__.setdefault("_done", set()):
            continue
        c._done.add((h, y.ref))
        found += 1
        c.count("print_loops")
        c.saw("line loop at %s" % x.where)
        body = L.loops[h]
        I, T = L.U(y.ref), L.U(t)
        for v, p in y.d["phi"]:
            if p not in body:
                if not L.prove(add(T, L.U(v), -1), None, None, (), (p, h)):
                    c.violation("target:begin:" + short_fn(x), "target-not-included", x.where,
                                "the first printed line may come after the target line [%s]" % cfg)
                if not L.prove(add(L.U(v), const(-1)), None, None, (), (p, h)):
                    c.violation("target:zero:" + short_fn(x), "line-zero", x.where, "the first printed line may be line 0 [%s]" % cfg)
            else:
                st = add(L.U(v), I, -1)
                w = f.inst(v)
                if not (w is not None and w.op == "add" and set(w.d["ops"]) == {y.ref, "c1"}):
                    c.violation("target:step:" + short_fn(x), "lines-skipped", x.where, "the printed lines are not consecutive [%s]" % cfg)
        for b in body:
            tm = f.blocks[b][-1]
            for k in dict.fromkeys(f.succs(b)):
                if k in body or tm.op == "invoke" and k == tm.d["unwind"] or dead(f, k):
                    continue
                c.count("loop_exits")
                # leaving before this iteration's line is printed: the target must already be behind
                goal = add(I, T, -1) if x.bb in f.dom[b] else add(add(I, T, -1), const(-1))
                if not L.prove(goal, None, None, (), (b, k)):
                    c.violation("target:end:" + short_fn(x), "target-not-included", tm.where,
                                "printing may stop before the target line [%s]" % cfg)
    return found


def dead(f, k):
    seen, st = set(), [k]
    while st:
        b = st.pop()
        if b in seen:
            continue
        seen.add(b)
        if f.blocks[b][-1].op == "ret":
            return False
        st += f.succs(b)
    return True


def run(c):
    c.rule("in the code producing a snippet, with every file content, line, column and context size unknown: each element access, "
           "substring start and buffer fill is proved (linear facts, loop invariants, container sizes as ghost state) to lie inside "
           "its container; the loop printing lines is proved to start in 1..target, advance by one and end at or after the target; the "
           "memory reserved for the file is bounded by a constant; no exception other than resource exhaustion can leave")
    for cfg in CONFIGS + (EXTRA if c.thorough else []):
        m = c.module(cfg, STEPS)
        fs = [f for f in m.defined() if re.search(ENTRY, f.dem)]
        c.need(len(fs), "snippet producer in " + cfg, 1)
        c._done = set()
        for f in fs:
            G = Ghost(f)
            n = check_bounds(c, f, G, cfg)
            c.need(n, "container accesses in the snippet code", 3)
            c.need(check_target(c, f, G, cfg), "loop printing the lines", 1)
    for cfg in ["unwind-addr2line-release"] + (["libunwind-libdl"] if c.thorough else []):
        m = c.module(cfg)
        proved = {g.name: set(EXHAUST) for g in m.fns.values() if re.search(r"std::__cxx11::basic_string<char.*>::(substr\(unsigned long, unsigned long\) const|basic_string\(char const\*, std::allocator<char> const&\))", g.dem)}
        th = Throws(m, False, override=dict(accessors(m), **proved))
        for f in m.find(ENTRY):
            c.count("functions")
            for t in th.out.get(f.name, {}):
                if t not in EXHAUST and t not in (IOS, "_ZTISt12system_error"):
                    c.violation("throws:%s" % t, "error-escapes", "%s:%s" % (f.file, f.line), "producing a snippet can raise %s [%s]" % (t, cfg),
                                th.why(f.name, t))
