"""Terminate handler typestate: for each kind of pending exception, every path of the registered handler describes it on standard
error, then prints the right trace, then flushes, then aborts."""
import re
from front import AnalysisError, slice_steps, CONFIGS as ALLCFG
from pe import NS, specialise, setter_globals
from absorb import Mode, SETTER, noreturn, reporters, accessors
from throws import Throws, EXHAUST, IOS, tname
from mem import base, taint
from ir import base_name

REGISTER = NS + r"register_terminate_handler\(\)$"
STOP = r"~^_ZNK?8cpptrace(2v[0-9]+)?(6detail)?([0-9]+(generate_|get_default|demangle|log_and|isatty|prettify|resolve)|9formatter|10stacktrace|8microfmt|3log|9raw_trace|12object_trace)|^_ZN?K?S|^_ZN?K?9__gnu"
KEEP = r"^_ZNK?St15__exception_ptr"
CONFIGS = ["unwind-addr2line", "execinfo-libdl"]
CUR = "_ZSt17current_exceptionv"
RETHROW = ("_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE", "__cxa_rethrow")
ENDS = r"^(exit|_exit|_Exit|quick_exit|_ZSt9terminatev|raise|kill|pthread_exit|longjmp|siglongjmp|execv.*|__libc_fatal)$"
PRINT = r"^cpptrace::(v\d+::)?((stacktrace|formatter)::print(_with_snippets)?\(|operator<<\(.*stacktrace const&)"
FRESH = r"^cpptrace::(v\d+::)?(generate_trace|stacktrace::current|(raw|object)_trace::resolve)\("
KINDS = {"none": "no active exception", "traced": "a traced exception", "std": "a standard exception", "other": "an exception of another type"}
CAP = 60000


class H:
    def __init__(self, c, m, f, cfg):
        self.c, self.m, self.f, self.cfg = c, m, f, cfg
        self.curp, self.typ, self.vtaint = set(), set(), {}
        for x in f.calls():
            if x.callee_name == CUR:
                self.curp |= base(f, x.d["ops"][0]) if x.d.get("sret") else set()
            if x.callee_name == "__cxa_current_exception_type":
                self.typ.add(x.ref)
        self.fresh = set()
        for x in f.calls():
            if re.search(FRESH, self.dem(x)):
                self.fresh |= base(f, x.d["ops"][0]) if x.d.get("sret") else {("call", x.i)}
        # results of virtual calls on the caught object
        self.caught = {x.ref for x in f.calls() if x.callee_name == "__cxa_begin_catch"}
        self.virt = [x for x in f.calls() if x.callee_name is None and x.d["ops"] and base(f, x.d["ops"][0]) & {("call", int(r[1:])) for r in self.caught}]
        self.text = taint(f, {("val", x.i) for x in self.virt} | {("call", x.i) for x in self.virt})

    def dem(self, x):
        n = x.callee_name
        return self.m.fns[n].dem if n in self.m.fns else (n or "")

    def stderr(self, o):
        f = self.f
        if o[0] not in "vg":
            return False
        for b in base(f, o):
            if b == ("g", "_ZSt4cerr"):
                return True
            if b[0] == "ld":
                if ("g", "stderr") in base(f, f.byid[b[1]].d["ops"][0]):
                    return True
            if b[0] == "call" and re.search(r"ostream|operator<<", self.dem(f.byid[b[1]])):
                if any(self.stderr(q) for q in f.byid[b[1]].d["ops"][:1]):
                    return True
        return False

    def event(self, x):
        """('W', uses the exception's text) / ('T', fresh, own) / 'F' / 'A' / ('X', name)"""
        n, d, o = x.callee_name or "", self.dem(x), x.d["ops"]
        if n == "abort":
            return "A"
        if re.search(ENDS, n):
            return ("X", n)
        if n.startswith("llvm."):
            return None
        err = any(self.stderr(q) for q in o)
        if n == "write" and o and o[0] == "c2":
            err = True
        if re.search(PRINT, d):
            if not err:
                return None
            bs = set()
            for q in o:
                if q[0] in "vg":
                    bs |= base(self.f, q)
            own = any(("call", x.i) in bs for x in self.virt)
            return ("T", bool(bs & self.fresh), own)
        if not err:
            return None
        if re.search(r"flush", n) and not re.search(r"operator<<", d):
            return "F"
        if re.search(r"operator<<", d) and any(q[0] == "g" and "flush" in q or q[0] == "g" and "endl" in q for q in o):
            return "F"
        if re.search(r"^(fputs|fputc|putc|fwrite|fprintf|vfprintf|write|dprintf)$|print|operator<<|::write\(|::put\(|puts", d):
            t = any(q[0] == "v" and (("val", int(q[1:])) in self.text or base(self.f, q) & self.text) for q in o)
            return ("W", t)
        return None

    def cond(self, ref, kind, depth=0):
        """truth of an i1 for this kind of pending exception, or None"""
        f = self.f
        if ref[0] == "c":
            return ref != "c0"
        x = f.inst(ref)
        if x is None or depth > 8:
            return None
        if x.op == "icmp" and x.d["pred"] in ("eq", "ne"):
            a, b = x.d["ops"]
            for u, v in ((a, b), (b, a)):
                y = f.inst(u)
                if y is None:
                    continue
                null = None
                if v == "n":
                    if y.op == "load" and base(f, y.d["ops"][0]) <= self.curp or u in self.typ:
                        null = kind == "none"
                if y.op == "call" and (y.callee_name or "").startswith("llvm.eh.typeid.for"):
                    t = y.d["ops"][0]
                    hit = {"g_ZTISt9exception": kind in ("traced", "std")}.get(t)
                    if re.match(r"g_ZTIN8cpptrace(2v\d+)?9exceptionE", t):
                        hit = kind == "traced"
                    if hit is not None:
                        null = hit
                if null is not None:
                    return null == (x.d["pred"] == "eq")
        if x.op == "xor" and x.ty == "i1" and "c-1" in x.d["ops"]:
            r = self.cond([o for o in x.d["ops"] if o != "c-1"][0], kind, depth + 1)
            return None if r is None else not r
        return None

    def walk(self, kind):
        f, c = self.f, self.c
        # state: block, described, text used, traced (None/'ok'), flushed
        seen, st = set(), [(0, False, False, False, False)]
        ends = 0
        while st:
            s = st.pop()
            if s in seen:
                continue
            seen.add(s)
            if len(seen) > CAP:
                raise AnalysisError("terminate handler: too many states")
            b, w, tx, tr, fl = s
            dead = False
            for x in f.blocks[b]:
                if x.op == "ret":
                    self.bad(kind, "returns", x, "returns")
                    dead = True
                if x.op not in ("call", "invoke"):
                    continue
                e = self.event(x)
                if e is None:
                    if x.op == "call" and noreturn(x):
                        dead = True
                        if x.callee_name in RETHROW and x.op == "call":
                            self.bad(kind, "leaves", x, "lets the exception out")
                        break
                    continue
                if e == "A":
                    ends += 1
                    if not w:
                        self.bad(kind, "undescribed", x, "can abort without having written a description to standard error")
                    elif kind in ("traced", "std") and not tx:
                        self.bad(kind, "no-message", x, "describes the exception without its message")
                    if not tr:
                        self.bad(kind, "untraced", x, "can abort without having printed %s" % ("the exception's own trace" if kind == "traced" else "a trace generated at that point"))
                    if w and tr and not fl:
                        self.bad(kind, "unflushed", x, "can abort without flushing what it printed")
                    dead = True
                    break
                if e[0] == "X":
                    self.bad(kind, "exit:" + e[1], x, "ends the program by %s instead of aborting" % e[1])
                    dead = True
                    break
                if e == "F":
                    fl = True
                elif e[0] == "W":
                    w, tx, fl = True, tx or e[1], False
                elif e[0] == "T":
                    if not w:
                        self.bad(kind, "order", x, "prints a trace before describing the exception")
                    if kind == "traced" and e[2] or kind != "traced" and e[1]:
                        tr = True
                    elif kind == "traced":
                        self.bad(kind, "wrong-trace", x, "prints another trace than the exception's own")
                    fl = False
            if dead:
                continue
            t = f.blocks[b][-1]
            if t.op == "unreachable":
                continue
            if t.op == "resume":
                self.bad(kind, "leaves", t, "lets an exception out")
                continue
            su = t.d.get("succ", [])
            if t.op == "invoke":
                if t.callee_name in RETHROW:
                    if t.callee_name == "__cxa_rethrow" and kind == "none":
                        continue
                    nx = [t.d["unwind"]] if kind != "none" else []
                    if kind == "none":
                        self.bad(kind, "rethrows", t, "rethrows although there is no exception")
                else:
                    nx = [t.d["normal"]]
                for q in nx:
                    st.append((q, w, tx, tr, fl))
                continue
            if t.op == "br" and len(su) == 2:
                r = self.cond(t.d["ops"][0], kind)
                su = su if r is None else [su[0 if r else 1]]
            for q in set(su):
                st.append((q, w, tx, tr, fl))
        c.count("states", len(seen)); c.count("abort_paths", ends)
        if not ends and not any(v["key"].startswith(kind + ":") for v in c.viol):
            self.bad(kind, "no-abort", f.insts[0], "never reaches abort")

    def bad(self, kind, key, x, msg):
        self.c.violation("%s:%s" % (kind, key), "terminate-handler", x.where, "with %s, the terminate handler %s [%s]" % (KINDS[kind], msg, self.cfg))


def run(c):
    c.rule("the function installed by register_terminate_handler, for each kind of pending exception, on every path: description (with the exception's message) to standard error, then the exception's own trace or a fresh one to standard error, then a flush of it, then abort; no other way out")
    for cfg in CONFIGS + (["libunwind-libdl", "nothing-nothing"] if c.thorough else []):
        m0 = c.module(cfg, slice_steps(REGISTER))
        reg = m0.one(REGISTER)
        calls = [x for x in reg.calls() if x.callee_name == "_ZSt13set_terminatePFvvE"]
        hs = set()
        for x in calls:
            hs.add(x.d["ops"][0])
        miss = not calls
        # on every path
        if calls:
            seen, st = set(), [0]
            while st:
                b = st.pop()
                if b in seen:
                    continue
                seen.add(b)
                if any(x.bb == b for x in calls):
                    continue
                if reg.blocks[b][-1].op == "ret":
                    miss = True
                st += reg.succs(b)
        if miss:
            c.violation("register:not-installed", "registration", "%s:%s" % (reg.file, reg.line), "register_terminate_handler can return without installing the handler [%s]" % cfg)
        if not hs:
            continue
        if any(h[0] != "g" for h in hs) or len(hs) != 1:
            c.violation("register:unclear", "registration", calls[0].where, "register_terminate_handler does not install one fixed function [%s]" % cfg)
            continue
        name = hs.pop()[1:]
        if name not in m0.fns:
            raise AnalysisError("installed handler %s not found" % name)
        rx = "^" + re.escape(m0.fns[name].dem).replace("\\ ", " ").replace("\\:", ":") + "$"
        m = c.module(cfg, slice_steps(rx, r"^cpptrace::", STOP, KEEP))
        f = m.fns.get(name)
        if f is None or f.decl:
            raise AnalysisError("installed handler %s has no body" % name)
        c.saw("%s [%s]" % (f.dem, cfg))
        h = H(c, m, f, cfg)
        for kind in KINDS:
            c.count("kinds")
            h.walk(kind)
        # with absorbing on nothing but exhaustion interrupts the report (release builds: the ASSERTs' preconditions are other properties)
        if not ALLCFG[cfg].ndebug:
            continue
        _, gs = setter_globals(c, cfg, SETTER)
        mo = c.module(cfg, specialise({g: 1 for g in gs}))
        rep = reporters(mo)
        th = Throws(mo, False, override=dict(accessors(mo), **{g.name: set() for g in rep}), std_throws=False)
        for x in mo.fns[name].calls():
            if x.callee_name in RETHROW:
                continue
            ts, k = mo.targets(x)
            c.count("calls")
            for t in ts:
                for ty in th.out.get(t, {}):
                    if ty not in EXHAUST and ty != IOS:
                        c.violation("interrupted:%s:%s" % (base_name(mo.fns[t].dem), ty), "report-interrupted", x.where,
                                    "with absorbing enabled, the terminate handler's report can be cut short by %s from %s [%s]" % (tname(ty), mo.fns[t].dem[:80], cfg), th.why(t, ty))
