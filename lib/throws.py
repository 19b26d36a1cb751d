"""Interprocedural may-throw analysis on the linked IR: for every function the set of exception types that may leave
it, computed over landing pads, selector tests, catch/rethrow and noexcept boundaries."""
import re
from collections import defaultdict

STD_BASES = {
    "_ZTISt9exception": [], "_ZTISt9bad_alloc": ["_ZTISt9exception"],
    "_ZTISt20bad_array_new_length": ["_ZTISt9bad_alloc"],
    "_ZTISt11logic_error": ["_ZTISt9exception"], "_ZTISt13runtime_error": ["_ZTISt9exception"],
    "_ZTISt12length_error": ["_ZTISt11logic_error"], "_ZTISt12out_of_range": ["_ZTISt11logic_error"],
    "_ZTISt16invalid_argument": ["_ZTISt11logic_error"], "_ZTISt12domain_error": ["_ZTISt11logic_error"],
    "_ZTISt12system_error": ["_ZTISt13runtime_error"], "_ZTISt11regex_error": ["_ZTISt13runtime_error"],
    "_ZTISt11range_error": ["_ZTISt13runtime_error"], "_ZTISt14overflow_error": ["_ZTISt13runtime_error"],
    "_ZTISt15underflow_error": ["_ZTISt13runtime_error"],
    "_ZTINSt8ios_base7failureB5cxx11E": ["_ZTISt12system_error"],
    "_ZTISt17bad_function_call": ["_ZTISt9exception"], "_ZTISt8bad_cast": ["_ZTISt9exception"],
    "_ZTISt10bad_typeid": ["_ZTISt9exception"],
}
ALLOC, LENGTH, OOR, IOS = "_ZTISt9bad_alloc", "_ZTISt12length_error", "_ZTISt12out_of_range", "_ZTINSt8ios_base7failureB5cxx11E"
ANY, USER = "ANY", "USER"
EXHAUST = {ALLOC, LENGTH, "_ZTISt20bad_array_new_length"}

THROWERS = {
    "_ZSt17__throw_bad_allocv": {ALLOC}, "_ZSt28__throw_bad_array_new_lengthv": {"_ZTISt20bad_array_new_length"},
    "_ZSt20__throw_length_errorPKc": {LENGTH}, "_ZSt19__throw_logic_errorPKc": {"_ZTISt11logic_error"},
    "_ZSt24__throw_out_of_range_fmtPKcz": {OOR}, "_ZSt20__throw_out_of_rangePKc": {OOR},
    "_ZSt24__throw_invalid_argumentPKc": {"_ZTISt16invalid_argument"},
    "_ZSt25__throw_bad_function_callv": {"_ZTISt17bad_function_call"},
    "_ZSt20__throw_system_errori": {"_ZTISt12system_error"}, "_ZSt16__throw_bad_castv": {"_ZTISt8bad_cast"},
    "_ZSt21__throw_runtime_errorPKc": {"_ZTISt13runtime_error"},
    "_ZSt19__throw_regex_errorNSt15regex_constants10error_typeE": {"_ZTISt11regex_error"},
    "__cxa_bad_typeid": {"_ZTISt10bad_typeid"}, "__cxa_bad_cast": {"_ZTISt8bad_cast"},
}


def classify_external(name, dem):
    """exception types an external (library) function may throw"""
    if name in THROWERS:
        return THROWERS[name]
    if not name.startswith("_Z"):
        return set()                      # C functions
    if name.startswith(("_Znw", "_Zna")):
        return set() if "nothrow" in name else {ALLOC}
    if name.startswith(("_Zdl", "_Zda")):
        return set()
    if name == "_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE":
        return {ANY}
    if "~" in dem:
        return set()
    if re.search(r"basic_string<|std::(__cxx11::)?(to_string)|std::string", dem) and "stream" not in dem:
        s = {ALLOC, LENGTH}
        # members taking a position check it
        if re.search(r"::(compare|substr|at|copy|erase|insert|replace|assign|append|_M_check)\(", dem) and "unsigned long" in dem:
            s = s | {OOR}
        if re.search(r"::compare\((char const\*|std::__cxx11::basic_string)", dem) and "unsigned long" not in dem:
            return set()
        return s
    if re.search(r"stream|std::ios|std::flush|std::endl|streambuf|filebuf|std::ctype|std::locale|use_facet|has_facet", dem):
        return {IOS}
    if dem.startswith("std::_V2::") or "error_category" in dem or "error_code" in dem:
        return {ALLOC}
    if dem.startswith(("std::_Hash", "std::__detail::_Prime", "std::_Rb_tree", "std::_Hash_bytes", "std::__detail::_List_node")):
        return set()
    if dem.startswith(("std::", "__gnu_cxx::", "__cxxabiv1::")):
        return {ALLOC}
    return {ANY}


class Throws:
    def __init__(self, mod, user_callbacks_throw=True, extra_external=None, override=None, std_throws=True, reraise=()):
        self.reraise = set(reraise)      # functions that re-raise the exception their caller is handling
        self.std_throws = std_throws      # count precondition/stream failures thrown inside the standard library
        self.override = override or {}
        self.m = mod
        self.user = user_callbacks_throw
        self.extra = extra_external or {}
        self.bases = dict(STD_BASES)
        for n, g in mod.globals.items():
            if n.startswith("_ZTI") and isinstance(g.get("init"), list):
                l = [e[1:].split("@")[0] for e in g["init"] if isinstance(e, str) and e.startswith("g_ZTI")]
                self.bases.setdefault(n, l)
        self.begin = {}                   # fn name -> {begin_catch inst id: {type: origin}}
        self.live = {}                    # fn name -> blocks reachable when only the computed exceptions can occur
        self.out = defaultdict(dict)      # fn name -> {type: example inst}
        self.term = defaultdict(dict)     # fn name -> {type: inst} swallowed by a terminate boundary
        self._enums = None
        self._solve()

    def _ext(self, n, dem):
        s = classify_external(n, dem)
        return s if self.std_throws else {t for t in s if t in EXHAUST or t == ANY}

    def enum_total(self, t):
        """a switch whose cases are exactly the enumerators of an enumeration: its default is not taken"""
        if self.std_throws:
            return False
        if self._enums is None:
            self._enums = {frozenset(e["val"] for e in d["members"] if "val" in e) for d in self.m.dtypes
                           if d["tag"] == 4 and d["file"].lstrip("/").startswith(("src/", "include/"))}
        return len(t.d["cases"]) > 1 and frozenset(v for v, _ in t.d["cases"]) in self._enums

    def derives(self, t, base):
        if t == base:
            return True
        seen, st = set(), [t]
        while st:
            x = st.pop()
            if x == base:
                return True
            if x in seen:
                continue
            seen.add(x)
            st += self.bases.get(x, [])
        return False

    def matches(self, t, clause):
        """may, must: whether an exception described by t is caught by clause"""
        if clause in ("n", "z"):
            return True, True
        c = clause[1:].split("@")[0] if clause.startswith("g") else clause
        if t in (ANY, USER):
            return True, False
        if self.derives(t, c):
            return True, True
        if self.derives(c, t):
            return True, False
        return False, False

    def throws_of_call(self, x, targets, kind):
        res = {}
        if x.d.get("nounwind"):
            return res
        if kind == "direct":
            n = targets[0]
            if n == "__cxa_throw" and not self.std_throws and not x.fn.file.startswith(("src/", "include/", "probes/")) and "/verif/" not in x.fn.file:
                return res
            if n == "__cxa_throw":
                return {x.d["ops"][1][1:].split("@")[0]: x} if x.d["ops"][1].startswith("g") else {ANY: x}
            if n == "__cxa_rethrow" or n in self.reraise:
                return None
            if n.startswith("llvm."):
                return res
            f = self.m.fns.get(n)
            if f is None or f.decl:
                if f is not None and f.nounwind:
                    return res
                if n in self.extra:
                    return {t: x for t in self.extra[n]}
                return {t: x for t in self._ext(n, f.dem if f else n)}
            return {t: x for t in self.out[n]}
        if kind == "asm":
            return res
        for n in targets:
            f = self.m.fns[n]
            if f.decl:
                if not f.nounwind:
                    for t in self._ext(n, f.dem):
                        res[t] = x
            else:
                for t in self.out[n]:
                    res[t] = x
        if kind == "indirect":
            d = x.fn.dem
            if self.user and "std::function<" in d and "::operator()(" in d:
                res[USER] = x
            elif not targets and not d.startswith("std::"):
                res[ANY] = x
        return res

    def _solve(self):
        m = self.m
        self.changed = True
        order = list(m.defined())
        callers = defaultdict(set)
        for f in order:
            for x, ts, k in m.cg[f.name]:
                for t in ts:
                    callers[t].add(f.name)
        work = set(f.name for f in order)
        q = [f.name for f in order]
        self._pads = {}
        while q:
            n = q.pop()
            work.discard(n)
            f = m.fns[n]
            new = self._fn(f)
            if set(new) - set(self.out[n]):
                for t, x in new.items():
                    self.out[n].setdefault(t, x)
                for c in callers[n]:
                    if c not in work:
                        work.add(c)
                        q.append(c)

    def _fn(self, f):
        m = self.m
        if f.name in self.override:
            self._fn_body(f)
            return {t: f.insts[0] for t in self.override[f.name]}
        return self._fn_body(f)

    def _fn_body(self, f):
        m = self.m
        calls = defaultdict(dict)
        for x, ts, k in m.cg[f.name]:
            r = self.throws_of_call(x, ts, k)
            if r is None:
                calls[x.i] = None
            elif calls[x.i] is not None:
                calls[x.i].update(r)
        out = {}
        # landing pads: in-flight types per block, iterated because handlers may rethrow
        inflight = defaultdict(dict)       # block -> {type: inst}
        begin = {}                         # begin_catch inst id -> types
        work = []

        def push(b, ts):
            new = {t: x for t, x in ts.items() if t not in inflight[b]}
            if new:
                inflight[b].update(new)
                work.append(b)

        def raised(x, ts):
            if not ts:
                return
            if x.op == "invoke":
                push(x.d["unwind"], ts)
            else:
                if f.nounwind:
                    for t in ts:
                        self.term[f.name].setdefault(t, x)
                    return
                for t, y in ts.items():
                    out.setdefault(t, y)
        # live blocks only
        live, st = {0}, [0]
        padset = set()
        for b in f.blocks:
            t = b[-1]
            if t.op == "invoke":
                padset.add(t.d["unwind"])
        handled = set()

        def visit_live(b):
            st2 = [b]
            while st2:
                c = st2.pop()
                if c in handled:
                    continue
                handled.add(c)
                for x in f.blocks[c]:
                    if x.op in ("call", "invoke") and calls.get(x.i):
                        raised(x, calls[x.i])
                t = f.blocks[c][-1]
                if t.op == "invoke":
                    st2.append(t.d["normal"])
                elif t.op == "resume":
                    pass
                elif t.op == "switch" and self.enum_total(t):
                    st2 += [s for _, s in t.d["cases"]]
                else:
                    st2 += t.d.get("succ", [])
        visit_live(0)
        rethrow_pending = {}
        while work:
            b = work.pop()
            ts = dict(inflight[b])
            if not ts:
                continue
            blk = f.blocks[b]
            caught = False
            for x in blk:
                if x.op == "landingpad":
                    # types that no clause can match and no cleanup: skip the pad entirely
                    if not x.d.get("cleanup"):
                        keep = {}
                        for t, y in ts.items():
                            if any(self.matches(t, c)[0] for c in x.d.get("clauses", [])):
                                keep[t] = y
                            if not any(self.matches(t, c)[1] for c in x.d.get("clauses", [])):
                                if f.nounwind:
                                    self.term[f.name].setdefault(t, y)
                                else:
                                    out.setdefault(t, y)
                        ts = keep
                elif x.op in ("call", "invoke") and x.callee_name == "__cxa_begin_catch":
                    begin.setdefault(x.i, {}).update(ts)
                    visit_live(b)
                    # handler code is live now; run rethrows
                    caught = True
                    break
                elif x.op in ("call", "invoke") and x.callee_name in ("__clang_call_terminate", "_ZSt9terminatev"):
                    for t, y in ts.items():
                        self.term[f.name].setdefault(t, y)
                    caught = True
                    break
                elif x.op in ("call", "invoke") and calls.get(x.i):
                    raised(x, calls[x.i])
            if caught or not ts:
                pass
            else:
                t = blk[-1]
                if t.op == "resume":
                    for ty, y in ts.items():
                        out.setdefault(ty, y)
                elif t.op == "invoke":
                    if t.callee_name == "__cxa_begin_catch":
                        pass
                    push(t.d["normal"], ts)
                elif t.op == "br" and len(t.d["succ"]) == 2:
                    c = f.inst(t.d["ops"][0])
                    tid = self._selector_test(f, c)
                    if tid is None:
                        for s in t.d["succ"]:
                            push(s, ts)
                    else:
                        # condition true <=> exception matches tid (operand order in dump: cond, false, true)
                        tt, ff = self._br(t)
                        if c.d.get("pred") == "ne":
                            tt, ff = ff, tt
                        push(tt, {k: v for k, v in ts.items() if self.matches(k, tid)[0]})
                        push(ff, {k: v for k, v in ts.items() if not self.matches(k, tid)[1]})
                else:
                    for s in t.d.get("succ", []):
                        push(s, ts)
            # rethrows whose enclosing handler became known
            for x in f.calls():
                if (x.callee_name == "__cxa_rethrow" or x.callee_name in self.reraise) and x.bb in handled:
                    bs = [f.byid[i] for i in begin if f.dominates(f.byid[i], x)]
                    if not bs:
                        bs = [f.byid[i] for i in begin]
                    if bs:
                        # nearest dominating begin_catch
                        near = max(bs, key=lambda y: (len(f.dom[y.bb]), y.i))
                        raised(x, {t: x for t in begin[near.i]})
        self.begin[f.name] = begin
        self.live[f.name] = handled | {b for b in inflight if inflight[b]}
        return out

    @staticmethod
    def _br(t):
        return t.d["succ"][0], t.d["succ"][1]

    def _selector_test(self, f, c):
        if c is None or c.op != "icmp":
            return None
        for o in c.d["ops"]:
            i = f.inst(o)
            if i is not None and i.op == "call" and (i.callee_name or "").startswith("llvm.eh.typeid.for"):
                return i.d["ops"][0]
        return None

    def why(self, fname, t, limit=14):
        """call chain that lets exception type t out of fname"""
        out = []
        seen = set()
        n = fname
        while n and n not in seen and len(out) < limit:
            seen.add(n)
            x = self.out[n].get(t)
            f = self.m.fns.get(n)
            if x is None:
                break
            cal = x.callee_name
            cf = self.m.fns.get(cal) if cal else None
            out.append("%s: in %s: %s" % (x.where, f.dem[:140], ("calls " + (cf.dem if cf else cal)[:140]) if cal else "indirect call"))
            if cal and cf is not None and not cf.decl and t in self.out[cal]:
                n = cal
            elif not cal:
                nxt = None
                for y, ts, k in self.m.cg[n]:
                    if y is x:
                        for c in ts:
                            if t in self.out.get(c, {}):
                                nxt = c
                n = nxt
            else:
                n = None
        return out


def tname(t):
    if t == ANY:
        return "any exception type"
    if t == USER:
        return "an exception from a user callback"
    import subprocess
    try:
        return subprocess.run(["c++filt", t], capture_output=True, text=True).stdout.strip().replace("typeinfo for ", "")
    except OSError:
        return t
