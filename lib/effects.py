"""May-write summaries: can a call modify (non-atomically) the object an argument points to, or anything reachable from it?
Standard-library functions are trusted to honour const in their signature; repository functions are analysed."""
import re
from mem import base, is_dtor
from ir import base_name

READ_C = set("strlen strcmp strncmp memcmp memchr strchr strrchr strstr puts fputs printf fprintf vfprintf fwrite write open fopen stat access execl execlp bcmp backtrace_pcinfo backtrace_syminfo backtrace_full "
             "dladdr dladdr1 _dl_find_object readlink getenv unlink __dynamic_cast".split())
SYNC_C = re.compile(r"^(pthread_(mutex|rwlock|once)|__cxa_guard|__cxa_atexit|llvm\.(lifetime|dbg|assume|invariant|expect|threadlocal|prefetch)|__gthr)")
STD = re.compile(r"^_ZN?V?K?(St|9__gnu_cxx|S[absiod])|^_Z(N?St|N9__gnu)|^_ZS[tabsiod]|^_ZNK?S[tabsiod]")
ACCESSOR = re.compile(r"::(begin|end|cbegin|cend|rbegin|rend|find|data|front|back|get|at|c_str|base|operator->|operator\*|lower_bound|upper_bound|count|size|empty|_M_\w*(data|ptr|begin|end|bucket|node)\w*|operator(==|!=|-|\+|<|bool))$")
WRAP = re.compile(r"(_?iterator|_Iter|reference_wrapper|string_view|span|initializer_list|_Node_|tuple|pair)")


def split_params(s):
    out, d, cur = [], 0, ""
    k = 0
    while k < len(s):
        c = s[k]
        if s.startswith("operator", k):
            pass
        if c in "(<[{":
            d += 1
        elif c in ")>]}":
            d -= 1
        if c == "," and d == 0:
            out.append(cur.strip()); cur = ""
        else:
            cur += c
        k += 1
    if cur.strip():
        out.append(cur.strip())
    return out


_sig = {}


def signature(dem):
    """(params list or None, method is const)"""
    if dem in _sig:
        return _sig[dem]
    s = dem
    const = False
    m = re.search(r"\)( const)?(&|&&)?( noexcept)?$", s)
    r = (None, False)
    if m:
        const = bool(m.group(1))
        end = m.start()
        d = 0
        k = end
        while k >= 0:
            if s[k] in ")>" and not s[k-1:k+1] == "->":
                d += 1
            elif s[k] in "(<":
                d -= 1
                if d == 0:
                    break
            k -= 1
        r = (split_params(s[k + 1:end]), const)
    _sig[dem] = r
    return r


def is_member(dem_base, name):
    """mangled nested name, non-static assumed: _ZN...; constructors/methods"""
    return name.startswith("_ZN") or name.startswith("_ZZN")


def param_kind(fn, nargs, i, sret):
    """'this' / 'const' / 'mut' / None (unknown) for LLVM argument i of a call to fn"""
    params, const = signature(fn.dem)
    if params is None:
        return None
    if params == ["void"]:
        params = []
    k = i - (1 if sret else 0)
    n = nargs - (1 if sret else 0)
    if k < 0:
        return "mut"
    # string views are passed by value as a pointer and a length
    params = [q for p in params for q in ([p, p] if re.search(r"string_view(<.*>)?$", p) else [p])]
    nested = fn.name.startswith(("_ZN", "_ZZN"))
    if nested and n == len(params) + 1:
        if k == 0:
            return "const" if const else "this"
        p = params[k - 1]
    elif n == len(params):
        p = params[k]
    else:
        # misaligned (coerced aggregates): const only if every pointer/reference parameter is const
        ps = [p for p in params if p.endswith(("&", "*"))]
        return "const" if ps and all("const" in p for p in ps) and (const or not nested) else None
    return "const" if re.search(r"const\s?(&|&&|\*)$", p) or not p.endswith(("&", "*")) else "mut"


class Effects:
    def __init__(self, m):
        self.m = m
        self.memo = {}

    def callee_fns(self, x, m=None):
        m = m or self.m
        ts, k = m.targets(x)
        return [self.m.fns.get(t) or m.fns.get(t) for t in ts], k

    def call_writes(self, x, i):
        """may call x write through its i-th argument?  -> None or a reason"""
        m = self.m
        ts, k = x.fn.mod.targets(x)
        if not ts:
            return "an unresolved indirect call"
        n = len(x.d["ops"])
        for t in ts:
            fn = m.fns.get(t) or x.fn.mod.fns.get(t)
            if SYNC_C.match(t):
                continue
            if t.startswith("llvm.mem"):
                if i == 0:
                    return t
                continue
            if t.startswith("llvm."):
                continue
            if fn is None:
                return t
            if not t.startswith("_Z"):
                if t in READ_C:
                    continue
                if fn.decl:
                    return t
            if t.startswith("_ZNSt14__shared_count") or t.startswith("_ZNSt12__shared_ptr"):
                pass
            if STD.match(t) or fn.decl:
                sr = bool(x.d.get("sret"))
                pk = param_kind(fn, n, i, sr)
                if pk == "const":
                    continue
                if pk in ("this", "mut", None) and ACCESSOR.search(base_name(fn.dem)) and not is_dtor(t):
                    continue
                return fn.dem
            r = self.writes(t, i)
            if r:
                return r
        return None

    def writes(self, name, k):
        key = (name, k)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = None
        f = self.m.fns[name]
        if f.decl:
            self.memo[key] = f.dem
            return f.dem
        D, H = derive(f, {"a%d" % k})
        r = None
        for x, kind, why in uses(self, f, D, H):
            if kind == "W":
                r = "%s (%s)" % (why or x.op, x.where)
                break
        self.memo[key] = r
        return r


_rf = {}


def returns_from(m, x, hits):
    """may the result of call x point into one of the arguments hits?  (standard functions: into their first argument)"""
    for t in m.targets(x)[0]:
        fn = m.fns.get(t)
        if fn is None or fn.decl or STD.match(t):
            if 0 in hits:
                return True
            continue
        for k in hits:
            key = (m.json, t, k)
            if key not in _rf:
                _rf[key] = True     # recursion
                D, H = derive(fn, {"a%d" % k})
                _rf[key] = any(y.op == "ret" and y.d["ops"] and (y.d["ops"][0] in D) for y in fn.insts)
            if _rf[key]:
                return True
    return False


def derive(f, seeds, hseeds=()):
    """(D, H): values that point into the seed objects or memory reachable from them; local objects that hold such pointers"""
    D, H = set(seeds), set(hseeds)

    def inD(o):
        return o in D or (o[0] == "g" and o.split("@")[0] in D)

    def alloca(o):
        seen = 0
        while o[0] == "v" and seen < 20:
            x = f.inst(o)
            if x is None:
                return None
            if x.op == "alloca":
                return x.ref
            if x.op in ("getelementptr", "bitcast"):
                o = x.d["ops"][0]
                seen += 1
                continue
            return None
        return o if o[0] == "a" and o in H else None
    changed = True
    while changed:
        changed = False
        n = len(D) + len(H)
        for x in f.insts:
            o = x.d.get("ops", [])
            if x.op in ("getelementptr", "bitcast", "freeze", "extractvalue", "insertvalue", "inttoptr", "ptrtoint", "select", "add"):
                if any(inD(a) for a in o):
                    D.add(x.ref)
            elif x.op == "phi":
                if any(inD(v) for v, _ in x.d["phi"]):
                    D.add(x.ref)
            elif x.op == "load":
                if x.ty in ("ptr",) or x.ty.startswith("{"):
                    if inD(o[0]):
                        D.add(x.ref)
                    elif alloca(o[0]) in H:
                        D.add(x.ref)
            elif x.op == "store":
                if inD(o[0]) and not inD(o[1]):
                    a = alloca(o[1])
                    if a:
                        H.add(a)
            elif x.op in ("call", "invoke"):
                cn = x.callee_name or ""
                if SYNC_C.match(cn) and "threadlocal" not in cn:
                    continue
                hits = [k for k, a in enumerate(o) if inD(a) or (a[0] in "va" and alloca(a) in H)]
                if not hits:
                    continue
                if (x.ty == "ptr" or x.ty.startswith("{")) and returns_from(f.mod, x, hits):
                    if not cn.startswith(("_Znwm", "_Znam", "__cxa_allocate", "_ZNSt12__shared", "_ZNSt10shared_ptr")):
                        D.add(x.ref)
                dem = f.mod.fns[cn].dem if cn in f.mod.fns else ""
                if o and o[0] not in D and WRAP.search(base_name(dem) if dem else ""):
                    a = alloca(o[0])
                    if a:
                        H.add(a)
                if x.d.get("sret"):
                    a = alloca(o[0])
                    if a and WRAP.search(dem):
                        H.add(a)
        changed = len(D) + len(H) != n
    return D, H


def uses(eff, f, D, H=()):
    """(inst, 'R'|'W'|'ret'|'leak', reason) for each use of a derived pointer"""
    def inD(o):
        return o in D or (o[0] == "g" and o.split("@")[0] in D)
    for x in f.insts:
        o = x.d.get("ops", [])
        if x.op == "load":
            if inD(o[0]) and not x.d.get("atomic"):
                yield x, "R", None
        elif x.op == "store":
            if inD(o[1]) and not x.d.get("atomic"):
                yield x, "W", "store"
            elif inD(o[0]) and any(b[0] == "arg" for b in base(f, o[1])):
                yield x, "leak", None
        elif x.op == "ret":
            if o and inD(o[0]):
                yield x, "ret", None
        elif x.op in ("call", "invoke"):
            cn = x.callee_name or ""
            for i, a in enumerate(o):
                if inD(a):
                    if SYNC_C.match(cn):
                        continue
                    r = eff.call_writes(x, i)
                    yield x, ("W" if r else "R"), r
