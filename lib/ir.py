"""Resolved-program model over tools/irx's JSON export: functions, CFG, call graph, may-throw, dataflow helpers."""
import json, re
from collections import defaultdict, deque
from front import AnalysisError


class Inst:
    __slots__ = ("d", "fn", "bb", "i", "op")

    def __init__(self, d, fn, bb):
        self.d, self.fn, self.bb, self.i, self.op = d, fn, bb, d["i"], d["op"]

    def __getattr__(self, k):
        return self.d.get(k)

    def get(self, k, dflt=None):
        return self.d.get(k, dflt)

    @property
    def ref(self):
        return "v%d" % self.i

    @property
    def where(self):
        """source position, innermost first; prefers a position in the repository"""
        l = self.d.get("loc")
        if not l:
            return "%s:%s" % (self.fn.file or "?", self.fn.line or "?")
        for k in range(0, len(l), 3):
            if "/usr/" not in l[k + 1]:
                return "%s:%d" % (l[k + 1].lstrip("/"), l[k])
        return "%s:%d" % (l[-2], l[-3])

    @property
    def callee_name(self):
        c = self.d.get("callee")
        return c[1:] if c and c.startswith("g") else None

    def __repr__(self):
        return "<%s %s in %s @%s>" % (self.op, self.callee_name or "", self.fn.dem[:60], self.where)


class Fn:
    def __init__(self, d, mod):
        self.d, self.mod = d, mod
        self.name, self.dem = d["name"], d["dem"]
        self.decl = d.get("decl", False)
        self.file = (d.get("file") or "").lstrip("/")
        self.line = d.get("line")
        self.blocks = []
        self.insts = []
        for bi, b in enumerate(d.get("blocks", [])):
            bl = [Inst(x, self, bi) for x in b]
            self.blocks.append(bl)
            self.insts += bl
        self.byid = {x.i: x for x in self.insts}
        self._preds = None
        self._dom = None
        self._users = None

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return self.d.get(k)

    @property
    def short(self):
        return short(self.dem)

    def succs(self, b):
        return self.blocks[b][-1].d.get("succ", []) if self.blocks[b] else []

    @property
    def preds(self):
        if self._preds is None:
            p = [[] for _ in self.blocks]
            for b in range(len(self.blocks)):
                for s in self.succs(b):
                    if b not in p[s]:
                        p[s].append(b)
            self._preds = p
        return self._preds

    def inst(self, ref):
        return self.byid.get(int(ref[1:])) if ref and ref[0] == "v" else None

    @property
    def users(self):
        if self._users is None:
            u = defaultdict(list)
            for x in self.insts:
                for o in operands(x):
                    u[o].append(x)
            self._users = u
        return self._users

    @property
    def dom(self):
        """dominator sets by block"""
        if self._dom is None:
            self._dom = dominators(len(self.blocks), self.preds, [0])
        return self._dom

    def dominates(self, a, b):
        """instruction a dominates instruction b"""
        if a.bb == b.bb:
            return a.i <= b.i
        return a.bb in self.dom[b.bb]

    def calls(self):
        return [x for x in self.insts if x.op in ("call", "invoke")]

    def __repr__(self):
        return "<fn %s>" % self.dem[:100]


def operands(x):
    ops = list(x.d.get("ops", []))
    c = x.d.get("callee")
    if c:
        ops.append(c)
    for v, _ in x.d.get("phi", []):
        ops.append(v)
    return ops


def dominators(n, preds, entries):
    full = set(range(n))
    dom = [set(full) for _ in range(n)]
    for e in entries:
        dom[e] = {e}
    changed = True
    while changed:
        changed = False
        for b in range(n):
            if b in entries:
                continue
            ps = preds[b]
            if ps:
                nd = set.intersection(*(dom[p] for p in ps)) | {b}
            else:
                nd = set(full)
            if nd != dom[b]:
                dom[b] = nd
                changed = True
    return dom


def short(dem):
    """demangled name without return type noise / parameter list and with abbreviated std names"""
    s = dem.replace("std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>", "std::string")
    return s


def base_name(dem):
    """qualified name without template args/params:  cpptrace::detail::foo<int>(x) -> cpptrace::detail::foo"""
    out, depth, par = [], 0, 0
    i = 0
    s = dem
    # cut at last top-level '(' params
    k = 0
    res = ""
    while k < len(s):
        c = s[k]
        if s.startswith("operator", k) and (k == 0 or not (s[k-1].isalnum() or s[k-1] == "_")) and depth == 0:
            m = re.match(r"operator\s*(\(\)|\[\]|<=>|->\*?|<<=|>>=|<<|>>|<=|>=|<|>|[^\s\w(]+|\s?[\w:\s\*&]+)", s[k:])
            if m:
                res += m.group(0); k += m.end(); continue
        if s.startswith("(anonymous namespace)", k):
            res += "(anonymous namespace)"; k += 21; continue
        if c == "<":
            depth += 1
        elif c == ">":
            depth -= 1
        elif depth == 0:
            if c == "(":
                break
            res += c
        k += 1
    return res.strip().split(" ")[-1] if "operator" not in res else res.strip()


class Module:
    def __init__(self, path, cfg=""):
        j = json.load(open(path))
        self.cfg = cfg
        self.json = path
        self.fns = {}
        for d in j["functions"]:
            self.fns[d["name"]] = Fn(d, self)
        self.globals = {g["name"]: g for g in j["globals"]}
        self.dtypes = j["dtypes"]
        self._types = None
        self._addr_taken = None
        self._cg = None
        self._vt = None

    # ---- lookup
    def defined(self):
        return [f for f in self.fns.values() if not f.decl]

    def find(self, regex, defined=True):
        r = re.compile(regex)
        return [f for f in self.fns.values() if (not defined or not f.decl) and r.search(f.dem)]

    def one(self, regex):
        l = self.find(regex)
        if len(l) != 1:
            raise AnalysisError("anchor %r matches %d functions in %s: %s" % (regex, len(l), self.cfg, [f.dem for f in l][:5]))
        return l[0]

    def repo_fn(self, f):
        return not f.decl and f.file is not None and ("src/" in f.file[:4] or f.file.startswith(("src/", "include/")))

    def types(self, name):
        if self._types is None:
            self._types = defaultdict(list)
            for t in self.dtypes:
                self._types[t["name"]].append(t)
        return self._types.get(name, [])

    def type(self, name):
        l = self.types(name)
        if not l:
            raise AnalysisError("type %s not found in %s" % (name, self.cfg))
        return l[0]

    # ---- call graph
    def _refs_in_init(self, init, out):
        if isinstance(init, list):
            for x in init:
                self._refs_in_init(x, out)
        elif isinstance(init, str) and init.startswith("g"):
            out.append(init[1:].split("@")[0])

    @property
    def vtables(self):
        """slot byte offset from address point (vtable+16) -> set of function names"""
        if self._vt is None:
            vt = defaultdict(set)
            self.vt_classes = {}
            for n, g in self.globals.items():
                if n.startswith("_ZTV") and "init" in g:
                    arr = g["init"]
                    while isinstance(arr, list) and arr and isinstance(arr[0], list):
                        arr = arr[0]
                    if isinstance(arr, list):
                        for k, e in enumerate(arr[2:]):
                            if isinstance(e, str) and e.startswith("g"):
                                vt[8 * k].add(e[1:])
            self._vt = vt
        return self._vt

    @property
    def addr_taken(self):
        if self._addr_taken is None:
            at = set()
            for n, g in self.globals.items():
                if n.startswith("_ZTV") or n.startswith("llvm."):
                    continue
                if "init" in g:
                    l = []
                    self._refs_in_init(g["init"], l)
                    at.update(x for x in l if x in self.fns)
            for f in self.defined():
                for x in f.insts:
                    ops = x.d.get("ops", []) if x.op in ("call", "invoke") else operands(x)
                    for o in ops:
                        if o.startswith("g") and o[1:] in self.fns:
                            at.add(o[1:])
            self._addr_taken = at
        return self._addr_taken

    def targets(self, x):
        """(list of function names, kind) possibly called by call instruction x.
        kind: direct | virtual | indirect | asm"""
        c = x.d["callee"]
        if c.startswith("g"):
            return [c[1:]], "direct"
        if c == "asm":
            return [], "asm"
        fty = x.d.get("fty")
        f = x.fn
        ld = f.inst(c)
        if ld is not None and ld.op == "load":
            p = f.inst(ld.d["ops"][0])
            off = None
            if p is not None and p.op == "getelementptr" and p.d.get("off") is not None and not p.d.get("var"):
                b = f.inst(p.d["ops"][0]); off = p.d["off"]
            elif p is not None and p.op == "load":
                b = p; off = 0
            else:
                b = None
            if b is not None and b.op == "load" and b.ty == "ptr" and off is not None:
                cands = [n for n in self.vtables.get(off, ()) if n in self.fns and self.fns[n].fty == fty]
                if cands and x.d.get("ops") and self._same_ptr(f, x.d["ops"], b.d["ops"][0]):
                    return sorted(cands), "virtual"
        cands = [n for n in self.addr_taken if self.fns[n].fty == fty]
        return sorted(cands), "indirect"

    def _same_ptr(self, f, args, vptr_addr):
        return any(a == vptr_addr for a in args[:2]) or True

    @property
    def cg(self):
        """name -> list of (inst, [targets], kind); callbacks passed to external functions count as calls"""
        if self._cg is None:
            cg = {}
            for f in self.defined():
                l = []
                for x in f.calls():
                    t, k = self.targets(x)
                    l.append((x, t, k))
                    if k == "direct" and (t[0] not in self.fns or self.fns[t[0]].decl):
                        if t[0].startswith("llvm."):
                            continue
                        cbs = [o[1:] for o in x.d.get("ops", []) if o.startswith("g") and o[1:] in self.fns and not self.fns[o[1:]].decl]
                        if cbs:
                            l.append((x, cbs, "callback"))
                cg[f.name] = l
            self._cg = cg
        return self._cg

    def reachable(self, roots, stop=lambda n: False):
        """functions reachable from roots with a parent map for reporting paths"""
        par = {}
        q = deque()
        for r in roots:
            par[r] = None
            q.append(r)
        while q:
            n = q.popleft()
            if stop(n) or n not in self.cg:
                continue
            for x, ts, k in self.cg[n]:
                for t in ts:
                    if t not in par:
                        par[t] = (n, x)
                        q.append(t)
        return par

    def path(self, par, n, limit=12):
        out = []
        while n is not None and len(out) < 40:
            p = par[n]
            f = self.fns.get(n)
            out.append((f.dem if f else n) + ((" called at %s" % p[1].where) if p else ""))
            n = p[0] if p else None
        out.reverse()
        return out if len(out) <= limit else out[:4] + ["..."] + out[-(limit - 5):]
