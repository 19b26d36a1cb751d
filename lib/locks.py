"""Locks and shared mutable globals: entry-point slices in which the lock wrappers are inlined, must-held lock sets, and
classification of every use of a global (read / write, held locks, during guarded initialisation)."""
import re
from collections import defaultdict
from front import slice_steps, AnalysisError
from flow import apath, root
from mem import base, is_dtor
from ir import operands

STD = r"^_ZN?K?(St|9__gnu_cxx)"
LOCKY = r"^_ZNK?St(5mutex|12__mutex_base|10lock_guard|11unique_lock|11scoped_lock|11shared_lock|12shared_mutex|18shared_timed_mutex|22__shared_mutex_pthread|15recursive_mutex|22__recursive_mutex_base)|^_ZStL?(4swap|4move|7forward|9addressof|11__addressof)I.*(unique_lock|mutex)"
ACQ = {"pthread_mutex_lock", "pthread_rwlock_wrlock"}
RD = {"pthread_rwlock_rdlock"}
REL = {"pthread_mutex_unlock", "pthread_rwlock_unlock"}
SYNC_TYPES = re.compile(r"^(const )?(std::(mutex|recursive_mutex|shared_mutex|shared_timed_mutex|once_flag|atomic|atomic_\w+|condition_variable)\b|pthread_mutex_t|__pthread)")


def shared_globals(m):
    """mutable, non-thread-local variables of static storage duration defined by the repository"""
    out = []
    for n, g in m.globals.items():
        f = (g.get("file") or "").lstrip("/")
        if g.get("const") or g.get("dconst") or g.get("tls") or g.get("decl") or not f.startswith(("src/", "include/")):
            continue
        out.append(g)
    return out


def file_of(f):
    return f.file if f.file.startswith(("src/", "include/")) else None


def entries(m, seeds):
    """seeds: functions (names) of interest.  Inside each source file, the functions that reach a seed through calls in the
    same file; entry = has a caller in another file, is address-taken, or has no caller at all."""
    callers = defaultdict(set)
    for f in m.defined():
        for x, ts, k in m.cg[f.name]:
            if k == "direct":
                callers[ts[0]].add(f.name)
            elif k == "callback":
                for t in ts:
                    callers[t].add("<callback>")
    reach, st = set(seeds), list(seeds)
    while st:
        n = st.pop()
        for c in callers.get(n, ()):
            if c in m.fns and c not in reach and file_of(m.fns[c]) and file_of(m.fns[c]) == file_of(m.fns[n]):
                reach.add(c)
                st.append(c)
    ent, inner = set(), set()
    for n in reach:
        cs = callers.get(n, set())
        f = m.fns[n]
        outside = [c for c in cs if c == "<callback>" or file_of(m.fns[c]) != file_of(f)]
        (ent if outside or not cs else inner).add(n)
    # recursive helpers are analysed on their own
    for n in sorted(inner):
        r = m.reachable([t for x, ts, k in m.cg[n] if k == "direct" for t in ts if t in reach], stop=lambda t: t not in reach)
        if n in r:
            ent.add(n)
    inner -= ent
    # a cycle of inner functions without an entry is an entry itself
    if not ent:
        ent, inner = set(seeds), set()
    return ent, inner


def lock_fns(m):
    """repository functions that (through the standard lock wrappers) call a pthread lock function"""
    wr = set()
    for f in m.defined():
        if any((x.callee_name or "") in ACQ | RD for x in f.calls()):
            wr.add(f.name)
    changed = True
    while changed:
        changed = False
        for f in m.defined():
            if f.name in wr or not re.search(LOCKY, f.name):
                continue
            if any(k == "direct" and ts[0] in wr for x, ts, k in m.cg[f.name]):
                wr.add(f.name)
                changed = True
    return {f.name for f in m.defined() if file_of(f) and any(k == "direct" and ts[0] in wr for x, ts, k in m.cg[f.name])}


def accessors(m, names):
    out = defaultdict(set)
    for f in m.defined():
        for x in f.insts:
            for o in operands(x):
                if o[0] == "g":
                    n = o[1:].split("@")[0]
                    if n in names:
                        out[n].add(f.name)
    return out


def lock_module(c, cfg, m, gl):
    """(module, entry names): the entry points of all files that touch a shared global or a lock, lock wrappers and
    same-file helpers inlined, other functions opaque"""
    acc = accessors(m, {g["name"] for g in gl})
    seeds = {n for g, s in acc.items() for n in s if file_of(m.fns[n])} | lock_fns(m)
    ent, inner = entries(m, seeds)
    ms = c.module(cfg, slice_steps("=" + ",".join(sorted(ent)), "=" + ",".join(sorted(inner)) if inner else "", "~" + STD, LOCKY))
    return ms, ent, acc


def lockid(f, ref):
    p = apath(f, ref)
    r = root(p)
    if r[0] == "g" and not f.mod.globals.get(r[1], {}).get("tls"):
        return p
    return None


class Held:
    """must-held lock sets before every instruction"""

    def __init__(self, f):
        self.f = f
        n = len(f.blocks)
        TOP = None
        self.inn = [TOP] * n
        self.at = {}
        self.exits = []
        self.acq = []
        inn = {0: frozenset()}
        wl = [0]
        while wl:
            b = wl.pop()
            s = inn[b]
            s2 = self._flow(b, s)
            t = f.blocks[b][-1]
            for k in t.d.get("succ", []):
                o = self._edge(b, k, s2)
                if k not in inn:
                    inn[k] = o
                    wl.append(k)
                elif not inn[k] <= o:
                    inn[k] = inn[k] & o
                    wl.append(k)
        for b in range(n):
            if b in inn:
                self._flow(b, inn[b], True)

    def _edge(self, b, k, s):
        t = self.f.blocks[b][-1]
        if t.op == "br" and len(t.d.get("succ", [])) == 2 and t.d["succ"][0] != t.d["succ"][1]:
            i = self.f.inst(t.d["ops"][0])
            # acquire returned nonzero -> this thread initialises
            if i is not None and i.op == "icmp" and i.d["ops"][1] == "c0" and i.d["pred"] in ("eq", "ne"):
                j = self.f.inst(i.d["ops"][0])
                truth = k == t.d["succ"][0]
                nz = (i.d["pred"] == "ne") == truth
                if j is not None and j.op in ("call", "invoke") and j.callee_name == "__cxa_guard_acquire" and nz:
                    s = s | {("init", root(apath(self.f, j.d["ops"][0])))}
                if j is not None and j.callee_name in ACQ | RD and nz:
                    s = s - {lockid(self.f, j.d["ops"][0])}
        return s

    def _flow(self, b, s, rec=False):
        f = self.f
        for x in f.blocks[b]:
            if rec:
                self.at[x.i] = s
                if x.op in ("ret", "resume"):
                    self.exits.append((x, s))
            if x.op in ("call", "invoke"):
                cn = x.callee_name or ""
                if cn in ACQ or cn in RD:
                    l = lockid(f, x.d["ops"][0])
                    if l is not None:
                        if rec:
                            self.acq.append((x, l, s))
                        s = s | {l if cn in ACQ else ("rd", l)}
                elif cn in REL:
                    l = lockid(f, x.d["ops"][0])
                    s = s - {l, ("rd", l)}
                elif cn in ("__cxa_guard_release", "__cxa_guard_abort"):
                    s = frozenset(y for y in s if y[0] != "init" or y[1] != root(apath(f, x.d["ops"][0])))
                elif "call_once" in cn:
                    p = apath(f, x.d["ops"][0])
                    if root(p)[0] == "g":
                        s = s | {("once", p)}
        return s

    def leaks(self):
        """(acquisition, exit) pairs: an exit of the function reachable from the acquisition of a lock without passing a
        release of it.  A branch on an ownership flag kept by a guard object (a phi or a loaded value) that leads to the
        release is taken as a release."""
        f, out = self.f, []
        for x, l, _ in self.acq:
            rel = {}
            for y in f.calls():
                if (y.callee_name or "") in REL and lockid(f, y.d["ops"][0]) == l:
                    rel.setdefault(y.bb, []).append(y.i)
            flag = set()
            for b, blk in enumerate(f.blocks):
                t = blk[-1]
                if t.op != "br" or len(t.d.get("succ", [])) != 2 or not any(k in rel for k in t.d["succ"]):
                    continue
                c = f.inst(t.d["ops"][0])
                while c is not None and (c.op in ("trunc", "zext", "freeze") or c.op == "icmp" and c.d["ops"][1].startswith("c")):
                    c = f.inst(c.d["ops"][0])
                if c is not None and c.op in ("phi", "load", "select"):
                    flag.add(b)
            start = f.blocks[x.bb]
            if any(i > x.i for i in rel.get(x.bb, ())):
                continue
            if x.bb in flag:
                continue
            seen, st, prev = {x.bb}, [x.bb], {}
            while st:
                b = st.pop()
                t = f.blocks[b][-1]
                if t.op in ("ret", "resume"):
                    out.append((x, l, t))
                    break
                for k in t.d.get("succ", []):
                    if k in rel or k in seen or l not in self._edge(b, k, frozenset([l])):
                        continue
                    if b == x.bb and t is x and k != t.d["succ"][0]:
                        continue
                    seen.add(k)
                    if k not in flag:
                        st.append(k)
        return out
