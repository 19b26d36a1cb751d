"""The loop over a trace's frames in a specialised print path: index, per-iteration path counts, what it reads and outputs."""
import re
from front import AnalysisError
from fmt import *
from ir import operands
from scev import Ev
from linear import add, const

INF = 99


def reads(P, blocks):
    """frame data used inside the loop: [(inst, origin set, field)], copies of whole frames and lifetime ends excluded"""
    out = []
    for x in P.f.insts:
        if x.bb not in blocks:
            continue
        d = P.dem(x) if x.op in ("call", "invoke") else ""
        if x.op == "load" and copied(P, x):
            continue
        if x.op == "load" and x.ty != "ptr" or x.op in ("call", "invoke") and re.search(r" const$", d) and not FILTER.search(d) and not TRANSFORM.search(d):
            for o in x.d["ops"][-1:] if x.op == "load" else x.d["ops"]:
                for b, k in P.bases(o):
                    fld = P.field.get(k)
                    if fld is None:
                        continue
                    if b == "in":
                        if not (x.op != "load" and "vector" in d):
                            out.append((x, {"input"}, fld))
                    elif isinstance(b, tuple) and b[0] == "al" and P.framelike(b[1]):
                        out.append((x, {t[1] for t in P.content(b[1]) if t[0] == "frame"}, fld))
    return out


def copied(P, x):
    """the value read only goes into another frame object (a frame being copied or moved)"""
    st, n = [x.ref], 0
    while st:
        r = st.pop()
        for u in P.f.users.get(r, []):
            n += 1
            if u.op in ("zext", "trunc", "freeze", "and", "icmp") and n < 20:
                st.append(u.ref)
            elif not (u.op == "store" and any(isinstance(b, tuple) and b[0] == "al" and P.framelike(b[1]) for b, _ in P.bases(u.d["ops"][1]))):
                return False
    return n > 0


class Loop:
    """the loop of f that visits the frames of the trace argument"""

    def __init__(self, f, off, fsize):
        self.f, self.fsize = f, fsize
        self.P = P = Parts(f, off, fsize)
        self.E = E = Ev(f, lambda x: fsize if "stacktrace_frame" in P.dem(x) else None)
        self.data = ("data", tuple(sorted({("v", P.trace_arg): 1}.items(), key=str)))
        self.size = {("size", self.data[1]): 1}
        # element references: index expression -> instructions that use them
        self.idx = {}
        for x in f.insts:
            if x.op in ("load", "store", "call", "invoke", "select", "phi"):
                for o in operands(x):
                    if o[0] not in "va":
                        continue
                    e = E.ev(o)
                    if e.get(self.data) == 1:
                        i = {t: v for t, v in e.items() if t != self.data}
                        its = [t for t in i if isinstance(t, tuple) and t[0] == "it"]
                        if len(its) == 1 and i[its[0]] == fsize:
                            h = its[0][1]
                            k = i.get(1, 0) % fsize
                            b = add({t: v for t, v in i.items() if t != its[0]}, const(-k))
                            self.idx.setdefault(h, {}).setdefault(tuple(sorted(b.items(), key=str)), []).append((x, k))
        # the frame loop runs the output: the one containing element references and outputs
        out = {x.bb for x, _ in self.outs()}
        hs = [h for h in self.idx if any(b in E.loops[h] for b in out)]
        if not hs:
            cb = {x.bb for x in f.calls() if TRANSFORM.search(P.dem(x)) or FILTER.search(P.dem(x))}
            hs = [h for h in self.idx if any(b in E.loops[h] for b in cb)] or list(self.idx)
        if len(hs) != 1:
            raise AnalysisError("%s: %d loops over the frames of the trace found" % (f.dem, len(hs)))
        self.h = hs[0]
        self.blocks = E.loops[self.h]

    def start(self):
        """index of the first frame visited (linear expression; {} is 0)"""
        ix = self.idx[self.h]
        return {t: v // self.fsize if v % self.fsize == 0 else v for t, v in dict(next(iter(ix))).items() if v}

    def outs(self):
        return [(x, self.P.dem(x)) for x in self.f.calls() if OUTPUT.search(self.P.dem(x))]

    def calls(self, rx):
        return [x for x in self.f.calls() if x.bb in self.blocks and rx.search(self.P.dem(x))]

    def count(self, xs):
        """(min, max) executions of the instructions xs in one iteration, over all non-exceptional paths through the loop body"""
        f, E = self.f, self.E
        w = {}
        for x in xs:
            inner = [h for h in E.loops if h != self.h and h in self.blocks and x.bb in E.loops[h]]
            w[x.bb] = w.get(x.bb, 0) + (INF if inner else 1)
        back = {(b, h) for h in E.loops for b in E.latches(h)}
        memo = {}

        def go(b):
            if b in memo:
                return memo[b]
            memo[b] = None
            best = None
            t = f.blocks[b][-1]
            for s in dict.fromkeys(f.succs(b)):
                if t.op == "invoke" and s == t.d.get("unwind"):
                    continue
                if s == self.h:
                    r = (0, 0)
                elif s not in self.blocks or (b, s) in back:
                    continue
                else:
                    r = go(s)
                if r is not None:
                    best = r if best is None else (min(best[0], r[0]), max(best[1], r[1]))
            if best is not None:
                best = (best[0] + w.get(b, 0), best[1] + w.get(b, 0))
            memo[b] = best
            return best
        return go(self.h)

    def reads(self):
        return reads(self.P, self.blocks)

    def numbers(self):
        """outputs of an integer that advances by one per iteration: [(output call, value at the first iteration)]"""
        P, E, out = self.P, self.E, []
        for x, d in self.outs():
            if x.bb not in self.blocks:
                continue
            vals = list(x.d["ops"])
            for o in x.d["ops"]:
                for b, _ in P.bases(o):
                    if isinstance(b, tuple) and b[0] == "al":
                        seen, st = {b[1]}, [b[1]]
                        while st:
                            for w in P.writers(st.pop()):
                                if w.op == "store":
                                    vals.append(w.d["ops"][0])
                                    for b2, _ in P.bases(w.d["ops"][0]):
                                        if isinstance(b2, tuple) and b2[0] == "al" and b2[1] not in seen and not P.framelike(b2[1]):
                                            seen.add(b2[1]); st.append(b2[1])
            for v in vals:
                y = self.f.inst(v)
                if v[0] != "v" or y is None or y.ty == "ptr":
                    continue
                e = E.ev(v)
                if e.get(("it", self.h)) == 1:
                    out.append((x, {t: k for t, k in e.items() if t != ("it", self.h) and k}))
                    break
        return out
