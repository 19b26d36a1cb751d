"""The loop over a trace's frames: per-iteration path counts of transform, filter and number output on specialised print paths."""
import re
from front import AnalysisError, slice_steps
from fmt import *
from scev import ITER, layout
from linear import add
from F02 import short
from F03 import XSTOP, enum
from fmtloop import Loop


def run(c):
    c.rule("per-iteration path counting: with a transform the loop calls it exactly once on the frame at the loop's own index, everything else in the loop reads its result; with a filter the loop calls it exactly once, on that same frame")
    c.rule("the printed number starts at 0, advances by one on every path of the iteration and is output exactly once for every shown frame, whatever the filter and placeholder setting")
    c.rule("the index starts at 0 (or just behind a matching frame when hiding is on), advances by one on every path and the loop leaves only at the trace's size; filtered frames output nothing, or a placeholder without frame data")
    base = c.module(CFG)
    lay = layout(c)
    off = {k: lay["off_frame__" + k] for k in FIELDS}
    fsize = lay["size_frame"]
    _, fl = option_fields(c)
    one = {o: sorted(fl[o])[0] for o in SETTERS}
    steps = slice_steps(FMT, INC, STOP + "|" + XSTOP, KEEP + "|" + ITER)
    T = [f for f in roots(c.module(CFG, steps), FMT) if any(re.search(r"stacktrace const&$", p) for p in params(f.dem))]
    c.need(len(T), "trace overloads", 8)
    has_t = [n for n, g in base.fns.items() if HAS_TRANSFORM.search(g.dem)]
    has_f = [n for n, g in base.fns.items() if HAS_FILTER.search(g.dem)]
    the_f = [n for n, g in base.fns.items() if FILTER.search(g.dem)]
    if not has_t or not has_f or not the_f:
        raise AnalysisError("std::function queries for transform/filter not found")
    pre = {"t": has_t, "f": has_f, "fr": the_f}
    AM = enum(base, "address_mode")

    def spec(**kw):
        args = []
        for k, v in kw.items():
            if k in pre:
                args += sum([["--const-ret", "%s=%d" % (n, v)] for n in pre[k]], [])
            else:
                args += sum([load_args(f, one[k], v) for f in T], [])
        m = c.module(CFG, steps + [("xform", args), SIMPL, SIMPL, FOLD, SIMPL])
        return m

    def bad(kind, f, where, msg):
        c.violation("%s:%s" % (kind, short(f)), "frame-loop", where, "%s: %s" % (f.dem, msg))

    cases = [dict(t=1, f=1, hide_exception_machinery=1), dict(t=1, f=1, hide_exception_machinery=0), dict(t=0, f=1, hide_exception_machinery=1),
             dict(t=1, f=0, hide_exception_machinery=0), dict(t=0, f=0, hide_exception_machinery=1, addresses=AM["raw"]), dict(t=0, f=0, hide_exception_machinery=0, addresses=AM["object"])]
    for show in (0, 1):
        for fr in (0, 1):
            for hide in (0, 1):
                cases.append(dict(t=hide, f=1, fr=fr, filtered_frame_placeholders=show, hide_exception_machinery=hide))
    for kw in cases:
        m = spec(**kw)
        for g in T:
            f = m.fns[g.name]
            w = "%s:%s" % (g.file, g.line)
            try:
                L = Loop(f, off, fsize)
            except AnalysisError as e:
                raise AnalysisError("%s (%s)" % (e, kw))
            P, E, h = L.P, L.E, L.h
            c.count("loops"); c.saw("%s %s" % (g.dem, kw))
            # index
            ix = L.idx[h]
            if len(ix) != 1:
                bad("index", f, w, "frames are read at more than one index per iteration")
            start = L.start()
            if kw["hide_exception_machinery"] == 0:
                if start:
                    bad("start-0", f, w, "does not start at the first frame although hiding the exception machinery is off")
            else:
                leaves = [start]
                atoms = [t for t in start if isinstance(t, tuple) and t[0] == "v"]
                if len(start) == 1 and atoms and start[atoms[0]] == 1:
                    leaves, seen, st = [], set(), [atoms[0][1]]
                    while st:
                        r = st.pop()
                        if r in seen:
                            continue
                        seen.add(r)
                        y = f.inst(r)
                        e = E.ev(r)
                        if y is not None and e == {("v", r): 1} and y.op in ("phi", "select"):
                            st += [v for v, _ in y.d["phi"]] if y.op == "phi" else y.d["ops"][1:]
                        else:
                            leaves.append(e)
                leaves = [{t: v for t, v in e.items() if v} for e in leaves]
                if {} not in leaves:
                    bad("start-none", f, w, "does not start at the first frame when there is no exception machinery to hide")
                if not [e for e in leaves if e]:
                    bad("start-hide", f, w, "starts at the first frame although hiding the exception machinery is on")
                for e in leaves:
                    if e and e.get(1, 0) != 1:
                        bad("start-off", f, w, "does not start just behind the exception machinery's frame")
            if not E.runs_all(h, add(L.size, start, -1)):
                bad("all", f, w, "the loop can leave before the last frame of the trace")
            # transform / filter
            tr, fi = L.calls(TRANSFORM), L.calls(FILTER)
            want = (1, 1) if kw["t"] else (0, 0)
            if L.count(tr) != want:
                bad("transform-count", f, w, "the transform is applied %s times per frame" % ("%s..%s" % L.count(tr)))
            if "fr" not in kw and L.count(fi) != ((1, 1) if kw["f"] else (0, 0)):
                bad("filter-count", f, w, "the filter is called %s times per frame" % ("%s..%s" % L.count(fi)))
            org = "transform" if kw["t"] else "input"
            for x in fi:
                src = set()
                for b, k in P.bases(x.d["ops"][-1]):
                    src |= {"input"} if b == "in" else {t[1] for t in P.content(b[1]) if t[0] == "frame"} if isinstance(b, tuple) and b[0] == "al" else {"?"}
                if src != {org}:
                    bad("filter-arg", f, x.where, "the filter is given the %s frame" % ("untransformed" if kw["t"] else "wrong"))
            for x in tr:
                src = set()
                for o in x.d["ops"]:
                    for b, k in P.bases(o):
                        if isinstance(b, tuple) and b[0] == "al" and b != P.bases(x.d["ops"][0]):
                            src |= {t[1] for t in P.content(b[1]) if t[0] == "frame"}
                        elif b == "in":
                            src.add("input")
                if "input" not in src:
                    bad("transform-arg", f, x.where, "the transform is not given the trace's frame")
            rd = L.reads()
            for x, o, fld in rd:
                if o != {org}:
                    bad("origin", f, x.where, "uses the %s of the %s frame" % (fld, "untransformed" if kw["t"] else "wrong"))
                    break
            # numbers
            ns = L.numbers()
            outs = [x for x, _ in L.outs() if x.bb in L.blocks]
            filtered = kw.get("fr") == 0
            if filtered and not kw["filtered_frame_placeholders"]:
                if L.count(outs) != (0, 0):
                    bad("omit", f, w, "writes something for a filtered frame although placeholders are off")
                continue
            nx = {x.i: x for x, e in ns}
            for x, e in ns:
                if e:
                    bad("number-start", f, x.where, "frame numbers do not start at 0")
            cn = L.count(nx.values())
            if "fr" in kw or not kw["f"]:
                if cn != (1, 1):
                    bad("number-count", f, w, "the frame number, advancing by one per frame of the trace, is output %s..%s times for a shown frame" % cn)
            elif cn[1] != 1:
                bad("number-count", f, w, "the frame number is output %s..%s times per frame" % cn)
            if filtered:
                data = [x for x, o, fld in rd]
                if data:
                    bad("filtered-data", f, data[0].where, "uses the data of a frame the filter rejected")
                if L.count(outs)[0] < 2:
                    bad("placeholder", f, w, "no placeholder for a filtered frame although placeholders are on")
            elif kw.get("fr") == 1 or not kw["f"]:
                got = {fld for _, _, fld in rd}
                for fld in ("symbol", "filename", "line"):
                    if fld not in got:
                        bad("shown-%s" % fld, f, w, "a shown frame's %s is not used" % fld)
                for a in ("raw_address", "object_address"):
                    if kw.get("addresses") == AM[a.split("_")[0]] and "addresses" in kw:
                        cc = L.count([x for x, _, fld in rd if fld == a])
                        if cc[1] != 1:
                            bad("once-%s" % a, f, w, "a frame's %s is printed %s..%s times" % ((a,) + cc))
