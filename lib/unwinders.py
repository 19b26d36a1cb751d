"""what T01 and T02 share about the unwinding back-ends."""
import re
from front import slice_steps
from chain import affine
from linear import Lin, add, const
from containers import Containers, STOP, KEEP, APPEND, READS, method, obj, stable_loads
from flow import apath, root
from ir import base_name

CAP = r"^cpptrace::(v[0-9]+::)?detail::capture_frames\(unsigned long, unsigned long\)$"


def lin_for(f, assume=()):
    L = Lin(f)
    L.canon = stable_loads(f)
    cont = Containers(f, L)
    cache = {}

    def extra(lin, b, k):
        if "f" not in cache:
            cache["f"] = None
            i, e = cont.facts(None)
            for a in assume:
                i.append(add(const(1 << 62), lin.U(a), -1))
            # what the library functions used here return
            for x in f.calls():
                if x.callee_name == "backtrace":
                    i.append(add(lin.S(x.d["ops"][1], 32), lin.S(x.ref), -1))
            cache["f"] = (i, e)
        return cache["f"] or ([], [])
    L.extra = extra
    return L, cont


def countdown(f, F, x, path, skip_val):
    """is the skip counter exhausted at x?  (a value counted down from skip known to be zero, or a counter known to have
    reached skip)"""
    for fc in F.at(x.bb):
        if fc[0] != "cmp":
            continue
        p, a, b = fc[1:4]
        for q, (s, t) in ((p, (a, b)), ({"ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule", "slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle"}.get(p, p), (b, a))):
            if q == "eq" and t == "c0" and derives(f, s, path, skip_val):
                return True
            if q in ("uge", "ugt", "eq", "sge", "sgt") and t[0] != "c" and derives(f, t, path, skip_val):
                return True
    return False


def derives(f, ref, path, skip_val, seen=None):
    """ref is computed from the skip argument by adding/subtracting constants (through phis)"""
    seen = seen or set()
    if ref in seen:
        return False
    seen.add(ref)
    if ref == skip_val:
        return True
    x = f.inst(ref)
    if x is None:
        return False
    if x.op == "load":
        return path is not None and apath(f, x.d["ops"][0]) == path
    if x.op in ("add", "sub", "zext", "sext", "trunc", "freeze"):
        return derives(f, x.d["ops"][0], path, skip_val, seen)
    if x.op == "phi":
        return any(derives(f, v, path, skip_val, seen) for v, _ in x.d["phi"])
    return False


def depends(f, ref, src):
    """is ref computed from src in any way (registers only)?"""
    seen, st = set(), [ref]
    while st:
        r = st.pop()
        if r == src:
            return True
        x = f.inst(r)
        if x is None or r in seen or x.op in ("load", "alloca"):
            continue
        seen.add(r)
        st += [v for v, _ in x.d["phi"]] if x.op == "phi" else x.d.get("ops", [])
    return False


SAFE = r"^cpptrace::(v[0-9]+::)?detail::safe_capture_frames\("
NORMAL = "function(sroa,early-cse<memssa>,gvn<no-pre;no-load-pre>,dse,instcombine<no-verify-fixpoint>,simplifycfg)"
SWAP = {"ule": "uge", "ult": "ugt", "sle": "sge", "slt": "sgt", "uge": "ule", "ugt": "ult", "sge": "sle", "sgt": "slt"}


def is_dec(f, ref, same):
    """ref is one less than a value `same` recognises"""
    x = f.inst(ref)
    if x is None:
        return False
    if x.op == "add" and x.d["ops"][1] == "c-1" or x.op == "sub" and x.d["ops"][1] == "c1" or (x.callee_name or "").startswith("llvm.usub.sat") and x.d["ops"][1] == "c1":
        return same(x.d["ops"][0])
    return False


def fact_zero(F, b, same):
    return any(fc[0] == "cmp" and (fc[1] == "eq" and fc[3] == "c0" or fc[1] == "ult" and fc[3] == "c1" or fc[1] == "ule" and fc[3] == "c0") and same(fc[2]) for fc in F.at(b))


def edge_zero(F, p, b, same):
    """is the counter zero on the edge p -> b?"""
    if fact_zero(F, p, same):
        return True
    fs = F.on_edge(p, b)
    return any(fc[0] == "cmp" and fc[1] == "eq" and fc[3] == "c0" and same(fc[2]) for fc in fs)


def counted_phi(f, L, y, skip):
    """y runs from skip + 1 down to zero by ones, one per iteration"""
    loop = L.loops.get(y.bb, ())
    for v, p in y.d["phi"]:
        if p not in loop and affine(f, v) != [(skip, 1)]:
            return False
    same = lambda r: r == y.ref
    st, seen = [(v, p, y.bb) for v, p in y.d["phi"] if p in loop], set()
    while st:
        v, p, b = st.pop()
        if (v, p, b) in seen:
            continue
        seen.add((v, p, b))
        if is_dec(f, v, same):
            continue
        x = f.inst(v)
        if v in (y.ref, "c0"):
            if not edge_zero(L.F, p, b, same):
                return False
        elif x is not None and x.op == "phi" and x.bb in loop:
            st += [(w, q, x.bb) for w, q in x.d["phi"]]
        elif x is not None and x.op == "select":
            fs = []
            for k, truth in ((1, True), (2, False)):
                w = x.d["ops"][k]
                if is_dec(f, w, same):
                    continue
                fs = []
                L.F._expand(x.d["ops"][0], truth, fs, 0)
                if w not in (y.ref, "c0") or not (any(fc[0] == "cmp" and fc[1] == "eq" and fc[3] == "c0" and same(fc[2]) for fc in fs) or fact_zero(L.F, x.bb, same)):
                    return False
        else:
            return False
    return True


def passes_over(f, L, b, skip):
    """at block b exactly skip + 1 frames have been passed over: a counter of the enclosing loop has run out"""
    for fc in L.F.at(b):
        if fc[0] != "cmp":
            continue
        p, s, t = fc[1:4]
        y = f.inst(s)
        if (p == "eq" and t == "c0" or p == "ult" and t == "c1") and y is not None and y.op == "phi" and counted_phi(f, L, y, skip):
            return True
        for q, s, t in ((p, s, t), (SWAP.get(p), t, s)):
            y = f.inst(s)
            if q in ("uge", "ugt", "sge", "sgt") and y is not None and y.op == "phi":
                init = [v for v, z in y.d["phi"] if z not in L.loops.get(y.bb, ())]
                if init == ["c0"] and affine(f, t) == [(skip, 1 if q in ("uge", "sge") else 0)] and steps_by_one(f, L, y):
                    return True
    return False


def steps_by_one(f, L, y):
    loop = L.loops.get(y.bb, ())
    return all(p not in loop or is_inc(f, v, y.ref) for v, p in y.d["phi"])


def is_inc(f, v, ref):
    x = f.inst(v)
    if x is not None and x.op in ("zext", "sext", "trunc"):
        return is_inc(f, x.d["ops"][0], ref)
    return x is not None and x.op == "add" and x.d["ops"] == [ref, "c1"]


def callback_counts(f, L, x, same, stores):
    """x runs only when the counter field is zero, and while it is not zero every continuing path takes one off"""
    if not fact_zero(L.F, x.bb, same):
        return "a frame is appended before the skipped frames are known to have been passed over"
    if not stores or not all(is_dec(f, z.d["ops"][0], same) for z in stores):
        return "the skip count is changed other than by taking one off"
    sb = {z.bb for z in stores}
    for z in stores:
        for fc in L.F.at(z.bb):
            pass
    # from the entry, without a decrement, with the counter not zero: no return that asks for more frames
    seen, st = {0}, [0]
    while st:
        b = st.pop()
        if b in sb or fact_zero(L.F, b, same):
            continue
        t = f.blocks[b][-1]
        if t.op == "ret":
            v = t.d["ops"][0]
            if v[0] == "c" and v != "c0":
                continue
            if v[0] == "v" and f.inst(v) is not None and f.inst(v).op == "phi" and f.inst(v).bb == b:
                bad = False
                for w, p in f.inst(v).d["phi"]:
                    if (p in seen) and p not in sb and not fact_zero(L.F, p, same) and not edge_zero(L.F, p, b, same) and not (w[0] == "c" and w != "c0"):
                        bad = True
                if not bad:
                    continue
            return "a frame can be passed over without being counted"
        for k in f.succs(b):
            if k not in seen:
                fs = []
                if not edge_zero(L.F, b, k, same):
                    seen.add(k)
                    st.append(k)
    return None


def induction(f, L, b, once=False):
    """(phi, init) of a loop around block b whose counter goes up by one in every iteration; once: b runs in every iteration"""
    out = []
    for h, loop in L.loops.items():
        if b not in loop:
            continue
        if any(b in l2 and h2 != h and h2 in loop for h2, l2 in L.loops.items()):
            continue
        for y in f.blocks[h]:
            if y.op != "phi":
                break
            init = {v for v, p in y.d["phi"] if p not in loop}
            if len(init) == 1 and steps_by_one(f, L, y):
                if once and not all(b in f.dom[p] for v, p in y.d["phi"] if p in loop):
                    continue
                out.append((y, init.pop(), h, loop))
    return out
