"""Pointer bases and object-granular taint inside one (sliced) function."""
from collections import defaultdict


def base(f, ref, depth=0):
    """set of base objects a pointer may point into: ('al',id) alloca, ('g',name), ('arg',k), ('ld',id) loaded, ('call',id)"""
    out, seen, st = set(), set(), [ref]
    while st:
        r = st.pop()
        if r in seen:
            continue
        seen.add(r)
        if r[0] == "g":
            out.add(("g", r[1:].split("@")[0]))
            continue
        if r[0] == "a":
            out.add(("arg", int(r[1:])))
            continue
        x = f.inst(r)
        if x is None:
            continue
        if x.op == "alloca":
            out.add(("al", x.i))
        elif x.op in ("getelementptr", "bitcast", "freeze"):
            st.append(x.d["ops"][0])
        elif x.op == "phi":
            st += [v for v, _ in x.d["phi"]]
        elif x.op == "select":
            st += x.d["ops"][1:]
        elif x.op == "call" and (x.callee_name or "").startswith("llvm.threadlocal.address"):
            st.append(x.d["ops"][0])
        elif x.op in ("call", "invoke"):
            out.add(("call", x.i))
        elif x.op == "load":
            out.add(("ld", x.i))
        else:
            out.add(("v", x.i))
    return out


def is_dtor(name):
    return bool(name) and (name.endswith(("D0Ev", "D1Ev", "D2Ev")) or name.startswith(("_ZdlPv", "_ZdaPv")))


def taint(f, seeds, through=lambda x: True):
    """objects and values derived from the seed bases: data flows through loads, stores, memory copies and calls
    (from any argument object to the objects of pointer arguments and the result)"""
    T = set(seeds)
    changed = True
    while changed:
        changed = False
        for x in f.insts:
            n = len(T)
            if x.op == "load":
                if base(f, x.d["ops"][0]) & T:
                    T.add(("ld", x.i)); T.add(("val", x.i))
            elif x.op == "store":
                v = x.d["ops"][0]
                if ("val", int(v[1:])) in T if v[0] == "v" else False or (base(f, v) & T):
                    T |= base(f, x.d["ops"][1])
            elif x.op in ("call", "invoke"):
                cn = x.callee_name or ""
                if cn.startswith("llvm.lifetime") or is_dtor(cn) or not through(x):
                    continue
                src = [o for o in x.d["ops"] if (o[0] == "v" and ("val", int(o[1:])) in T) or (base(f, o) & T if o[0] in "vag" else False)]
                if src:
                    T.add(("val", x.i)); T.add(("call", x.i))
                    if x.d["ops"] and x.d["ops"][0] not in src:
                        T |= base(f, x.d["ops"][0])        # the object the member/constructor/copy writes
            elif x.op == "phi":
                if any(v[0] == "v" and ("val", int(v[1:])) in T for v, _ in x.d["phi"]):
                    T.add(("val", x.i))
            elif x.op not in ("br", "switch", "ret", "alloca", "landingpad", "resume", "getelementptr"):
                if any(o[0] == "v" and ("val", int(o[1:])) in T for o in x.d.get("ops", [])):
                    T.add(("val", x.i))
            changed |= len(T) != n
    return T
