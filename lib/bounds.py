"""Access obligations of standard containers: every element access, substring start and buffer fill must be provably inside
the container at that point."""
import re
from containers import method, obj
from ghost import Ghost
from linear import Lin, add, const, var

FILL = re.compile(r"^_ZNSi4readEPcl$|^_ZNSi3getEPcl|^fread$|^read$|^pread$|^memcpy$|^llvm\.mem(cpy|move|set)")
NEED1 = {"front", "back", "pop_back"}


def obligations(f, G):
    """(inst, kind, container operand, linear expression that must be >= 0)"""
    L = G.L
    for x in f.calls():
        m = method(f, x)
        if not m:
            continue
        kind, mt, sig = m[0], m[1], m[2]
        o, rest = obj(f, x)
        s = G.size_at(x, o) if o else None

        def size():
            return L.U(s) if s is not None else None
        if mt == "operator[]" and rest:
            yield x, "element access", o, size() and add(add(size(), L.U(rest[0]), -1), const(0 if kind == "basic_string" else -1))
        elif mt in NEED1:
            yield x, mt + "() of a container", o, size() and add(size(), const(-1))
        elif mt == "substr" and rest:
            yield x, "substring start", o, size() and add(size(), L.U(rest[0]), -1)
        elif mt in ("erase", "insert", "replace") and sig.startswith("unsigned long") and kind == "basic_string":
            yield x, mt + " position", o, size() and add(size(), L.U(rest[0]), -1)


def element(f, ref, depth=0):
    """(container operand, index ref, access inst, byte offset) when the pointer lies in a container's buffer"""
    x = f.inst(ref)
    if x is None or depth > 20:
        return None
    if x.op == "getelementptr":
        r = element(f, x.d["ops"][0], depth + 1)
        if r is None:
            return None
        c, i, a, k, v = r
        if x.d.get("off") is None:
            return None
        return c, i, a, k + x.d["off"], v + [tuple(q) for q in x.d.get("var") or []]
    if x.op in ("bitcast", "freeze"):
        return element(f, x.d["ops"][0], depth + 1)
    if x.op in ("call", "invoke"):
        m = method(f, x)
        if m and m[1] in ("operator[]", "data", "c_str", "front", "begin"):
            o, rest = obj(f, x)
            return o, rest[0] if m[1] == "operator[]" and rest else "c0", x, 0, []
    return None
