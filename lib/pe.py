"""Partial evaluation: find the configuration global behind a public setter and specialise the program to a value."""
import re
from front import AnalysisError, SSA, slice_steps
from flow import apath, root

NS = r"^cpptrace::(v[0-9]+::)?"
ATOMIC = r"^_ZNK?St(6atomic|13__atomic_base|9__atomic)|^_ZStanSt12memory_order"
INLINE_ATOMICS = [("xform", ["--alwaysinline", ATOMIC]), ("opt", "always-inline,function(sroa,early-cse,simplifycfg)")]


def setter_globals(c, cfg, setter):
    """globals that the public function `setter` (demangled regex) stores its argument to; and their module"""
    m = c.module(cfg, slice_steps(setter))
    fs = m.find(setter)
    if len(fs) != 1:
        raise AnalysisError("setter %s matches %d functions" % (setter, len(fs)))
    f = fs[0]
    out = set()
    for x in f.insts:
        if x.op in ("store", "atomicrmw", "cmpxchg"):
            p = x.d["ops"][1] if x.op == "store" else x.d["ops"][0]
            if p.startswith("g"):
                out.add(p[1:].split("@")[0])
    if not out:
        raise AnalysisError("setter %s stores to no global" % setter)
    return f, out


def specialise(consts):
    """steps: every load of global g yields consts[g]; constants propagated through calls"""
    args = []
    for g, v in sorted(consts.items()):
        args += ["--const-global", "%s=%d" % (g, v)]
    return INLINE_ATOMICS + [("xform", args), ("opt", "ipsccp,function(sroa,early-cse,simplifycfg)")]


def other_writers(m, g, allowed):
    """stores to global g outside the allowed functions: list of instructions"""
    out = []
    for f in m.defined():
        if f.name in allowed or f.name.startswith(("_GLOBAL__", "__cxx_global_var_init")):
            continue
        for x in f.insts:
            ops = []
            if x.op == "store":
                ops = [x.d["ops"][1]]
            elif x.op in ("atomicrmw", "cmpxchg"):
                ops = [x.d["ops"][0]]
            if any(o == "g" + g or o.startswith("g" + g + "@") for o in ops):
                out.append(x)
    return out
