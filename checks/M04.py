"""Resource typestate: descriptors, child processes, file handles, demangler buffers and C arrays are released exactly once on every path."""
import os, re
from front import AnalysisError, VERIF, SSA, slice_steps
from absorb import accessors
from throws import Throws, classify_external
from flow import Facts
import containers
from vres import Typestate, ACQUIRE, TESTED

CFGS = ["unwind-addr2line", "unwind-addr2line-release"]
MORE = ["libunwind-libdl", "unwind-libbacktrace", "execinfo-addr2line"]
PROBE = os.path.join(VERIF, "probes", "resources.cpp")
ACQ = dict(ACQUIRE, _Znam="ptr", _ZnamRKSt9nothrow_t="ptr")
STOP = containers.STOP + r"|8microfmt|14internal_errorC|6detail(3log|6do_log)|ctrace_free_|vp_probe_use"
PROBES = ["vp_probe_file_dies", "vp_probe_file_moved"]
KEEP = containers.KEEP + r"|^_ZNK?St(10unique_ptr|15__uniq_ptr_(impl|data)|5tuple|11_Tuple_impl|10_Head_base|14default_delete|16initializer_list)I|^_ZSt(3get|12__get_helper|8exchange|5begin|3end|9transform|8for_each)I"
RAISE = {"__cxa_throw", "__cxa_rethrow", "_Unwind_Resume"}
FREE = r"ctrace_free_|free_(raw|object|stack)?trace"


def ours(f):
    return f.file.startswith(("src/", "include/"))


def callers_of(m):
    out = {}
    for f in m.defined():
        for x, ts, k in m.cg[f.name]:
            for t in ts:
                out.setdefault(t, set()).add(f.name)
    return out


def roots(m):
    """functions that acquire something, raised to the unit they are a part of: helpers with one caller belong to that caller"""
    acq = [f for f in m.defined() if ours(f) and any(x.callee_name in ACQ or x.callee_name in TESTED for x in f.calls())]
    up = callers_of(m)
    out = set()
    for f in acq:
        n = f.name
        for _ in range(4):
            cs = {q for q in up.get(n, ()) if q != n}
            g = m.fns[n]
            if len(cs) != 1:
                break
            q = next(iter(cs))
            if not ours(m.fns[q]) or m.fns[q].file != g.file:
                break
            n = q
        out.add(n)
    return out, acq


def run(c):
    c.rule("a path-sensitive typestate analysis splits the state of the program at every call that acquires a pipe, process, file handle, demangler buffer or C array into its outcomes, follows the resource through variables, destructors and owners, and requires it to be released exactly once or handed to an owner on every path out of the function, exception paths included, and not to be used after that")
    c.rule("a value returned by read, write, readlink, waitpid or mmap is tested for its failure value on every path before it becomes a size, an index or an address")
    for cfg in CFGS + (MORE if c.thorough else []):
        m = c.module(cfg)
        th = Throws(m, False, override=accessors(m), std_throws=False)
        nothrow = frozenset(n for n, f in m.fns.items() if (f.nounwind or n not in RAISE and not classify_external(n, f.dem) if f.decl else not th.out[n]))
        rs, acq = roots(m)
        if len(acq) < 3:
            raise AnalysisError("the functions that acquire resources were not found")
        covered = set()
        owners = set()
        ms = c.module(cfg, slice_steps("=" + ",".join(sorted(rs)), "cpptrace|ctrace", STOP, KEEP))
        for f in ms.defined():
            if f.name in rs:
                t = Typestate(c, f, ACQ, FREE, nothrow=nothrow)
                for x in t.sites + t.tested:
                    covered.add((x.callee_name, x.where))
                if t.owners and f.ret == "ptr":
                    owners.add(f.name)
                c.count("functions"); c.count("acquisitions", len(t.sites)); c.count("exits", len(t.ends))
        # functions that return something their caller has to release
        second = {q for n in owners for q in callers_of(m).get(n, ()) if ours(m.fns[q])} - rs
        if second:
            ms = c.module(cfg, slice_steps("=" + ",".join(sorted(second)), "^ctrace", STOP + "|~^(" + "|".join(owners) + ")$", KEEP))
            for f in ms.defined():
                if f.name in second:
                    t = Typestate(c, f, dict(ACQ, **{n: "ptr" for n in owners}), FREE, nothrow=nothrow)
                    c.count("functions"); c.count("acquisitions", len(t.sites)); c.count("exits", len(t.ends))
        # the life of an opened file beyond the function that opened it
        mp = c.module(cfg, slice_steps("=" + ",".join(PROBES), "cpptrace|ctrace", STOP, KEEP), probes=(PROBE,))
        for n in PROBES:
            if n not in mp.fns:
                raise AnalysisError("probe function %s is missing" % n)
            t = Typestate(c, mp.fns[n], ACQ, FREE, where="an opened file (%s)" % n, nothrow=nothrow)
            c.need(len(t.sites), "fopen in the life of a file")
        for f in acq:
            for x in f.calls():
                if (x.callee_name in ACQ or x.callee_name in TESTED) and (x.callee_name, x.where) not in covered:
                    raise AnalysisError("the %s at %s was not reached by the analysis" % (x.callee_name, x.where))
