"""Front end: compiles /repo's current sources to LLVM bitcode for an analysis configuration, links them into one
module, optionally transforms it, and exports the resolved program as JSON through tools/irx.  Results are cached by
the content of every input (sources, flags, tool), so a changed tree is always re-analysed."""
import hashlib, json, os, subprocess, sys, glob, shutil, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
CLANG = "clang++-18"
LLVM_BIN = "/usr/lib/llvm-18/bin"


class AnalysisError(Exception):
    """The check cannot give an answer (build failure, vanished anchor, zero instances)."""


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    if r.returncode != 0:
        raise AnalysisError("command failed (%d): %s\n%s" % (r.returncode, " ".join(cmd)[:600], (r.stdout + r.stderr)[-3000:]))
    return r.stdout


def _h(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def _lock(path):
    import fcntl
    f = open(path, "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def tool(name):
    """Build tools/<name>.cpp if its binary is missing or stale."""
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(VERIF, "tools", name + ".cpp")
    key = _h(open(src, "rb").read())
    out = os.path.join(BUILD, "%s-%s" % (name, key))
    if os.path.exists(out):
        return out
    lk = _lock(os.path.join(BUILD, ".lock-" + name))
    if os.path.exists(out):
        return out
    cxxflags = [f for f in run(["llvm-config-18", "--cxxflags"]).split() if not f.startswith("-std=")]
    libs = ["-lLLVM-18"] if name == "irx" else ["-lclang-cpp", "-lLLVM-18"]
    run([CLANG, "-O1", "-std=c++17"] + cxxflags + ["-fno-rtti", "-w", src, "-o", out + ".tmp"] +
        run(["llvm-config-18", "--ldflags"]).split() + libs)
    os.rename(out + ".tmp", out)
    lk.close()
    return out


# ---------------------------------------------------------------- configurations
class Config:
    def __init__(self, name, unwind="UNWIND", symbols="ADDR2LINE", obj="DL_FIND_OBJECT", std="c++11", ndebug=False,
                 extra=(), demangle="CXXABI"):
        self.name, self.unwind, self.symbols, self.obj, self.std = name, unwind, symbols, obj, std
        self.ndebug, self.extra, self.demangle = ndebug, list(extra), demangle

    def flags(self, incdir):
        f = ["-std=" + self.std, "-g", "-O2", "-Xclang", "-disable-llvm-passes", "-fPIC", "-w",
             "-ffile-prefix-map=%s/=" % REPO, "-fno-discard-value-names",
             '-DCPPTRACE_ADDR2LINE_PATH="/usr/bin/addr2line"', "-DCPPTRACE_DEMANGLE_WITH_" + self.demangle,
             "-DCPPTRACE_GET_SYMBOLS_WITH_" + self.symbols, "-DCPPTRACE_HAS_CXX_EXCEPTION_TYPE",
             "-DCPPTRACE_STATIC_DEFINE", "-DCPPTRACE_UNWIND_WITH_" + self.unwind, "-DHAS_ATTRIBUTE_PACKED",
             "-DNOMINMAX", "-I" + REPO + "/include", "-I" + REPO + "/src", "-isystem", incdir]
        if self.obj:
            f.append("-DCPPTRACE_HAS_" + self.obj)
        if self.symbols == "LIBBACKTRACE":
            h = sorted(glob.glob("/usr/lib/gcc/x86_64-linux-gnu/*/include/backtrace.h"))
            if h:
                f.append('-DCPPTRACE_BACKTRACE_PATH="%s"' % h[-1])
        if self.unwind == "LIBUNWIND":
            f.append("-DUNW_LOCAL_ONLY")
        if self.ndebug:
            f.append("-DNDEBUG")
        return f + self.extra


CONFIGS = {c.name: c for c in [
    Config("unwind-addr2line"),
    Config("libunwind-addr2line", unwind="LIBUNWIND"),
    Config("execinfo-libdl", unwind="EXECINFO", symbols="LIBDL", obj="DLADDR1", ndebug=True, std="c++20"),
    Config("unwind-libbacktrace", symbols="LIBBACKTRACE", obj="DLADDR1"),
    Config("nothing-nothing", unwind="NOTHING", symbols="NOTHING", obj=None),
    Config("libunwind-libdl", unwind="LIBUNWIND", symbols="LIBDL", obj="DL_FIND_OBJECT", ndebug=True),
    Config("unwind-addr2line-release", ndebug=True),
    Config("execinfo-addr2line", unwind="EXECINFO"),
    Config("execinfo-dladdr", unwind="EXECINFO", symbols="LIBDL", obj=None),
]}
ALL = list(CONFIGS)


def version_dir():
    d = os.path.join(BUILD, "gen")
    out = os.path.join(d, "cpptrace", "version.hpp")
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        t = open(os.path.join(REPO, "cmake/in/version-hpp.in")).read()
        import re
        t = re.sub(r"@[A-Za-z_]*MAJOR[A-Za-z_]*@", "1", t)
        t = re.sub(r"@[A-Za-z_]*MINOR[A-Za-z_]*@", "0", t)
        t = re.sub(r"@[A-Za-z_]*PATCH[A-Za-z_]*@", "4", t)
        tmp = out + ".%d" % os.getpid()
        open(tmp, "w").write(t)
        os.rename(tmp, out)
    return d


def sources():
    """Every translation unit under /repo/src (each guards itself by back-end macros)."""
    s = sorted(p for p in glob.glob(REPO + "/src/**/*.cpp", recursive=True))
    if len(s) < 20:
        raise AnalysisError("only %d translation units under %s/src" % (len(s), REPO))
    return s


def tree_key():
    h = hashlib.sha256()
    for root in ("src", "include", "cmake/in"):
        for p in sorted(glob.glob(REPO + "/" + root + "/**/*", recursive=True)):
            if os.path.isfile(p):
                h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()


_tk = None


def _tree():
    global _tk
    if _tk is None:
        _tk = tree_key()
    return _tk


def prune_cache(maxbytes=6 << 30):
    c = os.path.join(BUILD, "cache")
    ents = []
    for p in glob.glob(c + "/*"):
        try:
            st = os.stat(p); ents.append((st.st_mtime, st.st_size, p))
        except OSError:
            pass
    tot = sum(e[1] for e in ents)
    for m, s, p in sorted(ents):
        if tot < maxbytes:
            break
        try:
            os.remove(p)
        except OSError:
            pass
        tot -= s


_hk = None


def headers_key():
    """content of everything a translation unit can include (names relative to the tree)"""
    global _hk
    if _hk is None:
        h = hashlib.sha256()
        for root in ("src", "include", "cmake/in"):
            for p in sorted(glob.glob(REPO + "/" + root + "/**/*", recursive=True)):
                if os.path.isfile(p) and not p.endswith(".cpp"):
                    h.update(p[len(REPO):].encode()); h.update(open(p, "rb").read())
        _hk = h.hexdigest()
    return _hk


def compile_units(cfg, units, extra=(), tag=""):
    """Compile units and link: path of linked bitcode."""
    inc = version_dir()
    flags = cfg.flags(inc) + list(extra)
    cache = os.path.join(BUILD, "cache")
    os.makedirs(cache, exist_ok=True)
    key = _h(_tree(), " ".join(flags), *[u + open(u).read() if not u.startswith(REPO) else u for u in units])
    out = os.path.join(cache, "%s%s-%s.bc" % (cfg.name, tag, key))
    if os.path.exists(out):
        return out
    prune_cache()
    tmp = tempfile.mkdtemp(prefix="bc", dir=BUILD)
    try:
        def one(i_u):
            i, u = i_u
            name = u[len(REPO):] if u.startswith(REPO + "/") else u
            o = os.path.join(cache, "u-%s.bc" % _h(headers_key(), " ".join(flags).replace(REPO + "/", "@/"), name, open(u).read()))
            if not os.path.exists(o):
                t = os.path.join(tmp, "%03d.bc" % i)
                run([CLANG] + flags + ["-emit-llvm", "-c", u, "-o", t])
                os.replace(t, o)
            return o
        with ThreadPoolExecutor(8) as ex:
            objs = list(ex.map(one, enumerate(units)))
        run(["llvm-link-18"] + objs + ["-o", out + ".%d" % os.getpid()])
        os.rename(out + ".%d" % os.getpid(), out)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return out


def bitcode(cfgname, probes=()):
    cfg = CONFIGS[cfgname]
    return compile_units(cfg, sources() + list(probes), tag="-" + _h(*probes)[:6] if probes else "")


def transform(bc, steps):
    """steps: list of ('opt', passes) / ('xform', [args]). Cached by input + steps."""
    key = _h(bc, json.dumps(steps), open(tool("irx"), "rb").read()[:0] or tool("irx"))
    out = os.path.join(BUILD, "cache", "t-%s.bc" % key)
    if os.path.exists(out):
        return out
    cur = bc
    tmps = []
    for k, s in enumerate(steps):
        nxt = out + ".%d.%d" % (os.getpid(), k)
        tmps.append(nxt)
        if s[0] == "opt":
            run(["opt-18", "-passes=" + s[1]] + list(s[2:]) + [cur, "-o", nxt])
        else:
            run([tool("irx"), "xform", cur, nxt] + list(s[1]))
        cur = nxt
    os.rename(cur, out)
    for t in tmps[:-1]:
        os.remove(t)
    return out


SSA = ("opt", "function(sroa,early-cse,simplifycfg)")


def slice_steps(roots, inc="", stop="", keep="", simplify="function(sroa,early-cse<memssa>,simplifycfg)"):
    """Keep the functions matching roots with every local/inline/inc function they call inlined into them; other
    definitions become opaque declarations."""
    return [("xform", ["--slice", roots + ";;" + inc + ";;" + stop + (";;" + keep if keep else "")]),
            ("opt", ",".join(["always-inline", simplify] * 3 + ["function(jump-threading)", simplify, "globaldce"]))]


def dump(bc):
    out = bc[:-3] + ".json"
    if not os.path.exists(out):
        t = out + ".%d" % os.getpid()
        run([tool("irx"), "dump", bc, t])
        os.rename(t, out)
    return out


if __name__ == "__main__":
    t = time.time()
    tool("irx")
    for c in sys.argv[1:]:
        p = dump(transform(bitcode(c), [SSA]))
        print(c, p, os.path.getsize(p), time.time() - t)
