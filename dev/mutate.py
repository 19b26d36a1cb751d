#!/usr/bin/env python3
"""Development aid (not used by any check): apply small source edits to a scratch copy of /repo and see which checks report.
   mutate.py [-k substr] [-p PROP]       edits come from dev/mutants.py: M(prop|'quiet', name, file, old, new, checks=None)"""
import sys, os, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
muts = []


def M(prop, name, *edits, checks=None):
    muts.append((prop, name, [edits[i:i + 3] for i in range(0, len(edits), 3)], checks or prop))


exec(open(os.path.join(HERE, "mutants.py")).read())
k = sys.argv[sys.argv.index("-k") + 1] if "-k" in sys.argv else ""
p = sys.argv[sys.argv.index("-p") + 1] if "-p" in sys.argv else ""
verbose = "-v" in sys.argv


def one(m):
    prop, name, edits, checks = m
    d = tempfile.mkdtemp(prefix="mut", dir="/tmp")
    try:
        for s in ("src", "include", "cmake"):
            shutil.copytree("/repo/" + s, d + "/" + s)
        for f, old, new in edits:
            t = open(d + "/" + f).read()
            if old not in t:
                return name, "EDIT-FAILED " + f + ": " + old[:60], ""
            open(d + "/" + f, "w").write(t.replace(old, new, 1))
        res, outs = [], ""
        for chk in checks.split(","):
            r = subprocess.run([sys.executable, V + "/check.py", chk, "quick"], capture_output=True, text=True,
                               env=dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=d))
            res.append("%s=%d" % (chk, r.returncode))
            outs += r.stdout + r.stderr
        return "%s/%s" % (prop, name), " ".join(res), outs
    finally:
        shutil.rmtree(d)


sel = [m for m in muts if k in m[1] and (not p or p in m[0] or p in m[3])]
with ThreadPoolExecutor(3) as ex:
    for n, r, o in ex.map(one, sel):
        want = "=0" if n.startswith("quiet") else "=1"
        ok = want in r if want == "=1" else all(x.endswith("=0") for x in r.split())
        print("%-4s %s  %s" % ("ok" if ok else "BAD", n, r))
        if not ok or verbose:
            print("\n".join("      " + l[:240] for l in o.splitlines()[:25]))
        sys.stdout.flush()
