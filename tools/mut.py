#!/usr/bin/env python3
"""Runs the checker on edited copies of /repo (development aid).

usage: mut.py CHECKER [name-substring...]

tools/mutants/*.py define M(name, "C04 C05" or "", (file, old, new)...): edits
that break the named properties, or (with "") that change no behaviour. Prints
the ones where the checker does not report what is expected. FILES=http limits
it to one file, IDS="C17 C18" to some checks, V=1 prints all.
"""
import glob, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
here = os.path.dirname(os.path.abspath(__file__))
L = []
def M(name, expect, *edits): L.append((name, expect.split(), edits))
for f in sorted(glob.glob(here + "/mutants/" + os.environ.get("FILES", "*") + ".py")): exec(open(f).read())
ac = sys.argv[1]
pats = sys.argv[2:]
env = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOMAXPROCS="2")
def one(m):
    name, expect, edits = m
    d = tempfile.mkdtemp(prefix="mut")
    try:
        subprocess.run(["cp", "-a", "/repo", d + "/r"], check=True)
        for f, old, new in edits:
            p = d + "/r/" + f
            s = open(p).read()
            if s.count(old) < 1: return "%s: EDIT DOES NOT APPLY: %r" % (name, old[:60])
            open(p, "w").write(s.replace(old, new, 1))
        r = subprocess.run([ac, "-repo", d + "/r", "-check", "all"] + os.environ.get("IDS", "").split(), capture_output=True, text=True, env=env)
        if "VIOLATION property=ALL" in r.stdout: return "%s: DOES NOT LOAD %s" % (name, r.stdout[:300])
        got = [l.split(":")[0] for l in r.stdout.splitlines() if l[:1] == "C" and ": 0 violations" not in l]
        det = "\n".join("      " + l.strip()[:230] for l in r.stdout.splitlines() if l.startswith("   "))
        if r.returncode not in (0, 1): return "%s: FAILED %s" % (name, r.stderr[-500:])
        miss = [e for e in expect if e not in got]
        if not expect and got: return "%s: FALSE ALARM %s\n%s" % (name, got, det)
        if miss: return "%s: MISSED by %s (got %s)\n%s" % (name, miss, got, det)
        if os.environ.get("V"): return "%s: ok %s\n%s" % (name, got, det)
        return None
    finally:
        shutil.rmtree(d)
sel = [m for m in L if not pats or any(p in m[0] for p in pats)]
bad = 0
with ThreadPoolExecutor(6) as ex:
    for res in ex.map(one, sel):
        if res:
            print(res, flush=True); bad += ": ok " not in res
print("%d edits, %d unexpected" % (len(sel), bad))
