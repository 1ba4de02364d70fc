#!/usr/bin/env python3
"""Runs the checker on /repo with each planted bug; records which checks report it in tools/caught.json.
usage: seeded.py CHECKER [id...]"""
import glob, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
ac, want = sys.argv[1], sys.argv[2:]
env = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOMAXPROCS="2")
try: caught = json.load(open("tools/caught.json"))
except FileNotFoundError: caught = {}
def one(d):
    t = tempfile.mkdtemp(prefix="seeded")
    try:
        subprocess.run(["cp", "-a", "/repo", t + "/r"], check=True)
        a = subprocess.run(["git", "apply", os.path.abspath(d + "/patch.diff")], cwd=t + "/r", capture_output=True, text=True)
        if a.returncode: return d, None, a.stderr
        r = subprocess.run([ac, "-repo", t + "/r", "-check", "all"], capture_output=True, text=True, env=env)
        return d, [l.split(":")[0] for l in r.stdout.splitlines() if l[:1] == "C" and ": 0 violations" not in l], r.stdout
    finally: shutil.rmtree(t)
ds = [d for d in sorted(glob.glob("seeded/*")) if not want or any(w in d for w in want)]
with ThreadPoolExecutor(6) as ex:
    for d, got, out in ex.map(one, ds):
        k = d.split("/")[1]; p = json.load(open(d + "/meta.json"))["property"]
        if got is None: print(k, "DOES NOT APPLY", out); continue
        caught[k] = got
        if p not in got: print(k, p, "MISSED", got)
for k in list(caught):
    if not os.path.isdir("seeded/" + k): del caught[k]
json.dump(caught, open("tools/caught.json", "w"), indent=1, sort_keys=True)
print(len(ds), "planted bugs")
