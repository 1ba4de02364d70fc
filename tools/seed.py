#!/usr/bin/env python3
"""Plants and verifies a bug (development aid).

usage: seed.py DEFS.py [id...]     DEFS.py calls S(id, property, edits, pkg, test, needs, breaks[, extra files])

Writes /verif/seeded/<id>/ after confirming, in a scratch copy of /repo, that
the change compiles, passes the stable tests, and that the demonstration
passes without it and fails with it. Prints which checks report it.
"""
import json, os, shutil, subprocess, sys, tempfile
V = "/verif"
L = []
def S(id, prop, edits, pkg, test, needs, breaks, race=False, files={}): L.append((id, prop, edits, pkg, test, needs, breaks, race, files))
exec(open(sys.argv[1]).read())
want = sys.argv[2:]
DEMO = """#!/bin/bash
# %(what)s
# Exits 0 when the property holds, nonzero when it is broken.
here=$(cd "$(dirname "$0")" && pwd) || exit 2
repo=$PWD
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GO111MODULE=on
[ -d /opt/veriftools/go1.27.3 ] && export GOROOT=/opt/veriftools/go1.27.3 PATH="/opt/veriftools/go1.27.3/bin:$PATH"
tmp=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
export TMPDIR="$tmp"
printf '{"Replace": {"%%s/%(pkg)s/zz_demo_verif_test.go": "%%s/demo_test.go"}}' "$repo" "$here" > "$tmp/overlay.json"
%(pre)sgo test %(flags)s-overlay "$tmp/overlay.json" -vet=off -count=1 -timeout 120s -run '^TestDemo$' ./%(pkg)s
"""
STUB = """# traceapp and cmd/appdash need a package of static files that cannot be fetched: a stub stands in for it.
mkdir "$tmp/data" && cp "$here/data.go" "$tmp/data/data.go" && printf 'module sourcegraph.com/sourcegraph/appdash-data\\n\\ngo 1.21\\n' > "$tmp/data/go.mod"
cp go.sum "$tmp/x.sum" && cp go.mod "$tmp/x.mod" && go mod edit -replace sourcegraph.com/sourcegraph/appdash-data="$tmp/data" -require sourcegraph.com/sourcegraph/appdash-data@v0.0.0 "$tmp/x.mod" 2>/dev/null || exit 2
"""
env = dict(os.environ, HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", GOROOT="/opt/veriftools/go1.27.3", PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"])
stable = json.load(open("/opt/vp/BASELINE.json"))
stable = set(stable.get("stable") or stable.get("passed") or stable.get("tests"))
def sh(c, cwd, **k): return subprocess.run(c, shell=True, cwd=cwd, env=env, capture_output=True, text=True, **k)
bad = 0
for id, prop, edits, pkg, test, needs, breaks, race, files in L:
    if want and not any(w in id for w in want): continue
    d = tempfile.mkdtemp(prefix="seed")
    try:
        r = d + "/repo"
        subprocess.run(["cp", "-a", "/repo", r], check=True)
        for f, old, new in edits:
            s = open(r + "/" + f).read()
            if s.count(old) != 1: print(id, "EDIT MATCHES", s.count(old), "TIMES:", old[:70]); bad += 1; break
            open(r + "/" + f, "w").write(s.replace(old, new))
        else:
            o = d + "/out"; os.mkdir(o)
            diff = sh("git diff --no-color", r).stdout
            open(o + "/patch.diff", "w").write(diff)
            flags = "-race " if race else ""
            pre = ""
            if pkg.startswith("traceapp") or pkg.startswith("cmd/"):
                pre = STUB; flags += '-modfile "$tmp/x.mod" '
                shutil.copy(V + "/stubs/appdash-data/data.go", o + "/data.go")
            dem = DEMO % dict(what=breaks.replace("\n", " "), pkg=pkg, flags=flags, pre=pre)
            dem = dem.replace("/./", "/")
            open(o + "/demo.sh", "w").write(dem); os.chmod(o + "/demo.sh", 0o755)
            open(o + "/demo_test.go", "w").write(test)
            for k, v in files.items(): open(o + "/" + k, "w").write(v)
            json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(o + "/meta.json", "w"), indent=1)
            pk = sh("go list -mod=readonly -e -find ./... | grep -vE 'appdash/(traceapp|cmd/appdash|examples/cmd/webapp|examples/cmd/webapp-opentracing)$'", r).stdout.split()
            b = sh("go build " + " ".join(pk), r)
            if b.returncode: print(id, "DOES NOT BUILD", b.stderr[:500]); bad += 1; continue
            t = sh("go test -json -vet=off -count=1 -timeout 5m " + " ".join(pk) + " > %s/t.json; python3 /opt/vp/results.py %s/o.json gojson:%s/t.json" % (d, d, d), r)
            res = json.load(open(d + "/o.json"))
            ok = set(res.get("passed") or res.get("pass") or [])
            miss = [x for x in stable if x not in ok]
            if miss: print(id, "FAILS TESTS", miss[:4]); bad += 1; continue
            w = sh("bash %s/demo.sh" % o, r)
            if w.returncode == 0: print(id, "DEMO PASSES WITH THE BUG"); bad += 1; continue
            if "build failed" in w.stdout or "setup failed" in w.stdout: print(id, "DEMO DOES NOT BUILD", w.stdout[-1500:], w.stderr[-1500:]); bad += 1; continue
            sh("git checkout -- .", r)
            for i in range(2):
                c = sh("bash %s/demo.sh" % o, r)
                if c.returncode: break
            if c.returncode: print(id, "DEMO FAILS WITHOUT THE BUG", c.stdout[-1500:], c.stderr[-1500:]); bad += 1; continue
            sh("git apply %s/patch.diff" % o, r)
            k = sh("/tmp/ac -repo %s -check all" % r, r)
            got = [l.split(":")[0] for l in k.stdout.splitlines() if l[:1] == "C" and ": 0 violations" not in l]
            print(id, prop, "caught" if prop in got else "MISSED", got)
            if prop not in got: print("\n".join(l for l in w.stdout.splitlines() if "demo" in l)[:600])
            dst = V + "/seeded/" + id
            if os.path.isdir(dst): shutil.rmtree(dst)
            shutil.copytree(o, dst)
    finally:
        shutil.rmtree(d)
print("%d bad" % bad)
