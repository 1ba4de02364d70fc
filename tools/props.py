#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table.

usage: tools/props.py   (run in /verif; `checker -list` decides what is claimed)
"""
import json, os, subprocess, sys
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

P = []  # id, title, statement, over, text, why, files, mechanisms, technique, note
NA = {}

def prop(id, title, statement, over, text, why, files, mech, technique="", note=""):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()), over=over.split(), text=" ".join(text.split()),
                  why=" ".join(why.split()), files=files.split(), mech=mech, technique=technique, note=" ".join(note.split())))

def na(id, reason):
    NA[id] = " ".join(reason.split())

exec(open("tools/table.py").read())

with open("properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
        }) + "\n")

try:
    built = set(subprocess.run(["bin/appdashcheck", "-list"], capture_output=True, text=True, check=True).stdout.split())
except Exception as e:
    sys.exit("build bin/appdashcheck first: %s" % e)

m = {"version": 1, "setup_cmd": "./run.sh build", "checks": [], "not_applicable": []}
for p in P:
    if p["id"] in NA:
        m["not_applicable"].append({"property": p["id"], "reason": NA[p["id"]]})
    elif p["id"] in built:
        m["checks"].append({
            "property": p["id"],
            "quick_cmd": "./run.sh %s quick" % p["id"],
            "thorough_cmd": "./run.sh %s thorough" % p["id"],
            "technique": p["technique"],
            "level": "other",
            "level_note": p["note"],
        })
    else:
        m["not_applicable"].append({"property": p["id"], "reason": "the static check for this property is not built yet"})
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
print("%d properties, %d claimed, %d not applicable" % (len(P), len(m["checks"]), len(m["not_applicable"])))
