#!/usr/bin/env python3
"""Writes DESIGN.md from design_head.md, the checks' own rules, table.py's reasons, design_notes.md, known-findings.txt and seeded/."""
import json, os, subprocess, glob
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
P, NA = {}, {}
def prop(id, title, statement, over, text, why, files, mech, technique="", note=""): P[id] = dict(title=title, technique=technique, note=" ".join(note.split()), why=why, text=text)
def na(id, reason): NA[id] = " ".join(reason.split())
exec(open("tools/table.py").read())
doc = json.loads(subprocess.run(["bin/appdashcheck", "-doc"], capture_output=True, text=True, check=True).stdout)
o = [open("tools/design_head.md").read()]
o.append("## Per property\n\nEach claimed property is decided for all inputs, schedules and faults within the abstraction above, in a few seconds.\n")
for id in sorted(P):
    if id in NA: continue
    p = P[id]
    o.append("### %s %s\n" % (id, p["title"]))
    if id not in doc:
        o.append("Not built yet.\n"); continue
    o.append("*Technique*: %s. *Quantifies over*: %s. *Beyond tests*: %s\n" % (p["technique"], p["text"], p["why"]))
    o.append("*Rule*: %s.\n" % doc[id][0].rstrip("."))
    if doc[id][1]: o.append("*Not covered*: %s.\n" % doc[id][1])
o.append("## Not applicable\n")
for id in sorted(NA): o.append("- **%s** %s: %s" % (id, P[id]["title"], NA[id]))
o.append("")
o.append(open("tools/design_notes.md").read())
o.append("## Planted bugs\n\nEach lies in `seeded/<id>/` with its demonstration. Caught by: the checks that report it (`tools/seed.py` and `tools/seeded.py` confirm it).\n\n| bug | property | what it breaks | needs | caught by |\n|---|---|---|---|---|")
try: caught = json.load(open("tools/caught.json"))
except FileNotFoundError: caught = {}
for d in sorted(glob.glob("seeded/*/meta.json")):
    m = json.load(open(d)); k = d.split("/")[1]
    o.append("| %s | %s | %s | %s | %s |" % (k, m["property"], m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/"), " ".join(caught.get(k, [])) or "none"))
o.append("")
o.append("## Edits used as self-test\n\n`tools/mutants/*.py` hold further edits, bugs and behaviour-preserving refactorings (expected to be quiet); `tools/mut.py` runs all of them.\n")
open("DESIGN.md", "w").write("\n".join(o))
