#!/usr/bin/env python3
"""Refresh the generated tables of DESIGN.md (defects and planted bugs)."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
path = os.path.join(V, "DESIGN.md")
text = open(path).read()
lines = open(os.path.join(V, "known_findings.txt")).read().splitlines()
fixes = ["Repaired in /repo (`fix:` commits), found by the named check:", ""]
for l in lines:
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if m: fixes.append("* %s `%s` %s" % m.groups())
fixes += ["", "Recorded, not repaired:", ""]
for l in lines:
    m = re.match(r"KNOWN-FINDING: property=(\S+) (.*)", l)
    if m: fixes.append("* %s %s" % m.groups())
notes = {}
np = os.path.join(V, "tools/seed_notes.txt")
if os.path.exists(np):
    for l in open(np):
        k, _, v = l.strip().partition(" ")
        notes[k] = v
seeds = ["| bug | property | needs | breaks | caught by |", "|---|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(V, "seeded/*/meta.json"))):
    sid = f.split("/")[-2]; d = json.load(open(f))
    seeds.append("| %s | %s | %s | %s | %s |" % (sid, d["property"], d["needs"], d["what_it_breaks"], notes.get(sid, d["property"])))
def put(t, tag, body):
    block = "<!-- %s -->\n%s\n<!-- end %s -->" % (tag, "\n".join(body), tag)
    if "@%s@" % tag in t: return t.replace("@%s@" % tag, block)
    return re.sub("<!-- %s -->.*?<!-- end %s -->" % (tag, tag), lambda m: block, t, flags=re.S)
text = put(text, "FIXES", fixes); text = put(text, "SEEDS", seeds)
open(path, "w").write(text)
