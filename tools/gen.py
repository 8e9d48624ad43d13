#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in this file.

A property is claimed in MANIFEST.json when its harness props/<ID>.cpp exists.
"""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H = "include/common_robotics_utilities/"
S = "src/common_robotics_utilities/"

P = []


def prop(pid, title, statement, over, quant, why, files, mech, technique,
         note, observe=None, state=None):
    P.append(dict(pid=pid, title=title, statement=statement, over=over,
                  quant=quant, why=why, files=files, mech=mech,
                  technique=technique, note=note, observe=observe,
                  state=state))


exec(open(os.path.join(VERIF, "tools", "properties.inc.py"),
          encoding="utf-8").read())

with open(os.path.join(VERIF, "properties.jsonl"), "w", encoding="utf-8") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["pid"]
        anchors = {"files": p["files"],
                   "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                   "hook_needed": None}
        if p["observe"]:
            anchors["observe_at"] = p["observe"]
        if p["state"]:
            anchors["state"] = [dict(zip(("name", "meaning", "where"), s))
                                for s in p["state"]]
        f.write(json.dumps({
            "id": p["pid"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"], "anchors": anchors}) + "\n")

checks = []
missing = []
for p in P:
    if os.path.exists(os.path.join(VERIF, "props", p["pid"] + ".cpp")):
        checks.append({
            "property": p["pid"],
            "quick_cmd": "./run_check.py %s --tier quick" % p["pid"],
            "thorough_cmd": "./run_check.py %s --tier thorough" % p["pid"],
            "evidence_file": "evidence/%s.json" % p["pid"],
            "technique": "property-based testing: " + p["technique"],
            "level": "exploration",
            "level_note": p["note"]})
    else:
        missing.append({"property": p["pid"],
                        "reason": "check not built yet"})
doc = {"version": 1, "setup_cmd": "./tools/setup.sh", "checks": checks,
       "not_applicable": missing,
       "notes": "Every check compiles its harness (props/<ID>.cpp and the "
                "engine in pbt/) against /repo's current working tree, runs "
                "it under several build flavours, and writes "
                "evidence/<ID>.json. ./run_check.py <ID> --replay FILE "
                "re-runs a saved failing case. No hooks are needed in /repo."}
with open(os.path.join(VERIF, "MANIFEST.json"), "w", encoding="utf-8") as f:
    json.dump(doc, f, indent=1)
    f.write("\n")
print(len(checks), "claimed,", len(missing), "not claimed")
