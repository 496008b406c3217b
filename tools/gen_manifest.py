#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from props.py; a property is claimed when its check exists."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from props import P
NA = json.load(open(V + "/tools/not_applicable.json")) if os.path.exists(V + "/tools/not_applicable.json") else []
checks, rows, na = [], [], list(NA)
for q in sorted(P, key=lambda q: q["id"]):
    assert len(q["title"]) <= 80, q["id"]
    rows.append(dict(id=q["id"], title=q["title"], statement=q["statement"], quantifier=dict(over=q["over"], text=q["text"]),
                     why_tests_cant=q["why"], anchors=dict(files=q["files"], mechanism=[dict(name=a, where=b) for a, b in q["mech"]],
                                                           observe_at=q["observe"], hook_needed=q["hook"])))
    for f in q["files"]:
        if not os.path.exists("/repo/" + f):
            print("missing anchor", q["id"], f)
    pid = q["id"]
    if os.path.exists("%s/checks/%s.py" % (V, pid.lower())):
        checks.append(dict(property=pid, quick_cmd="python3-vt /verif/check.py %s quick" % pid, thorough_cmd="python3-vt /verif/check.py %s thorough" % pid,
                           evidence_file="/verif/evidence/%s.json" % pid, technique="runtime monitoring and sanitizers: " + (q["note"] or "oracle over recorded traces"),
                           level=q["level"], level_note=q["note"]))
    else:
        na.append(dict(property=pid, reason="no check built yet"))
with open(V + "/properties.jsonl", "w") as f:
    for r in rows:
        f.write(json.dumps(r) + "\n")
m = dict(version=1, setup_cmd="python3-vt /verif/check.py --setup",
         hooks=dict(guard="none", enable="the checks compile /repo's sources as they are; no hooks are needed", source_commits=[]),
         checks=checks, not_applicable=na,
         notes="Every check builds /repo's working tree into /verif/build (content-hashed), runs harness programs that call the library's API and record traces, and judges the traces with independent oracles. Genuine defects repaired by fix: commits and known findings are in known_findings.json.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", [x["property"] for x in na], "not")
import jsonschema
for f, s in (("MANIFEST.json", "MANIFEST"),):
    jsonschema.validate(json.load(open(V + "/" + f)), json.load(open("/root/.vp/%s.schema.json" % s)))
for r in rows:
    jsonschema.validate(r, json.load(open("/root/.vp/PROPERTIES.schema.json")))
