#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run after editing it)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
NA = []


def prop(pid, title, statement, over, qtext, why, files, mech, observe=(), na=None, technique=None, note=""):
    files = [f.strip() for f in files.split()]
    assert len(title) <= 80, title
    PROPS.append({
        "id": pid, "title": title, "statement": " ".join(statement.split()),
        "quantifier": {"over": over.split(), "text": " ".join(qtext.split())},
        "why_tests_cant": " ".join(why.split()),
        "anchors": {"files": files,
                    "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "observe_at": list(observe)},
    })
    if na:
        NA.append({"property": pid, "reason": " ".join(na.split())})
    else:
        CLAIMED[pid] = (technique or "interprocedural path-partitioned dataflow over MIR (typestate and must-pass rules)", note)


CLAIMED = {}
EX = "core/executor/src/"
exec(open(os.path.join(V, "tools", "props.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps(p) + "\n")

NOTE = ("Every path of the analysed functions is covered over-approximately (all inputs, all branches, loops by fixpoint); "
        "facts about library code come from the models in stubs/ and mirlint/core.py. ")
man = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": [
        {"property": p["id"], "quick_cmd": "./check.sh %s quick" % p["id"], "thorough_cmd": "./check.sh %s thorough" % p["id"],
         "evidence_file": "evidence/%s.json" % p["id"],
         "technique": "static analysis: " + CLAIMED[p["id"]][0], "level": "other",
         "level_note": (NOTE + CLAIMED[p["id"]][1]).strip()}
        for p in PROPS if p["id"] in CLAIMED],
    "not_applicable": NA,
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(PROPS), "properties", len(CLAIMED), "claimed", len(NA), "not applicable")
