#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table, so they stay in step."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "deterministic simulation with fault injection (seeded schedule and fault search on a simulated Go runtime)"
P = []
def prop(id, title, statement, over, text, why, files, mech, note, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
        why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
        observe_at=observe or [], hook_needed=None), note=note))
NA = []
def na(id, title, statement, why, files, reason):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=["inputs"], text="all input values"),
        why_tests_cant=why, anchors=dict(files=files, mechanism=[], hook_needed=None)))
    NA.append(dict(property=id, reason=reason))

exec(open(os.path.join(ROOT, "tools", "props.py")).read())

C = {}
exec(open(os.path.join(ROOT, "tools", "confs.py")).read())
json.dump(C, open(os.path.join(ROOT, "checks.json"), "w"), indent=1)
open(os.path.join(ROOT, "checks.json"), "a").write("\n")
checks = C
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        q = {k: v for k, v in p.items() if k != "note"}
        f.write(json.dumps(q, ensure_ascii=False) + "\n")
nad = {x["property"] for x in NA}
man = dict(version=1, setup_cmd="./vsim build", hooks=dict(guard="none", enable="no hooks in /repo: the checks instrument a copy of its source at build time (go build -overlay)", source_commits=[]), checks=[], not_applicable=list(NA),
    notes="Every check runs the code of /repo's working tree on a simulated Go runtime (see DESIGN.md). Replay: ./vsim replay FILE. Determinism proof: ./vsim determinism.")
for p in P:
    if p["id"] in nad: continue
    if p["id"] not in checks:
        man["not_applicable"].append(dict(property=p["id"], reason="check under construction")); continue
    man["checks"].append(dict(property=p["id"], quick_cmd="./vsim check " + p["id"], thorough_cmd="VERIF_TIER=thorough ./vsim check " + p["id"],
        evidence_file="evidence/%s.json" % p["id"], technique=TECH, level=checks[p["id"]].get("level", "exploration"), level_note=p["note"]))
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
print(len(P), "properties,", len(man["checks"]), "checks,", len(man["not_applicable"]), "not applicable")
