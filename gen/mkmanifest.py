#!/usr/bin/env python3
"""Writes MANIFEST.json: every property with a props/<id> directory is claimed."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
conf = json.load(open(os.path.join(V, "checks.json")))
NA = json.load(open(os.path.join(V, "gen/na.json"))) if os.path.exists(os.path.join(V, "gen/na.json")) else {}
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if i in conf:
        c = conf[i]
        checks.append(dict(property=i, quick_cmd="./run.py " + i, thorough_cmd="VERIF_TIER=thorough ./run.py " + i,
                           evidence_file="evidence/%s.json" % i,
                           technique=c.get("technique", "property-based testing (rapid): generated inputs against an explicit oracle"),
                           level=c.get("level", "exploration"),
                           level_note=c.get("note", "Sampled search: no violation among the generated cases; see DESIGN.md for the oracle and the generator bounds.")))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no check built yet")))
json.dump(dict(version=1, setup_cmd="./setup.sh",
               hooks=dict(guard="verif", enable="no hooks in /repo are needed; checks build with go test -overlay (overlay/overlay.json)", source_commits=[]),
               checks=checks, not_applicable=na), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
