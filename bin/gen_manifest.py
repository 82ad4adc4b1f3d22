#!/usr/bin/env python3
"""Writes MANIFEST.json from units/PROPS.json."""
import json, os, subprocess
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
cfg = json.load(open(os.path.join(R, "units", "PROPS.json")))
props = [json.loads(l)["id"] for l in open(os.path.join(R, "properties.jsonl"))]
hooks = [l.split()[0] for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout.split("\n") if "verification hook" in l]
na = json.load(open(os.path.join(R, "units", "NA.json")))
checks, nap = [], []
for p in props:
    if p in cfg:
        c = cfg[p]
        checks.append(dict(property=p, quick_cmd="VERIF_TIER=quick bin/check " + p, thorough_cmd="VERIF_TIER=thorough bin/check " + p,
            evidence_file="evidence/%s.json" % p, technique=c.get("technique", "contract-based deductive verification (Verus) of the extracted source, with a bounded search on the real code for failing inputs"),
            level=c["level"], level_note=c["level_note"]))
    else:
        nap.append(dict(property=p, reason=na.get(p, "no contract within reach yet")))
m = dict(version=1, setup_cmd="bin/setup", hooks=dict(guard="cfg(bongo_verif)", enable="RUSTFLAGS='--cfg bongo_verif' (set by bin/check when it builds /verif/harness)", source_commits=hooks),
         checks=checks, not_applicable=nap, notes="See DESIGN.md. bin/check PROPERTY is the driver; units/*.rs hold the contracts; vex extracts /repo's code into them on every run.")
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed")
