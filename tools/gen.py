#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the property texts in tools/props_*.py."""
import glob, importlib, json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from common import PROPS, NOT_APPLICABLE
for f in sorted(glob.glob(here + "/props_*.py")):
    importlib.import_module(os.path.basename(f)[:-3])
root = os.path.dirname(here)
with open(root + "/properties.jsonl", "w") as out:
    for p in PROPS:
        out.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "hook_needed": None},
        }) + "\n")
checks = []
for p in PROPS:
    if not p["claimed"]:
        continue
    tech = p["technique"] or "stateless model checking of the real code: exhaustive bounded enumeration of inputs, programs and operation histories against an independent reference model"
    checks.append({
        "property": p["id"],
        "quick_cmd": "./check.sh %s quick" % p["id"],
        "thorough_cmd": "./check.sh %s thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": tech, "level": p["level"],
        "level_note": p["note"] + "; holds within the bounds listed in the evidence file; trusts the reference in /verif/harness, the Go toolchain and floating point tolerances stated there",
    })
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": NOT_APPLICABLE,
           "notes": "No hooks in /repo: the harness uses the exported API only and is injected with a build overlay. /repo carries fix: commits only (see known_findings.json)."},
          open(root + "/MANIFEST.json", "w"), indent=1)
