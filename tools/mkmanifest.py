#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of implemented checks below."""
import json, os, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{root}/properties.jsonl")]
NOTES = json.load(open(f"{root}/tools/checks.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NOTES:
        checks.append({
            "property": i,
            "quick_cmd": f"VERIF_TIER=quick ./run.sh run {i}",
            "thorough_cmd": f"VERIF_TIER=thorough ./run.sh run {i}",
            "evidence_file": f"evidence/{i}.json",
            "technique": NOTES[i]["technique"],
            "level": "exploration",
            "level_note": NOTES[i]["note"],
        })
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {
    "version": 1,
    "setup_cmd": "./run.sh build",
    "hooks": {
        "guard": "rustc --cfg verif_hooks",
        "enable": "RUSTFLAGS=\"--cfg verif_hooks\" (set by run.sh when it builds harness/, which depends on /repo by path)",
        "source_commits": NOTES.get("_hook_commits", []),
    },
    "checks": checks,
    "not_applicable": na,
    "notes": "Property-based testing: generated cases against an independent protocol model; see DESIGN.md. Replay a violation with ./run.sh replay <file>.",
}
json.dump(m, open(f"{root}/MANIFEST.json", "w"), indent=1)
open(f"{root}/MANIFEST.json", "a").write("\n")
