#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per claimed property, the rest under not_applicable."""
import json, os, subprocess

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from claims import CLAIMS, NOT  # noqa: E402

props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMS:
        tech, level, note = CLAIMS[i]
        checks.append({
            "property": i,
            "quick_cmd": "./run.sh %s" % i,
            "thorough_cmd": "VERIF_TIER=thorough ./run.sh %s" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": tech,
            "level": level,
            "level_note": note,
        })
    else:
        na.append({"property": i, "reason": NOT.get(i, "no check has been built for it yet")})
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout
hooks = [l.split(" ", 1)[0] for l in log.splitlines() if l.split(" ", 1)[1].startswith("hook:")]
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "hooks": {
        "guard": "--cfg p2p_verif",
        "enable": "RUSTFLAGS='--cfg p2p_verif', set by run.sh when it builds the harness crates",
        "source_commits": hooks[::-1],
    },
    "checks": checks,
    "not_applicable": na,
    "notes": "run.sh ID builds the harness crate that decides ID against /repo's working tree and runs it; see DESIGN.md.",
}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
