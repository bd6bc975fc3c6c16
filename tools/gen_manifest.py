#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py."""
import json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from checks import CHECKS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl")) if l.strip()]
try:
    from checks import NOT_APPLICABLE, NOTES, SOURCE_COMMITS
except ImportError:
    NOT_APPLICABLE, NOTES, SOURCE_COMMITS = [], "", []
m = {
    "version": 1,
    "setup_cmd": "python3 tools/setup.py",
    "hooks": {"guard": "RUY_VERIF", "enable": "no hooks are compiled into the sources; nothing to enable",
              "source_commits": SOURCE_COMMITS},
    "checks": [],
    "not_applicable": NOT_APPLICABLE,
    "notes": NOTES,
}
for pid in props:
    if pid not in CHECKS:
        continue
    c = CHECKS[pid]
    m["checks"].append({
        "property": pid,
        "quick_cmd": "python3 tools/check.py %s quick" % pid,
        "thorough_cmd": "python3 tools/check.py %s thorough" % pid,
        "evidence_file": "evidence/%s.json" % pid,
        "technique": c["technique"],
        "level": c["level"],
        "level_note": c["note"],
    })
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks")
