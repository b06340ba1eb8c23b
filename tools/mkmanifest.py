#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/props.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import props
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in props.PROPS:
        t, n = props.ABOUT[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py %s --quick" % i,
                       "thorough_cmd": "python3 check.py %s --thorough" % i,
                       "technique": t, "level": "model_checking", "level_note": n,
                       "evidence_file": "evidence/%s.json" % i})
    else:
        na.append({"property": i, "reason": props.NOT.get(i, "not claimed: its specification and conformance check are not built")})
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py",
           "hooks": {"guard": "verif", "enable": "no hooks are needed: every check drives the public API of the unmodified tree", "source_commits": []},
           "checks": checks, "not_applicable": na,
           "notes": "The specification is in spec/ (TLA+, checked with TLC); DESIGN.md describes it. known_findings.json lists the defects found."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
