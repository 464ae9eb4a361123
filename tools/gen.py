#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in props.py."""
import json, os, subprocess, sys
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(H)
sys.path.insert(0, H)
from props import PROPS, NOT_APPLICABLE
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "state": [{"name": n, "meaning": m, "where": w} for n, m, w in p.get("state", [])],
                        "observe_at": p.get("observe", []), "hook_needed": None}}) + "\n")
na = {x[0] for x in NOT_APPLICABLE}
man = {"version": 1, "setup_cmd": "python3 tools/setup.py",
 "hooks": {"guard": "none", "enable": "no hooks are committed in /repo: the checks compile /repo's working tree with a Go build overlay that adds their harness as internal/zzverif/<id> and, where a check explores schedules, replaces sync, sync/atomic, goroutine starts, channels, tickers and sleeps of the packages under test with controlled ones at build time (run.py, lib/cmd/instr)", "source_commits": []},
 "checks": [{"property": p["id"], "quick_cmd": "python3 run.py %s quick" % p["id"], "thorough_cmd": "python3 run.py %s thorough" % p["id"],
    "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": p["level"], "level_note": p["note"]}
    for p in PROPS if p["id"] not in na],
 "not_applicable": [{"property": i, "reason": r} for i, r in NOT_APPLICABLE],
 "notes": "Design, bounds, assumptions, planted changes and findings: DESIGN.md. Known and repaired defects: known_findings.json."}
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(PROPS), "properties,", len(man["checks"]), "claimed")
