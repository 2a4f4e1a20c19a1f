#!/usr/bin/env python3
"""Writes MANIFEST.json for the checks that exist."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import run
notes = json.load(open(os.path.join(V, "tools", "levels.json")))
checks, na = [], []
for ln in open(os.path.join(V, "properties.jsonl")):
    pid = json.loads(ln)["id"]
    try:
        run.find(pid)
    except run.CheckError:
        na.append({"property": pid, "reason": "the specification of this part is not written yet"})
        continue
    n = notes.get(pid, {})
    checks.append({
        "property": pid,
        "quick_cmd": "python3 run.py %s" % pid,
        "thorough_cmd": "python3 run.py %s --tier thorough" % pid,
        "technique": n.get("technique", "TLA+ specification checked with TLC; recorded executions of the real code validated against it"),
        "level": "model_checking",
        "level_note": n.get("note", "TLC explores the specification exhaustively within small bounds; the code is bound to it by "
                            "validating seeded and TLC-generated executions of the real headers, event by event. Trusts the "
                            "drivers in harness/, the TLA+ definitions as the meaning of the property, TLC and g++."),
    })
m = {"version": 1,
     "setup_cmd": "python3 tools/setup.py",
     "hooks": {"guard": "none", "enable": "no hooks: the checks build drivers of their own from /repo/include", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "run.py <ID> builds the drivers from /repo, replays histories into them and validates what they do against spec/. See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
