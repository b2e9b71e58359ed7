#!/usr/bin/env python3
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from registry import PROPS
TECH = {
    "lib": "runtime monitoring: generated workloads on the real library, online oracle",
    "gpl": "runtime monitoring: generated workloads on the real library (gpl), online oracle",
    "cli": "runtime monitoring of the real program: recorded outputs and exit status checked offline",
}
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for q in props:
    i = q["id"]
    if i not in PROPS:
        na.append({"property": i, "reason": "its check is still being built"})
        continue
    c = PROPS[i]
    tech = "; ".join(TECH[e] for e in c["engines"])
    if c.get("technique"):
        tech = c["technique"]
    checks.append({
        "property": i,
        "quick_cmd": "python3 check.py %s --tier quick" % i,
        "thorough_cmd": "python3 check.py %s --tier thorough" % i,
        "technique": tech,
        "level": c["level"],
        "level_note": "Held on every execution observed; " + " ".join(c["assumptions"]),
    })
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
     "hooks": {"guard": "cfg vmon_small_chunks", "enable": "RUSTFLAGS='--cfg vmon_small_chunks' when building the library's monitors (check.py build); the program is built without it",
               "source_commits": ["501a374"]},
     "notes": "The hook only lowers a constant, such that small graphs are built out of several chunks; everything is observed through the library's public interface and the program."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
