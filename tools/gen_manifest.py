"""writes MANIFEST.json from checks.py"""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import checks
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l)["id"] for l in open(ROOT + "/properties.jsonl")]
TECH = {"seq": "explicit-state model checking of the real allocator (exhaustive bounded operation sequences x random choices, reference model in lock step)"}
m = {"version": 1, "setup_cmd": "python3 hmc.py build", "checks": [], "not_applicable": []}
for p in props:
    if p not in checks.JOBS:
        m["not_applicable"].append({"property": p, "reason": checks.NA.get(p, "check not built yet")})
        continue
    md = checks.META[p]
    m["checks"].append({"property": p, "quick_cmd": "python3 hmc.py check %s --tier quick" % p, "thorough_cmd": "python3 hmc.py check %s --tier thorough" % p,
                        "evidence_file": "evidence/%s.json" % p, "technique": md.get("technique") or TECH["seq"], "level": md["level"], "level_note": md.get("note") or checks.NOTE})
m["notes"] = "No hooks in /repo: the seam is ld --wrap on system calls, mutexes and bounded random draws (see DESIGN.md)."
json.dump(m, open(ROOT + "/MANIFEST.json", "w"), indent=1)
