#!/usr/bin/env python3
"""writes MANIFEST.json from the rule registry and properties.jsonl"""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
from dgcheck.rules import RULES
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
NA = {
    "N01": "Fairness and termination of waiting are liveness over unbounded schedules of other "
           "processes (spin loop with sleeps); no dataflow or typestate argument bounds them.",
    "N02": "What survives a hard kill depends on the operating system and on "
           "multiprocessing's resource tracker process, outside this code base's source.",
    "N03": "Whether floating-point window edges round so that no row is lost is a numerical "
           "question about np.linspace on runtime values; M01 decides the structural part "
           "(one inclusive, one exclusive bound, shared edges, conservative skipping).",
}
TECH = json.load(open(os.path.join(here, "tools", "techniques.json")))
checks = []
for p in props:
    if p["id"] in RULES:
        checks.append({
            "property": p["id"],
            "quick_cmd": f"python3 -m dgcheck {p['id']}",
            "thorough_cmd": f"python3 -m dgcheck {p['id']} --thorough",
            "technique": TECH.get(p["id"], "path-sensitive abstract interpretation of the "
                                  "syntax tree (value flow and effects)"),
            "level": "other",
            "level_note": RULES[p["id"]][1] + " Decided on every abstract path of the current "
            "source; a construct outside the analysed language is reported as undecided in the "
            "output and evidence, never as held or violated.",
        })
na = [{"property": p["id"], "reason": NA.get(p["id"], "check not built yet")}
      for p in props if p["id"] not in RULES]
json.dump({"version": 1, "setup_cmd": "python3 -m dgcheck --selftest", "checks": checks,
           "not_applicable": na}, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
