#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the registry."""
import json, sys
sys.path.insert(0, "/verif")
from vf.registry import REG, NA
props = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
checks = []
for p in props:
    if p in REG:
        checks.append({"property": p, "quick_cmd": "./check %s quick" % p, "thorough_cmd": "./check %s thorough" % p,
                       "technique": "TLA+ specification checked with TLC; model-generated behaviours replayed into the real code and its recorded traces validated by TLC against the specification",
                       "level": "model_checking",
                       "level_note": "Design: exhaustive for the bounded model. Code: every recorded trace of the explored behaviours and schedules is judged by the specification; behaviours beyond the bounds and schedules not sampled are not covered. Trusts TLC, the Go toolchain, and the harness's in-memory network, virtual clock and event recording."})
na = [{"property": p, "reason": NA.get(p, "check not built yet")} for p in props if p not in REG]
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the harness instruments copies of the sources through a build overlay. Commits in /repo are repairs only."},
          open("/verif/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
