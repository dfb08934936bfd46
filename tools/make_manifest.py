#!/usr/bin/env python3
"""Regenerates MANIFEST.json: a check for every property that has a module under lib/props, the rest not claimed."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE); sys.path.insert(0, os.path.join(ROOT, "lib"))
import make_properties as mp
import fw
checks = []; na = list(mp.NA)
for p in mp.P:
    i = p["id"]
    if os.path.exists(os.path.join(ROOT, "lib/props", i + ".py")):
        pr = fw.load(i)
        checks.append({"property": i, "quick_cmd": "./check %s quick" % i, "thorough_cmd": "./check %s thorough" % i, "evidence_file": "evidence/%s.json" % i,
            "technique": "deterministic simulation with fault injection: " + (pr.technique or "seeded schedules and faults, checked against a reference model"),
            "level": "exploration",
            "level_note": pr.level_note or "Seeded search: every listed operation is compared with an executable model over %d generated executions per quick run; a clean run is evidence, not proof. Trusts the simulated operating system (sim/) to behave like Linux and AddressSanitizer to notice invalid accesses." % pr.quick})
    elif not any(n["property"] == i for n in mp.NA):
        na.append({"property": i, "reason": "not claimed yet: the check is still being built"})
json.dump({"version": 1, "setup_cmd": "python3 sim/build.py /repo", "checks": checks, "not_applicable": na,
  "hooks": {"guard": "none", "enable": "no hooks in /repo are needed: the checks compile /repo's sources unchanged and redirect their external symbols with objcopy; the collector's existing threshold field is the seam for collections", "source_commits": []},
  "notes": "./check ID [quick|thorough]; python3 lib/replay.py FILE [-v] re-runs a replay file."}, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
