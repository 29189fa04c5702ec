#!/usr/bin/env python3
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
from checkdefs import CHECKS
ids = [json.loads(l)["id"] for l in open(here + "/properties.jsonl")]
NA = {}
m = {"version": 1, "setup_cmd": "python3 setup.py",
     "checks": [{"property": i, "quick_cmd": "python3 run.py %s quick" % i, "thorough_cmd": "python3 run.py %s thorough" % i,
                 "technique": CHECKS[i]["technique"], "level": CHECKS[i]["level"],
                 "level_note": CHECKS[i]["note"] or "exhaustive within the bounds stated in the evidence"} for i in ids if i in CHECKS],
     "not_applicable": [{"property": i, "reason": NA.get(i, "the check for this property is not built yet")} for i in ids if i not in CHECKS],
     "notes": "No hooks in /repo: the harnesses link /repo's sources as they are and use linker wrapping for fault injection and scheduling. Commits in /repo are fixes only (known_findings.txt)."}
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
