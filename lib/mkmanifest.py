"""Writes /verif/MANIFEST.json from the registered checks."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from checks import CHECKS
import mkprops
ids = [p["id"] for p in mkprops.P]
NA = {}
d = {"version": 1, "setup_cmd": "bash setup.sh",
     "checks": [{"property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "python3 check.py %s --thorough" % i,
                 "technique": "TLA+ specification checked with TLC; implementation traces (spec-generated paths, seeded histories, faults) validated by TLC against it",
                 "level": "model_checking",
                 "level_note": CHECKS[i].spec["explanation"] + " Trust: TLC, the C driver's observations, gcc/ASan; the implementation side is exhaustive only over the histories replayed." } for i in ids if i in CHECKS],
     "not_applicable": [{"property": i, "reason": NA.get(i, "no check built yet")} for i in ids if i not in CHECKS],
     "notes": "Language: TLA+ with TLC. Every check rebuilds the code from /repo's working tree in a scratch directory. No hooks in /repo."}
json.dump(d, open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "MANIFEST.json"), "w"), indent=1)
