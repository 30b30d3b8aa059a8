import json
from props import PROPS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open("/verif/properties.jsonl") if l.strip()]
m = {"version": 1, "setup_cmd": "python3 setup.py",
     "checks": [{"property": p, "quick_cmd": "python3 check.py " + p, "thorough_cmd": "env VERIF_TIER=thorough python3 check.py " + p, "technique": PROPS[p]["technique"],
                 "level": PROPS[p]["level"], "level_note": PROPS[p]["note"]} for p in ids if p in PROPS],
     "not_applicable": [{"property": p, "reason": NOT_APPLICABLE.get(p, "check under construction")} for p in ids if p not in PROPS],
     "notes": "Known and fixed findings: known_findings.txt. No hooks in /repo."}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
open("/verif/MANIFEST.json", "a").write("\n")
