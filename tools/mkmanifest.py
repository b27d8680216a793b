"""writes MANIFEST.json; level and notes per property"""
import json
PROOF = json.load(open("/verif/tools/levels.json"))
checks = []
for i in range(1, 23):
    p = f"P{i:02d}"
    l = PROOF[p]
    checks.append({"property": p, "quick_cmd": f"./check.sh {p}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {p}", "evidence_file": f"evidence/{p}.json",
                   "technique": l["technique"], "level": l["level"], "level_note": l["note"]})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": [], "notes": "Contracts over /repo's source are discharged by the VC generator pyvc (z3, cvc5) on every run; the executable form of each contract is run on concrete inputs to replay a failed obligation. See DESIGN.md."}, open("/verif/MANIFEST.json", "w"), indent=1)
