"""writes MANIFEST.json from properties.jsonl"""
import json
H = "/verif"
TECH = "contract-based deductive verification: Verus (Z3) discharges every obligation of the functions cut from /repo's current source with their contracts; a bounded concrete search looks for a failing input beside it"
NOTE = {
 "P20": "capacity(): proved contract; existence for exactly 1..=255: read off the impls of the sealed trait on every run; sizes and alignment: evaluated by the compiler for all 255 instances on every run (complete, finite), because size_of is outside the contracts' reach",
}
LEVEL = {}
NA = {}
checks, na = [], []
for l in open(f"{H}/properties.jsonl"):
    p = json.loads(l)["id"]
    if p in NA:
        na.append({"property": p, "reason": NA[p]})
        continue
    checks.append({"property": p, "quick_cmd": f"python3 /verif/check.py {p} --tier quick", "thorough_cmd": f"python3 /verif/check.py {p} --tier thorough",
                   "technique": TECH, "level": LEVEL.get(p, "proof"), "level_note": NOTE.get(p, "every obligation of the functions the property rests on, for all inputs and all capacities; trusted: the assumed std contracts listed in the evidence; a function that cannot be brought before the verifier in a changed tree is left to the bounded search and reported as undecided")})
json.dump({"version": 1, "setup_cmd": "python3 /verif/tools/harnesses.py build", "checks": checks, "not_applicable": na}, open(f"{H}/MANIFEST.json", "w"), indent=1)
