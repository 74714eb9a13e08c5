"""Writes MANIFEST.json from the check modules that exist (run from /verif)."""
import json, os, ast
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "S": "bounded exhaustive state-space exploration of the real code against an independent reference model",
 "H": "explicit-state exploration of all operation histories up to a depth, on the real code, against a reference model",
 "R": "stateless model checking: exhaustive exploration of all random-generator answers over a finite alphabet, real code vs. reference model",
 "M": "metamorphic model checking: exhaustive enumeration of a bounded input space, related executions of the real code compared",
}
KIND = {"C01": "M", "C02": "M", "C09": "H", "C10": "H", "C11": "H", "C12": "R", "C13": "R", "C14": "R", "C15": "R", "C16": "R",
        "C17": "R", "C18": "R", "C19": "H", "C25": "R", "C28": "H"}
NA = {}
checks, na = [], []
for line in open(os.path.join(ROOT, "properties.jsonl")):
    i = json.loads(line)["id"]
    f = os.path.join(ROOT, "mc", "checks", i.lower() + ".py")
    if not os.path.exists(f) or i in NA:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
        continue
    bounds = next((" ".join(ast.literal_eval(n.value).split()) for n in ast.parse(open(f).read()).body
                   if isinstance(n, ast.Assign) and n.targets[0].id == "BOUNDS"), "")
    checks.append({"property": i, "quick_cmd": f"./check {i}", "thorough_cmd": f"./check {i} --thorough",
                   "evidence_file": f"evidence/{i}.json", "technique": T[KIND.get(i, "S")], "level": "model_checking",
                   "level_note": f"Exhaustive within: {bounds}. Executes /repo's working tree directly (no model-code gap); trusts the "
                                 "reference model in mc/ and says nothing about values outside the alphabet."})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
           "notes": "See DESIGN.md. ./check ID [--thorough] [--replay FILE]. known_findings.txt lists recorded defects and fixes."},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable")
