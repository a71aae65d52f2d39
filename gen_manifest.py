"""Writes MANIFEST.json from plan.json."""
import json
plan = json.load(open("plan.json"))
ids = [json.loads(l)["id"] for l in open("properties.jsonl")]
NA = json.load(open("not_applicable.json"))
checks = []
for p in ids:
    if p not in plan:
        continue
    e = plan[p]
    checks.append(dict(
        property=p, quick_cmd=f"python3-vt check.py {p} --tier quick", thorough_cmd=f"python3-vt check.py {p} --tier thorough",
        technique=e.get("technique", "contract-based deductive verification of extracted code, with runtime contracts as bounded stand-in"),
        level=e["level"], level_note=e.get("note", "")))
na = [dict(property=p, reason=NA.get(p, "no check has been built yet")) for p in ids if p not in plan]
json.dump(dict(version=1, setup_cmd="python3-vt -c 'import z3, cvc5, jsonschema'", checks=checks, not_applicable=na,
               notes="Every check extracts and builds from /repo's current tree on its own; see DESIGN.md."), open("MANIFEST.json", "w"), indent=1)
