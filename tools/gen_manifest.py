"""Regenerates MANIFEST.json from the check modules present."""
import ast
import json
import os

R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(R + "/properties.jsonl") if l.strip()]
checks, na = [], []
for p in props:
    pid = p["id"]
    f = "%s/checks/%s.py" % (R, pid.lower())
    if not os.path.exists(f):
        na.append(dict(property=pid, reason="check not built yet"))
        continue
    vals = {}
    for node in ast.parse(open(f).read()).body:
        if isinstance(node, ast.Assign) and getattr(node.targets[0], "id", "") in ("TECHNIQUE", "LEVEL_NOTE"):
            vals[node.targets[0].id] = ast.literal_eval(node.value)
    checks.append(
        dict(
            property=pid,
            quick_cmd="./check %s --tier quick" % pid,
            thorough_cmd="./check %s --tier thorough" % pid,
            technique=vals["TECHNIQUE"],
            level="model_checking",
            level_note=vals.get("LEVEL_NOTE", "bounded-exhaustive on the real code; bounds and counts in evidence/%s.json" % pid),
        )
    )
m = dict(
    version=1,
    setup_cmd="./setup.sh",
    hooks=dict(guard="NIDN_MC", enable="none needed: the library is driven through its public interface", source_commits=[]),
    checks=checks,
    not_applicable=na,
    notes="All checks import the library from /repo's working tree; nothing is built. See DESIGN.md.",
)
json.dump(m, open(R + "/MANIFEST.json", "w"), indent=1)
open(R + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks")
