"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from tools/props.py (single source)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE); sys.path.insert(0, os.path.join(HERE, "tools"))
from props import PROPS, NOT_APPLICABLE, EXTRA
from checks import CHECKS
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in PROPS + EXTRA:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
checks = []
for p in PROPS:
    i = p["id"]
    assert i in CHECKS, i
    checks.append({
        "property": i,
        "quick_cmd": "python3 -B check.py %s --tier quick" % i,
        "thorough_cmd": "python3 -B check.py %s --tier thorough" % i,
        "technique": p["technique"],
        "level": "exploration",
        "level_note": p["level_note"],
    })
assert set(CHECKS) == {p["id"] for p in PROPS}, set(CHECKS) ^ {p["id"] for p in PROPS}
m = {"version": 1, "setup_cmd": "python3 -B check.py --setup", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in NOT_APPLICABLE.items()]}
assert set(NOT_APPLICABLE) == {p["id"] for p in EXTRA}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
try:
    import jsonschema
    S = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for l in open(os.path.join(HERE, "properties.jsonl")): jsonschema.validate(json.loads(l), S)
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    print("schemas ok", len(PROPS), "claimed", len(EXTRA), "not applicable")
except ImportError:
    print("jsonschema missing")
