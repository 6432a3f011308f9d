"""writes MANIFEST.json from nfcheck.registry and the not-applicable table"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from nfcheck import registry
from nfcheck.notapplicable import NOT_APPLICABLE

props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 -m nfcheck.setup", "checks": [], "not_applicable": []}
for p in props:
    c = registry.CHECKS.get(p)
    if c:
        m["checks"].append({
            "property": p, "quick_cmd": "python3 -m nfcheck %s --tier quick" % p,
            "thorough_cmd": "python3 -m nfcheck %s --tier thorough" % p,
            "technique": c["technique"], "level": "other", "level_note": c["level_note"]})
    else:
        m["not_applicable"].append({"property": p, "reason": NOT_APPLICABLE.get(p, "no sound static check was built for this property")})
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks", len(m["not_applicable"]), "not applicable")
