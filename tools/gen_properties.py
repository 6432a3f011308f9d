"""Writes /verif/properties.jsonl (one JSON object per line)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
P = []
def p(id, title, statement, over, text, why, files, mech, state=None):
    a = {"files": files, "mechanism": mech}
    if state:
        a["state"] = state
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})
WF = ["src/weak_forms/" + n for n in (
    "degenerate_elliptic_weak_form.py", "l2_projector_weak_form.py",
    "laplace_dual_weak_form.py", "laplace_primal_weak_form.py",
    "lce_dual_weak_form.py", "lce_primal_weak_form.py", "lce_riesz_map_weak_form.py",
    "lce_scaled_dual_weak_form.py", "lce_scaled_riesz_map_weak_form.py",
    "le_dual_weak_form.py", "le_primal_stress_constraint_weak_form.py",
    "le_primal_weak_form.py", "le_riesz_map_weak_form.py",
    "le_taylor_hood_weak_form.py", "scaled_to_physical_l2_projection.py",
    "unscaled_elliptic_weak_form.py")]
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties_text.py")).read())
with open(OUT, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
