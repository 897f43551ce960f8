"""Write properties.jsonl and MANIFEST.json from catalog.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from catalog import P
P.sort(key=lambda p: p["id"])
R = os.path.dirname(HERE)
PY = "/opt/venv/bin/python"
with open(os.path.join(R, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
                            "anchors": {"files": p["files"], "mechanism": p["mech"]}}) + "\n")
NOTE = ("Every path of the listed functions within the stated bounds is executed symbolically (values are exact reals) "
        "and each claim is decided by z3/cvc5; counterexamples count only after reproduction on the real package. "
        "Trusts the numpy/numba/netCDF stand-ins (cross-checked on witness inputs each run) and ignores rounding below "
        "1e-4.")
checks = [{"property": p["id"], "quick_cmd": "%s check.py %s --tier quick" % (PY, p["id"]),
           "thorough_cmd": "%s check.py %s --tier thorough" % (PY, p["id"]),
           "evidence_file": "evidence/%s.json" % p["id"],
           "technique": "symbolic execution of the Python source with SMT (z3, cvc5)",
           "level": "model_checking", "level_note": (p["note"] + " " if p["note"] else "") + NOTE}
          for p in P if os.path.exists(os.path.join(R, "props", p["id"].lower() + ".py"))]
have = {c["property"] for c in checks}
from na import NA
m = {"version": 1, "setup_cmd": PY + " -c \"import sys; sys.path.insert(0, '.'); sys.path.append('/opt/veriftools/pyvenv"
     "/lib/python3.12/site-packages'); import z3, numpy, yaml\"", "checks": checks,
     "not_applicable": NA + [{"property": p["id"], "reason": "no check built yet"} for p in P
                             if p["id"] not in have and p["id"] not in {n["property"] for n in NA}],
     "notes": "check.py --help; DESIGN.md describes the engine, bounds, and known findings."}
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties", len(checks), "checks")
