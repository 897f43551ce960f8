"""mkseed.py: write seeded/<id> from a spec module (list SEEDS of dicts: id, property, needs, breaks, edits [(file, old, new)], demo)."""
import difflib, json, os, sys, runpy
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for s in runpy.run_path(sys.argv[1])["SEEDS"]:
    d = os.path.join(R, "seeded", s["id"]); os.makedirs(d, exist_ok=True)
    new = {}
    for f, a, b in s["edits"]:
        t = new.get(f) or open("/repo/" + f).read()
        assert t.count(a) == 1, (s["id"], f, t.count(a))
        new[f] = t.replace(a, b)
    out = ""
    for f, t in new.items():
        o = open("/repo/" + f).read()
        out += "diff --git a/%s b/%s\n" % (f, f) + "".join(difflib.unified_diff(o.splitlines(True), t.splitlines(True), "a/" + f, "b/" + f))
    open(d + "/patch.diff", "w").write(out)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    open(d + "/demo.py", "w").write(s["demo"])
    open(d + "/demo.sh", "w").write('#!/bin/bash\nd=$(cd "$(dirname "$0")" && pwd)\ns=$(mktemp -d)\ntrap \'rm -rf "$s"\' EXIT\n'
        'export MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 %s\nexport SCRATCH="$s"\n/opt/venv/bin/python "$d/demo.py"\n' % s.get("env", "NUMBA_DISABLE_JIT=1"))
