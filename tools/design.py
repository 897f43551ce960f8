"""Write DESIGN.md: head, one section per property from catalog and harness, tail, table of planted bugs."""
import importlib, json, os, sys
H = os.path.dirname(os.path.abspath(__file__)); R = os.path.dirname(H)
sys.path[:0] = [H, R]
from catalog import P
from na import NA
P.sort(key=lambda p: p["id"])
o = open(H + "/design_head.md").read()
for p in P:
    o += "\n### %s %s\n\n" % (p["id"], p["title"])
    f = R + "/props/%s.py" % p["id"].lower()
    if not os.path.exists(f):
        o += "No check yet.\n"
        continue
    m = importlib.import_module("props." + p["id"].lower())
    o += "*Decided:* %s Code: %s (%s).\n\n*Bounds:* %s.\n\n*Outside:* %s.\n\n" % (
        (m.__doc__ or "").strip().replace("\n", " "), ", ".join(x.split("/")[-1] for x in p["files"]), p["mech"], m.META["bounds"], m.META["outside"])
    if m.META["assumptions"]:
        o += "*Assumes:* %s.\n\n" % "; ".join(m.META["assumptions"])
    o += "*Why not tests:* %s\n" % p["why"]
for n in NA:
    o += "\n### %s\n\nNot applicable: %s\n" % (n["property"], n["reason"])
o += open(H + "/design_tail.md").read()
o += "| planted bug | property | needs | caught by quick check |\n|---|---|---|---|\n"
C = json.load(open(H + "/caught.json")) if os.path.exists(H + "/caught.json") else {}
for d in sorted(os.listdir(R + "/seeded")):
    if os.path.exists(R + "/seeded/%s/meta.json" % d):
        m = json.load(open(R + "/seeded/%s/meta.json" % d))
        o += "| %s | %s | %s | %s |\n" % (d, m["property"], m["needs"], C.get(d, "?"))
t = H + "/design_notes.md"
if os.path.exists(t):
    o += "\n" + open(t).read()
open(R + "/DESIGN.md", "w").write(o)
