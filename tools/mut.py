"""mut.py SPEC.py [ID ...]: try single-edit mutants in scratch copies: which checks report them?
SPEC defines MUTS = [(id, "C01[ C02]", file, old, new), ...] (edits may also be a list of (file, old, new))."""
import sys, os, re, subprocess, shutil, runpy, time, concurrent.futures as cf
spec = runpy.run_path(sys.argv[1])["MUTS"]
want = set(sys.argv[2:])
par = int(os.environ.get("PAR", "2")); j = os.environ.get("J", "4")
root = os.environ.get("MROOT", "/tmp/s/mut"); vroot = root + "_v"
shutil.rmtree(vroot, ignore_errors=True); os.makedirs(vroot)
for d in ("symx", "props", "check.py", "known_findings.jsonl", "properties.jsonl", "MANIFEST.json"):
    s = "/verif/" + d
    if os.path.isdir(s): shutil.copytree(s, vroot + "/" + d)
    elif os.path.exists(s): shutil.copy(s, vroot)
os.makedirs(vroot + "/evidence", exist_ok=True)
def one(m):
    mid, props = m[0], m[1]
    edits = m[2] if isinstance(m[2], list) else [m[2:5]]
    d = f"{root}/{mid}"
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    shutil.copytree("/repo/pyDeltaRCM", d + "/pyDeltaRCM", ignore=shutil.ignore_patterns("__pycache__"))
    for f, a, b in edits:
        p = d + "/pyDeltaRCM/" + f; t = open(p).read()
        if t.count(a) < 1:   # the same text up to blank lines
            rx = re.compile(r"\n(?:[ \t]*\n)*".join(re.escape(l) for l in a.split("\n") if l.strip()))
            m0 = rx.search(t)
            if not m0: return f"{mid} EDIT FAILS {f} {a[:50]!r}"
            t = t[:m0.start()] + b.rstrip("\n") + t[m0.end():]
            open(p, "w").write(t); continue
        open(p, "w").write(t.replace(a, b, 1))
    out = []
    for p in props.split():
        t0 = time.time()
        try:
            r = subprocess.run(["/opt/venv/bin/python", "check.py", p, "-j", j], cwd=vroot, env=dict(os.environ, VERIF_REPO=d), capture_output=True, text=True, timeout=900)
            o = r.stdout + r.stderr; rc = r.returncode
        except subprocess.TimeoutExpired as e:
            o = "TIMEOUT"; rc = 124
        open(f"{root}/{mid}.{p}.out", "w").write(o)
        v = [l for l in o.splitlines() if "VIOLATION" in l]
        out.append(f"{p} rc={rc} {'CAUGHT' if rc == 1 and v else 'MISSED'} {time.time()-t0:.0f}s {(v or ['-'])[0][:110]}")
    shutil.rmtree(d, ignore_errors=True)
    return f"{mid}: " + " | ".join(out)
ms = [m for m in spec if not want or m[0] in want]
with cf.ThreadPoolExecutor(par) as ex:
    for f in cf.as_completed([ex.submit(one, m) for m in ms]):
        print(f.result(), flush=True)
