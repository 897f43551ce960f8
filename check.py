"""Decide one property: check.py CXX [--tier quick|thorough]"""
import argparse
import importlib
import json
import math
import multiprocessing as mp
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("OMP_NUM_THREADS", "1")
sys.path.insert(0, HERE)
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if VT not in sys.path:
    sys.path.append(VT)
EVID = os.path.join(HERE, "evidence")
PY = sys.executable


def replay(items, jit, timeout, j=8):
    """Run input sets on the real package in subprocesses; None for those there was no time for."""
    if not items:
        return []
    n = max(1, min(j, len(items) // (2 if jit else 6)))
    d = tempfile.mkdtemp(prefix="vfx_")
    out = [None] * len(items)
    try:
        ps = []
        for k in range(n):
            w = os.path.join(d, "w%d" % k)
            os.makedirs(w)
            fi, fo = os.path.join(w, "in.json"), os.path.join(w, "out.jsonl")
            json.dump(items[k::n], open(fi, "w"))
            env = dict(os.environ)
            env.pop("PYTHONPATH", None)
            env["NUMBA_DISABLE_JIT"] = "0" if jit else "1"
            env["NUMBA_CACHE_DIR"] = os.path.join(w, "nbcache")
            ps.append((k, fo, subprocess.Popen([PY, os.path.join(HERE, "symx", "replay.py"), fi, fo], env=env, cwd=w,
                                               stdout=subprocess.DEVNULL, stderr=open(os.path.join(w, "err"), "w"))))
        end = time.time() + timeout
        bad = ""
        for k, fo, p in ps:
            try:
                p.wait(max(0.1, end - time.time()))
                if p.returncode != 0:
                    bad = open(os.path.join(os.path.dirname(fo), "err")).read()[-2000:]
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
            if os.path.exists(fo):
                for i, line in enumerate(open(fo)):
                    if line.endswith("\n"):
                        out[k + i * n] = json.loads(line)
        if bad and not any(r is not None for r in out):
            raise RuntimeError("replay failed: %s" % bad)
        return out
    finally:
        shutil.rmtree(d, ignore_errors=True)


def close(a, b):
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    if math.isnan(a) and math.isnan(b):
        return True
    if not (math.isfinite(a) and math.isfinite(b)):
        return a == b
    return abs(a - b) <= 2e-3 * (1 + max(abs(a), abs(b)))


def load_known(prop):
    out = []
    f = os.path.join(HERE, "known_findings.jsonl")
    if os.path.exists(f):
        for line in open(f):
            line = line.strip()
            if line.startswith("{"):
                k = json.loads(line)
                if k.get("property") == prop and k.get("status") == "open":
                    out.append(k)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--case", default=None)
    ap.add_argument("-j", type=int, default=8)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    prop = a.prop
    os.makedirs(EVID, exist_ok=True)
    for f in os.listdir(EVID):
        if f.startswith("replay_%s_" % prop):
            os.unlink(os.path.join(EVID, f))
    mod = importlib.import_module("props." + prop.lower())
    cases = mod.cases(a.tier)
    idx = [i for i, c in enumerate(cases) if a.case is None or a.case in c["name"]]
    from symx.explore import run_case
    dead = t0 + float(os.environ.get("VERIF_BUDGET", 480 if a.tier == "quick" else 6 * 3600))
    jobs = [(prop, i, a.tier, seed, dead) for i in idx]
    if len(jobs) == 1 or a.j == 1:
        results = [run_case(j) for j in jobs]
    else:
        with mp.get_context("fork").Pool(min(a.j, len(jobs)), maxtasksperchild=1) as pool:
            results = list(pool.imap_unordered(run_case, jobs, chunksize=1))
    results.sort(key=lambda r: r["case"])
    errors = [r for r in results if "error" in r]
    ok = [r for r in results if "error" not in r]
    for r in errors:
        print("ERROR case %s\n%s" % (r["case"], r["error"]))
    # ---- witnesses: the encoding against the interpreted real code
    wits = [dict(w, property=prop) for r in ok for w in r["wits"]]
    mism, validated, wit_fail = [], 0, []
    only_jit = getattr(mod, "ALWAYS_JIT", False)
    jitw = only_jit or a.tier == "thorough" and getattr(mod, "JIT_WITNESS", True)
    try:
        wres = replay(wits, jitw, 300 if a.tier == "quick" else 3000, a.j)
    except Exception as e:
        print("WITNESS replay problem: %s" % e)
        wres = []
    for w, r in zip(wits, wres):
        if r is None:
            continue
        if r["invalid"]:
            mism.append((w["case"], "assumption not met concretely"))
            continue
        validated += 1
        if r["failed"] or (r["exc"] and r["exc"]["inside"]):
            wit_fail.append((w, r))
            continue
        if r["exc"]:
            mism.append((w["case"], "harness exception %s" % r["exc"]))
            continue
        ob = {}
        for (n, xs), (n2, ys) in zip(w["obs"], r["obs"]):
            if n != n2 or len(xs) != len(ys) or not all(close(x, y) for x, y in zip(xs, ys)):
                mism.append((w["case"], "observable %s: encoded %s real %s" % (n, xs[:9], ys[:9])))
                break
    # ---- candidates: confirm on the real, jitted package
    cands = [dict(x, property=prop) for r in ok for x in r["cands"]]
    cands += [dict(w, property=prop, label=(r["failed"] or ["unexpected " + r["exc"]["type"]])[0],
                   note="witness run") for w, r in wit_fail]
    for x in cands:
        x.pop("obs", None)
        x.pop("checks", None)
    confirmed, unconfirmed = [], []
    if cands:
        order, by = [], {}
        for x in cands:
            by.setdefault((x["case"], x["label"]), []).append(x)
        while by and len(order) < 60:
            for k in list(by):
                order.append(by[k].pop(0))
                if not by[k]:
                    del by[k]
        try:
            rr = [None] * len(order)
            for jit in (True,) if only_jit else (False, True):
                ix = list(range(len(order))) if only_jit else \
                    [i for i, x in enumerate(order) if (x["note"] == "within tolerance") != jit]
                if not jit:
                    pre = replay([order[i] for i in ix], False, 150, a.j)  # interpreted
                    for i, r in zip(ix, pre):
                        rr[i] = r
                else:
                    # differences below the tolerance only matter when the interpreted code shows them
                    ix += [i for i, r in enumerate(rr) if r is not None and (r["failed"] or r["exc"])]
                    for i, r in zip(ix, replay([order[i] for i in ix], True, 200, a.j)):
                        rr[i] = r
        except Exception as e:
            print("CANDIDATE replay problem: %s" % e)
            rr = []
        for x, r in zip(order, rr):
            if r is None:
                r = {"failed": [], "exc": None, "invalid": "no time for it"}
            if not r["invalid"] and (r["failed"] or (r["exc"] and r["exc"]["inside"])):
                x["observed"] = {"failed": r["failed"], "exc": r["exc"]}
                confirmed.append(x)
            else:
                x["observed"] = {"failed": r["failed"], "exc": r["exc"], "invalid": r["invalid"]}
                unconfirmed.append(x)
    # refuted only by differences below the tolerance, and not reproduced: holds within the stated tolerance
    tiny = [x for x in unconfirmed if x["note"] == "within tolerance"]
    unconfirmed = [x for x in unconfirmed if x["note"] != "within tolerance"]
    known = load_known(prop)
    viol, kf = [], []
    for x in confirmed:
        k = [q for q in known if q["label"] in ([x["label"]] + x["observed"]["failed"]) and
             q.get("case", x["case"]) == x["case"]]
        (kf if k else viol).append((x, k))
    for k in known:
        if any(k in ks for _, ks in kf):
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    first = None
    seen = set()
    for x, _ in viol:
        lab = (x["observed"]["failed"] or [x["label"]])[0]
        if lab in seen:
            continue
        seen.add(lab)
        path = os.path.join(EVID, "replay_%s_%d.json" % (prop, len(seen)))
        x["how"] = "/opt/venv/bin/python /verif/symx/replay.py " + path
        json.dump(x, open(path, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  case=%s check=%s observed=%s" % (x["case"], lab, json.dumps(x["observed"])[:400]))
    # ---- evidence
    tot = lambda k: sum(r.get(k, 0) for r in ok)
    funcs = sorted(set(f for r in ok for f in r["funcs"]))
    unknown = [(r["case"], u) for r in ok for u in r["unknown"]]
    unsup = [(r["case"], u) for r in ok for u in r["unsupported"]]
    budget = [(r["case"], r["budget"]) for r in ok if r["budget"]]
    labels = {}
    for r in ok:
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
    samples = [{"case": w["case"], "values": dict(list(w["values"].items())[:12]), "draws": w["draws"][:4],
                "observed": [[n, xs[:9]] for n, xs in w["obs"][:3]]} for w in wits[:3]]
    M = mod.META
    wall = time.time() - t0
    ev = {"property": prop, "tier": a.tier, "seed": seed, "level": "model_checking",
          "coverage": {
              "states": tot("paths"), "transitions": tot("forks"),
              "traces_validated_against_impl": validated, "samples": samples,
              "explanation": "states = end states of symbolic paths (each stands for all inputs satisfying its path "
                             "condition); transitions = fork decisions; every check of every path is a solver query.",
              "cases": [{"name": r["case"], "paths": r["paths"], "checks": r["props"], "wall_s": round(r["wall"], 1)}
                        for r in ok],
              "checks_by_label": labels, "properties_instances": tot("props"), "instances_decided": tot("decided"),
              "queries": tot("queries"), "solver_s": round(tot("solver_s"), 2),
              "functions_encoded": funcs, "bounds": M.get("bounds"), "outside_bounds": M.get("outside"),
              "undecided": unknown[:40], "outside_encoding": unsup[:40], "budget_exhausted": budget,
              "encoding_mismatches": mism[:20], "candidates_confirmed": len(confirmed),
              "held_only_within_tolerance": sorted(set("%s: %s" % (x["case"], x["label"]) for x in tiny)),
              "candidates_not_reproduced": [
                  {"case": x["case"], "label": x["label"], "note": x["note"]} for x in unconfirmed][:20],
              "witness_runs": "jitted" if jitw else "interpreted"},
          "wall_s": round(wall, 2), "assumptions": M.get("assumptions", []),
          "violations": [{"case": x["case"], "label": x["label"], "values": x["values"], "draws": x["draws"],
                          "observed": x["observed"]} for x, _ in viol][:10]}
    if a.case is None:
        json.dump(ev, open(os.path.join(EVID, prop + ".json"), "w"), indent=1, default=str)
    if a.v or errors:
        for r in ok:
            print("  %-28s paths %5d checks %6d queries %6d solver %.1fs wall %.1fs" % (
                r["case"], r["paths"], r["props"], r["queries"], r["solver_s"], r["wall"]))
    if unknown or unsup or budget or mism or unconfirmed:
        print("UNDECIDED: %d solver-unknown, %d outside the encoding, %d budgets, %d encoding mismatches, "
              "%d counterexamples not reproduced" % (len(unknown), len(unsup), len(budget), len(mism), len(unconfirmed)))
        for x in (unknown[:5] + unsup[:5] + budget[:5] + mism[:5]):
            print("   ", str(x)[:400])
        for x in unconfirmed[:5]:
            print("    not reproduced:", x["case"], x["label"], x["note"], str(x["observed"])[:200])
            if a.v:
                print("      ", x["values"], x["draws"])
    print("%s %s: %d paths, %d/%d checks decided, %d queries, %.1fs solver, %d witnesses validated, %.1fs" % (
        prop, a.tier, tot("paths"), tot("decided"), tot("props"), tot("queries"), tot("solver_s"), validated, wall))
    if viol:
        return 1
    if errors and tot("decided"):
        print("UNDECIDED: cases %s did not run" % [r["case"] for r in errors])
    if not ok or tot("decided") == 0:
        print("NO ANSWER: nothing could be decided")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
