"""Run harness inputs against the really imported package (no stand-ins).

usage: replay.py FILE.json [OUT.jsonl] ; NUMBA_DISABLE_JIT=1 for the interpreted code.
With one input set that fails a check, exits 1 and names it.
"""
import importlib
import json
import os
import sys
import traceback

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)


def one(item, jit):
    from symx.ctx import AssumptionFailed, ConCtx
    mod = importlib.import_module("props." + item["property"].lower())
    c = ConCtx(item["values"], item["draws"], jit)
    out = {"failed": [], "exc": None, "obs": [], "checks": [], "invalid": False}
    try:
        c.prime_rng()
        mod.run(c, **item.get("kw", {}))
    except AssumptionFailed:
        out["invalid"] = True
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        inside = [f for f in tb if "/pyDeltaRCM/" in f.filename]
        out["exc"] = {"type": type(e).__name__, "msg": str(e)[:300], "inside": bool(inside),
                      "where": ["%s:%d" % (f.filename, f.lineno) for f in tb[-4:]]}
    finally:
        c.cleanup()
    out["failed"] = c.failed
    out["checks"] = c.checks
    out["obs"] = c.obs
    return out


def main():
    data = json.load(open(sys.argv[1]))
    jit = os.environ.get("NUMBA_DISABLE_JIT", "0") != "1"
    import pyDeltaRCM
    assert pyDeltaRCM.__file__.startswith(REPO.rstrip("/") + "/"), pyDeltaRCM.__file__
    items = data if isinstance(data, list) else [data]
    res = []
    devnull = open(os.devnull, "w")
    for it in items:
        so = sys.stdout
        sys.stdout = devnull
        try:
            res.append(one(it, jit))
        finally:
            sys.stdout = so
        if len(sys.argv) > 2:
            with open(sys.argv[2], "a") as f:
                f.write(json.dumps(res[-1]) + "\n")
    if len(sys.argv) > 2:
        return 0
    for it, r in zip(items, res):
        print(json.dumps({"label": it.get("label"), "failed": r["failed"], "exc": r["exc"],
                          "invalid": r["invalid"]}, indent=1))
    return 1 if any(r["failed"] or r["exc"] for r in res) else 0


if __name__ == "__main__":
    sys.exit(main())
