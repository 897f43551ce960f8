"""Expansion of matrix, set and ensemble configurations into jobs."""
import itertools
import os
import warnings

from props.joblib import Yaml, factory

META = dict(
    bounds="matrices of up to three parameters with up to three symbolic values each (thorough: four parameters), sets of up "
           "to four jobs with up to three symbolic values each, keys of a set in any order, ensembles of two to four (five) with "
           "none, matrix or set; two fixed parameters with symbolic values; configuration in a file or as arguments, file "
           "and arguments disagreeing; each documented error; folders of up to 1001 jobs",
    outside="more jobs; values other than numbers, null, booleans and a list of texts; the models themselves (C24, C30, C31)",
    assumptions=["a number written as text reads back as that number (C32 for its resolution)"])

KEYS = ["u0", "h0", "S0", "sed_lag"]
TEXT = ["a b", "a #b", "a: b", "true", "null", "1e5", "1_0", "12", "~", "x\ty", "'q", "\"q\" r", " s ", "[1", "{a", "- b", "*a", "&a",
        "%a", "@a", "!a", "a,b", "\u00e9: \u4e16", "b" * 90 + " #" + " b" * 60]


def cases(tier):
    ms = ["2", "3", "1", "22", "23", "32", "211", "222", "13"] + ([] if tier == "quick" else ["2222", "333", "44"])
    cs = [dict(name="matrix-" + m, kw=dict(kind="matrix", dims=[int(x) for x in m], n=0)) for m in ms]
    cs += [dict(name="ensemble-%d" % n, kw=dict(kind="matrix", dims=[], n=n)) for n in (2, 3, 4)]
    cs += [dict(name="ensemble-%d-matrix-%s" % (n, m), kw=dict(kind="matrix", dims=[int(x) for x in m], n=n))
           for n, m in ((2, "2"), (3, "2"), (2, "22"), (1, "2"))]
    ss = [(1, 1), (2, 1), (2, 2), (3, 2), (4, 3), (3, 1)]
    cs += [dict(name="set-%d-%d" % s, kw=dict(kind="set", dims=list(s), n=0)) for s in ss]
    cs += [dict(name="ensemble-%d-set-%d-%d" % s, kw=dict(kind="set", dims=list(s[1:]), n=s[0]))
           for s in ((2, 2, 2), (3, 2, 1), (1, 2, 1)) + (() if tier == "quick" else ((5, 2, 2), (2, 4, 3)))]
    cs += [dict(name="error-" + e, kw=dict(kind="error", dims=e, n=0)) for e in ERR]
    cs += [dict(name="many", kw=dict(kind="many", dims=0, n=0))]
    cs += [dict(name="twelve", kw=dict(kind="matrix", dims=[12], n=0)), dict(name="resume", kw=dict(kind="resume", dims=0, n=0)),
           dict(name="text", kw=dict(kind="text", dims=0, n=0)),
           dict(name="single", kw=dict(kind="single", dims=0, n=0))]
    return cs


def mats(v):
    a, b = v("a"), v("b")
    return {
        "matrix-and-set": (dict(matrix={"u0": [a, b]}, set=[{"h0": a}]), ValueError),
        "out-dir-in-matrix": (dict(matrix={"out_dir": ["x", "y"]}), ValueError),
        "key-in-both": (dict(matrix={"u0": [a, b]}, u0=a), ValueError),
        "second-key-in-both": (dict(matrix={"h0": [a, b], "u0": [a, b]}, u0=a), ValueError),
        "colon": (dict(matrix={"u0:x": [a, b]}), ValueError),
        "nested": (dict(matrix={"u0": [a, [a, b]]}), ValueError),
        "not-a-dict": (dict(matrix=[a, b]), ValueError),
        "seed-and-ensemble": (dict(matrix={"seed": [1, 2]}, ensemble=2), ValueError),
        "fixed-seed-and-ensemble": (dict(seed=1, ensemble=2), ValueError),
        "ensemble-not-a-dict": (dict(matrix=[a], ensemble=2), ValueError),
        "ensemble-type": (dict(ensemble=2.5), TypeError),
        "ensemble-text": (dict(ensemble="two"), TypeError),
        "ensemble-zero": (dict(ensemble=0), ValueError),
        "set-type": (dict(set={"u0": a}), TypeError),
        "set-element-type": (dict(set=[{"u0": a}, [b]]), TypeError),
        "set-colon": (dict(set=[{"u0:x": a}]), ValueError),
        "set-keys-differ": (dict(set=[{"u0": a}, {"h0": b}]), ValueError),
        "set-keys-missing": (dict(set=[{"u0": a, "h0": b}, {"h0": b}]), ValueError),
        "set-keys-extra": (dict(set=[{"u0": a}, {"u0": a, "h0": b}]), ValueError),
        "set-keys-last": (dict(set=[{"u0": a}, {"u0": b}, {"h0": b}]), ValueError),
    }


ERR = sorted(mats(lambda n: 0)) + ["no-out-dir-matrix", "no-out-dir-set", "no-out-dir-ensemble", "existing-folder-matrix",
                                   "existing-folder-set", "existing-folder-ensemble", "no-arguments"]


def build(c, y, conf, where):
    """Preprocessor from a file, from arguments, or from both (arguments win)."""
    P = c.mod("preprocessor")
    if where == "args":
        return P.Preprocessor(**conf)
    path = os.path.join(c.scratch(), "in%d.yml" % len(os.listdir(c.scratch())))
    if where == "file":
        return P.Preprocessor(y.dump(conf, path))
    other = dict(conf)
    other["beta"] = 17
    return P.Preprocessor(y.dump(other, path), beta=conf["beta"])


def read(c, path):
    import yaml
    with open(path) as f:
        return yaml.load(f, Loader=c.mod("shared_tools").custom_yaml_loader())


def same(c, x, v):
    if v is None or isinstance(v, (bool, str)):
        return x is v if not isinstance(v, str) else x == v
    if x is None or isinstance(x, (bool, str)):
        return False
    return c.eq(x, v, exact=True)


def number(c, text):
    if c.sym:
        from symx.core import from_text
        t = from_text(text)
        if t is not text:
            return t
    return float(text)


def run(c, kind, dims, n):
    warnings.simplefilter("ignore")
    with Yaml(c) as y:
        go(c, y, kind, dims, n)


def go(c, y, kind, dims, n):
    root = os.path.join(c.scratch(), "jobs")
    if kind == "many":
        return many(c, y, root)
    if kind == "error":
        return errors(c, y, dims, root)
    fixed = {"alpha": c.real("alpha", 0, 1), "beta": c.int("beta", 0, 9), "timesteps": 2, "hb": None,
             "save_metadata": True}
    if kind == "single":
        f = y.dump(dict(fixed, out_dir=root), os.path.join(c.scratch(), "one.yml"))
        pp = c.mod("preprocessor").Preprocessor(f)
        c.check("a configuration without expansion is one job", len(pp.file_list) == 1 and str(pp.file_list[0]) == f)
        return
    if kind == "resume":
        v = [c.real("v%d" % i, 1, 9) for i in range(2)]
        conf = dict(fixed, out_dir=root, matrix={"u0": v}, resume_checkpoint=True)
        d = os.path.join(root, "job_000")
        os.makedirs(d)
        if c.choice("earlier", [False, True]):       # the file of an earlier run
            y.dump(dict(out_dir=d, u0=v[1], theta_water=c.real("old", 1, 2), timesteps=9, alpha=0.25),
                   os.path.join(d, "job_000.yml"))
            with open(os.path.join(d, "job_000.yml"), "a") as f:
                f.write("Np_water: 7\n" * c.choice("more", [0, 40]))
        out = []
        e = c.raises(lambda: out.append(build(c, y, conf, c.choice("where", ["file", "args"]))))
        c.check("existing folders are used when resuming", e is None)
        if e is not None:
            return
        keys = (set(conf) - {"matrix"}) | {"u0"}
        for i, f in enumerate(out[0].file_list):
            g = read(c, f)
            c.check("a resumed job's file holds its present configuration alone", set(g) == keys)
            if set(g) == keys:
                c.check("a resumed job's file reads back as its configuration", c.And(
                    same(c, g["u0"], v[i]), [same(c, g[k], fixed[k]) for k in fixed], g["resume_checkpoint"] is True))
        return
    if kind == "text":
        name = c.choice("name", TEXT)
        place = c.choice("place", ["folder", "value", "matrix", "set", "ensemble"])
        where = c.choice("where", ["file", "args"])
        if place == "folder":
            root = root + "_" + name
        conf = dict(fixed, out_dir=root)
        if place in ("value", "ensemble"):
            conf["note"] = name
        if place == "ensemble":
            conf["ensemble"] = 2
        elif place == "set":
            conf["set"] = [{"note": name}, {"note": "plain"}]
        else:
            conf["matrix"] = {"note": [name, "plain"]} if place == "matrix" else {"u0": [1.5, 2.5]}
        pp = build(c, y, conf, where)
        got = [read(c, f) for f in pp.file_list]
        for i, g in enumerate(got):
            c.check("the folder's name reads back from a job's file", g["out_dir"] == os.path.join(root, "job_%03d" % i))
            if place != "folder":
                want = "plain" if i and place in ("matrix", "set") else name
                c.check("a text reads back from a job's file as it was given", g.get("note") == want)
            c.check("other values are not affected by a text", c.And([same(c, g.get(k), fixed[k]) for k in fixed]))
        return
    where = c.choice("where", ["file", "args", "both"])
    conf = dict(fixed, out_dir=root)
    if n:
        conf["ensemble"] = n
    if kind == "matrix":
        vals = {k: [c.real("%s_%d" % (k, i), 0.5, 9) for i in range(d)] for k, d in zip(KEYS, dims)}
        if dims:
            conf["matrix"] = vals
        combos = [dict(zip(vals, x)) for x in itertools.product(*vals.values())]
        for k, vs in vals.items():
            for i, a in enumerate(vs):
                for b in vs[:i]:
                    c.assume(c.ne(a, b, exact=True))
    else:
        jobs, width = dims
        turn = c.choice("turned", [False, True])
        conf["set"], combos = [], []
        for i in range(jobs):
            ks = KEYS[:width]
            d = {k: c.real("%s_%d" % (k, i), 0.5, 9) for k in ks}
            if turn and i % 2:
                d = {k: d[k] for k in reversed(ks)}
            combos.append(dict(d))
            conf["set"].append(d)
    d0 = len(c.draws)
    if not c.sym:        # replay: a generator that does not repeat itself
        import random

        import numpy
        random.seed(4)
        numpy.random.seed(4)
    pp = build(c, y, conf, where)
    if c.sym:        # different draws
        from symx.core import Num
        us = [Num(t, "f") for _, t in c.draws[d0:]]
        for i, u in enumerate(us):
            for w in us[:i]:
                c.assume(c.Or(c.le(u + 0.0001, w), c.le(w + 0.0001, u)))
    rep = n if n > 1 else 1
    files, confs = list(pp.file_list), list(pp.config_list)
    total = len(combos) * rep
    c.check("as many jobs as combinations", len(files) == total and len(confs) == total)
    if len(files) != total or len(confs) != total:
        return
    ids = ["job_%03d" % i for i in range(total)]
    c.check("every job has its own folder and configuration file", [str(f) for f in files] == [
        os.path.join(root, i, i + ".yml") for i in ids])
    got = [read(c, f) for f in files]
    keys = set(fixed) | {"out_dir"} | (set(combos[0]) if combos else set()) | ({"seed"} if n > 1 else set())
    for i, (g, f) in enumerate(zip(got, confs)):
        c.check("a job's file holds its configuration and nothing else", set(g) == keys and set(f) == keys)
        if set(g) != keys or set(f) != keys:
            return
        c.check("a job's file reads back as its configuration", c.And([same(c, g[k], f[k]) for k in sorted(keys)]))
        c.check("the output folder is the job's own", g["out_dir"] == os.path.join(root, ids[i]))
        c.check("fixed parameters are kept", c.And([same(c, g[k], fixed[k]) for k in fixed]))
    # every combination occurs as often as it should
    for x in combos if kind == "matrix" else []:
        hits = [c.And([same(c, g[k], x[k]) for k in x]) for g in got]
        c.check("every combination is run once, or once per member of the ensemble",
                c.And(c.Or(hits), [c.Not(c.And(list(q))) for q in itertools.combinations(hits, rep + 1)]))
    if kind == "set":
        for i, g in enumerate(got):
            x = combos[i // rep]
            c.check("every job is one of the given sets", c.And([same(c, g[k], x[k]) for k in x]))
    if n > 1:
        for i, g in enumerate(got):
            c.check("every seed is a whole number", c.sym or type(g["seed"]) is int)
            for h in got[:i]:
                ks = list(combos[0]) if kind == "matrix" else []
                c.check("members of an ensemble have different seeds",
                        c.Or([c.ne(g["seed"], h["seed"])] + [c.ne(g[k], h[k], exact=True) for k in ks]))
    # the table of jobs
    with open(os.path.join(root, "jobs_parameters.txt")) as f:
        rows = [[e.strip() for e in r.rstrip("\n").split(",")] for r in f]
    c.check("the table has one row per job", len(rows) == total + 1)
    head = rows[0]
    c.check("the table names the job and its parameters", head[0] == "job_id" and sorted(head[1:]) == sorted(
        keys - set(fixed) - {"out_dir"}))
    if sorted(head[1:]) != sorted(keys - set(fixed) - {"out_dir"}):
        return
    for i, r in enumerate(rows[1:]):
        c.check("the table lists each job with its values", c.And(
            r[0] == ids[i], [same(c, number(c, e), got[i][k]) for k, e in zip(head[1:], r[1:])]))
    # the models are made from the jobs' files
    make = factory(c, [None] * total)
    try:
        pp.run_jobs(DeltaModel=make)
    except AttributeError:
        pass
    c.check("the first model is made from the first job's file", str(make.given[0][0]) == str(files[0]))


def many(c, y, root):
    """Many jobs: none shares its folder with another."""
    n = c.choice("jobs", [11, 100, 101, 1001])
    off = c.real("offset", 0, 1)
    kind = c.choice("kind", ["matrix", "set"])
    vals = [off + i for i in range(n)]
    x = dict(matrix={"u0": vals}) if kind == "matrix" else dict(set=[{"u0": v} for v in vals])
    pp = build(c, y, dict(x, out_dir=root, timesteps=1, beta=2), "file")
    files = [str(f) for f in pp.file_list]
    c.check("as many jobs as values", len(files) == n)
    c.check("no two jobs share a file or folder", len(set(files)) == n and len(set(os.path.dirname(f) for f in files)) == n)
    got = [read(c, f) for f in files]
    for i, g in enumerate(got):
        c.check("every job has its own value and folder", c.And(same(c, g["u0"], vals[i]), g["out_dir"] == os.path.dirname(files[i])))


def errors(c, y, e, root):
    v = lambda n: c.real(n, 0.5, 9)      # noqa: E731
    P = c.mod("preprocessor")
    if e == "no-arguments":
        c.check("no configuration at all is refused", isinstance(c.raises(P.Preprocessor), ValueError))
        return
    a, b = v("a"), v("b")
    multi = {"matrix": dict(matrix={"u0": [a, b]}), "set": dict(set=[{"u0": a}, {"u0": b}]), "ensemble": dict(ensemble=2)}
    where = c.choice("where", ["file", "args"])
    if e.startswith("no-out-dir"):
        conf, exc = dict(multi[e[11:]], timesteps=1), ValueError
    elif e.startswith("existing"):
        conf, exc = dict(multi[e[16:]], out_dir=root, timesteps=1), FileExistsError
        os.makedirs(root)
    else:
        conf, exc = mats(v)[e]
        conf = dict(conf, out_dir=root, timesteps=1)
    conf["beta"] = 3
    x = c.raises(build, c, y, conf, where)
    c.check("the configuration is refused (%s)" % exc.__name__, isinstance(x, exc))
    jobs = [d for d in os.listdir(root)] if os.path.isdir(root) else []
    c.check("no job is set up", not any(d.startswith("job_") for d in jobs))
