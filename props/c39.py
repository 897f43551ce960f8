"""The command line."""
import contextlib
import os
import sys

from props.iolib import still, fresh_folder
from props.joblib import *
from props.lib import small

META = dict(
    bounds="every combination of the options given and not given with a configuration file that holds all, none or single "
           "ones of the same keys; symbolic numbers of time steps (up to 3), durations, intermittency in (0,1] and numbers "
           "of processes (1 to 4); single jobs and a matrix of two jobs",
    outside="the text form of numbers beyond that a number's text denotes it; help and version output; longer runs",
    assumptions=["routing is left out of the steps", "parallel jobs run in this process, one after the other"])

YEAR = 86400 * 365.25
KEYS = ("timesteps", "time", "time_years", "If", "dryrun", "parallel")


def cases(tier):
    out = [dict(name="options-" + f, kw=dict(kind="options", file=f)) for f in ("none", "all", "dryrun")]
    if tier != "quick":
        out += [dict(name="options-" + f, kw=dict(kind="options", file=f)) for f in KEYS if f != "dryrun"]
    out += [dict(name="run-" + k, kw=dict(kind="run", file=k)) for k in ("timesteps", "time", "time_years")]
    out.append(dict(name="jobs", kw=dict(kind="jobs", file="none")))
    out.append(dict(name="malformed", kw=dict(kind="malformed", file="none")))
    return out


@contextlib.contextmanager
def argv(*a):
    old = sys.argv
    sys.argv = ["pyDeltaRCM"] + [str(x) for x in a]
    try:
        yield
    finally:
        sys.argv = old


def same(c, a, b, whole=False):
    """The same value, of a kind that counts as such."""
    if b is None or isinstance(b, (bool, str)) or a is None or isinstance(a, (bool, str)):
        return type(a) is type(b) and a == b
    if whole and not (isinstance(a, int) or getattr(a, "k", None) == "i"):
        return False
    return c.eq(a, b)


def option_values(c):
    return dict(timesteps=c.int("timesteps", 0, 3), time=c.real("time", 0, 10**6), time_years=c.real("years", 0, 10),
                If=c.real("If", 0, 1, lo_open=True), dryrun=True, parallel=c.int("procs", 1, 4))


def run(c, kind, file):
    P = c.mod("preprocessor")
    y = Yaml(c)
    with y:
        {"options": options, "run": running, "jobs": jobs, "malformed": malformed}[kind](c, P, y, file)


def options(c, P, y, file):
    vals = option_values(c)
    conf = {"verbose": 0}
    held = dict(timesteps=c.int("f_timesteps", 0, 3), time=c.real("f_time", 0, 10**6), time_years=c.real("f_years", 0, 10),
                If=c.real("f_If", 0, 1, lo_open=True), dryrun=True, parallel=c.int("f_procs", 1, 4))
    if file != "none":
        conf.update({k: v for k, v in held.items() if file in ("all", k)})
    path = y.dump(conf, write(c, ""))
    args, want = ["--config", path], dict(conf)
    for k in KEYS:
        if not c.choice("has_" + k, [False, True]):
            continue
        if k == "dryrun":
            args += ["--dryrun"]
        elif k == "parallel" and c.choice("all_cores", [False, True]):
            args += ["--parallel"]
            want[k] = True
            continue
        else:
            args += ["--" + k, vals[k]]
        want[k] = vals[k]
    with argv(*args):
        pp = P.PreprocessorCLI()
    got = pp.config_dict
    for k in KEYS:
        if k in want:
            c.check("an option has the value given, else the file's: " + k, c.And(
                k in got, same(c, got.get(k), want[k], whole=k in ("timesteps", "parallel"))))
        else:
            c.check("an option neither given nor configured is not set: " + k, k not in got)
    c.check("other configuration is kept", got.get("verbose") == 0)
    c.check("the run is of the given file", [str(f) for f in pp.file_list] == [path])
    c.check("it is a dry run if and only if one was asked for", bool(pp._dryrun) == (want.get("dryrun") is True))


def running(c, P, y, key):
    m = c.model(cls=still, defer_output=True, **small(3, 3))
    fresh_folder(c, m)
    dt = c.int("dt", 1, 1000)
    m._dt = dt
    n = 3
    vals = option_values(c)
    If = 1
    args = []
    inside = c.choice("file", [(), ("timesteps" if key != "timesteps" else "time",), ("dryrun",)])
    conf = {"verbose": 0}
    if inside == ("time",):
        conf["time"] = 10**9
    elif inside == ("timesteps",) and key != "timesteps":
        conf["timesteps"] = 1
    elif inside == ("dryrun",):
        conf["dryrun"] = True
    if c.choice("has_If", [False, True]):
        If = vals["If"]
        args += ["--If", If]
    args += ["--" + key, vals[key]]
    dry = inside == ("dryrun",)
    if not dry and c.choice("dry", [False, True]):
        dry = True
        args += ["--dryrun"]
    par = c.choice("par", [None, "all", 1, 4])
    if par:
        args += ["--parallel"] + ([par] if par != "all" else [])
    steps = T = None
    if key == "timesteps":
        steps = vals[key]
    elif inside == ("timesteps",):
        steps = 1
    else:
        T = vals[key] * If * (YEAR if key == "time_years" else 1)
        c.assume(c.le(T, n * dt))
    path = y.dump(conf, write(c, ""))
    make = factory(c, [m])
    old = P.BaseDeltaModel
    P.BaseDeltaModel = make
    try:
        with argv("--config", path, *args), Inline():
            e = c.raises(P.preprocessor_wrapper)
    finally:
        P.BaseDeltaModel = old
    c.check("the command runs", e is None)
    if dry:
        c.check("a dry run makes no model", make.given == [])
        return
    c.check("one model, of the given file", [str(g[0]) for g in make.given] == [path])
    c.check("a parallel job opens its output itself", [g[1] for g in make.given] == [bool(par)])
    done = m.time_iter
    if steps is not None:
        c.observe("done", [done])
        c.check("exactly the number of time steps asked for", c.eq(done, steps))
    else:
        c.check("the end time is reached", c.ge(done * dt, T - dt * 3e-6, tol=1e-7))
        c.check("not a step more than needed", c.Or(c.eq(done, 0), c.lt((done - 1) * dt, T, tol=1e-9)))
    c.check("the model is finalised", isinstance(c.raises(m.update), RuntimeError))


def jobs(c, P, y, file):
    root = os.path.join(c.scratch(), "jobs")
    vals = option_values(c)
    u = [c.real("u%d" % i, 0.5, 3) for i in range(2)]
    path = y.dump(dict(out_dir=root, matrix={"u0": u}, timesteps=2, If=0.5, verbose=0), write(c, ""))
    args, want = [], dict(timesteps=2, If=0.5)
    for k in ("timesteps", "time", "time_years", "If"):
        if c.choice("has_" + k, [False, True]):
            args += ["--" + k, vals[k]]
            want[k] = vals[k]
    with argv("--config", path, *args):
        pp = P.PreprocessorCLI()
    c.check("a job for each value", len(pp.file_list) == 2 and len(pp.config_list) == 2)
    loader = c.mod("shared_tools").custom_yaml_loader()
    for i, f in enumerate(pp.file_list):
        import yaml
        with open(f) as s:
            got = yaml.load(s, Loader=loader)
        for k, v in want.items():
            c.check("the jobs' files hold the options as the numbers they denote: " + k, same(c, got.get(k), v))
            c.check("the jobs' configurations hold them: " + k, same(c, pp.config_list[i].get(k), v))
        c.check("no duration that was not asked for", set(got) & {"timesteps", "time", "time_years"} == set(want) - {"If"})
        c.check("each job has its own value", same(c, got.get("u0"), u[i]))


def malformed(c, P, y, file):
    k = c.choice("key", ["timesteps", "time", "time_years", "If", "parallel", "unknown"])
    v = c.choice("value", ["soon", "1 2", "2.5"] if k in ("timesteps", "parallel") else ["soon", "1 2"])
    path = y.dump(dict(verbose=0, timesteps=1), write(c, ""))
    made = []

    def go():
        err = open(os.devnull, "w")
        with argv("--config", path, "--" + k, v), contextlib.redirect_stderr(err):
            try:
                P.PreprocessorCLI()
                made.append(1)
            except SystemExit:
                pass
            except (ValueError, TypeError):
                pass
    go()
    c.check("an option that is not what it has to be is refused", made == [])
