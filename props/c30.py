"""How long a job runs."""
from props.iolib import still, fresh_folder
from props.joblib import *
from props.lib import small

META = dict(
    bounds="durations of up to 6 (thorough 16) time steps of symbolic length, symbolic intermittency in (0,1], symbolic start "
           "time (a resumed run), all combinations of timesteps, time and time_years from file and arguments; serial and "
           "parallel jobs",
    outside="longer runs; rounding of accumulated time beyond a millionth of a step",
    assumptions=["routing is left out of the steps", "parallel jobs run in this process, one after the other"])

YEAR = 86400 * 365.25


def cases(tier):
    n = 6 if tier == "quick" else 16
    out = []
    for par in (False, True):
        p = "-parallel" if par else ""
        for kind in ("timesteps", "time", "time_years"):
            out.append(dict(name=kind + p, kw=dict(kind=kind, par=par, n=n)))
        out.append(dict(name="precedence" + p, kw=dict(kind="several", par=par, n=2)))
        out.append(dict(name="none" + p, kw=dict(kind="none", par=par, n=2)))
    out.append(dict(name="file", kw=dict(kind="file", par=False, n=3)))
    out.append(dict(name="argument over file", kw=dict(kind="both", par=False, n=3)))
    out.append(dict(name="dryrun", kw=dict(kind="dry", par=False, n=3)))
    return out


def go(c, m, par, text, **kw):
    """Run one job; returns the exception of its set-up, if any."""
    P = c.mod("preprocessor")
    f = write(c, text)
    make = factory(c, [m])
    if par:
        kw["parallel"] = True

    def jobs():
        with Inline():
            P.Preprocessor(f, **kw).run_jobs(DeltaModel=make)
    return c.raises(jobs), make


def run(c, kind, par, n):
    m = c.model(cls=still, defer_output=True, **small(3, 3))
    fresh_folder(c, m)
    dt = c.int("dt", 1, 1000)
    m._dt = dt
    t0 = c.int("t0", 0, 10**6)
    m._time = t0
    if not par:
        m._resume_checkpoint = c.bool("resumed")
    k0 = m.time_iter
    kw, text, T = {}, "verbose: 0\n", None
    steps = None
    If = 1
    if kind in ("time", "time_years", "several", "timesteps"):
        if c.choice("has_If", [False, True]):
            If = c.real("If", 0, 1, lo_open=True)
            kw["If"] = If
    if kind == "timesteps":
        steps = c.int("timesteps", 0, n)
        kw["timesteps"] = steps
    elif kind in ("time", "time_years"):
        v = c.real(kind, 0, None)
        kw[kind] = v
        T = v * If * (YEAR if kind == "time_years" else 1)
        c.assume(c.le(T, n * dt))
    elif kind == "several":
        have = c.choice("have", [(1, 1, 1), (1, 1, 0), (1, 0, 1), (0, 1, 1)])
        vals = dict(timesteps=c.int("timesteps", 0, n), time=c.real("time", 0, None),
                    time_years=c.real("time_years", 0, None))
        for h, key in zip(have, vals):
            if h:
                kw[key] = vals[key]
        if have[0]:
            steps = vals["timesteps"]
        else:
            T = vals["time"] * If
        c.assume(c.le(vals["time"] * If, n * dt))
        c.assume(c.le(vals["time_years"] * If * YEAR, n * dt))
    elif kind == "file":
        text += c.choice("text", ["timesteps: 3\n", "timesteps: 0\n", "time: 2500.\n", "time: 2500.\nIf: 0.5\n",
                                  "time_years: 1e-4\nIf: 0.25\n", "timesteps: 2\ntime: 1e9\n"])
        if "timesteps: 3" in text:
            steps = 3
        elif "timesteps: 0" in text:
            steps = 0
        elif "timesteps: 2" in text:
            steps = 2
        else:
            T = 2500. if text.endswith("2500.\n") else 1250. if "2500" in text else 0.25e-4 * YEAR
            c.assume(c.le(T, n * dt))
    elif kind == "both":
        text += "timesteps: 1\nIf: 0.5\n"
        steps = c.int("timesteps", 0, n)
        kw["timesteps"] = steps
    elif kind == "dry":
        kw["timesteps"], kw["dryrun"] = c.int("timesteps", 0, n), True
        steps = 0
    else:
        kw["If"] = 1
    e, make = go(c, m, par, text, **kw)
    done = m.time_iter - k0
    if steps is not None:
        c.observe("done", [done, m.time])
    if kind == "none":
        c.check("a job without duration is refused", isinstance(e, ValueError))
        c.check("nothing runs", c.eq(done, 0))
        return
    c.check("the job runs", e is None)
    if kind == "dry":
        c.check("a dry run makes and runs no model", make.given == [])
        c.check("nothing runs", c.eq(done, 0))
        return
    c.check("one model", len(make.given) == 1)
    c.check("a parallel job opens its output itself", [g[1] for g in make.given] == [par])
    if steps is not None:
        c.check("exactly the configured number of time steps", c.eq(done, steps))
    else:
        c.check("the end time is reached", c.ge(done * dt, T - dt * 3e-6, tol=1e-7))
        c.check("not a step more than needed", c.Or(c.eq(done, 0), c.lt((done - 1) * dt, T, tol=1e-9)))
    c.check("time advanced by the steps", c.eq(m.time, t0 + done * dt))
    c.check("the model is finalised", isinstance(c.raises(m.update), RuntimeError))
