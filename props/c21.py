"""Time keeping, and when records and checkpoints are written."""
from props.iolib import *
from props.lib import small

META = dict(
    bounds="up to 4 (thorough 5) time steps of symbolic, different lengths (1..40 s, whole seconds), symbolic output and "
           "checkpoint intervals (0..100 s), checkpoints on and off; an arbitrary earlier state (time, counters, time since "
           "the last output) continued by one step",
    outside="routing (left out of these steps); non-integer times (rounding of sums)",
    assumptions=["times are whole seconds, so sums are exact"])


def cases(tier):
    out = []
    for ck in (False, True):
        for n in (3, 4) if tier == "quick" else (3, 4, 5):
            out.append(dict(name="run-%d%s" % (n, "-ckpt" if ck else ""), kw=dict(kind="run", n=n, ck=ck)))
        out.append(dict(name="later%s" % ("-ckpt" if ck else ""), kw=dict(kind="later", n=1, ck=ck)))
    return out


def step(c, m, dt):
    m._dt = dt
    m.update()


def run(c, kind, n, ck):
    m = c.model(cls=still, defer_output=True, **small(3, 3, save_eta_grids=True, save_checkpoint=True))
    d = fresh_folder(c, m)
    sdt, cdt = c.int("save_dt", 0, 100), c.int("checkpoint_dt", 0, 100)
    m.save_dt, m.checkpoint_dt = sdt, cdt
    m.save_checkpoint = ck
    start_output(m)
    T = series(c, m, "time")
    c.check("the initial state is the first record, at time zero", c.And(list(T) == [0], c.eq(T.get(0, -1), 0)))
    c.check("the model starts at time zero", c.And(c.eq(m.time, 0), c.eq(m.time_iter, 0), c.eq(m.save_iter, 1)))
    c.check("checkpoints only when asked for", (checkpoint(c, d) is not None) == ck)
    t, since, csince = 0, 0, 0
    rec = 1
    k0 = 0
    if kind == "later":
        t, k0 = c.int("t0", 0, 1000), c.int("k0", 0, 50)
        since, csince = c.int("since", 0, 200), c.int("csince", 0, 200)
        rec = 7
        m._time, m._time_iter = t, k0
        m._save_time_since_data, m._save_time_since_checkpoint = since, csince
        m._save_iter = rec
    for k in range(n):
        dt = c.int("dt%d" % k, 1, 40)
        drop_checkpoint(d)
        before = set(series(c, m, "time"))
        step(c, m, dt)
        t, since, csince = t + dt, since + dt, csince + dt
        T = series(c, m, "time")
        new = sorted(set(T) - before)
        c.observe("t", [m.time, m.time_iter, m.save_iter, len(new)])
        c.check("time advances by the time step", c.eq(m.time, t))
        c.check("steps are counted", c.eq(m.time_iter, k0 + k + 1))
        due = c.ge(since, sdt, exact=True)
        c.check("a record is written exactly when the output interval has passed", c.Iff(due, len(new) > 0))
        if new:
            c.check("records are numbered consecutively", new == [rec])
            c.check("a record carries the model time", c.eq(T[new[0]], t))
            c.check("record and grid belong together", sorted(series(c, m, "eta"))[-1] == new[-1])
            rec, since = rec + 1, 0
        c.check("the number of records is counted", c.eq(m.save_iter, rec))
        c.check("the time since the last record", c.eq(m.save_time_since_data, since))
        p = checkpoint(c, d)
        cdue = c.ge(csince, cdt, exact=True)
        if ck:
            c.check("a checkpoint is written exactly when its interval has passed", c.Iff(cdue, p is not None))
            if p is not None:
                c.check("a checkpoint holds the current time and counters",
                        c.And(c.eq(p["time"], t), c.eq(p["time_iter"], k0 + k + 1), c.eq(p["save_iter"], rec),
                              c.eq(p["save_time_since_data"], since)))
                csince = 0
            c.check("the time since the last checkpoint", c.eq(m.save_time_since_checkpoint, csince))
        else:
            c.check("checkpoints only when asked for", p is None)
