"""Jobs that fail."""
import contextlib
import logging
import os

from props.iolib import *
from props.joblib import *
from props.lib import small

META = dict(
    bounds="3 jobs of 2 steps each, any of which may fail with a runtime or value error at any step or on finalising, "
           "serial and parallel with 1 to 3 processes or what 1 to 8 cores allow",
    outside="other exceptions in serial jobs (they end the run); processes killed from outside",
    assumptions=["routing is left out of the steps", "parallel jobs run in this process, one after the other"])


def cases(tier):
    out = []
    for par in (False, True):
        p = "-parallel" if par else ""
        out.append(dict(name="step" + p, kw=dict(kind="step", par=par)))
        out.append(dict(name="finalize" + p, kw=dict(kind="finalize", par=par)))
    out.append(dict(name="other-parallel", kw=dict(kind="other", par=True)))
    out.append(dict(name="parallel-resume", kw=dict(kind="resume", par=True)))
    return out


@contextlib.contextmanager
def cpus(n):
    import multiprocessing as mp
    old = mp.cpu_count
    mp.cpu_count = lambda: n
    try:
        yield
    finally:
        mp.cpu_count = old


def failing(c):
    class Model(c.pkg.DeltaModel):
        fail = None          # (step, exception)
        fail_end = None

        def solve_water_and_sediment_timestep(self):
            self.eta0 = c.np.copy(self.eta)
            if self.fail is not None and self.time_iter == self.fail[0]:
                raise self.fail[1]("trouble")

        def finalize(self):
            self.ended = getattr(self, "ended", 0) + 1
            super().finalize()
            if self.fail_end is not None:
                raise self.fail_end("late trouble")
    return Model


def run(c, kind, par):
    P = c.mod("preprocessor")
    ms, hs, ds = [], [], []
    for i in range(3):
        m = c.model(cls=failing, defer_output=True, **small(3, 3, save_eta_grids=True, save_checkpoint=True))
        ds.append(fresh_folder(c, m))
        m._dt = 1.0
        m.save_dt = m.checkpoint_dt = 1.0
        if not par:
            start_output(m)
        hs.append(listen(m))
        ms.append(m)
    which = c.choice("which", [0, 1, 2])
    exc = c.choice("exc", [RuntimeError, ValueError])
    step = 2
    if kind == "step":
        step = c.choice("step", [0, 1, 2])
        if step < 2:
            ms[which].fail = (step, exc)
    elif kind == "other":
        step = c.choice("step", [0, 1])
        ms[which].fail = (step, KeyError)
    elif kind == "finalize":
        ms[which].fail_end = exc
    elif kind == "resume":
        m = ms[which]
        m._checkpoint_dt = 100.
        start_output(m)
        m.update()
        m.output_netcdf.close()
        del m.output_netcdf
        m.resume_checkpoint = ds[which]
        m.load_checkpoint(defer_output=True)       # as the constructor does
    n = c.choice("processes", [True, 1, 2, 3]) if par else False
    cores = c.choice("cores", [1, 2, 3, 4, 8]) if n is True and kind != "step" else 8
    f = write(c, "out_dir: %s\nset:\n  - {seed: 1}\n  - {seed: 2}\n  - {seed: 3}\n" % os.path.join(c.scratch(), "jobs%d" % len(
        os.listdir(c.scratch()))))
    make = factory(c, ms)
    kw = dict(timesteps=2)
    if par:
        kw["parallel"] = n

    with Inline() as inl, cpus(cores):
        pp = P.Preprocessor(f, **kw)
        e = c.raises(lambda: pp.run_jobs(DeltaModel=make))
    c.check("a failing job does not stop the others", e is None)
    c.check("one model per job", len(make.given) == 3 and len(set(str(g[0]) for g in make.given)) == 3)
    c.observe("steps", [m.time_iter for m in ms])
    for i, m in enumerate(ms):
        bad = i == which
        if kind == "resume" and bad:
            c.check("a resumed parallel job runs on from the checkpoint", c.And(c.eq(m.time, 2.0), c.eq(m.time_iter, 2)))
            c.check("a resumed parallel job continues in its records", c.eq(m.save_iter, 3))
            continue
        c.check("jobs run to their end or to their failure", c.eq(m.time_iter, step if bad else 2))
        if kind == "other" and bad:
            continue
        c.check("every job's model is finalised once", getattr(m, "ended", 0) == 1)
        errs = [x for x in hs[i].got if x[0] >= logging.ERROR]
        wrong = bad and (kind == "finalize" or step < 2)
        c.check("failures, and only they, are logged as errors", bool(errs) == wrong)
        if wrong:
            c.check("the log names the failure", any("trouble" in x[1] for x in errs))
        c.check("the start of a job is checkpointed", checkpoint(c, ds[i]) is not None)
        if par:
            c.check("a parallel job starts its output itself", c.eq(m.save_iter, 1 + m.time_iter))
    if par:
        q = inl.queues[0].got
        for i in range(3):
            mine = [(x["stage"], x["code"]) for x in q if x["job"] == i]
            bad = i == which
            want = [(0, 0), (1, 1 if bad and kind == "step" and step < 2 else 0), (2, 1 if bad and kind == "finalize" else 0)]
            if kind == "other" and bad:
                continue
            c.check("every parallel job reports its stages", mine == want)
        s = inl.semas[0]
        c.check("every slot is freed again", c.eq(s.free, s.n))
        c.check("at most the configured number of processes", c.le(s.n, 3 if n is True else n))
        c.check("at least one process", c.ge(s.n, 1))
        c.check("without a number all cores but one are used", c.eq(s.n, c.min(3, c.max(1, cores - 1)))) if n is True else None

