"""Finished models."""
import os

from props.iolib import *
from props.lib import small

META = dict(
    bounds="models of 0 to 3 steps with any output interval and any bed, with and without output file",
    outside="files closed behind the model's back",
    assumptions=["routing is left out of the steps"])


def cases(tier):
    return [dict(name="output", kw=dict(out=True)), dict(name="no-output", kw=dict(out=False))]


def hooked(c):
    """Counts the calls of its hooks."""
    class Model(still(c)):
        calls = 0

        def _count(self, *a, **k):
            self.calls += 1
        hook_solve_water_and_sediment_timestep = hook_apply_subsidence = hook_finalize_timestep = _count
        hook_output_data = hook_output_checkpoint = hook_route_water = _count
    return Model


def run(c, out):
    m = c.model(cls=hooked, defer_output=True, **small(3, 3, save_eta_grids=out, save_checkpoint=True))
    d = fresh_folder(c, m)
    m.save_dt = m.checkpoint_dt = c.int("save_dt", 0, 50)
    start_output(m)
    m._dt = c.int("dt", 1, 20)
    n = c.int("steps", 0, 3)
    k = 0
    while k < n:
        m.update()
        k += 1
    m.eta = c.arr("eta", (3, 3), -10, 10)
    st = lambda: [m.eta, m.stage, m.depth, m.time, m.time_iter, m.save_iter, m.H_SL, m.save_time_since_data,
                  m.save_time_since_checkpoint, m.calls]
    before = st()
    T = len(series(c, m, "time")) if out else 0
    c.check("not finalised before", m._is_finalized is False)
    e = c.raises(m.finalize)
    c.check("finalising works once", e is None)
    if out:
        c.check("the output file is closed", not m.output_netcdf.isopen())
    drop_checkpoint(d)
    for what in c.choice("then", [("update",), ("finalize",), ("update", "finalize", "update")]):
        e = c.raises(getattr(m, what))
        c.check("a finalised model refuses to %s" % what, isinstance(e, RuntimeError))
    c.check("and does not change", c.And([c.eq(a, b) for a, b in zip(st(), before)]))
    c.check("and writes no checkpoint", checkpoint(c, d) is None)
    if out:
        ds = c.mod("init_tools").Dataset(os.path.join(d, "pyDeltaRCM_output.nc"), "r")
        m.output_netcdf = ds
        S = series(c, m, "time")
        c.check("all records are in the file", sorted(S) == list(range(T)) and T >= 1)
        c.check("the records belong to the run", c.And([c.le(S[i], before[3]) for i in S]))
        ds.close()
    c.observe("t", [m.time, m.save_iter])
