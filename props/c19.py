"""Subsidence lowers exactly the basin, from the configured time on, at the configured rate."""
from props.lib import STEP, ambient, small

META = dict(
    bounds="4x4 and 5x5 grids, inlet length 1-3 cells, symbolic bed, rate (-1..1), start time, current time, time step "
           "and rescaled time step (set directly, or following a changed inflow velocity); subsidence on and off",
    outside="subsidence fields set by a subclass, larger grids (cell-wise), floating-point rounding",
    assumptions=["values are real numbers (tolerance 1e-4 when replayed)"])


def cases(tier):
    return [dict(name="L0%d%s" % (l0, "-rescaled" if r else ""), kw=dict(on=True, l0=l0, rescale=r))
            for l0 in (1, 2, 3) for r in (False, True)] + [dict(name="off", kw=dict(on=False, l0=1, rescale=False)),
                                                          dict(name="off-rescaled", kw=dict(on=False, l0=1, rescale=True)),
                                                          dict(name="new-inflow", kw=dict(on=True, l0=1, rescale="inflow"))]


def run(c, on, l0, rescale):
    n = 12
    m = c.model(warm=STEP, **small(n, 5, toggle_subsidence=on, subsidence_rate=0.5, start_subsidence=100, L0_meters=4.0 * l0))
    c.check("inlet length", c.eq(m.L0, l0))
    rate = m._subsidence_rate = c.real("rate", -1, 1)
    dt = m._dt = c.real("dt", 0.25, 64)
    m.init_subsidence()
    if rescale == "inflow":
        m._u0 = c.real("u0", 0.25, 4)
        m.create_boundary_conditions()
        dt = m._dt
    elif rescale:
        dt = c.real("dt2", 0.25, 64)
        m.time_step = dt
    ambient(c, m, ("_time", "_toggle_subsidence", "_subsidence_rate", "_start_subsidence"), fields=("depth",), shape=(n, 5))
    t = m._time = c.real("time", 0, 1000)
    t0 = m._start_subsidence = c.real("start", 0, 1000)
    pts = [(0, 2), (l0 - 1, 0), (l0, 0), (l0, 2), (n - 1, 4)]
    S = {}
    for i, j in pts:
        S[i, j] = m.eta[i, j] = c.real("eta%d_%d" % (i, j), -8, 4)
    old = m.eta.copy()
    st = m.stage.copy()
    m.apply_subsidence()
    c.observe("eta", m.eta)
    act = c.ge(t, t0, exact=True)
    for i in range(n):
        for j in range(5):
            e = m.eta[i, j]
            if not on or i < l0:
                c.check("the inlet rows (or a model without subsidence) never subside", c.eq(e, old[i, j]))
            else:
                c.check("the basin sinks by rate times time step once subsidence has started",
                        c.Implies(act, c.eq(e, old[i, j] - rate * dt)))
                c.check("nothing sinks before the start time", c.Implies(c.Not(act), c.eq(e, old[i, j])))
            c.check("subsidence leaves the water surface alone", c.eq(m.stage[i, j], st[i, j]))
