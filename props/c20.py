"""The state after each time step meets the boundary conditions and the sea level."""
from props.waterlib import *

META = dict(
    bounds="3x5 grids, bed and stage of all (flooding left out) or of chosen (flooding included) cells symbolic, sea "
           "level, rate of rise, time step and channel depth symbolic",
    outside="larger grids (cell-wise except the flooding step, see C08), floating-point rounding",
    assumptions=["values are real numbers (tolerance 1e-4 when replayed)"])


def cases(tier):
    return [dict(name="all-cells", kw=dict(flood=False)), dict(name="with-flooding", kw=dict(flood=True))]


def run(c, flood):
    L, W = 3, 5
    m = c.model(cls=None if flood else no_flooding, warm=STEP, **small(L, W))
    ambient(c, m, ("_SLR",), fields=("uw", "ux", "uy", "qw"), shape=(L, W))
    ct = [[-2, 1, 1, 1, -2], [-1, 0, 0, 0, -1], [-1, -1, -1, -1, -1]]
    m.cell_type = c.const(ct, "int64")
    m.inlet = c.const([1, 2, 3], "int64")
    H = m.H_SL = c.real("H", -16, 16)
    slr = m.SLR = c.real("slr", -1, 1)
    dt = m._dt = c.real("dt", 0.25, 16)
    h0 = m._h0 = c.real("h0", 0.5, 32)
    if flood:
        m.eta = c.const([[-4.0] * W] * L)
        m.stage = c.const([[0.25] * W] * L)
        for i, j in ((0, 1), (1, 1), (2, 2)):
            m.eta[i, j] = c.real("eta%d%d" % (i, j), -64, 32)
            m.stage[i, j] = c.real("stage%d%d" % (i, j), -32, 32)
    else:
        m.eta = c.arr("eta", (L, W), -64, 32)
        m.stage = c.arr("stage", (L, W), -32, 32)
    m.depth[:] = c.np.maximum(m.stage - m.eta, 0)
    eta, stage = grid(m.eta.copy(), L, W), grid(m.stage.copy(), L, W)
    m.finalize_timestep()
    c.observe("eta", m.eta)
    c.observe("stage", m.stage)
    c.observe("depth", m.depth)
    c.check("sea level rises by its rate times the time step", c.eq(m.H_SL, H + slr * dt))
    for i in range(L):
        for j in range(W):
            s, d, e = m.stage[i, j], m.depth[i, j], m.eta[i, j]
            c.check("no stage lies below the step's sea level", c.ge(s, H))
            if not flood:
                c.check("stage is otherwise kept", c.eq(s, c.max(stage[i][j], H)))
            c.check("depth is never negative", c.ge(d, 0))
            if i == 0 and j in (1, 2, 3):
                c.check("inlet cells have the channel depth below their water surface",
                        c.And(c.eq(d, h0), c.eq(e, s - h0)))
            else:
                c.check("depth is stage minus bed, not below zero", c.eq(d, c.max(s - e, 0)))
                c.check("the bed is only reset in the inlet", c.eq(e, eta[i][j]))
