"""The new water surface built from the parcels' walks respects sea level, bed and the visit averages."""
from props.waterlib import *

META = dict(
    bounds="4x4 grid, one to three recorded walks over it, symbolic bed, depth, velocity, discharge direction, sea "
           "level; stage under-relaxation with symbolic stage and smoothed surface; final stage and depth for every "
           "symbolic stage and bed",
    outside="larger grids (the construction is cell-wise), other walks, floating-point rounding",
    assumptions=["values are real numbers (tolerance 1e-4 when replayed)"])


def cases(tier):
    out = [dict(name="surface-%d" % k, kw=dict(kind="surface", k=k)) for k in range(3 if tier == "quick" else 5)]
    out += [dict(name="finalize-%d" % k, kw=dict(kind="final", k=k)) for k in (0, 1)]
    return out


WALKS = [
    [[1, 5, 9, 13], [2, 6, 9, 13], [1, 6, 11, 0]],
    [[1, 5, 10, 15], [2, 5, 9, 14], [2, 6, 10, 13]],
    [[2, 6, 5, 4], [2, 6, 5, 9], [1, 0, 0, 0]],
    [[1, 5, 6, 10], [1, 5, 6, 11], [1, 5, 9, 14]],
    [[1, 6, 5, 10], [2, 5, 6, 9], [2, 5, 6, 9]],
]
CT = [[-2, 1, 1, -2], [-1, 0, 0, -1], [-1, 0, 0, -1], [-1, -1, -1, -1]]


def run(c, kind, k):
    L = W = 4
    if kind == "final":
        m = c.model(warm=WATER, **small(L, W, itermax=1))
        ambient(c, m, ("_time_iter",))
        eta, stage = c.arr("eta", (2, 2), -64, 32), c.arr("stage", (2, 2), -32, 32)
        m.H_SL = H = c.real("H", -16, 16)
        m.eta[1:3, 1:3] = eta
        m.stage[1:3, 1:3] = stage
        m._time_iter = k
        m.finalize_water_iteration(0)
        c.observe("stage", m.stage)
        c.observe("depth", m.depth)
        for i in range(2):
            for j in range(2):
                s, d = m.stage[i + 1, j + 1], m.depth[i + 1, j + 1]
                c.check("the water surface never lies below sea level, and is otherwise kept",
                        c.eq(s, c.max(stage[i, j], H)))
                c.check("depth is the surface minus the bed and never negative", c.eq(d, c.max(s - eta[i, j], 0)))
        for i in range(L):
            for j in range(W):
                c.check("no depth is negative anywhere", c.ge(m.depth[i, j], 0))
                c.check("no stage is below sea level anywhere", c.ge(m.stage[i, j], H))
        c.check("the bed is not changed by water", c.eq(m.eta[1:3, 1:3], eta))
        return
    m = c.model(cls=quiet_surface, warm=WATER, **small(L, W, Np_water=3))
    ambient(c, m, ("_S0",))
    m.cell_type = c.const(CT, "int64")
    m.free_surf_walk_inds = c.const(WALKS[k], "int64")
    m.free_surf_flag = c.const([1, 1, 1], "int64")
    H = m.H_SL = c.real("H", -16, 16)
    m.uw[:] = c.const([[1.0] * W] * L)
    m.ux[:] = c.const([[0.75, 0.5, 0.25, 0.5]] * L)
    m.uy[:] = c.const([[0.25] * W] * L)
    m.depth[:] = c.const([[1.0] * W] * L)
    pts = [(1, 1), (1, 2), (2, 1), (2, 2)]
    for p in pts:
        m.eta[p] = c.real("eta%d%d" % p, -32, 32)
        m.depth[p] = c.real("d%d%d" % p, 0, 32)
    eta, depth = grid(m.eta.copy(), L, W), grid(m.depth.copy(), L, W)
    m.compute_free_surface()
    c.observe("Hnew", m.Hnew)
    c.observe("visit", m.sfc_visit)
    V, S = grid(m.sfc_visit, L, W), grid(m.sfc_sum, L, W)
    for i in range(L):
        for j in range(W):
            h = m.Hnew[i, j]
            c.check("the new surface is nowhere below sea level", c.ge(h, H))
            c.check("the new surface is nowhere below the bed", c.ge(h, eta[i][j]))
            low = c.max(H, eta[i][j])
            c.check("visited cells take the mean of the elevations their parcels expect",
                    c.Implies(c.gt(V[i][j], 0.5), c.eq(h * V[i][j], c.max(S[i][j], low * V[i][j]))))
            c.check("unvisited cells keep their surface",
                    c.Implies(c.lt(V[i][j], 0.5), c.eq(h, c.max(eta[i][j] + depth[i][j], low))))
