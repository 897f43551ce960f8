"""Sediment parcels choose their next cell from a valid distribution over admissible neighbours."""
import numpy as np

from props.lib import NB, by_name, nbrs, grid, small

META = dict(
    bounds="one cell with nine symbolic neighbour depths (0..64 m), cell types (-2..1), inertial terms (0..64) and "
           "weight modifiers (0..16), exponents 1 and 2 (thorough 1/2, 3), first row and other rows; and one real step "
           "of a sand and of a mud parcel on 3x3 and 4x3 grids with symbolic discharge, depths, land mask and draw; two parcels one after another",
    outside="other exponents; random draws of exactly 0; floating-point rounding",
    assumptions=["values are real numbers (rounding abstracted, tolerance 1e-4 when replayed)",
                 "the cell has at least one neighbour inside the grid that is not land",
                 "draws of the generator lie strictly between 0 and 1"])
DRY = 0.125


def cases(tier):
    out = []
    q = tier == "quick"
    for row in (0, 1):
        for th in (1, 2) if q else (1, 2, 0.5, 3):
            out.append(dict(name="cell-row%d-theta%s" % (row, th), kw=dict(kind="cell", row=row, theta=th),
                            opt=dict(max_time=100 if q else 900)))
    for kind in ("sand", "mud"):
        for where in ("inlet", "mid") if q else ("inlet", "mid", "edge"):
            out.append(dict(name="step-%s-%s" % (kind, where), kw=dict(kind=kind, row=0, theta=1, where=where),
                            opt=dict(max_time=100 if q else 900)))
    for kind in ("sand", "mud"):
        for side in ("mid", "left", "right"):
            out.append(dict(name="follow-%s-%s" % (kind, side), kw=dict(kind=kind, row=0, theta=1, where="follow", side=side),
                            opt=dict(max_time=100 if q else 900)))
    return out


def run(c, kind, row, theta, where=None, side=None):
    if where == "follow":
        return follow(c, kind, side)
    if kind != "cell":
        return step(c, kind, where)
    st = c.mod("sed_tools")
    m = c.model(**small())
    depth = c.arr("depth", (9,), 0, 64)
    ct = c.arr("ct", (9,), -2, 1, dtype="int64")
    itr = c.arr("int", (9,), 0, 64)
    mod = c.arr("mod", (9,), 0, 16)
    ins = [i for i in range(9) if i != 4 and (row or i > 2)]
    c.assume(c.Or(*[c.ne(ct[i], -2, exact=True) for i in ins]))
    w = by_name(st._get_weight_at_cell_sediment, ind=(row, 3), weight_int=itr.copy(), depth_nbrs=depth.copy(),
                ct_nbrs=ct.copy(), dry_depth=c.scalar(DRY), theta=c.scalar(theta), distances_flat=m.distances_flat,
                mod_sed_weight=mod.copy())
    c.observe("w", w)
    land = [c.eq(ct[i], -2, exact=True) for i in range(9)]
    dry = [c.le(depth[i], DRY, exact=True) for i in range(9)]
    for i in range(9):
        c.check("weights are non-negative", c.ge(w[i], 0))
        c.check("no weight into land", c.Implies(land[i], c.eq(w[i], 0)))
        if i != 4 and i not in ins:
            c.check("no weight outside the grid", c.eq(w[i], 0))
    c.check("a parcel never stays in place", c.eq(w[4], 0))
    c.check("weights sum to one", c.eq(c.sum(w), 1))
    flow = {i: c.And(c.Not(land[i]), c.Not(dry[i]), c.gt(itr[i], 0, exact=True), c.gt(mod[i], 0, exact=True)) for i in ins}
    anyf = c.Or(*flow.values())
    d = (lambda i: depth[i] * mod[i]) if theta == 1 else (lambda i: depth[i] * mod[i] * depth[i] * mod[i])
    r2 = 2 ** 0.5
    dist = [r2 if a and b else 1.0 for a, b in NB]
    for i in ins:
        c.check("weight goes exactly where wet flow leads", c.Implies(anyf, c.Iff(flow[i], c.gt(w[i], 0))))
        c.check("without flow every non-land neighbour can be reached",
                c.Implies(c.And(c.Not(anyf), c.Not(land[i])), c.gt(w[i], 0)))
    for a, b in zip(ins, ins[1:] + ins[:1]):
        if theta in (1, 2):
            c.check("weights are proportional to the inertial term times depth",
                    c.Implies(c.And(flow[a], flow[b]), c.eq(w[a] * d(b) * itr[b], w[b] * d(a) * itr[a])))
        c.check("without flow weights fall off with distance",
                c.Implies(c.And(c.Not(anyf), c.Not(land[a]), c.Not(land[b])), c.eq(w[a] * dist[a], w[b] * dist[b])))


def step(c, kind, where):
    """One step of a real parcel: where does it end up?"""
    L, W = (3, 3)
    m = c.model(warm=[("=inlet", np.array([1])), ("route_all_%s_parcels" % kind,)], **small(L, W, Np_sed=1, f_bedload=1.0 if kind == "sand" else 0.0, stepmax=1))
    r0, c0 = {"inlet": (0, 1), "mid": (0, 1), "edge": (0, 0)}[where]
    depth0 = [[4.0, 3.0, 4.0], [2.0, 1.0, 1.5], [1.0, 3.0, 2.5]]
    ct0 = [[1, 1, 1], [0, 0, 0], [-1, 0, -1]]
    depth, ct = c.const(depth0), c.const(ct0, "int64")
    qx, qy = c.const([[0.0] * W] * L), c.const([[0.0] * W] * L)
    mod = c.const([[1.0] * W] * L)
    qx[r0, c0] = c.real("qx", -32, 32)
    qy[r0, c0] = c.real("qy", -32, 32)
    if where == "inlet":
        for p in ((0, 2), (1, 1), (0, 0)):
            ct[p] = c.choice("ct%d%d" % p, [-2, 0])
        depth[1, 0] = c.choice("dry10", [0.0625, 2.0])
        depth[1, 2] = c.real("d12", 0, 32)
    else:
        depth[1, 1] = c.real("d11", 0, 32)
        depth[0, 0] = c.real("d00", 0, 32)
        mod[1, 1] = c.real("m11", 0, 2)
        ct[1, 2] = c.choice("ct12", [-2, 0])
    m.eta[:] = c.const([[-4.0] * W] * L)
    m.stage[:] = c.const([[0.0] * W] * L)
    m.depth, m.cell_type, m.qx, m.qy = depth.copy(), ct.copy(), qx.copy(), qy.copy()
    m.mod_sed_weight = mod.copy()
    m.uw[:] = c.const([[0.0] * W] * L)      # no flow velocity: sediment settles where the parcel arrives
    m.qs[:] = 0
    m.Vp_dep_sand[:] = 0
    m.Vp_dep_mud[:] = 0
    m.inlet = c.const([c0], "int64")
    m.dry_depth = c.scalar(DRY)
    m.theta_sand = m.theta_mud = c.scalar(1)
    m.init_sediment_routers()
    c.prime_rng()
    eta0 = m.eta.copy()
    if kind == "sand":
        m.route_all_sand_parcels()
        dep = m.Vp_dep_sand
    else:
        m.route_all_mud_parcels()
        dep = m.Vp_dep_mud
    D, E, E0 = grid(dep, L, W), grid(m.eta, L, W), grid(eta0, L, W)
    c.observe("dep", dep)
    G = dict(d=grid(depth, L, W), t=grid(ct, L, W), m=grid(mod, L, W))
    moved = []
    for i in range(L):
        for j in range(W):
            here = c.gt(D[i][j], 0)
            moved.append(here)
            near = abs(i - r0) <= 1 and abs(j - c0) <= 1 and (i, j) != (r0, c0)
            if not near:
                c.check("a step leads to a neighbouring cell", c.Not(here))
                continue
            c.check("a step never enters land", c.Implies(here, c.ne(G["t"][i][j], -2, exact=True)))
            dist2 = 2 if i != r0 and j != c0 else 1
            lead = qx[r0, c0] * (i - r0) + qy[r0, c0] * (j - c0)
            others = []
            for a in range(L):
                for b in range(W):
                    if abs(a - r0) <= 1 and abs(b - c0) <= 1 and (a, b) not in ((r0, c0), (i, j)):
                        others.append(c.And(c.ne(G["t"][a][b], -2, exact=True), c.gt(G["d"][a][b], DRY, exact=True),
                                            c.gt(G["m"][a][b], 0, exact=True),
                                            c.gt(qx[r0, c0] * (a - r0) + qy[r0, c0] * (b - c0), 0)))
            c.check("a parcel steps downstream into wet cells whenever it can",
                    c.Implies(c.And(here, c.Or(*others)),
                              c.And(c.gt(lead, 0, exact=True), c.gt(G["d"][i][j], DRY, exact=True),
                                    c.gt(G["m"][i][j], 0, exact=True))))
    c.check("a parcel takes its step", c.Or(*moved))


def follow(c, kind, side):
    """Two parcels set out one after the other: the second sees the depths the first left."""
    from props.sedlib import prepare, route
    L, W = 3, 4
    # inlet column, column of the shallow cell, column of the deep one
    a, sh, dp = dict(mid=(1, 1, 2), left=(1, 0, 1), right=(2, 3, 2))[side]
    ct = [[-2] * W, [-2] * W, [-1] * W]
    ct[0][a], ct[1][sh], ct[1][dp] = 1, 0, 0
    m = prepare(c, L, W, ct, 1, n=2, inlet=(a,), Vp=c.scalar(1000.0))
    d = c.real("d", 0.125, 0.25, lo_open=True)
    m._lambda = c.scalar(1)
    m.qx[0, a] = 1.0
    m.qy[0, a] = -0.5 if side == "left" else 0.5
    m.depth[1, sh] = d
    m.eta[1, sh] = -d
    m.eta[1, dp] = -1.0
    m.init_sediment_routers()
    c.prime_rng()
    route(c, m, kind)
    c.observe("eta", m.eta)
    left, other = -m.eta[1, sh], -m.eta[1, dp]
    # each visit fills a quarter of the water column
    c.check("each parcel fills a quarter of the water of the cell it steps to", c.Or(
        c.And(c.eq(left, d * 0.5625), c.eq(other, 1)), c.And(c.eq(left, d * 0.75), c.eq(other, 0.75)),
        c.And(c.eq(left, d), c.eq(other, 0.5625))))
    c.check("a parcel does not follow into a cell its predecessor has dried up",
            c.Implies(c.le(0.75 * d, DRY), c.Not(c.eq(left, d * 0.5625))))
