"""Discharge bookkeeping of walking water parcels."""
from props.lib import small
from props import c03

META = dict(
    bounds="1 parcel for up to 3 steps and 2 parcels for up to 2 steps on 4x4 grids, every sequence of random draws",
    outside="longer walks and more parcels; where the discharge of a relocated step lies (its total is checked); the "
            "inlet cells on their own (their discharge is prescribed afterwards)",
    assumptions=["draws of the generator lie strictly between 0 and 1", "values are real numbers"])


def cases(tier):
    return [x for x in c03.cases(tier) if not x["kw"]["sym"] and x["kw"].get("short") in (None, False, "own")]


def run(c, lay, n, steps, sym, short=False):
    m, L, W, ct, inlet = c03.setup(c, lay, n, steps, sym, short)
    Q = m.Qp_water = c.real("Qp", 0, 1024, lo_open=True)
    m.init_water_iteration()
    c.prime_rng()
    m.run_water_iteration()
    for f in ("qxn", "qyn", "qwn"):
        c.observe(f, getattr(m, f))
    R = m.free_surf_walk_inds
    r2 = 2 ** 0.5
    half = Q / (4.0 * 2)
    X, Y, A = ({k: 0 for k in range(L * W)} for _ in range(3))
    for p in range(n):
        path = [R[p, k].__index__() for k in range(R.shape[1])]
        path = [x for x in path if x]
        for a, b in zip(path, path[1:]):
            di, dj = b // W - a // W, b % W - a % W
            dist = r2 if di and dj else 1.0
            times = 2 if ct[b // W][b % W] == -1 else 1
            for x, t in ((a, 1), (b, times)):
                X[x] = X[x] + t * di / dist
                Y[x] = Y[x] + t * dj / dist
                A[x] = A[x] + half * t
    ins = lambda x: x < W and x in inlet
    total = c.sum([m.qwn[i, j] for i in range(L) for j in range(W) if not ins(i * W + j)])
    halves = 0
    for p in range(n):
        path = [R[p, k].__index__() for k in range(R.shape[1])]
        for a, b in zip(path, path[1:]):
            if a and b:              # a step (relocated afterwards or not) leaves a and enters a cell
                halves += (not ins(a)) + (not ins(b)) + (ct[b // W][b % W] == -1)
    c.check("every step adds a whole parcel discharge beyond the inlet, and the last one half more at the boundary",
            c.eq(total, half * halves))
    if lay == 3:
        return
    for x in range(L * W):
        i, j = x // W, x % W
        if i == 0 and j in inlet:
            continue
        c.check("each passage adds half the parcel's discharge on entering and half on leaving",
                c.eq(m.qwn[i, j], A[x]))
        c.check("each passage adds its unit direction to the cells it leaves and enters",
                c.And(c.eq(m.qxn[i, j], X[x]), c.eq(m.qyn[i, j], Y[x])))
