"""Water-surface elevations expected along parcel walks."""
from props.waterlib import *

META = dict(
    bounds="4x4 grid, one to three walks of up to 5 cells, completed or not, qualified or not, with symbolic "
           "velocities, depths, sea level and slope on the cells walked",
    outside="longer walks (the recursion is one step up the walk); floating-point rounding",
    assumptions=["values are real numbers (tolerance 1e-4 when replayed)"])
CT = [[-2, 1, 1, -2], [-1, 0, 0, -1], [-1, 0, 0, -1], [-1, -1, -1, -1]]
W_ = [
    [[1, 5, 9, 13, 0]],
    [[2, 5, 6, 10, 15]],
    [[1, 6, 9, 0, 0], [2, 6, 11, 0, 0]],
    [[1, 5, 8, 0, 0], [1, 5, 9, 13, 0], [2, 6, 9, 13, 0]],
    [[1, 5, 6, 5, 9]],
    [[1, 5, 6, 5, 8]],
]


def cases(tier):
    return [dict(name="walks-%d" % k, kw=dict(k=k), opt=dict(max_time=100 if tier == "quick" else 900))
            for k in range(len(W_))]


def run(c, k):
    L = W = 4
    m = c.model(cls=quiet_surface, warm=WATER, **small(L, W, Np_water=len(W_[k])))
    ambient(c, m, ("_S0",))
    walks = W_[k]
    m.cell_type = c.const(CT, "int64")
    m.free_surf_walk_inds = c.const(walks, "int64")
    flags = [c.choice("flag%d" % p, [0, 1]) for p in range(len(walks))]
    m.free_surf_flag = c.const(flags, "int64")
    H = m._H_SL = c.real("H", -16, 16)
    S0 = m._S0 = c.real("S0", 0, 1)
    u0, h0, dx = 1.0, 4.0, 4.0
    m._u0, m.h0, m._dx = c.scalar(u0), c.scalar(h0), c.scalar(dx)
    cells = sorted(set(x for w in walks for x in w if x))
    U, UX, UY, D = {}, {}, {}, {}
    for n, x in enumerate(cells):
        p = (x // W, x % W)
        if n < 4:
            U[x] = m.uw[p] = c.real("u%d" % x, 0, 2)
            D[x] = m.depth[p] = c.real("d%d" % x, 0, 32)
            UX[x] = m.ux[p] = c.real("ux%d" % x, -2, 2)
            UY[x] = m.uy[p] = c.real("uy%d" % x, -2, 2)
        else:
            for f, v, dd in ((m.uw, 1.0, U), (m.depth, 2.0, D), (m.ux, 0.75, UX), (m.uy, -0.25, UY)):
                f[p] = v
                dd[x] = c.scalar(v)
    m.compute_free_surface()
    c.observe("visit", m.sfc_visit)
    c.observe("sum", m.sfc_sum)
    tot = {x: 0 for x in range(L * W)}
    cnt = {x: 0 for x in range(L * W)}
    for w, fl in zip(walks, flags):
        w = [x for x in w if x]
        if CT[w[-1] // W][w[-1] % W] != -1 or not fl:
            continue
        # the parcel's path, from its end at sea: level with the sea up to the shoreline, then rising upstream
        h = H
        sea = True
        for a, b in zip(reversed(w[:-1]), reversed(w[1:])):
            if sea:
                if bool((U[a] > u0 * 0.5) | (D[a] < 0.1 * h0)):
                    sea = False
            else:
                along = UX[a] * (b // W - a // W) * dx + UY[a] * (b % W - a % W) * dx
                if bool(U[a] != 0):
                    h = h + S0 * along / U[a]
            tot[a] = tot[a] + h
            cnt[a] += 1
    for x in range(L * W):
        p = (x // W, x % W)
        c.check("each completed, loop-free walk is counted once per cell it crossed before its end",
                c.eq(m.sfc_visit[p], cnt[x]))
        c.check("expected surface is level at sea and rises upstream of the shoreline by slope and path",
                c.eq(m.sfc_sum[p], tot[x]))
