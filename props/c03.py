"""Water parcels walk from the inlet, cell by cell, along possible directions, to the open boundary."""
from props.waterlib import *

META = dict(
    bounds="1 parcel for up to 3 steps and 2 parcels for up to 2 steps on 4x4 and 5x5 grids, every sequence of random "
           "draws, symbolic stage of a cell next to the inlet, layouts with land, dry and boundary cells, with and "
           "without loop relocation",
    outside="longer walks and more parcels (steps only depend on the current cell and the walk so far)",
    assumptions=["draws of the generator lie strictly between 0 and 1", "values are real numbers"])


def cases(tier):
    q = tier == "quick"
    out = []
    for lay in range(3):
        out.append(dict(name="walk-%d-1x3" % lay, kw=dict(lay=lay, n=1, steps=3, sym=False), opt=dict(max_time=150)))
        out.append(dict(name="walk-%d-1x2-stage" % lay, kw=dict(lay=lay, n=1, steps=2, sym=True), opt=dict(max_time=150)))
        out.append(dict(name="walk-%d-2x1" % lay, kw=dict(lay=lay, n=2, steps=1, sym=False), opt=dict(max_time=150)))
        if not q:
            out.append(dict(name="walk-%d-2x2" % lay, kw=dict(lay=lay, n=2, steps=2, sym=False), opt=dict(max_time=900)))
            out.append(dict(name="walk-%d-1x5" % lay, kw=dict(lay=lay, n=1, steps=5, sym=False), opt=dict(max_time=900)))
            out.append(dict(name="walk-%d-3x1" % lay, kw=dict(lay=lay, n=3, steps=1, sym=False), opt=dict(max_time=900)))
    out.append(dict(name="walk-loops", kw=dict(lay=3, n=1, steps=4, sym=False), opt=dict(max_time=150)))
    out.append(dict(name="growing-record", kw=dict(lay=0, n=1, steps=4, sym=False, short=True), opt=dict(max_time=150)))
    for k in (1, 2, 3) if q else (1, 2, 3, 4, 5):
        out.append(dict(name="limit-%d" % k, kw=dict(lay=0, n=1, steps=k, sym=False, short="own"), opt=dict(max_time=150)))
    for n, k in ((2, 12), (2, 5)) if q else ((2, 12), (3, 12), (2, 5), (3, 7), (4, 8)):
        out.append(dict(name="uneven-%dx%d" % (n, k), kw=dict(lay=4, n=n, steps=k, sym=False, short="own"),
                        opt=dict(max_time=150)))
    return out


LAYS = [
    ([[-2, 1, 1, -2], [-1, 0, 0, -1], [-1, 0, 0, -1], [-1, -1, -1, -1]], [1, 2]),
    ([[-2, 1, 1, -2], [-1, 0, -2, -1], [-1, 0, 0, -1], [-1, -1, -1, -1]], [1, 2]),
    ([[-2, 1, 1, -2], [-2, 0, 0, -1], [-2, -1, 0, -1], [-1, -1, -1, -1]], [1, 2]),
    ([[-2, 1, 1, -2], [-2, 0, 0, -2], [-2, 0, 0, -2], [-2, -1, -1, -2]], [1, 2]),
    # a short and a long way to the sea
    ([[-2, 1, -2, 1, -2], [-2, -1, -2, 0, -2]] + [[-2, -2, -2, 0, -2]] * 7 + [[-2, -2, -2, -1, -2]], [1, 3]),
]


def setup(c, lay, n, steps, sym, short=False):
    ct, inlet = LAYS[lay]
    L, W = len(ct), len(ct[0])
    m = c.model(warm=WATER, **small(L, W, Np_water=n, stepmax=4 if short is True else steps))
    ambient(c, m)
    m.cell_type = c.const(ct, "int64")
    m.inlet = c.const(inlet, "int64")
    if lay == 4:
        m.stage = c.const([[1 - 0.0625 * i] * W for i in range(L)])
        m.depth = c.const([[2.0] * W] * L)
        m.qx = c.const([[1.0] * W] * L)
        m.qy = c.const([[0.0] * W] * L)
        return finish(c, m, L, W, n, steps, short, lay) + (ct, inlet)
    m.stage = c.const([[1.0, 1.0, 1.0, 1.0], [0.75, 0.5, 0.75, 0.5], [0.5, 0.25, 0.0, 0.25], [0.0, 0.0, 0.0, 0.0]])
    if lay == 3:
        m.stage[2, 2] = 0.25             # a loop anywhere inside is above sea level
    if sym:
        m.stage[1, 1] = c.real("s11", 0, 1)
    m.depth = c.const([[2.0, 2.0, 2.0, 2.0], [1.0, 2.0, 0.0625, 1.0], [1.0, 2.0, 1.0, 2.0], [1.0, 1.0, 1.0, 1.0]])
    m.qx = c.const([[1.0] * W, [0.5, 0.5, -0.5, 0.5], [1.0, -1.0, 0.5, 0.5], [1.0] * W])
    m.qy = c.const([[0.0] * W, [0.25, -0.5, 0.5, 0.0], [0.5, 0.5, -0.5, 0.0], [0.0] * W])
    return finish(c, m, L, W, n, steps, short, lay) + (ct, inlet)


def finish(c, m, L, W, n, steps, short, lay):
    m.L0 = 1 if lay == 3 else 10         # relocation only acts beyond the inlet length
    m.CTR = 1
    m.dry_depth = c.scalar(0.125)
    m.gamma = c.scalar(0.25)
    m._H_SL = c.scalar(0)
    if short == "own":               # the record as the model makes it
        m.free_surf_walk_inds = c.const([[7] * m.free_surf_walk_inds.shape[1]] * n, "int64")
    else:
        m.free_surf_walk_inds = c.const([[7] * (2 if short else steps + 1)] * n, "int64")   # stale values
    m.free_surf_flag = c.const([0] * n, "int64")
    for f in ("qxn", "qyn", "qwn"):
        setattr(m, f, c.const([[3.0] * W] * L))
    return m, L, W


def run(c, lay, n, steps, sym, short=False):
    m, L, W, ct, inlet = setup(c, lay, n, steps, sym, short)
    m.init_water_iteration()
    c.prime_rng()
    m.run_water_iteration()
    R = m.free_surf_walk_inds
    c.observe("walks", R)
    ncol = R.shape[1]
    c.check("every parcel has a recorded walk", R.shape[0] == n)
    w = m.water_weights
    for p in range(n):
        path = [R[p, k].__index__() for k in range(ncol)]
        c.check("walks start in an inlet cell of the first row", path[0] in inlet)
        ended = False
        looped = False
        for k in range(1, ncol):
            a, b = path[k - 1], path[k]
            if ended or a == 0:
                c.check("a finished parcel does not move again", b == 0)
                continue
            if b == 0:
                # never just stops, looped or not (the layouts keep the boundary out of reach of a relocation)
                c.check("a parcel only stops at the boundary or at the step limit",
                        k > steps)
                ended = True
                continue
            c.check("no parcel walks further than the step limit", k <= steps)
            di, dj = b // W - a // W, b % W - a % W
            near = abs(di) <= 1 and abs(dj) <= 1 and (di, dj) != (0, 0)
            if lay == 3 and not near:
                looped = True
                c.check("a relocated parcel stays inside the basin",
                        m.L0 <= b // W <= L - 2 and 1 <= b % W <= W - 2)
            else:
                c.check("a step leads to a neighbouring cell", near)
            c.check("no parcel enters land", ct[b // W][b % W] != -2)
            if near and lay != 3:
                d = (di + 1) * 3 + dj + 1
                c.check("a step only goes where the weights allow", c.gt(w[a // W, a % W, d], 0))
            if ct[b // W][b % W] == -1:
                ended = True
        c.check("a walk shorter than the step limit ends on the boundary",
                ended or len([x for x in path if x]) == steps + 1)
        if looped:
            c.check("a parcel that looped above sea level is disqualified", c.eq(m.free_surf_flag[p], 0))
        if lay != 3:
            c.check("a parcel that does not loop stays qualified", c.eq(m.free_surf_flag[p], 1))
