"""Smoothing and under-relaxation of the water surface."""
from props.waterlib import *
from props.lib import edge, NB

META = dict(
    bounds="3x3 (thorough 4x3) grids, fully symbolic surface (-32..32 m) and old stage, symbolic cell types of two cells "
           "in several layouts, smoothing 0, 1 and 2 times, symbolic smoothing coefficient and relaxation in [0,1]",
    outside="more smoothing passes (each pass repeats the same map), larger grids; floating-point rounding",
    assumptions=["values are real numbers (tolerance 1e-4 when replayed)"])
LAY = [[[-2, 1, -2], [0, 0, 0], [-1, -1, -1]],
       [[-2, 1, 1], [-2, 0, 0], [-1, 0, -1]],
       [[-2, -2, -2], [-2, 0, -2], [-2, -2, -1]]]


EARLIER = [("=_time_iter", 1), ("=Hnew", lambda m: m.stage + 1), ("finalize_free_surface",)]


def cases(tier):
    out = [dict(name="smooth-%d-n%d" % (k, n), kw=dict(kind="smooth", k=k, n=n), opt=dict(max_time=120))
           for k in range(3) for n in (0, 1, 2)]
    out += [dict(name="relax-t%d" % t, kw=dict(kind="relax", k=0, n=t)) for t in (0, 1)]
    return out


def smooth(c, H, ct, C, L, W):
    out = [[None] * W for _ in range(L)]
    for i in range(L):
        for j in range(W):
            s, n = 0, 0
            for a, b in NB:
                if (a, b) == (0, 0):
                    continue
                p, q = edge(L, i + a), edge(W, j + b)
                if isinstance(ct[p][q], int):
                    if ct[p][q] != -2:
                        s, n = s + H[p][q], n + 1
                else:
                    ok = ct[p][q] != -2
                    s, n = s + c.ite(ok, H[p][q], 0), n + c.ite(ok, 1, 0)
            if isinstance(n, int):
                new = C * H[i][j] + (1 - C) * s / n if n else H[i][j]
            else:
                new = c.ite(n > 0, C * H[i][j] + (1 - C) * s / c.ite(n > 0, n, 1), H[i][j])
            t = ct[i][j]
            out[i][j] = (H[i][j] if t == -1 else new) if isinstance(t, int) else c.ite(t == -1, H[i][j], new)
    return out


def run(c, kind, k, n):
    L = W = 3
    m = c.model(cls=no_flooding, warm=EARLIER, **small(L, W))
    ambient(c, m, ("_time_iter", "_Nsmooth"))
    H = c.arr("H", (L, W), -32, 32)
    old = c.arr("old", (L, W), -32, 32)
    lay = [list(r) for r in LAY[k]]
    ct = c.const(lay, "int64")
    if kind == "smooth" and n == 1:
        # one neighbour and one corner of unknown type
        for p in ((1, 2), (2, 0)):
            t = c.choice("t%d%d" % p, [-2, -1, 0])
            ct[p] = t
            lay[p[0]][p[1]] = t
    m.cell_type = ct
    m.Hnew = H.copy()
    m.stage = old.copy()
    m._Nsmooth = n if kind == "smooth" else 1
    C = c.real("C", 0, 1)
    om = c.real("om", 0, 1) if kind == "relax" else c.scalar(1)
    m._Csmooth, m._omega_sfc = C, om
    m._time_iter = n if kind == "relax" else 1
    m.finalize_free_surface()
    c.observe("stage", m.stage)
    R = grid(H, L, W)
    for _ in range(m._Nsmooth):
        R = smooth(c, R, lay, C, L, W)
    allH = [H[i, j] for i in range(L) for j in range(W)]
    for i in range(L):
        for j in range(W):
            s, o = m.stage[i, j], old[i, j]
            if kind == "relax":
                if n == 0:
                    c.check("at the first step the old stage is kept", c.eq(s, o))
                else:
                    c.check("later the stage is the relaxed mix of old stage and smoothed surface",
                            c.eq(s, (1 - om) * o + om * R[i][j]))
                    c.check("the mix stays between the old stage and the extremes of the new surface",
                            c.And(c.Or(c.ge(s, o), *[c.ge(s, h) for h in allH]),
                                  c.Or(c.le(s, o), *[c.le(s, h) for h in allH])))
                continue
            c.check("each pass moves a cell towards the mean of its non-land neighbours", c.eq(s, R[i][j]))
            if lay[i][j] == -1:
                c.check("open-boundary cells are never smoothed", c.eq(s, H[i, j]))
            if n < 2:
                c.check("smoothing creates no new extremes", c.And(c.Or(*[c.ge(s, h) for h in allH]),
                                                                   c.Or(*[c.le(s, h) for h in allH])))
    if kind == "smooth" and n == 1:
        # a level surface stays level
        m.Hnew = c.const([[0.5] * W] * L)
        m.stage = c.const([[0.25] * W] * L)
        m.finalize_free_surface()
        c.check("a level surface stays level", c.eq(m.stage, 0.5))
