"""Loop handling of water parcels."""
import math
from props.lib import small

META = dict(
    bounds="6x7 and 6x5 grids (thorough also 9x10), inlet length 1 and 2, every proposed cell, walk histories of 3-4 symbolic "
           "cells for one and two parcels, symbolic step number and stage",
    outside="other grid sizes, longer histories (membership is a disjunction over the entries)",
    assumptions=["stage difference is a real number"])


def cases(tier):
    out = []
    grids = [(6, 7, 1), (6, 7, 2), (6, 5, 1)] if tier == "quick" else [(6, 7, 1), (6, 7, 2), (9, 10, 2), (8, 5, 1), (5, 12, 1)]
    for L, W, L0 in grids:
        n = L * W
        k = 6
        for s in range(k):
            lo, hi = s * n // k, (s + 1) * n // k
            out.append(dict(name="loops-%dx%d-L0%d-%d" % (L, W, L0, s),
                            kw=dict(L=L, W=W, L0=L0, lo=lo, hi=hi, np_=1), opt=dict(max_time=150)))
    for s in range(0, 42, 7) if tier != "quick" else (7, 14, 28):
        out.append(dict(name="two-parcels-%d" % s, kw=dict(L=6, W=7, L0=1, lo=s, hi=s + 7, np_=2),
                        opt=dict(max_time=150)))
    return out


def run(c, L, W, L0, lo, hi, np_):
    wt = c.mod("water_tools")
    ctr = W // 2 - 1 if W != 5 else 3
    n = 2 if np_ == 2 else 4
    walk = c.arr("walk", (np_, n), 0, L * W - 1, dtype="int64")
    step = c.int("step", 1, 12)
    cells = [c.choice("cell", list(range(lo, hi)))]
    if np_ == 2:
        cells.append([3 * W + 3, 0, L * W - W - 2][c.choice("cell2", [0, 1, 2])])
    new = c.const(cells, "int64")
    SL = c.const([[0.5] * W for _ in range(L)])
    for k, ind in enumerate(cells):
        if k == 0 or ind != cells[0]:
            SL[ind // W, ind % W] = c.real("sl%d" % k, -1, 1)
    got, looped = wt._check_for_loops(walk.copy(), new.copy(), step, L0, ctr, SL.copy())
    c.observe("new", got)
    c.observe("looped", looped)
    for p, ind in enumerate(cells):
        i0, j0 = ind // W, ind % W
        rep = c.And(c.gt(step, L0, exact=True), ind > 0 and ind > L0 * W - 1,
                    c.Or(*[c.eq(walk[p, k], ind, exact=True) for k in range(n)]))
        c.check("a parcel on fresh ground keeps its step",
                c.Implies(c.Not(rep), c.And(c.eq(got[p], ind), c.eq(looped[p], 0))))
        fx, fy = i0 - 1, j0 - ctr
        fw = math.sqrt(fx * fx + fy * fy)
        if fw:
            px, py = i0 + int(round(fx / fw * 5.0)), j0 + int(round(fy / fw * 5.0))
        else:
            px, py = i0, j0
        px = min(L - 2, max(px, L0))
        py = min(W - 2, max(1, py))
        c.check("a returning parcel is moved five cells on along its mean direction, inside the basin",
                c.Implies(rep, c.eq(got[p], px * W + py)))
        s = SL[i0, j0]
        # a stage within 0.1 m of sea level counts as sea level
        c.check("a loop above sea level disqualifies the parcel from the water surface",
                c.Implies(c.And(rep, c.gt(c.abs(s), 0.1)), c.eq(looped[p], 1)))
        c.check("a loop at sea level does not disqualify the parcel",
                c.Implies(c.And(rep, c.lt(c.abs(s), 0.1)), c.eq(looped[p], 0)))
