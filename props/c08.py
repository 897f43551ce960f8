"""Flooding correction."""
from props.waterlib import *

META = dict(
    bounds="3x3 and 4x3 grids; bed and stage of every cell symbolic (-6..6 m), depths of a dry cell and its "
           "neighbours symbolic around the dry threshold, centre, edge and corner cells",
    outside="larger grids (the correction only looks at direct neighbours); floating-point rounding",
    assumptions=["values are real numbers (tolerance 1e-4 when replayed)"])
DRY = 0.125


def cases(tier):
    out = []
    ps = [(1, 1), (0, 0), (0, 1), (2, 2), (1, 0)] if tier == "quick" else [(i, j) for i in range(3) for j in range(3)]
    for p in ps:
        for b in (0, 1):
            out.append(dict(name="cell%d%d-%d" % (p[0], p[1], b), kw=dict(p=list(p), b=b),
                            opt=dict(max_time=100 if tier == "quick" else 600)))
    return out


def run(c, p, b):
    L = W = 3
    p = tuple(p)
    m = c.model(warm=[("=_time_iter", 3), ("flooding_correction",)], **small(L, W))
    ambient(c, m, fields=("uw", "qw"), shape=(L, W))
    eta, stage = c.arr("eta", (L, W), -6, 6), c.arr("stage", (L, W), -6, 6)
    # b=0: surroundings wet, b=1: surroundings dry
    depth = c.const([[2.0 if b == 0 else 0.0625] * W] * L)
    depth[p] = c.real("dp", 0, 1)
    k = 0
    for a, q in ((0, 1), (1, 2), (2, 0), (1, 1), (0, 0)):
        if (a, q) != p and abs(a - p[0]) <= 1 and abs(q - p[1]) <= 1 and k < 2:
            depth[a, q] = c.real("d%d%d" % (a, q), 0, 1)
            k += 1
    m.eta, m.stage, m.depth = eta.copy(), stage.copy(), depth.copy()
    m.dry_depth = c.scalar(DRY)
    m.flooding_correction()
    c.observe("stage", m.stage)
    c.check("bed is untouched", c.eq(m.eta, eta))
    c.check("depth is untouched", c.eq(m.depth, depth))
    for i in range(L):
        for j in range(W):
            nb = [(a, q) for a in range(max(0, i - 1), min(L, i + 2)) for q in range(max(0, j - 1), min(W, j + 2))
                  if (a, q) != (i, j)]
            s, s0 = m.stage[i, j], stage[i, j]
            wet = c.gt(depth[i, j], DRY, exact=True)
            c.check("wet cells keep their water surface", c.Implies(wet, c.eq(s, s0)))
            flood = [c.And(c.gt(depth[x], DRY, exact=True), c.gt(stage[x], eta[i, j])) for x in nb]
            c.check("a dry cell without a higher wet neighbour keeps its surface",
                    c.Implies(c.And(c.Not(wet), *[c.Or(c.le(depth[x], DRY, exact=True), c.le(stage[x], eta[i, j]))
                                                  for x in nb]), c.eq(s, s0)))
            c.check("a dry cell next to higher water is flooded to its highest wet neighbour",
                    c.Implies(c.And(c.Not(wet), c.Or(*flood)),
                              c.And(c.And(*[c.Implies(c.gt(depth[x], DRY, exact=True), c.ge(s, stage[x])) for x in nb]),
                                    c.Or(*[c.And(c.gt(depth[x], DRY, exact=True), c.eq(s, stage[x])) for x in nb]))))
