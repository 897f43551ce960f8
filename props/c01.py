"""Water routing weights are a probability distribution over admissible neighbours, and the documented one."""
from props.lib import NB, edge, grid, nbrs, small

META = dict(
    bounds="one cell with nine symbolic neighbour depths (0..64 m), cell types (-2..1), water-surface and inertial "
           "terms (0..64), weight modifiers (0..16) and a symbolic partition coefficient in [0,1], depth exponents 1 and "
           "2 (thorough: 1/2, 3), first row and other rows; plus whole 3x3 model grids with symbolic stage, depth, "
           "discharge (+-32), cell type and modifier of chosen cells",
    outside="partition coefficient outside [0,1] (makes the documented formula itself negative), other exponents, "
            "more than the chosen cells of a grid symbolic at a time, floating-point rounding",
    assumptions=["values are real numbers (rounding abstracted, tolerance 1e-4 when replayed)",
                 "the cell has at least one neighbour inside the grid that is not land",
                 "dry depth fixed at 0.125 m at cell level"])


def cases(tier):
    out = []
    for row in (0, 1):
        for th in (1, 2) + (() if tier == "quick" else (0.5, 3)):
            out.append(dict(name="cell-row%d-theta%s" % (row, th), kw=dict(kind="cell", row=row, theta=th),
                            opt=dict(max_time=150 if tier == "quick" else 900)))
    for row, th, tr in [(1, 1, (0, 5)), (1, 2, (3, 8)), (1, 1, (2, 6)), (0, 1, (0, 7)), (0, 1, (2, 5)),
                        (0, 2, (1, 6)), (1, 1, (4, 1, 7))] + ([] if tier == "quick" else
                       [(1, 1, (0, 5, 7)), (1, 2, (1, 3, 8)), (0, 1, (0, 3, 7)), (0, 1, (2, 5, 8))] +
                       [(1, t, x) for t in (1, 2) for x in ((0, 1, 2), (3, 5, 6), (6, 7, 8), (0, 4, 8), (2, 4, 6),
                                                            (0, 2, 6, 8), (1, 3, 5, 7))] +
                       [(0, t, x) for t in (1, 2) for x in ((3, 5, 6), (6, 7, 8), (0, 1, 2, 6), (2, 3, 5, 7))]):
        out.append(dict(name="law-row%d-theta%s-%s" % (row, th, "".join(map(str, tr))),
                        kw=dict(kind="law", row=row, theta=th, what=list(tr)),
                        opt=dict(max_time=60 if tier == "quick" else 900)))
    out.append(dict(name="land-cell", kw=dict(kind="land", row=1, theta=1)))
    pts = [(0, 0), (0, 1), (1, 1), (2, 2), (1, 2), (2, 0), (1, 0), (2, 1), (0, 2)]
    whats = ["stage", "depth", "q", "type"] + ["mod"]
    for k, p in enumerate(pts):
        for w in whats:
            if tier == "quick" and (k > 4 or (w == "mod" and k != 2)):
                continue
            out.append(dict(name="grid-%s-%d%d" % (w, p[0], p[1]), kw=dict(kind="grid", row=p[0], theta=p[1], what=w),
                            opt=dict(max_time=100 if tier == "quick" else 600)))
    return out




def run(c, kind, row, theta, what=None):
    if kind == "grid":
        return grid_case(c, (row, theta), what)
    wt = c.mod("water_tools")
    if kind == "law":
        # only the cells in `what` are open; the others are land without any flow term
        z9 = [0.0] * 9
        depth, sfc, itr, mod = (c.const(z9) for _ in range(4))
        ct = c.const([-2] * 9, "int64")
        ct[4] = 0
        for i in what:
            depth[i], sfc[i], itr[i], mod[i] = (c.real("%s_%d" % (n, i), 0, h) for n, h in
                                                (("depth", 64), ("sfc", 64), ("int", 64), ("mod", 16)))
            ct[i] = c.int("ct_%d" % i, -2, 1)
    else:
        depth = c.arr("depth", (9,), 0, 64)
        ct = c.arr("ct", (9,), -2, 1, dtype="int64")
        sfc = c.arr("sfc", (9,), 0, 64)
        itr = c.arr("int", (9,), 0, 64)
        mod = c.arr("mod", (9,), 0, 16)
    gamma = c.real("gamma", 0, 1)
    dry = 0.125
    if kind == "land":
        c.assume(c.eq(ct[4], -2, exact=True))
    else:
        c.assume(c.ne(ct[4], -2, exact=True))
    inside = [i for i in range(9) if i != 4 and (row > 0 or i > 2)]
    c.assume(c.Or(*[c.ne(ct[i], -2, exact=True) for i in inside]))
    w = wt._get_weight_at_cell_water((row, 3), sfc.copy(), itr.copy(), depth.copy(), mod.copy(), ct.copy(),
                                     c.scalar(dry), gamma, c.scalar(theta))
    c.observe("w", w)
    for i in range(9):
        c.check("weights are non-negative", c.ge(w[i], 0))
        c.check("no weight into land", c.Implies(c.eq(ct[i], -2, exact=True), c.eq(w[i], 0)))
    c.check("a parcel never stays in place", c.eq(w[4], 0))
    if kind == "land":
        c.check("weights of a land cell sum to one or are all zero",
                c.Or(c.eq(c.sum(w), 1), c.And(*[c.eq(w[i], 0) for i in range(9)])))
        return
    c.check("weights sum to one", c.eq(c.sum(w), 1))
    if kind == "law":
        laws(c, row, w, depth, ct, sfc, itr, mod, gamma, theta, dry, what)
    elif row == 0:
        for i in range(3):
            c.check("first row: no weight outside the grid", c.eq(w[i], 0))


def laws(c, row, w, depth, ct, sfc, itr, mod, gamma, theta, dry, what):
    """The documented formula, clause by clause."""
    others = [i for i in range(9) if i != 4]
    land = [c.eq(ct[i], -2, exact=True) for i in range(9)]
    isdry = [c.lt(depth[i], dry, exact=True) for i in range(9)]
    open_ = [c.And(c.Not(land[i]), c.Not(isdry[i])) for i in range(9)]
    # a flow term leads into i: wet, not land, positive modifier, positive surface or inertial part
    x = dict(exact=True)
    flow = [c.And(open_[i], c.gt(mod[i], 0, **x),
                  c.Or(c.And(c.gt(gamma, 0, **x), c.gt(sfc[i], 0, **x)),
                       c.And(c.lt(gamma, 1, **x), c.gt(itr[i], 0, **x))))
            for i in range(9)]
    anyflow = c.Or(*[flow[i] for i in others])
    for i in others:
        c.check("weight goes exactly where the flow terms lead", c.Implies(anyflow, c.Iff(flow[i], c.gt(w[i], 0))))
    out = (0, 1, 2) if row == 0 else ()
    for i in out:
        c.check("no weight outside the grid unless a flow term leads there",
                c.Implies(c.Not(c.And(anyflow, flow[i])), c.eq(w[i], 0)))
        c.check("first row: no weight outside the grid", c.eq(w[i], 0))
    # fallbacks
    ins = [i for i in others if i not in out]
    anywet = c.Or(*[open_[i] for i in ins])
    for i in ins:
        c.check("without flow terms only wet neighbours are chosen when there are any",
                c.Implies(c.And(c.Not(anyflow), anywet, isdry[i]), c.eq(w[i], 0)))
    mine = [i for i in what if i in ins]          # the others are land
    for a, b in zip(mine, mine[1:]):
        c.check("without flow terms all wet neighbours are equally likely",
                c.Implies(c.And(c.Not(anyflow), open_[a], open_[b]), c.eq(w[a], w[b])))
        c.check("without wet neighbours all non-land neighbours are equally likely",
                c.Implies(c.And(c.Not(anyflow), c.Not(anywet), c.Not(land[a]), c.Not(land[b])), c.eq(w[a], w[b])))
    # proportionality: pure surface and pure inertial parts, and the blend
    d = lambda i: (depth[i] * mod[i]) if theta == 1 else \
        (depth[i] * mod[i]) * (depth[i] * mod[i]) if theta == 2 else None
    if d(0) is None:
        return
    S = c.sum([c.ite(mask(c, ct, depth, i, dry), sfc[i], 0) for i in others])
    I = c.sum([c.ite(mask(c, ct, depth, i, dry), itr[i], 0) for i in others])
    op = [i for i in what if i != 4]
    for a, b in zip(op, op[1:] + op[:1]):
        ga = gamma * sfc[a] * c.ite(I > 0, I, 1) + (1 - gamma) * itr[a] * c.ite(S > 0, S, 1)
        gb = gamma * sfc[b] * c.ite(I > 0, I, 1) + (1 - gamma) * itr[b] * c.ite(S > 0, S, 1)
        c.check("weights are proportional to the blend of surface and inertial terms times depth",
                c.Implies(c.And(anyflow, open_[a], open_[b]),
                          c.eq(w[a] * d(b) * gb, w[b] * d(a) * ga)))


def mask(c, ct, depth, i, dry):
    return (ct[i] != -2) & (depth[i] >= dry)


# ------------------------------------------------------------ whole grid
def grid_case(c, p, what):
    L = W = 3
    m = c.model(warm=[("=gamma", 0.25), ("get_water_weight_array",)], **small(L, W))
    base_stage = [[0.75, 0.5, 0.625], [0.375, 0.25, 0.125], [0.0, 0.125, 0.0625]]
    base_depth = [[4.0, 3.0, 4.0], [2.0, 0.0625, 1.5], [1.0, 3.0, 2.5]]
    base_qx = [[1.0, 0.5, 1.5], [0.25, -0.5, 1.0], [0.5, 0.75, 1.0]]
    base_qy = [[0.5, -0.25, 0.0], [0.25, 0.5, -1.0], [0.125, -0.5, 0.25]]
    ct0 = [[1, 1, -2], [0, 0, 0], [-1, 0, -1]]
    md0 = [[1.0, 1.0, 1.0], [1.0, 0.5, 1.0], [1.0, 1.0, 2.0]]
    f = {k: c.const(v, "float32") for k, v in
         dict(stage=base_stage, depth=base_depth, qx=base_qx, qy=base_qy, mod=md0).items()}
    f["ct"] = c.const(ct0, "int64")
    if what == "stage":
        f["stage"][p] = c.real("s", -16, 16)
    elif what == "depth":
        f["depth"][p] = c.real("d", 0, 64)
    elif what == "q":
        f["qx"][p] = c.real("qx", -32, 32)
        f["qy"][p] = c.real("qy", -32, 32)
    elif what == "mod":
        f["mod"][p] = c.real("m", 0, 16)
        f["stage"][p] = c.real("s", -16, 16)
    elif what == "type":
        f["ct"][p] = c.int("t", -2, 1)
    m.stage, m.depth, m.qx, m.qy, m.mod_water_weight, m.cell_type = (
        f["stage"].copy(), f["depth"].copy(), f["qx"].copy(), f["qy"].copy(), f["mod"].copy(), f["ct"].copy())
    m.dry_depth = c.scalar(0.125)
    m.gamma = c.scalar(0.25)
    m.get_water_weight_array()
    W_ = m.water_weights
    c.check("one set of nine weights per cell", tuple(W_.shape) == (L, W, 9))
    G = {k: grid(v, L, W) for k, v in f.items()}
    r2 = 2 ** 0.5
    for i in range(L):
        for j in range(W):
            nb = {k: nbrs(v, L, W, i, j) for k, v in G.items()}
            w = [W_[i, j, k] for k in range(9)]
            c.observe("w%d%d" % (i, j), w)
            sfc, itr = [], []
            for k, (di, dj) in enumerate(NB):
                dist = r2 if di and dj else 1.0
                s = c.max(0, (G["stage"][i][j] - nb["stage"][k]) / dist)
                q = c.max(0, (G["qx"][i][j] * di + G["qy"][i][j] * dj) / (dist * dist))
                ok = mask(c, nb["ct"], nb["depth"], k, 0.125)
                sfc.append(c.ite(ok, s, 0) if k != 4 else 0)
                itr.append(c.ite(ok, q, 0) if k != 4 else 0)
            S, I = c.sum(sfc), c.sum(itr)
            f_ = []
            for k in range(9):
                a = c.ite(S > 0, sfc[k] / c.ite(S > 0, S, 1), 0) * 0.25
                b = c.ite(I > 0, itr[k] / c.ite(I > 0, I, 1), 0) * 0.75
                f_.append((a + b) * nb["depth"][k] * nb["mod"][k])
            F = c.sum(f_)
            for k in range(9):
                c.check("grid weights follow the documented formula from each cell's own neighbourhood",
                        c.Implies(c.gt(F, 0), c.eq(w[k] * F, f_[k])))
            c.check("grid weights sum to one",
                    c.Or(c.eq(c.sum(w), 1), c.And(c.eq(G["ct"][i][j], -2, exact=True),
                                                  c.And(*[c.eq(x, 0) for x in w]))))
