"""The initial domain: size, cell types, coordinates and initial fields."""
from props.lib import small

META = dict(
    bounds="grids of 3x3 to 16x24 cells (cases), inlet width and length of any size up to the domain's limits, cell size, "
           "channel and basin depth, slope, velocity, sand fraction symbolic; the number of cells for any length and "
           "cell size with up to 40 cells",
    outside="larger grids; rounding",
    assumptions=["values are real numbers (tolerance 1e-4 when replayed)"])


def cases(tier):
    g = [(4, 9), (5, 6), (7, 6), (9, 16), (12, 13), (14, 20)]
    if tier != "quick":
        g += [(8, 40), (30, 12), (20, 30), (7, 7), (16, 24)]
    return [dict(name="domain" if g0 == (9, 16) else "domain-%dx%d" % g0, kw=dict(L=g0[0], W=g0[1])) for g0 in g] + \
        [dict(name="size", kw=dict(L=0, W=0))]


def run(c, L, W):
    if L == 0:
        return size(c)
    m = c.model(**small(L, W))
    dx = c.choice("dx", [4, 50])
    m._Length, m._Width = L * dx, W * dx
    m._dx = dx
    nl = c.choice("inlet_length", list(range(0, L // 4 + 2)))
    nw = c.choice("inlet_width", list(range(2, W // 4 + 2)))
    m._L0_meters, m._N0_meters = nl * dx, nw * dx
    h0 = m._h0 = c.real("h0", 0.25, 16)
    u0 = m._u0 = c.real("u0", 0.25, 4)
    S0 = m._S0 = c.real("S0", 0, 0.125)
    own = c.choice("own_basin_depth", [True, False])
    hb = c.real("hb", 0.25, 50) if own else h0
    m._hb = hb if own else None
    sf = m._sand_frac_bc = c.real("sand", 0, 1)
    m.stepmax = None
    m.create_other_variables()
    m.create_domain()
    N0, L0 = int(m.N0), int(m.L0)
    c.check("inlet size", c.And(c.eq(m.N0, c.max(3, c.min(nw, W // 4))), c.eq(m.L0, c.max(1, c.min(nl, L // 4)))))
    ctr = W // 2 - 1
    if ctr <= 1:
        ctr = W // 2
    half = (N0 + 1) // 2 if N0 % 2 == 0 or (N0 // 2) % 2 == 1 else N0 // 2    # halves go to the even side
    first = ctr - half + 1
    ok = [("the grid has the configured size", tuple(m.eta.shape) == (L, W))]
    types, depth, stage, eta, qx, qy, qw, ux, uy, uw, sand, act = ([] for _ in range(12))
    q0 = u0 * h0
    for i in range(L):
        for j in range(W):
            inl = first <= j < first + N0
            if i < L0:
                t = 1 if inl else -2
                d = h0 if inl else 0
                q = q0 if inl else 0
                s = (L0 - i - 1) * dx * S0
            else:
                r2 = (i - 3) ** 2 + (j - ctr) ** 2
                lim = min(L - 5, W / 2 - 5)
                far = lim <= 0 or r2 >= lim * lim
                t = -1 if i == L - 1 or j == 0 or j == W - 1 or far else 0
                d, s, q = hb, 0, q0 / 5
            types.append(c.eq(m.cell_type[i, j], t))
            depth.append(c.eq(m.depth[i, j], d))
            stage.append(c.eq(m.stage[i, j], s))
            eta.append(c.eq(m.eta[i, j], s - d))
            qx.append(c.eq(m.qx[i, j], q))
            qy.append(c.eq(m.qy[i, j], 0))
            qw.append(c.eq(m.qw[i, j], q))
            v = 0 if (i < L0 and not inl) else q / d
            ux.append(c.eq(m.ux[i, j], v))
            uy.append(c.eq(m.uy[i, j], 0))
            uw.append(c.eq(m.uw[i, j], v))
            sand.append(c.eq(m.sand_frac[i, j], sf))
            act.append(c.eq(m.active_layer[i, j], sf))
    for n, xs in (("cell types: inlet channel and land in the inlet rows, edge around the basin", types),
                  ("water depth: channel in the inlet, basin depth in the basin, none on land", depth),
                  ("stage: the inlet slope down to sea level", stage), ("bed is stage minus depth", eta),
                  ("initial flow is the inlet's, a fifth of it in the basin, none on land", qx),
                  ("no initial cross flow", qy), ("discharge magnitude", qw), ("velocity is discharge over depth", ux),
                  ("no initial cross velocity", uy), ("speed", uw), ("bed composition is the configured one", sand),
                  ("active layer composition is the configured one", act)):
        c.check(n, c.And(xs))
    for n, p in ok:
        c.check(n, p)
    c.check("the inlet columns are the channel's", [int(x) for x in m.inlet] == list(range(first, first + N0)))
    c.check("coordinates are multiples of the cell size",
            c.And(len(m.xc) == L, len(m.yc) == W, c.eq(m.xc, [i * dx for i in range(L)]),
                  c.eq(m.yc, [j * dx for j in range(W)])))
    c.check("weight and erosion modifiers are one", c.And(c.eq(m.mod_water_weight, 1), c.eq(m.mod_sed_weight, 1),
                                                          c.eq(m.mod_erosion, 1)))
    c.check("no sediment has moved", c.And(c.eq(m.qs, 0), c.eq(m.Vp_dep_sand, 0), c.eq(m.Vp_dep_mud, 0)))
    c.observe("v", [m.cell_type, m.eta, m.qw])


def size(c):
    m = c.model(**small(3, 3))
    dx = c.real("dx", 0.5, 100)
    ln, wd = c.real("Length", 0.5, None), c.real("Width", 0.5, None)
    c.assume(c.And(c.le(dx, ln), c.le(dx, wd), c.le(ln, 40 * dx), c.le(wd, 40 * dx)))
    m._Length, m._Width, m._dx = ln, wd, dx
    m.create_other_variables()
    for n, k, x in (("length", m.L, ln), ("width", m.W, wd)):
        c.check("the grid's %s is the nearest whole number of cells" % n,
                c.And(c.le(k * dx - dx * 0.5, x), c.le(x, k * dx + dx * 0.5)))
    c.check("the cell size is kept", c.eq(m.dx, dx))
    # the middle: the last cell of the left half (very narrow grids: the first of the right)
    w, ctr = m.W, m.CTR
    half = c.floor(w / 2)
    c.check("the centre column", c.eq(ctr, c.ite(c_le(half - 1, 1), half, half - 1)))


def c_le(a, b):
    return a <= b
