"""Topographic diffusion exchanges sediment between neighbours and nowhere else."""
from props.lib import NB, ambient, grid, small

META = dict(
    bounds="4x4 and 5x4 grids; bed (-32..16 m) and sand flux (0..32) of every cell symbolic, cell types of up to two "
           "cells symbolic, symbolic diffusion strength (0..1/16), one pass (fully symbolic), two and five passes "
           "(chosen cells symbolic)",
    outside="larger grids (each cell sees its 3x3 neighbourhood only), more than five passes, floating-point rounding",
    assumptions=["values are real numbers (tolerance 1e-4 when replayed)",
                 "positions outside the grid count as zero elevation without sand flux, as the model does"])


def cases(tier):
    out = [dict(name="pass-44", kw=dict(kind="one", L=4, W=4, what="all")),
           dict(name="pass-54-types", kw=dict(kind="one", L=5, W=4, what="types")),
           dict(name="two-passes", kw=dict(kind="two", L=4, W=4, what="all")),
           dict(name="five-passes", kw=dict(kind="five", L=4, W=4, what="all")),
           dict(name="strength", kw=dict(kind="mult", L=4, W=4, what="all"))]
    if tier != "quick":
        out += [dict(name="pass-66", kw=dict(kind="one", L=6, W=6, what="types")),
                dict(name="pass-37", kw=dict(kind="one", L=3, W=7, what="types"))]
    return out


def step(c, eta, qs, ct, D, L, W):
    """One pass of the documented exchange."""
    new = [[eta[i][j] for j in range(W)] for i in range(L)]
    for i in range(1, L):
        for j in range(W):
            s = 0
            for di, dj in NB:
                a, b = i + di, j + dj
                if (di, dj) == (0, 0):
                    continue
                if 0 <= a < L and 0 <= b < W:
                    s = s + (qs[i][j] + qs[a][b]) * (eta[a][b] - eta[i][j])
                else:
                    s = s + qs[i][j] * (0 - eta[i][j])
            new[i][j] = c.ite(ct[i][j] == -2, eta[i][j], eta[i][j] + D * s)
    return new


def run(c, kind, L, W, what):
    m = c.model(warm=[("=_time_iter", 3), ("topo_diffusion",)], **small(L, W))
    ct = [[0] * W for _ in range(L)]
    ct[0] = [-2] + [1] * (W - 2) + [-2]
    m.cell_type = c.const(ct, "int64")
    if kind == "mult":
        # strength of one pass: share of the time step, configured coefficient, cell width
        al = m._alpha = c.real("alpha", 0, 1)
        u0 = m._u0 = c.real("u0", 0.25, 4)
        m.create_boundary_conditions()
        c.observe("mult", m.diffusion_multiplier)
        c.check("one pass moves the configured share of the time step's exchange",
                c.eq(m.diffusion_multiplier * 2 * m._dx * m._dx * m.N_crossdiff, m._dt * al))
        c.check("there is at least one pass", c.ge(m.N_crossdiff, 1))
        return
    m.L0 = 2                # (a longer inlet; diffusion only leaves the first row alone)
    ambient(c, m, fields=("depth", "stage", "uw", "sand_frac"), shape=(L, W))
    m.N_crossdiff = {"one": 1, "two": 2, "five": 5}[kind]
    D = m.diffusion_multiplier = c.real("D", 0, 0.0625) if kind == "one" else c.scalar(0.03125)
    if what == "types":
        m.cell_type[2, 1] = c.int("ct21", -2, 1)
        m.cell_type[1, W - 1] = c.int("ct1W", -2, 1)
        m.cell_type[0, 1] = c.int("ct01", -2, 1)
    if kind == "one":
        m.eta = c.arr("eta", (L, W), -32, 16)
        m.qs = c.arr("qs", (L, W), 0, 32)
    else:
        few = ((1, 1), (2, 1), (2, 2)) if kind == "two" else ()
        m.eta = c.const([[0.25 * ((i * 3 + j * 5) % 7) - 1 for j in range(W)] for i in range(L)])
        m.qs = c.const([[0.125 * ((i + j * 2) % 5) for j in range(W)] for i in range(L)])
        for i, j in few:
            m.eta[i, j] = c.real("eta%d%d" % (i, j), -32, 16)
            m.qs[i, j] = c.real("qs%d%d" % (i, j), 0, 32)
        if kind == "five":
            m.eta[2, 2] = c.real("eta22", -8, 4)
            m.eta[1, 1] = c.real("eta11", -8, 4)
    eta, qs, CT = grid(m.eta.copy(), L, W), grid(m.qs.copy(), L, W), grid(m.cell_type.copy(), L, W)
    m.topo_diffusion()
    c.observe("eta", m.eta)
    want = eta
    for _ in range(m.N_crossdiff):
        want = step(c, want, qs, CT, D, L, W)
    for i in range(L):
        for j in range(W):
            e = m.eta[i, j]
            if i == 0:
                c.check("the first row keeps its bed", c.eq(e, eta[i][j]))
                continue
            c.check("land keeps its bed", c.Implies(CT[i][j] == -2, c.eq(e, eta[i][j])))
            c.check("a cell gains from each neighbour the flux-weighted difference in elevation", c.eq(e, want[i][j]))
            q3 = [qs[a][b] for a in (i - 1, i, i + 1) for b in (j - 1, j, j + 1) if 0 <= a < L and 0 <= b < W]
            c.check("without sand flux nothing moves",
                    c.Implies(c.And([c.eq(x, 0, exact=True) for x in q3]), c.eq(e, eta[i][j]))) \
                if kind == "one" else None
            c.check("sand flux is untouched", c.eq(m.qs[i, j], qs[i][j]))
