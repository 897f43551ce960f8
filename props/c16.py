"""Sediment flux accounting of sand parcels."""
from props.sedlib import *

META = dict(
    bounds="a sand parcel walking 1-2 (thorough 3) steps through cells with symbolic bed, stage, velocity, flux (one step also with ranges 32 times wider); two "
           "parcels in still water; iteration start on a symbolic flux field",
    outside="longer walks; floating-point rounding",
    assumptions=["values are real numbers (tolerance 1e-4 when replayed)"])


def cases(tier):
    return [dict(name="walk-%d" % k, kw=dict(how="walk", k=k)) for k in ((1, 2) if tier == "quick" else (1, 2, 3))] + \
        [dict(name="edge", kw=dict(how="walk", k=2, edge=True)),
         dict(name="wide", kw=dict(how="walk", k=1, wide=32)),
         dict(name="two-parcels", kw=dict(how="two", k=2)), dict(name="iteration-start", kw=dict(how="init", k=1))]


def run(c, how, k, edge=False, wide=1):
    c.wide = wide
    W = 3
    L = 2 + k - edge
    V = c.real("V", 0, 16 * wide, lo_open=True)
    half = V / (2 * DT * DX)
    if how == "init":
        m = prepare(c, L, W, corridor(L), 1, Vp=V)
        for f in ("qs", "Vp_dep_sand", "Vp_dep_mud"):
            setattr(m, f, c.arr(f, (L, W), 0, 4))
        m._f_bedload = c.real("f", 0, 1)
        eta = m.eta.copy()
        m.init_sediment_iteration()
        for f in ("qs", "Vp_dep_sand", "Vp_dep_mud"):
            c.check("flux and deposits start every sediment iteration at zero", c.eq(getattr(m, f), 0))
        c.check("starting an iteration leaves the bed alone", c.eq(m.eta, eta))
        return
    m = prepare(c, L, W, corridor(L), k + 3 * edge if how == "walk" else 1, n=1 if how == "walk" else 2, Vp=V)
    m.qx[0, 1] = 1.0
    if how == "two":
        m.eta[1, 1] = -1000.0
        s0 = m.qs[0, 1] = c.real("qs0", 0, 2)
        m.init_sediment_routers()
        c.prime_rng()
        route(c, m, "sand")
        c.observe("qs", m.qs)
        c.check("two parcels: flux in the inlet", c.eq(m.qs[0, 1], s0 + 4 * half))
        c.check("two parcels: flux in the next cell", c.eq(m.qs[1, 1], 2 * half))
        return
    S = [symcell(c, m, (r, 1), r) for r in range(1, k + 1)]
    m.init_sediment_routers()
    b4 = snap(m, L, W)
    c.prime_rng()
    route(c, m, "sand")
    af = snap(m, L, W)
    c.observe("qs", m.qs)
    left = V
    c.check("the inlet cell gets half on entry and half on leaving", c.eq(af["qs"][0][1], 2 * half))
    for r, s in enumerate(S, 1):
        dV = (af["eta"][r][1] - b4["eta"][r][1]) * DX * DX
        inc = left / (2 * DT * DX)
        left = left - dV
        if r < k:
            inc = inc + left / (2 * DT * DX)
        c.check("a visited cell gets half the carried volume on arrival and half on leaving",
                c.eq(af["qs"][r][1], s["qs"] + inc))
    for i in range(L):
        for j in range(W):
            if j != 1 or i > k:
                c.check("cells off the walk keep their flux", c.eq(af["qs"][i][j], b4["qs"][i][j]))
