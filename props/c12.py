"""Limits of one sediment exchange."""
from props.sedlib import *

META = dict(
    bounds="one and two real steps of a sand or mud parcel into cells with symbolic bed (-8..4 m), stage (-2..4 m), "
           "velocity (0..2 m/s), discharge, flux and erosion modifier (0..2), parcel volume symbolic (0..16 m3]; one step again with ranges 32 times wider",
    outside="longer walks (each step is limited on its own); floating-point rounding",
    assumptions=["values are real numbers (tolerance 1e-4 when replayed)"])


def cases(tier):
    return [dict(name="%s-%d" % (kind, k), kw=dict(kind=kind, k=k)) for kind in ("sand", "mud")
            for k in ((1, 2) if tier == "quick" else (1, 2, 3))] + \
        [dict(name="%s-edge" % kind, kw=dict(kind=kind, k=2, edge=True)) for kind in ("sand", "mud")] + \
        [dict(name="%s-wide" % kind, kw=dict(kind=kind, k=1, wide=32)) for kind in ("sand", "mud")]


def run(c, kind, k, edge=False, wide=1):
    c.wide = wide
    L, W = 2 + k - edge, 3
    V = c.real("V", 0, 16 * wide, lo_open=True)
    m = prepare(c, L, W, corridor(L), k + 3 * edge, Vp=V)
    m.qx[0, 1] = 1.0
    S = [symcell(c, m, (r, 1), r) for r in range(1, k + 1)]
    m.init_sediment_routers()
    b4 = snap(m, L, W)
    c.prime_rng()
    route(c, m, kind)
    af = snap(m, L, W)
    c.observe("eta", m.eta)
    left = V
    for r, s in enumerate(S, 1):
        dV = (af["eta"][r][1] - b4["eta"][r][1]) * DX * DX
        dep = s["stage"] - s["eta"]
        c.check("one exchange moves at most a quarter of the local water column", c.And(
            c.le(dV, c.abs(dep) / 4 * DX * DX), c.ge(dV, -c.abs(dep) / 4 * DX * DX)))
        c.check("a parcel deposits no more than it carries", c.le(dV, left))
        c.check("deposition never buries the water surface", c.Implies(
            c.gt(dV, 0), c.lt(af["eta"][r][1], s["stage"])))
        c.check("nothing settles where the bed stands above the water", c.Implies(c.lt(dep, 0), c.le(dV, 0)))
        left = left - dV
    for i in range(L):
        for j in range(W):
            if not (j == 1 and 1 <= i <= k):
                c.check("cells the parcel does not reach keep their bed", c.eq(af["eta"][i][j], b4["eta"][i][j]))
