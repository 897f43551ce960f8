"""Local flow after sediment exchange."""
from props.sedlib import *

META = dict(
    bounds="one and two real steps of a sand or mud parcel into cells with symbolic bed (-8..4 m), stage (-2..4 m), "
           "velocity magnitude and components, discharge magnitude (0..8) and components, parcel volume symbolic (0..16 m3]; one step again with ranges 32 times wider",
    outside="longer walks; floating-point rounding",
    assumptions=["values are real numbers (tolerance 1e-4 when replayed)"])


def cases(tier):
    return [dict(name="%s-%d" % (kind, k), kw=dict(kind=kind, k=k)) for kind in ("sand", "mud")
            for k in ((1, 2) if tier == "quick" else (1, 2, 3))] + \
        [dict(name="%s-edge" % kind, kw=dict(kind=kind, k=2, edge=True)) for kind in ("sand", "mud")] + \
        [dict(name="%s-wide" % kind, kw=dict(kind=kind, k=1, wide=32)) for kind in ("sand", "mud")]


def run(c, kind, k, edge=False, wide=1):
    c.wide = wide
    L, W = 2 + k - edge, 3
    V = c.real("V", 0, 16 * wide, lo_open=True)
    m = prepare(c, L, W, corridor(L), k + 3 * edge, Vp=V)
    m.qx[0, 1] = 1.0
    S = [symcell(c, m, (r, 1), r) for r in range(1, k + 1)]
    for r in range(1, k + 1):
        m.ux[r, 1], m.uy[r, 1] = c.real("ux%d" % r, -2, 2), c.real("uy%d" % r, -2, 2)
    m.init_sediment_routers()
    b4 = snap(m, L, W)
    c.prime_rng()
    route(c, m, kind)
    af = snap(m, L, W)
    for f in ("depth", "uw", "ux", "uy"):
        c.observe(f, getattr(m, f))
    for r, s in enumerate(S, 1):
        d = af["stage"][r][1] - af["eta"][r][1]
        D, uw = af["depth"][r][1], af["uw"][r][1]
        c.check("stage is not changed by sediment", c.eq(af["stage"][r][1], s["stage"]))
        c.check("depth is stage minus bed and never negative", c.eq(D, c.max(d, 0)))
        c.check("velocity is discharge over depth, capped", c.Implies(
            c.gt(d, 0), c.And(c.le(uw, P["u_max"]), c.le(uw * D, s["qw"]),
                              c.Or(c.eq(uw, P["u_max"]), c.eq(uw * D, s["qw"])))))
        c.check("without water the velocity is left as it was", c.Implies(c.lt(d, 0), c.eq(uw, s["uw"])))
        c.check("velocity components follow the discharge direction", c.Implies(
            c.gt(s["qw"], 0), c.And(c.eq(af["ux"][r][1] * s["qw"], uw * s["qx"]),
                                    c.eq(af["uy"][r][1] * s["qw"], uw * s["qy"]))))
        c.check("no discharge, no velocity components", c.Implies(
            c.eq(s["qw"], 0, exact=True), c.And(c.eq(af["ux"][r][1], 0), c.eq(af["uy"][r][1], 0))))
    for i in range(L):
        for j in range(W):
            if not (j == 1 and 1 <= i <= k):
                for f in ("depth", "uw", "ux", "uy"):
                    c.check("cells the parcel does not reach keep their flow", c.eq(af[f][i][j], b4[f][i][j]))
