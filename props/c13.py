"""Sand deposits above transport capacity, erodes above the critical velocity, by the documented volumes."""
from props.sedlib import *

META = dict(
    bounds="one and two real steps of a sand parcel into cells whose bed (-8..4 m), stage (-2..4 m), velocity (0..2 m/s), "
           "discharge, sediment flux (0..2) and erosion modifier (0..2) are symbolic, parcel volume symbolic (0..16 m3], "
           "transport exponents 2, 3 and 5 (thorough also 1, 4); the one-step case again with ranges 32 times wider",
    outside="other exponents and router constants; floating-point rounding",
    assumptions=["values are real numbers (tolerance 1e-4 when replayed)"])


def cases(tier):
    bs = (3, 2, 5) if tier == "quick" else (3, 2, 1, 4, 5)
    return [dict(name="step-beta%d" % b, kw=dict(beta=b, k=1)) for b in bs] + \
        [dict(name="second-step-beta%d" % b, kw=dict(beta=b, k=2)) for b in (bs[:1] if tier == "quick" else bs)] + \
        [dict(name="into-the-edge", kw=dict(beta=3, k=2, edge=True)), dict(name="at-capacity", kw=dict(beta=3, k=0)),
         dict(name="wide", kw=dict(beta=3, k=1, wide=32)),
         dict(name="modifier-replaced", kw=dict(beta=3, k=1, new=True))]


def run(c, beta, k, edge=False, wide=1, new=False):
    c.wide = wide
    if k == 0:
        return at_capacity(c)
    L, W = 2 + k - edge, 3
    V = c.real("V", 0, 16 * wide, lo_open=True)
    m = prepare(c, L, W, corridor(L), k + 3 * edge, beta=beta, Vp=V)
    m.qx[0, 1] = 1.0
    m.init_sediment_routers()
    if new:                         # the array hook is given a new array; otherwise it is changed in place
        m.mod_erosion = m.mod_erosion.copy()
    S = [symcell(c, m, (r, 1), r) for r in range(1, k + 1)]
    b4 = snap(m, L, W)
    c.prime_rng()
    route(c, m, "sand")
    af = snap(m, L, W)
    c.observe("eta", m.eta)
    c.observe("dep", m.Vp_dep_sand)
    left = V                        # what the parcel carries
    for r, s in enumerate(S, 1):
        U, mod = s["uw"], s["mod"]
        dep = s["stage"] - s["eta"]
        qs = s["qs"] + left / (2 * DT * DX)
        cap = P["qs0"] * P["f"] * U ** beta / P["u0"] ** beta
        dV = (af["eta"][r][1] - b4["eta"][r][1]) * DX * DX
        rec = af["Vp_dep_sand"][r][1] - b4["Vp_dep_sand"][r][1]
        quarter = dep / 4 * DX * DX
        over, under = c.gt(qs, cap), c.lt(qs, cap)
        c.check("above capacity sand settles: the parcel's volume, at most a quarter of the water column",
                c.Implies(c.And(over, c.ge(dep, 0)), c.eq(dV, c.min(left, quarter))))
        c.check("nothing settles on a bed above the water surface",
                c.Implies(c.And(over, c.lt(dep, 0)), c.eq(dV, 0)))
        ue = P["Uero_s"] ** beta
        ero = mod * V * (U ** beta - ue) / ue
        c.check("below capacity fast flow erodes the documented volume",
                c.Implies(c.And(under, c.gt(U, P["Uero_s"])), c.eq(dV, -c.min(ero, c.abs(quarter)))))
        c.check("below capacity slow flow leaves the bed alone",
                c.Implies(c.And(under, c.le(U, P["Uero_s"])), c.eq(dV, 0)))
        c.check("deposited sand is recorded, erosion is not", c.eq(rec, c.max(dV, 0)))
        left = left - dV
    c.check("mud deposits are untouched", c.eq(m.Vp_dep_mud, 0))
    for i in range(L):
        for j in range(W):
            if not (j == 1 and 1 <= i <= k):
                c.check("other cells keep their bed", c.eq(af["eta"][i][j], b4["eta"][i][j]))


def at_capacity(c):
    """Flux exactly at the transport capacity (values a binary float represents exactly)."""
    L, W = 3, 3
    V = c.choice("V", [16.0, 8.0, 4.0])
    U = c.choice("U", [2.0, 1.5, 1.0])
    m = prepare(c, L, W, corridor(L), 1, Vp=V)
    m.qx[0, 1] = 1.0
    m.uw[1, 1] = U
    m.qw[1, 1] = c.real("qw", 0, 8)
    m.qs[1, 1] = P["qs0"] * P["f"] * U ** 3 / P["u0"] ** 3 - V / (2 * DT * DX)
    m.stage[1, 1] = c.real("stage", 0.5, 4)
    m.eta[1, 1] = -2.0
    c.assume(m.qs[1, 1] >= 0)
    m.init_sediment_routers()
    b4 = snap(m, L, W)
    c.prime_rng()
    route(c, m, "sand")
    c.observe("eta", m.eta)
    c.check("exactly at capacity the bed stays", c.eq(m.eta[1, 1], b4["eta"][1][1]))
    c.check("exactly at capacity nothing is deposited", c.eq(m.Vp_dep_sand[1, 1], 0))
