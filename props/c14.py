"""Mud settles below and erodes above its critical velocities, by the documented volumes."""
from props.sedlib import *

META = dict(
    bounds="one and two real steps of a mud parcel into cells whose bed (-8..4 m), stage (-2..4 m), velocity (0..2 m/s), "
           "discharge and erosion modifier (0..2) are symbolic, parcel volume symbolic (0..16 m3], lag symbolic "
           "(0..1), transport exponents 2, 3 and 5 (thorough also 1, 4); the one-step case again with ranges 32 times wider",
    outside="other exponents and router constants; floating-point rounding",
    assumptions=["values are real numbers (tolerance 1e-4 when replayed)"])


def cases(tier):
    bs = (3, 2, 5) if tier == "quick" else (3, 2, 1, 4, 5)
    return [dict(name="step-beta%d" % b, kw=dict(beta=b, k=1)) for b in bs] + \
        [dict(name="second-step-beta%d" % b, kw=dict(beta=b, k=2)) for b in (bs[:1] if tier == "quick" else bs)] + \
        [dict(name="into-the-edge", kw=dict(beta=3, k=2, edge=True)),
         dict(name="wide", kw=dict(beta=3, k=1, wide=32)),
         dict(name="modifier-replaced", kw=dict(beta=3, k=1, new=True))]


def run(c, beta, k, edge=False, wide=1, new=False):
    c.wide = wide
    L, W = 2 + k - edge, 3
    V = c.real("V", 0, 16 * wide, lo_open=True)
    lam = c.real("lag", 0, 1) if k == 1 else c.scalar(0.5)
    m = prepare(c, L, W, corridor(L), k + 3 * edge, beta=beta, Vp=V)
    m._lambda = lam
    m.qx[0, 1] = 1.0
    m.init_sediment_routers()
    if new:                         # the array hook is given a new array; otherwise it is changed in place
        m.mod_erosion = m.mod_erosion.copy()
    S = [symcell(c, m, (r, 1), r) for r in range(1, k + 1)]
    b4 = snap(m, L, W)
    c.prime_rng()
    route(c, m, "mud")
    af = snap(m, L, W)
    c.observe("eta", m.eta)
    c.observe("dep", m.Vp_dep_mud)
    ud, ue = P["Udep"] ** beta, P["Uero_m"] ** beta
    left = V
    for r, s in enumerate(S, 1):
        U, mod = s["uw"], s["mod"]
        dep = s["stage"] - s["eta"]
        quarter = dep / 4 * DX * DX
        dV = (af["eta"][r][1] - b4["eta"][r][1]) * DX * DX
        rec = af["Vp_dep_mud"][r][1] - b4["Vp_dep_mud"][r][1]
        settle = lam * left * (ud - U ** beta) / ud
        ero = mod * V * (U ** beta - ue) / ue
        c.check("slow flow lets the documented share of mud settle, at most a quarter of the water column",
                c.Implies(c.And(c.lt(U, P["Udep"]), c.ge(dep, 0)), c.eq(dV, c.min(settle, quarter))))
        c.check("nothing settles on a bed above the water surface",
                c.Implies(c.And(c.lt(U, P["Udep"]), c.lt(dep, 0)), c.eq(dV, 0)))
        c.check("fast flow erodes the documented volume",
                c.Implies(c.gt(U, P["Uero_m"]), c.eq(dV, -c.min(ero, c.abs(quarter)))))
        c.check("between the critical velocities the bed stays", c.Implies(
            c.And(c.ge(U, P["Udep"]), c.le(U, P["Uero_m"])), c.eq(dV, 0)))
        c.check("deposited mud is recorded, erosion is not", c.eq(rec, c.max(dV, 0)))
        c.check("sediment flux of sand is untouched", c.eq(af["qs"][r][1], b4["qs"][r][1]))
        left = left - dV
    c.check("sand deposits are untouched", c.eq(m.Vp_dep_sand, 0))
    for i in range(L):
        for j in range(W):
            if not (j == 1 and 1 <= i <= k):
                c.check("other cells keep their bed", c.eq(af["eta"][i][j], b4["eta"][i][j]))
