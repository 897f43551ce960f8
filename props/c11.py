"""Sediment mass balance of routing."""
from props.sedlib import *

META = dict(
    bounds="one parcel (sand or mud) walking 1-3 steps through cells with symbolic bed, stage, velocity, flux and "
           "erosion modifier, parcel volume symbolic (one step also with ranges 32 times wider); free walks of 1-2 steps on a 3x3 grid under symbolic draws; two "
           "and three parcels one after another in still water, each leaving part of its volume (symbolic lag, bed)",
    outside="longer walks and more parcels at once (each step only sees the fields the previous one left, so the "
            "balance of a step composes); floating-point rounding",
    assumptions=["values are real numbers (tolerance 1e-4 when replayed)",
                 "draws of the generator lie strictly between 0 and 1"])


def cases(tier):
    out = []
    for kind in ("sand", "mud"):
        for k in (1, 2) if tier == "quick" else (1, 2, 3):
            out.append(dict(name="corridor-%s-%d" % (kind, k), kw=dict(kind=kind, how="corridor", k=k)))
        out.append(dict(name="edge-%s" % kind, kw=dict(kind=kind, how="corridor", k=2, edge=True)))
        for k in (1,) if tier == "quick" else (1, 2):
            out.append(dict(name="free-%s-%d" % (kind, k), kw=dict(kind=kind, how="free", k=k),
                            opt=dict(max_time=100 if tier == "quick" else 1500)))
        out.append(dict(name="wide-%s" % kind, kw=dict(kind=kind, how="corridor", k=1, wide=32)))
        for n in (2,) if tier == "quick" else (2, 3):
            out.append(dict(name="parcels-%s-%d" % (kind, n), kw=dict(kind=kind, how="many", k=n)))
    return out


def run(c, kind, how, k, edge=False, wide=1):
    c.wide = wide
    W = 3
    V = c.real("V", 0, 16 * wide, lo_open=True)
    if how == "corridor":
        L = 2 + k - edge
        m = prepare(c, L, W, corridor(L), k + 3 * edge, Vp=V)
        m.qx[0, 1] = 1.0
        for r in range(1, k + 1):
            symcell(c, m, (r, 1), r)
    elif how == "free":
        L = 3
        m = prepare(c, L, W, [[1, 1, 1], [0, 0, 0], [-1, -1, -1]], k, Vp=V)
        for p in ((1, 0), (1, 1), (1, 2)):
            symcell(c, m, p, "%d%d" % p, ("eta", "uw"))
        m.qx[0, 1] = 1.0
        m.qy[0, 1] = 0.25
        m.qx[1, 1] = -0.5
        m.qx[1, 2] = 0.5
        m.stage[:] = m.stage + 1.0
    else:
        L = 3
        m = prepare(c, L, W, corridor(L), 1, n=k, Vp=V)
        m.qx[0, 1] = 1.0
        m.eta[1, 1] = c.scalar(-1000.0) if kind == "mud" else c.real("bed", -16, -0.25)
        m.uw[1, 1] = 0.0
        m._lambda = c.real("lag", 0, 1)
    m.init_sediment_routers()
    b4 = snap(m, L, W)
    c.prime_rng()
    r = route(c, m, kind)
    af = snap(m, L, W)
    c.observe("eta", m.eta)
    tot = c.sum([af["eta"][i][j] - b4["eta"][i][j] for i in range(L) for j in range(W)]) * DX * DX
    rec = c.sum([af[f][i][j] - b4[f][i][j] for f in ("Vp_dep_sand", "Vp_dep_mud") for i in range(L) for j in range(W)])
    if how == "many":
        if kind == "mud":
            want = V * k * m._lambda
        else:
            want, water = 0, -b4["eta"][1][1] * DX * DX
            for _ in range(k):
                want = want + c.min(V, (water - want) / 4)
        c.check("every parcel sets out with a full parcel volume", c.eq(tot, want))
        c.check("recorded deposits equal the bed volume gained", c.eq(rec, want))
        return
    c.check("bed volume gained plus volume still carried equals the volume fed in", c.eq(tot + r.Vp_res, V))
    c.check("a parcel never carries a negative volume", c.ge(r.Vp_res, 0))
    c.check("recorded deposits are the volumes the bed gained cell by cell",
            c.ge(rec, tot))
