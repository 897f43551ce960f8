"""Bed composition follows deposition, exposure and the initial bed."""
from props.lib import STEP, ambient, grid, small

META = dict(
    bounds="two cells of a 3x3 grid with symbolic old and new bed, old composition, active layer composition, deposited "
           "sand and mud volumes (0..64 m3), active layer thickness (0..32 m) and basin sand fraction; whole finalisation "
           "of a time step for one symbolic cell, and a whole time step whose routing changes bed and deposits in place",
    outside="more cells at once (the update is cell-wise), floating-point rounding",
    assumptions=["values are real numbers (tolerance 1e-4 when replayed)",
                 "mud volumes are zero or above the 1e-6 m3 detection limit"])


def cases(tier):
    return [dict(name="two-cells", kw=dict(kind="two")), dict(name="erosion-only", kw=dict(kind="ero")),
            dict(name="finalize", kw=dict(kind="fin")), dict(name="whole-step", kw=dict(kind="step"))]


def scripted(c, todo):
    """Model whose routing does what todo says, in place, as the routers do."""
    class Model(c.pkg.DeltaModel):
        def route_water(self):
            pass

        def route_sediment(self):
            p = todo["p"]
            self.eta[p] = todo["eta"]
            self.Vp_dep_sand[p] = todo["vs"]
            self.Vp_dep_mud[p] = todo["vm"]
    return Model


def run(c, kind):
    todo = {}
    m = c.model(warm=None if kind == "step" else [("=_time_iter", 3)] + STEP[-1:], cls=(lambda cc: scripted(cc, todo)) if kind == "step" else None, **small(3, 3))
    ambient(c, m, ("_active_layer_thickness",), fields=("stage", "uw", "qs") if kind in ("two", "ero") else (), shape=(3, 3))
    T = m._active_layer_thickness = c.real("T", 0, 32)
    bc = m._sand_frac_bc = c.real("bc", 0, 1)
    m.eta0 = m.eta.copy()
    pts = [(1, 1), (2, 0)] if kind not in ("fin", "step") else [(1, 1)]
    S = {}
    for k, p in enumerate(pts):
        s = S[p] = {}
        s["eta0"] = m.eta0[p] = c.real("eta0_%d" % k, -32, 32)
        s["eta"] = c.real("eta_%d" % k, -32, 32)
        if kind != "step":
            m.eta[p] = s["eta"]
        else:
            # the bed as the step finds it; routing then leaves s["eta"]
            m.eta[p] = s["eta0"]
            m.eta0[p] = c.real("stale", -4, 4)
        s["sf"] = m.sand_frac[p] = c.real("sf_%d" % k, 0, 1)
        s["al"] = m.active_layer[p] = c.real("al_%d" % k, 0, 1)
        if kind == "ero":
            s["vs"] = s["vm"] = 0
        else:
            s["vs"] = m.Vp_dep_sand[p] = c.real("vs_%d" % k, 0, 64)
            s["vm"] = m.Vp_dep_mud[p] = c.real("vm_%d" % k, 0, 64)
            c.assume(c.Or(c.eq(s["vm"], 0, exact=True), c.gt(s["vm"], 0.0000015, exact=True)))
            c.assume(c.Or(c.eq(s["vs"], 0, exact=True), c.gt(s["vs"], 0.0000015, exact=True)))
    o_sf, o_al = m.sand_frac.copy(), m.active_layer.copy()
    if kind == "step":
        todo.update(p=pts[0], **S[pts[0]])
        m.Vp_dep_sand[pts[0]] = m.Vp_dep_mud[pts[0]] = 0.0
        m.solve_water_and_sediment_timestep()
        m.finalize_timestep()
    elif kind == "fin":
        m.stage[1, 1] = c.real("stage", -2, 6)
        m.finalize_timestep()
    else:
        m.compute_sand_frac()
    c.observe("sand_frac", m.sand_frac)
    c.observe("active_layer", m.active_layer)
    for p in pts:
        s = S[p]
        sf, al = m.sand_frac[p], m.active_layer[p]
        dep = c.Or(c.gt(s["vs"], 0, exact=True), c.gt(s["vm"], 0, exact=True))
        ero = c.lt(s["eta"], s["eta0"], exact=True)
        deep = c.lt(s["eta"], s["eta0"] - T, exact=True)
        tot = s["vs"] + s["vm"]
        c.check("where anything was deposited, composition is the sand share of the deposit",
                c.Implies(dep, c.And(c.eq(sf * tot, s["vs"]), c.eq(al * tot, s["vs"]))))
        c.check("erosion within the active layer exposes the active layer",
                c.Implies(c.And(c.Not(dep), ero, c.Not(deep)), c.eq(sf, s["al"])))
        c.check("erosion beneath the active layer exposes the basin's composition",
                c.Implies(c.And(c.Not(dep), deep), c.eq(sf, bc)))
        c.check("without deposition or erosion composition is kept",
                c.Implies(c.And(c.Not(dep), c.Not(ero)), c.eq(sf, s["sf"])))
        c.check("only deposition renews the active layer", c.Implies(c.Not(dep), c.eq(al, s["al"])))
        c.check("composition is a fraction", c.And(c.ge(sf, 0), c.le(sf, 1), c.ge(al, 0), c.le(al, 1)))
    for i in range(3):
        for j in range(3):
            if (i, j) not in S and not (kind in ("fin", "step") and i == 0):
                c.check("undisturbed cells keep their composition",
                        c.And(c.eq(m.sand_frac[i, j], o_sf[i, j]), c.eq(m.active_layer[i, j], o_al[i, j])))
