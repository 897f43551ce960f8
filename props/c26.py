"""Water and sediment budgets and coefficients derived from the configuration."""
from props.lib import ambient, small

META = dict(
    bounds="grids 12x16 and 40x20 cells of 4 m; inlet velocity, depth, slope, concentration, parcel numbers, inlet width "
           "and length, exponents and coefficients all symbolic at once (positive ranges); step limit given or not",
    outside="grid dimensions themselves symbolic (C27); zero concentration (no time step exists); rounding",
    assumptions=["values are real numbers (tolerance 1e-4 when replayed)"])


def cases(tier):
    return [dict(name="%dx%d%s" % (L, W, "-steps" if s else ""), kw=dict(L=L, W=W, steps=s))
            for L, W in ((12, 16), (40, 20)) + (() if tier == "quick" else ((9, 60),)) for s in (False, True)] + \
        [dict(name="counts", kw=dict(L=12, W=16, steps=None))]


def run(c, L, W, steps):
    m = c.model(**small(L, W))
    if steps is None:
        # parcels actually fed per time step
        n, f = c.int("n", 1, 12), c.real("f", 0, 1)
        m._Np_sed, m._f_bedload = n, f
        S = {}
        sh = c.mod("sed_tools").shared_tools
        calls = []
        old = sh.get_start_indices

        def rec(inlet, w, k):
            calls.append(k)
            raise StopIteration()
        sh.get_start_indices = rec
        try:
            for g in (m.route_all_sand_parcels, m.route_all_mud_parcels):
                try:
                    g()
                except StopIteration:
                    pass
        finally:
            sh.get_start_indices = old
        a, b = calls
        c.observe("n", [a, b])
        c.check("the sand parcels are the bedload share of all parcels", c.And(c.le(a, n * f), c.gt(a + 1, n * f)))
        c.check("the mud parcels are the suspended share of all parcels",
                c.And(c.le(b, n * (1 - f)), c.gt(b + 1, n * (1 - f))))
        c.check("every time step feeds the configured number of parcels", c.eq(a + b, n))
        return
    ambient(c, m)
    u0 = m._u0 = c.real("u0", 0.25, 4)
    h0 = m._h0 = c.real("h0", 0.015625, 16)
    S0 = m._S0 = c.real("S0", 0, 0.125)
    C0 = m._C0_percent = c.real("C0", 0.125, 100)
    nw, ns = c.int("nw", 1, 4000), c.int("ns", 1, 4000)
    m._Np_water, m._Np_sed = nw, ns
    N0m, L0m = c.real("N0m", 0.5, 200), c.real("L0m", 0, 200)
    m._N0_meters, m._L0_meters = N0m, L0m
    th = m._theta_water = c.real("th", 0, 4)
    cs, cm = c.real("cs", 0, 4), c.real("cm", 0, 4)
    m._coeff_theta_sand, m._coeff_theta_mud = cs, cm
    kd, ks, km = c.real("kd", 0, 1), c.real("ks", 1, 4), c.real("km", 1, 4)
    m._coeff_U_dep_mud, m._coeff_U_ero_sand, m._coeff_U_ero_mud = kd, ks, km
    lag = m._sed_lag = c.real("lag", 0, 2)
    it = m._itermax = c.int("it", 1, 100)
    m._omega_flow = c.real("om", 0, 1)
    m.stepmax = c.int("sm", 4, 500) if steps else None
    sm = m.stepmax
    m.create_other_variables()
    dx = 4
    N0, L0 = m.N0, m.L0
    c.observe("v", [N0, L0, m.Qw0, m._dt, m.gamma])
    c.check("grid size", c.And(c.eq(m.L, L), c.eq(m.W, W)))
    # nearest whole cell (ties either way), limited
    def cells(k, x, lo, hi):
        r = c.And(c.le(k * dx - dx * 0.5, x), c.le(x, k * dx + dx * 0.5))
        hi = max(lo, hi)
        return c.And(c.ge(k, lo), c.le(k, hi),
                     c.Or(r, c.And(c.eq(k, lo), c.le(x, lo * dx + dx * 0.5)), c.And(c.eq(k, hi), c.ge(x, hi * dx - dx * 0.5))))
    c.check("inlet width in cells: nearest, at least three, at most a quarter of the domain", cells(N0, N0m, 3, W // 4))
    c.check("inlet length in cells: nearest, at least one, at most a quarter of the domain", cells(L0, L0m, 1, L // 4))
    c.check("inlet discharge is velocity times depth times width",
            c.And(c.eq(m.Qw0, u0 * h0 * N0 * dx), c.eq(m.qw0, u0 * h0)))
    c.check("the water parcels together carry the inlet discharge", c.eq(m.Qp_water * nw, m.Qw0))
    c.check("concentration is the configured percentage", c.eq(m.C0 * 100, C0))
    c.check("sediment discharge is concentration times discharge",
            c.And(c.eq(m.Qs0 * 100, m.Qw0 * C0), c.eq(m.qs0 * 100, m.qw0 * C0)))
    c.check("the sediment parcels of a time step carry the sediment discharged in it", c.eq(m.Vp_sed * ns, m.Qs0 * m._dt))
    c.check("a time step brings a tenth of the reference volume per squared inlet width",
            c.eq(m._dt * m.Qs0 * 10, N0 * N0 * h0 * dx * dx))
    c.check("the partition coefficient", c.eq(m.gamma * u0 * u0, S0 * dx * c.scalar(9.81)))
    c.check("dry depth is a tenth of the channel depth, at most 0.1 m", c.eq(m.dry_depth * 10, c.min(h0, 1)))
    c.check("the velocity cap is twice the inlet velocity", c.eq(m.u_max, 2 * u0))
    c.check("critical velocities scale with the inlet velocity",
            c.And(c.eq(m.U_dep_mud, kd * u0), c.eq(m.U_ero_sand, ks * u0), c.eq(m.U_ero_mud, km * u0)))
    c.check("sediment depth exponents scale with the water exponent",
            c.And(c.eq(m.theta_sand, cs * th), c.eq(m.theta_mud, cm * th)))
    m.init_sediment_routers()
    from props.c28 import fields
    c.check("the routers work with the derived values", c.And([
        c.eq(fields(r)[k], v) for r, th_ in ((m._sr, cs * th), (m._mr, cm * th)) for k, v in (
            ("theta_sed", th_), ("Vp_sed", m.Vp_sed), ("u_max", m.u_max), ("_dt", m._dt), ("_dx", dx), ("_u0", u0),
            ("stepmax", m.stepmax), ("_lambda", lag), ("U_ero_mud", km * u0), ("U_dep_mud", kd * u0), ("U_ero_sand", ks * u0),
            ("_beta", m._beta), ("_f_bedload", m._f_bedload), ("qs0", m.qs0)) if k in fields(r)]))
    c.check("flow relaxation within a step is shared by its iterations", c.eq(m.omega_flow_iter * it, 2))
    c.check("sediment lag", c.eq(m._lambda, lag))
    c.check("the step limit is the configured one, by default twice the grid's half perimeter",
            c.eq(m.stepmax, sm if steps else 2 * (L + W)))
