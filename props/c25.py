"""Parameters outside their documented range are refused, others are kept exactly."""
from props.lib import small

META = dict(
    bounds="every parameter with a documented range, one at a time, any real (or integer) value in -100..100 (dx against "
           "symbolic length and width); set on a model with any other parameters and given as its configuration; free parameters keep any value",
    outside="two parameters out of range at once; values of wrong type (see C24)",
    assumptions=[])

R = {   # name: (kind, lower, open?, upper)
    "Length": ("f", 0, True, None), "Width": ("f", 0, True, None), "L0_meters": ("f", 0, False, None),
    "itermax": ("i", 0, False, None), "Np_water": ("i", 0, True, None), "N0_meters": ("f", 0, True, None),
    "If": ("f", 0, True, 1), "Np_sed": ("i", 0, True, None), "f_bedload": ("f", 0, False, 1),
    "active_layer_thickness": ("f", 0, False, None), "C0_percent": ("f", 0, False, None), "Csmooth": ("f", 0, False, None),
}
FREE = ["S0", "u0", "h0", "hb", "H_SL", "SLR", "subsidence_rate", "start_subsidence", "save_dt", "checkpoint_dt", "omega_sfc",
        "omega_flow", "Nsmooth", "theta_water", "coeff_theta_sand", "coeff_theta_mud", "beta", "sed_lag",
        "coeff_U_dep_mud", "coeff_U_ero_mud", "coeff_U_ero_sand", "alpha", "stepmax", "sand_frac_bc", "seed", "verbose"]

INTS = ("Nsmooth", "stepmax", "seed", "start_subsidence")


def cases(tier):
    return [dict(name=how + "-" + n, kw=dict(n=n, how=how)) for n in R for how in ("set", "config")] + \
        [dict(name="dx-" + how, kw=dict(n="dx", how=how)) for how in ("set", "config")] + \
        [dict(name="free-" + how, kw=dict(n="free", how=how)) for how in ("set", "config")] + \
        [dict(name="derived-defaults", kw=dict(n="none", how="set"))]


def give(c, m, vals, how):
    """Apply values; returns the exception raised, if any."""
    if how == "set":
        def f():
            for k, v in vals.items():
                setattr(m, k, v)
        return c.raises(f)
    m._input_file_vars = dict(m._input_file_vars)
    m._input_file_vars.update(vals)
    return c.raises(m.process_input_to_model)


def run(c, n, how):
    m = c.model(**small(3, 3))
    if n == "none":
        h = c.real("h0", 0.25, 8)
        sd = c.real("sd", 1, 100)
        e = give(c, m, {"h0": h, "save_dt": sd}, "set")
        m.active_layer_thickness = None
        m.checkpoint_dt = None
        c.observe("v", [m.active_layer_thickness, m.checkpoint_dt])
        c.check("an unset active layer is half the channel depth", c.eq(m.active_layer_thickness * 2, h))
        c.check("an unset checkpoint interval is the output interval", c.eq(m.checkpoint_dt, sd))
        m.resume_checkpoint = "elsewhere"
        c.check("a resume folder switches resuming on", m.resume_checkpoint is True and m._checkpoint_folder == "elsewhere")
        m.resume_checkpoint = False
        c.check("resuming can be switched off", m.resume_checkpoint is False)
        return
    if n == "free":
        V = {k: (c.int(k, -1000, 1000) if k in INTS else c.real(k, -1000, 1000))
             for k in FREE if k != "verbose"}
        e = give(c, m, V, how)
        c.check("values without a documented range are accepted", e is None)
        for k, v in V.items():
            c.check("an accepted value reads back unchanged", c.eq(getattr(m, k), v))
        return
    if n == "dx":
        old0 = m._dx
        Ln, Wd, dx = c.real("Ln", 0.25, 50), c.real("Wd", 0.25, 50), c.real("dx", -20, 100)
        e = give(c, m, {"Length": Ln, "Width": Wd, "dx": dx}, how)
        ok = c.And(c.gt(dx, 0, exact=True), c.le(dx, Ln, exact=True), c.le(dx, Wd, exact=True))
        new, v, old = (lambda: m._dx), dx, old0
    else:
        k, lo, op, hi = R[n]
        v = c.real("v", -100, 100) if k == "f" else c.int("v", -100, 100)
        if how == "config" and n in ("Length", "Width"):
            c.assume(c.Or(c.le(v, 0, exact=True), c.ge(v, 8)))
        if how == "set":       # whatever the other parameters are
            for q in FREE:
                if q != "verbose":
                    setattr(m, q, c.int("other_" + q, -9, 9) if q in INTS else c.real("other_" + q, -9, 9))
            for q in R:
                if q not in (n, "If"):
                    setattr(m, q, c.real("other_" + q, 0, 1) if q == "f_bedload" else c.int("other_" + q, 0 if not R[q][2] else 1, 20))
            m._dx = c.real("other_dx", 0.25, 100)
        old = getattr(m, "_" + n, None)
        e = give(c, m, {n: v}, how)
        ok = c.And(c.gt(v, lo, exact=True) if op else c.ge(v, lo, exact=True),
                   c.le(v, hi, exact=True) if hi is not None else True)
        new = lambda: getattr(m, "_" + n)
    if e is None:
        c.check("a value outside the documented range is refused", ok)
        c.check("an accepted value reads back unchanged", c.eq(new(), v))
    else:
        c.check("a value inside the documented range is accepted", c.Not(ok))
        c.check("a refusal is a value error", isinstance(e, ValueError))
        if old is not None:
            c.check("a refused value is not taken", c.eq(new(), old))
