"""Conversions between model time, real time and rates use the documented factors."""
META = dict(
    bounds="every time (0..1e9 s), intermittency (-1..2, symbolic), unit, and rate of sea-level rise (-100..100 mm/yr)",
    outside="non-numeric input; floating-point rounding",
    assumptions=["values are real numbers (relative tolerance 1e-6 when replayed)"])
UNITS = {"seconds": 1, "days": 86400, "years": 31557600}


def cases(tier):
    return [dict(name="time-" + u, kw=dict(kind="time", u=u)) for u in UNITS] + \
        [dict(name="bad-unit", kw=dict(kind="bad", u="hours")), dict(name="rslr", kw=dict(kind="rslr", u="years"))]


def run(c, kind, u):
    sh, pp = c.mod("shared_tools"), c.mod("preprocessor")
    If = c.real("If", -1, 2)
    t = c.real("t", 0, 1000000000)
    ok = c.And(c.gt(If, 0, exact=True), c.le(If, 1, exact=True))
    if kind == "rslr":
        c.assume(ok)
        c.assume(c.ge(If, 0.015625))
        mm = c.real("mm", -100, 100)
        r = pp.scale_relative_sea_level_rise_rate(mm, If=If)
        c.observe("r", r * 1000000)
        c.check("millimetres per year become metres per second of model time", c.eq(r * 31557600000 * If, mm))
        return
    if kind == "bad":
        c.assume(ok)
        e = c.raises(sh.scale_model_time, t, If=If, units="hours")
        c.check("unknown units are refused", isinstance(e, ValueError))
        return
    c.assume(c.Or(c.ge(If, 0.015625), c.le(If, 0)))
    try:
        r = sh.scale_model_time(t, If=If, units=u)
    except ValueError:
        c.check("an intermittency within (0, 1] is accepted", c.Not(ok))
        return
    c.check("an intermittency outside (0, 1] is refused", ok)
    c.observe("r", r)
    c.check("model time is scaled by unit and intermittency", c.eq(r * UNITS[u] * If, t, tol=1e-6))
    c.check("the default is no intermittency, in seconds", c.eq(sh.scale_model_time(t), t))
