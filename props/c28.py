"""Boundary conditions changed during a run take effect everywhere."""
import warnings

from props.lib import small

META = dict(
    bounds="one or two (thorough: three) changes in sequence of velocity, width, depth, concentration, bedload fraction, sea level, sea level "
           "rise, time step, each to a symbolic value, from a symbolic configuration, on a 12x28 grid, subsidence on or off",
    outside="longer sequences; the inlet's columns under a changed width and the initial fields (not rebuilt by design); "
            "a time step set by hand before another change (which derives it anew); rounding",
    assumptions=["values are real numbers (tolerance 1e-4 when replayed)"])

CH = ["velocity", "width", "depth", "concentration", "bedload", "level", "rise"]


def cases(tier):
    cs = [dict(name=a, kw=dict(ch=[a])) for a in CH + ["step"]]
    cs += [dict(name="%s-%s" % (a, b), kw=dict(ch=[a, b]), opt=dict(max_time=300))
           for a in CH[:5] for b in CH[:5] if a != b]
    if tier != "quick":
        cs += [dict(name="%s-%s-%s" % (a, b, d), kw=dict(ch=[a, b, d]), opt=dict(max_time=600))
               for a in CH[:5] for b in CH[:5] for d in CH[:5] if len({a, b, d}) == 3]
    cs += [dict(name="%s-step" % a, kw=dict(ch=[a, "step"])) for a in CH[:5]]
    cs += [dict(name="bedload-config", kw=dict(ch=["bedload"], via="f_bedload"))]
    return cs


NAMES = """L0 N0 u_max C0 U_dep_mud U_ero_sand U_ero_mud dry_depth gamma V0 Qw0 qw0 Qp_water qs0 dVs Qs0 Vp_sed stepmax
size_indices _dt omega_flow_iter N_crossdiff _lambda diffusion_multiplier sigma subsidence_mask theta_sand theta_mud _u0
_h0 _N0_meters _L0_meters _C0_percent _f_bedload _H_SL _SLR _S0 _dx _Np_water _Np_sed _itermax _subsidence_rate _alpha
_beta _sed_lag L W CTR cell_type eta stage depth qx qy qw ux uy uw sand_frac active_layer mod_erosion mod_water_weight
mod_sed_weight""".split()


def build(c, v, sub):
    m = c.model(**small(12, 28, toggle_subsidence=sub, subsidence_rate=1e-9))
    m._u0, m._h0, m._C0_percent, m._N0_meters = v["velocity"], v["depth"], v["conc"], v["width"]
    m._f_bedload, m._H_SL, m._SLR, m._subsidence_rate = v["bedload"], v["level"], v["rise"], v["rate"]
    m.create_other_variables()
    m.init_subsidence()
    m.init_sediment_routers()
    return m


def fields(o):
    try:
        return dict(vars(o))
    except TypeError:
        return {k: getattr(o, k) for k in type(o)._numba_type_.struct}


def numeric(x):
    return not isinstance(x, (str, bytes, dict, list, tuple, type(None))) and (hasattr(x, "dtype") or
                                                                              isinstance(x, (int, float)))


def run(c, ch, via=None):
    warnings.simplefilter("ignore")
    sub = c.choice("subsidence", [True, False])
    v = dict(velocity=c.real("velocity", 0.25, 4), depth=c.real("depth", 0.25, 16), conc=c.real("conc", 0.01, 10),
             width=c.real("width", 1, 40), bedload=c.real("bedload", 0, 1), level=c.real("level", -10, 10),
             rise=c.real("rise", -1, 1), rate=c.real("rate", 0, 1))
    a = build(c, v, sub)
    w = dict(v)
    step = None
    for k in ch:
        if k == "velocity":
            w["velocity"] = a.channel_flow_velocity = c.real("new_velocity", 0.25, 4)
        elif k == "width":
            w["width"] = a.channel_width = c.real("new_width", 1, 40)
        elif k == "depth":
            w["depth"] = a.channel_flow_depth = c.real("new_depth", 0.25, 16)
        elif k == "concentration":
            n = c.real("new_conc", 0.0001, 0.1)
            a.influx_sediment_concentration = n
            w["conc"] = n * 100
        elif k == "bedload":
            n = w["bedload"] = c.real("new_bedload", 0, 1)
            if via:
                a.f_bedload = n
            else:
                a.bedload_fraction = n
        elif k == "level":
            w["level"] = a.sea_surface_mean_elevation = c.real("new_level", -10, 10)
        elif k == "rise":
            w["rise"] = a.sea_surface_elevation_change = c.real("new_rise", -1, 1)
        else:
            step = a.time_step = c.real("new_step", 0.5, None)
    b = build(c, w, sub)
    if step is not None:
        dt = b._dt
        b._dt = step
        b.diffusion_multiplier = b.diffusion_multiplier * (step / dt)
        b.init_subsidence()
        b.init_sediment_routers()
    A, B = vars(a), vars(b)
    ks = [k for k in NAMES if k in A and k in B and numeric(A[k])]
    eqs = [(k, c.eq(A[k], B[k])) for k in ks]
    for k, e in eqs:
        c.check("%s is that of a model configured with the new values" % k, e)
    for r, name in (("_sr", "sand"), ("_mr", "mud")):
        fa, fb = fields(getattr(a, r)), fields(getattr(b, r))
        fs = [k for k in sorted(fa) if numeric(fa[k]) and k in fb]
        c.check("%s routing uses the new values" % name, c.And([c.eq(fa[k], fb[k]) for k in fs]))
    c.check("current values read back", c.And(
        c.eq(a.channel_flow_velocity, w["velocity"]), c.eq(a.channel_flow_depth, w["depth"]),
        c.eq(a.bedload_fraction, w["bedload"]), c.eq(a.sea_surface_mean_elevation, w["level"]),
        c.eq(a.sea_surface_elevation_change, w["rise"]), c.eq(a.time_step, a.dt),
        c.eq(a.channel_width, a.N0 * 4), c.eq(a.C0 * 100, w["conc"])))
    if step is not None:
        c.check("the time step is the given one", c.eq(a.dt, step))
    if sub:
        c.check("subsidence per step is the rate times the time step",
                c.And([c.eq(a.sigma[i, j], 0 if i < 1 else v["rate"] * a.dt) for i in (0, 1, 11) for j in (0, 7, 27)]))
    c.check("the grids are exposed", a.water_depth is a.depth and a.bed_elevation is a.eta
            and a.sea_surface_elevation is a.stage)
    c.observe("v", [a._dt, a.Qs0, a.Vp_sed])
