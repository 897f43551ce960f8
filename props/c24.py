"""Which configuration value the model takes: arguments over file over default, of the documented type."""
import contextlib
import os
import warnings

import yaml

from props.lib import small

META = dict(
    bounds="every parameter of the model: its default, a value of any of six kinds in the file or as argument (one "
           "parameter at a time), and all parameters at once (file, arguments, both, alternating) with symbolic numbers; "
           "one or two parameters a subclass declares; one unknown key",
    outside="values out of range (C25); the text form of numbers in the file (C32); combinations of several wrong types",
    assumptions=["reading a YAML file of plain numbers gives these numbers (symbolically the file's content is handed to "
                 "the code where yaml.load returns it; every counterexample is replayed with a real file)"])

F, I, B, N, S = "f", "i", "b", "n", "s"
NUM, NUMN = (F, I), (F, I, N)
T = dict(verbose=((I,), 0), seed=((I, N), None), Length=(NUM, 5000.), Width=(NUM, 10000.), dx=(NUM, 50.),
         L0_meters=(NUM, 150.), S0=(NUM, 0.00015), itermax=((I,), 3), Np_water=((I,), 2000), u0=(NUM, 1.),
         N0_meters=(NUM, 250.), h0=(NUM, 5.), hb=(NUMN, None), H_SL=(NUM, 0.), SLR=(NUM, 0.), Np_sed=((I,), 2000),
         f_bedload=(NUM, 0.5), active_layer_thickness=(NUMN, None), C0_percent=(NUM, 0.1), Csmooth=(NUM, 0.9),
         toggle_subsidence=((B,), False), subsidence_rate=(NUM, 2e-9), start_subsidence=(NUM, 216000),
         save_eta_figs=((B,), False), save_stage_figs=((B,), False), save_depth_figs=((B,), False),
         save_discharge_figs=((B,), False), save_velocity_figs=((B,), False), save_sedflux_figs=((B,), False),
         save_sandfrac_figs=((B,), False), save_figs_sequential=((B,), True), save_metadata=((B,), False),
         save_eta_grids=((B,), False), save_stage_grids=((B,), False), save_depth_grids=((B,), False),
         save_discharge_grids=((B,), False), save_velocity_grids=((B,), False), save_sedflux_grids=((B,), False),
         save_sandfrac_grids=((B,), False), save_discharge_components=((B,), False),
         save_velocity_components=((B,), False), save_dt=((I,), 86400), checkpoint_dt=((I, N), None),
         save_checkpoint=((B,), False), omega_sfc=(NUM, 0.1), omega_flow=(NUM, 0.9), Nsmooth=((I,), 10),
         theta_water=(NUM, 1.), coeff_theta_sand=(NUM, 2.), coeff_theta_mud=(NUM, 1.), beta=((I,), 3), sed_lag=(NUM, 1.),
         coeff_U_dep_mud=(NUM, 0.3), coeff_U_ero_mud=(NUM, 1.5), coeff_U_ero_sand=(NUM, 1.05), alpha=(NUM, 0.1),
         stepmax=(NUMN, None), sand_frac_bc=(NUM, 0), clobber_netcdf=((B,), False), legacy_netcdf=((B,), False))


def cases(tier):
    return [dict(name="all-" + h, kw=dict(what="all", how=h)) for h in ("none", "file", "args", "both", "mixed", "ints")] + \
        [dict(name="type-" + k, kw=dict(what="type", how=k)) for k in T] + \
        [dict(name="subclass-" + k, kw=dict(what="subclass", how=k)) for k in ("typed", "clash")] + \
        [dict(name="unknown", kw=dict(what="unknown", how="")), dict(name="resume", kw=dict(what="resume", how=""))]


@contextlib.contextmanager
def given(c, d):
    """A configuration file whose content is d."""
    path = os.path.join(c.scratch(), "config.yml")
    if not c.sym:
        with open(path, "w") as f:
            yaml.safe_dump(d, f)
        yield path
        return
    with open(path, "w") as f:
        f.write("__content__: 1\n")
    old = yaml.load

    def load(stream, *a, **k):
        r = old(stream, *a, **k)
        return dict(d) if isinstance(r, dict) and "__content__" in r else r
    yaml.load = load
    try:
        yield path
    finally:
        yaml.load = old


def value(c, name, k, kind):
    if kind == N:
        return None
    if kind == B:
        return c.choice(name, [True, False])
    if kind == S:
        return "text"
    if kind == "l":
        return [1.0, 2.0]
    lo, hi = (0, 1) if k == "f_bedload" else (100, 1000) if k in ("Length", "Width") else (1, 40)
    return c.real(name, lo, hi) if kind == F else c.int(name, lo, hi)


def derived(k, v, V):
    if v is None and k == "active_layer_thickness":
        return V["h0"] / 2
    if v is None and k == "checkpoint_dt":
        return V["save_dt"]
    return v


def same(c, x, v):
    if v is None or isinstance(v, (bool, str)):
        return x is v or (isinstance(v, str) and x == v)
    if x is None or isinstance(x, (bool, str)):
        return False
    return c.eq(x, v, exact=True)


def load(c, m, file, args, sub=None):
    m.input_file = None
    if sub is not None:
        m.subclass_parameters = sub

    def go():
        m.import_files(dict(args))
        m.process_input_to_model()
    if file is None:
        return c.raises(go)
    with given(c, file) as p:
        m.input_file = p
        return c.raises(go)


def run(c, what, how):
    warnings.simplefilter("ignore")
    m = c.model(**small(3, 3))
    out = {"out_dir": m.out_dir}
    if what == "all":
        file, args = {}, {}
        plain = {k: t for k, t in T.items() if k not in ("Length", "Width")}
        for n, (k, (ts, d)) in enumerate(T.items()):
            kind = ts[0] if how != "ints" or B in ts else I
            if B in ts:
                v1, v2 = (not d), d
            else:
                v1, v2 = value(c, "file_" + k, k, kind), value(c, "arg_" + k, k, kind)
            if how in ("file", "both", "ints") or (how == "mixed" and n % 3):
                file[k] = v1
            if how in ("args", "both") or (how == "mixed" and n % 2):
                args[k] = v2
        e = load(c, m, file if how != "none" else None, dict(args, **out))
        V = {k: args[k] if k in args else file[k] if k in file else d for k, (_, d) in T.items()}
        c.check("a valid configuration is accepted", e is None)
        for k in V:
            c.check("%s is the argument, else the file's value, else the default" % k,
                    same(c, getattr(m, k), derived(k, V[k], V)))
        return
    if what == "type":
        ts, d = T[how]
        kind = c.choice("kind", [F, I, B, N, S, "l"])
        v = value(c, "v", how, kind)
        place = c.choice("place", ["file", "args", "both"])
        other = value(c, "other", how, ts[0])
        file = {how: v} if place == "file" else {how: other} if place == "both" else None
        args = dict(out, **({} if place == "file" else {how: v}))
        e = load(c, m, file, args)
        ok = kind in ts
        if not ok:
            c.check("a value of another type is refused with a type error", isinstance(e, TypeError))
        else:
            c.check("a value of the documented type is accepted", e is None)
            V = {k: t[1] for k, t in T.items()}
            V[how] = v
            for k in V:
                if B not in T[k][0] or k == how:
                    c.check("%s is the given value, or the default" % k, same(c, getattr(m, k), derived(k, V[k], V)))
        return
    if what == "subclass":
        place = c.choice("place", ["file", "args", "none"])
        if how == "typed":
            kind = c.choice("kind", [F, I, B, N, S])
            v = value(c, "v", "x", kind)
            dflt = c.real("default", -10, 10)
            sub = {"my_param": {"type": ["float", "None"], "default": dflt}, "my_flag": {"type": "bool", "default": False}}
            d = {} if place == "none" else {"my_param": v}
            if c.choice("which", ["my_param", "my_count"]) == "my_count":
                sub["my_count"] = {"type": "int", "default": 3}
                d = {} if place == "none" else {"my_count": v}
                e = load(c, m, d if place == "file" else None, dict(out, **(d if place == "args" else {})), sub)
                if place == "none" or kind == I:
                    c.check("a subclass parameter of a single type is taken", e is None and same(
                        c, m.my_count, 3 if place == "none" else v))
                else:
                    c.check("a subclass parameter of another type is refused", isinstance(e, TypeError))
                return
            e = load(c, m, d if place == "file" else None, dict(out, **(d if place == "args" else {})), sub)
            if place == "none":
                c.check("a subclass parameter not given has its default", e is None and same(c, m.my_param, dflt))
            elif kind in (F, N):
                c.check("a subclass parameter of its declared type is taken", e is None and same(c, m.my_param, v))
            else:
                c.check("a subclass parameter of another type is refused", isinstance(e, TypeError))
            if e is None:
                c.check("another subclass parameter has its default", m.my_flag is False)
            return
        v = c.real("v", 1, 40)
        sub = {"u0": {"type": "str", "default": "x"}}
        d = {} if place == "none" else {"u0": v}
        e = load(c, m, d if place == "file" else None, dict(out, **(d if place == "args" else {})), sub)
        c.check("a subclass cannot redefine a parameter of the model",
                e is None and same(c, m.u0, 1.0 if place == "none" else v))
        return
    if what == "resume":
        v = c.choice("v", [True, False, "folder", None, 1])
        e = load(c, m, {"resume_checkpoint": v}, dict(out))
        if v is None or v == 1 and v is not True:
            c.check("a resume setting of another type is refused", isinstance(e, TypeError))
        else:
            c.check("a resume setting is taken", e is None and m.resume_checkpoint is (v is not False))
        return
    v, u = c.real("v", 1, 40), c.real("u", 1, 40)
    place = c.choice("place", ["file", "args"])
    key = c.choice("key", ["u_0", "Time", "matrix", "time", "timesteps", "H0"])
    d = {key: v, "u0": u}
    e = load(c, m, d if place == "file" else None, dict(out, **(d if place == "args" else {})))
    c.check("an unknown key changes nothing", e is None and same(c, m.u0, u) if e is None else False)
    if e is None:
        V = {k: t[1] for k, t in T.items()}
        V["u0"] = u
        c.check("all others have their defaults", c.And([same(c, getattr(m, k), derived(k, V[k], V)) for k in V
                                                         if B not in T[k][0]]))
