"""Saving, logging and drawing do not influence the simulation."""
import contextlib
import io
import os
import warnings

import numpy as np

from props.c22 import F, G
from props.iolib import *
from props.lib import WATER, small

ALWAYS_JIT = True      # the generator's state is the one of the compiled code

GRIDS = ["eta", "depth", "stage", "uw", "ux", "uy", "qw", "qx", "qy", "qs", "sand_frac", "active_layer", "Vp_dep_sand",
         "Vp_dep_mud"]

META = dict(
    bounds="3x3 grid, all fields symbolic (all cells for one call of the output steps, one cell for a time step without "
           "routing), time, counters and intervals symbolic: every single output, figure, metadata or checkpoint switch alone, all together and "
           "none, every verbosity 0..3; one whole time step with routing (4x7 grid, fixed state and draws, a symbolic "
           "cell of bed composition) for every verbosity, with everything and with nothing saved; the single steps of a time step with a "
           "symbolic cell for every verbosity",
    outside="drawing inside matplotlib and writing inside the NetCDF library (stand-ins, the replay uses the real ones)",
    assumptions=["the random generator is a tape of draws with a position that can be read"])
ONE = ["nothing", "everything", "save_metadata", "save_checkpoint"] + list(G) + list(F)

LEAF = ["init_water_iteration", "compute_free_surface", "finalize_water_iteration", "init_sediment_iteration",
        "route_all_sand_parcels", "topo_diffusion", "route_all_mud_parcels", "apply_subsidence", "finalize_timestep"]


def cases(tier):
    out = [dict(name="output-%d" % k, kw=dict(kind="output", part=k)) for k in range(4)]
    out += [dict(name="step-%d" % k, kw=dict(kind="step", part=k)) for k in range(4)]
    out += [dict(name="leaf-" + n, kw=dict(kind="leaf", part=n)) for n in LEAF]
    out += [dict(name="routing-%s" % w, kw=dict(kind="routing", part=w)) for w in ("everything", "nothing")]
    return out


def drawing(c):
    """A model whose steps draw at random but route nothing."""
    class Model(c.pkg.DeltaModel):
        def solve_water_and_sediment_timestep(self):
            self.eta0 = c.np.copy(self.eta)
            self.eta = self.eta + c.mod("shared_tools").get_random_uniform(1.0)
    return Model


def switches(what):
    return {k: k == what or what == "everything" for k in list(G) + list(F) + ["save_metadata", "save_checkpoint"]}


def rng(c):
    s = c.mod("shared_tools").get_random_state()
    return s[0], list(s[1])


def symbolic(c, ms, whole):
    for g in GRIDS:
        lo, hi = (0, 1) if g in ("sand_frac", "active_layer") else (0, 32) if g in ("depth", "uw", "qw", "qs", "Vp_dep_sand",
                                                                                    "Vp_dep_mud") else (-32, 32)
        if whole:
            a = c.arr(g, (3, 3), lo, hi)
            for m in ms:
                setattr(m, g, a.copy())
        else:
            x = c.real(g + "_11", lo, hi)
            for m in ms:
                getattr(m, g)[1, 1] = x
    t, n, h = c.int("time", 0, 10 ** 6), c.int("time_iter", 0, 1000), c.real("H_SL", -4, 4)
    slr = c.real("SLR", -1, 1)
    for m in ms:
        m._time, m._time_iter, m._H_SL, m._SLR = t, n, h, slr
        m._dt = c.scalar(16)


def run(c, kind, part):
    warnings.simplefilter("ignore")
    if kind == "routing":
        return routing(c, part)
    if kind == "leaf":
        return leaf(c, part)
    what = c.choice("on", ONE[part * 5:part * 5 + 5])
    a, b = (c.model(cls=drawing, defer_output=True, **small(3, 3, **switches(w))) for w in ("nothing", what))
    fresh_folder(c, a)
    fresh_folder(c, b)
    sdt, cdt = c.int("save_dt", 0, 50), c.int("checkpoint_dt", 0, 50)
    b.save_dt, b.checkpoint_dt = sdt, cdt
    b.verbose = c.int("verbose", 0, 3)
    symbolic(c, (a, b), kind == "output")
    b._save_time_since_data = b._save_time_since_checkpoint = c.int("since", 0, 100)
    c.prime_rng()
    st = c.mod("shared_tools").get_random_state()
    with contextlib.redirect_stdout(io.StringIO()):
        b.init_output_file()
        if kind == "output":
            b.output_data()
            b.output_checkpoint()
            b.log_model_time()
        else:
            b.update()
            end = rng(c)
            c.mod("shared_tools").set_random_state(st)
            a.update()
    compare(c, a, b)
    if kind == "output":
        c.check("saving, logging and drawing draw no random number", rng(c) == (st[0], list(st[1])))
    else:
        c.check("saving, logging and drawing draw no random number", rng(c) == end)


def compare(c, a, b):
    for g in GRIDS:
        c.check("%s does not depend on what is saved, logged or drawn" % g, c.eq(getattr(a, g), getattr(b, g), exact=True))
    c.check("time and sea level do not depend on what is saved, logged or drawn",
            c.And([c.eq(x, y, exact=True) for x, y in ((a.time, b.time), (a.time_iter, b.time_iter), (a.H_SL, b.H_SL),
                                                        (a.dt, b.dt))]))
    c.observe("eta", [b.eta, b.time])


def routing(c, what):
    a, b = (c.model(defer_output=True, **small(4, 7, Np_water=2, Np_sed=4, itermax=1, SLR=1e-3, S0=0.000244140625,
                                               **switches(w))) for w in ("nothing", what))
    fresh_folder(c, a)
    fresh_folder(c, b)
    b.save_dt, b.checkpoint_dt = 1, 1
    b.verbose = c.int("verbose", 0, 3)
    x, y = c.real("sand", 0, 1), c.real("layer", 0, 1)
    for m in (a, b):
        m.sand_frac[2, 3], m.active_layer[2, 3] = x, y
    c.fix_draws([((i * 7919 + 13) % 997) / 1024 for i in range(400)])
    c.prime_rng()
    st = c.mod("shared_tools").get_random_state()
    with contextlib.redirect_stdout(io.StringIO()):
        start_output(b)
        b.update()
        end = rng(c)
        c.mod("shared_tools").set_random_state(st)
        a.update()
    compare(c, a, b)
    c.check("saving, logging and drawing draw no random number", rng(c) == end)


def leaf(c, name):
    """A single step from a state with a free cell, with free verbosity."""
    kw = small(3, 3, Np_water=1, Np_sed=2, itermax=1, toggle_subsidence=True, subsidence_rate=1e-9)
    a, b = (c.model(defer_output=True, warm=[("=inlet", np.array([1]))] + WATER, **kw) for _ in range(2))
    b.verbose = c.int("verbose", 0, 3)
    few = ["eta", "stage", "depth"] if "route" in name or "water" in name else GRIDS
    for g in few:
        lo, hi = (0, 1) if g in ("sand_frac", "active_layer") else (0, 32) if g in ("depth", "uw", "qw", "qs", "Vp_dep_sand",
                                                                                    "Vp_dep_mud") else (-32, 32)
        x = c.real(g + "_11", lo, hi)
        for m in (a, b):
            getattr(m, g)[1, 1] = x
    if name == "compute_free_surface":
        for m in (a, b):
            m.free_surf_walk_inds, m.free_surf_flag = c.const([[1, 4, 7]], "int64"), c.const([1], "int64")
    n = c.int("time_iter", 0, 9)
    t = c.int("time", 0, 100)
    for m in (a, b):
        m._time_iter, m._time, m.eta0 = n, t, c.np.copy(a.eta)
    args = (0,) if name == "finalize_water_iteration" else ()
    c.fix_draws([((i * 7919 + 13) % 997) / 1024 for i in range(400)])
    c.prime_rng()
    st = c.mod("shared_tools").get_random_state()
    with contextlib.redirect_stdout(io.StringIO()):
        getattr(b, name)(*args)
        end = rng(c)
        c.mod("shared_tools").set_random_state(st)
        getattr(a, name)(*args)
    compare(c, a, b)
    for g in ("water_weights", "Hnew", "sfc_sum", "sfc_visit", "qwn", "qxn", "qyn"):
        if hasattr(a, g):
            c.check("work fields do not depend on the verbosity", c.eq(getattr(a, g), getattr(b, g), exact=True))
    c.check("saving, logging and drawing draw no random number", rng(c) == end)
