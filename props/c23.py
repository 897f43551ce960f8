"""Checkpoints: everything comes back, and a resumed run continues as if it had not stopped."""
import os
import shutil
import warnings

from props.iolib import *
from props.lib import small

ALWAYS_JIT = True      # the saved generator state is the one of the compiled code

GRIDS = ["eta", "depth", "stage", "uw", "ux", "uy", "qw", "qx", "qy", "sand_frac", "active_layer"]

METAS = ["H_SL", "f_bedload", "C0_percent", "u0"]      # metadata recorded over time

META = dict(
    bounds="state: every grid, time and counter symbolic on a 3x3 grid; runs: 2 to 4 (thorough 5) steps of a model with "
           "random bed changes and sea-level rise, symbolic step lengths and intervals, stopped after any step (finalised, or gone "
           "with only the files left as they are), from the last checkpoint; leftovers: a full time step with routing of a 4x7 model from a fixed state, where everything "
           "a checkpoint does not hold is symbolic",
    outside="more steps; damaged checkpoint files; a changed configuration on resuming",
    assumptions=["the output library keeps what is written to it once it is synced or closed (file-backed stand-in)",
                 "the random generator is a tape of draws with a position that can be saved and restored"])


def cases(tier):
    out = [dict(name="state", kw=dict(kind="state")),
           dict(name="other-folder", kw=dict(kind="folder")),
           dict(name="leftovers", kw=dict(kind="left"))]
    for n in (2, 3) if tier == "quick" else (2, 3, 4):
        for nc in (True, False):
            out.append(dict(name="run-%d%s" % (n, "" if nc else "-nofile"), kw=dict(kind="run", n=n, nc=nc)))
        out.append(dict(name="crash-%d" % n, kw=dict(kind="run", n=n, nc=True, crash=True)))
    return out


def toy(c):
    """A model whose bed changes at random."""
    class Model(c.pkg.DeltaModel):
        def solve_water_and_sediment_timestep(self):
            self.eta0 = c.np.copy(self.eta)
            u = c.mod("shared_tools").get_random_uniform(1.0)
            self.eta = self.eta + u
            self.qw = self.qw * 2
            self.sand_frac = self.sand_frac * 0.5
    return Model


def counters(m):
    return [m.time, m.time_iter, m.save_iter, m.save_time_since_data, m.H_SL]


def same(c, a, b):
    return c.And([c.eq(getattr(a, g), getattr(b, g)) for g in GRIDS] + [c.eq(counters(a), counters(b))])


def state(c, other):
    kw = small(3, 3, save_eta_grids=True, save_checkpoint=True)
    a = c.model(cls=toy, defer_output=True, **kw)
    b = c.model(cls=toy, defer_output=True, **kw)
    d = fresh_folder(c, a)
    if other:
        fresh_folder(c, b)
    else:
        b.out_dir, b.prefix, b.prefix_abspath = d, d, d
    c.prime_rng()
    start_output(a)
    for g in GRIDS:
        setattr(a, g, c.arr(g, (3, 3), -100, 100))
    a._time = c.int("time", 0, 10**6)
    a._time_iter, a._save_iter = c.int("time_iter", 0, 1000), c.int("save_iter", 1, 1000)
    a._save_time_since_data = c.int("since", 0, 10**5)
    a._H_SL = c.real("H_SL", -10, 10)
    r = c.mod("shared_tools").get_random_uniform
    for _ in range(c.choice("drawn", [0, 1, 3])):
        r(1.0)
    a.save_dt = 10**6
    a._save_time_since_checkpoint = 10**7
    a.checkpoint_dt = 5
    a.output_checkpoint()
    want = [r(1.0) for _ in range(2)]
    a.eta[1, 1] = 1000.            # later changes are not part of it
    a._time = 10**7
    return a, b, d, r, want


def run(c, kind, **kw):
    warnings.simplefilter("ignore")
    if kind in ("state", "folder"):
        a, b, d, r, want = state(c, kind == "folder")
        ck = checkpoint(c, d)
        if kind == "state":
            b.resume_checkpoint = True
            b.load_checkpoint(defer_output=True)
        else:
            b.resume_checkpoint = d
            b.load_checkpoint(defer_output=False)
            a._save_iter = 0        # a new output file starts at its first record
            c.check("an expected but missing output file is created", series(c, b, "time") == {})
        a.eta, a._time = ck["eta"], c.int("time", 0, 10**6)
        c.check("a checkpoint holds the bed at its moment", c.eq(a.eta, c.arr("eta", (3, 3), -100, 100)))
        for g in GRIDS:
            c.check("%s comes back" % g, c.eq(getattr(b, g), getattr(a, g)))
        for n in ("time", "time_iter", "save_iter", "save_time_since_data", "H_SL"):
            c.check("%s comes back" % n, c.eq(getattr(b, n), getattr(a, n)))
        c.check("the time since the last checkpoint starts anew", c.eq(b.save_time_since_checkpoint, 0))
        got = [r(1.0) for _ in range(2)]
        c.check("the random sequence continues where the checkpoint was taken", c.eq(got, want))
        c.observe("b", [b.eta, b.qx, b.time])
    elif kind == "left":
        leftovers(c)
    else:
        runs(c, **kw)


def runs(c, n, nc, crash=False):
    """n more steps after any number of steps, once interrupted and resumed from the last checkpoint, once not."""
    kw = small(3, 3, save_eta_grids=True, save_sandfrac_grids=True, save_checkpoint=True, SLR=1e-3)
    u = c.model(cls=toy, defer_output=True, **kw)
    a = c.model(cls=toy, defer_output=True, **kw)
    b = c.model(cls=toy, defer_output=True, **kw)
    sdt, cdt = c.int("save_dt", 0, 40), c.int("checkpoint_dt", 0, 40)
    dts = c.int("dt", 1, 20)
    fresh_folder(c, u)
    d = fresh_folder(c, a)
    b.out_dir, b.prefix, b.prefix_abspath = d, d, d
    for m in (u, a, b):
        m.save_dt, m.checkpoint_dt, m._dt = sdt, cdt, dts
    stop = c.int("stop", 0, n)
    c.prime_rng()
    st = c.mod("shared_tools").get_random_state()
    start_output(u)
    for k in range(n):
        u.update()
    end = c.mod("shared_tools").get_random_state()
    c.mod("shared_tools").set_random_state(st)
    start_output(a)
    k = 0
    while k < stop:
        a.update()
        k += 1
    if crash:
        # the process is gone: what is left is what the files hold at this moment
        src, d = d, os.path.join(d, "left")
        os.makedirs(d)
        for f in os.listdir(src):
            if os.path.isfile(os.path.join(src, f)):
                shutil.copyfile(os.path.join(src, f), os.path.join(d, f))
        b.out_dir, b.prefix, b.prefix_abspath = d, d, d
    else:
        a.finalize()
    c.mod("shared_tools").get_random_uniform(1.0)
    if not nc:
        os.remove(os.path.join(d, "pyDeltaRCM_output.nc"))
    b.resume_checkpoint = True
    b.load_checkpoint(defer_output=False)
    c.check("the run resumes at most as far as it got", c.le(b.time, a.time))
    first = b.save_iter
    c.check("a new output file starts at its first record", True if nc else c.eq(first, 0))
    at = b.time_iter
    while b.time_iter < n:
        b.update()
    c.observe("end", [u.eta, b.eta, at])
    c.check("time", c.eq(b.time, u.time))
    c.check("state", c.And([c.eq(getattr(u, g), getattr(b, g)) for g in GRIDS]))
    c.check("sea level", c.eq(u.H_SL, b.H_SL))
    c.check("time since the last record", c.eq(u.save_time_since_data, b.save_time_since_data))
    c.check("time since the last checkpoint", c.eq(u.save_time_since_checkpoint, b.save_time_since_checkpoint))
    now = c.mod("shared_tools").get_random_state()
    c.check("random state", now[0] == end[0] and list(now[1]) == list(end[1]))
    for name, group in [("time", None), ("eta", None), ("sandfrac", None)] + [(k, "meta") for k in METAS]:
        U, B = series(c, u, name, group), series(c, b, name, group)
        if nc:
            c.check("%s: the same records as without interruption" % name,
                    c.And(sorted(U) == sorted(B), [c.eq(U[i], B[i]) for i in U if i in B]))
        else:
            # the new file holds what came after the checkpoint
            late = [i for i in sorted(U)][len(U) - len(B):]
            c.check("%s: the records after the checkpoint" % name,
                    c.And(sorted(B) == list(range(len(B))), [c.eq(U[i], B[j]) for j, i in enumerate(late)]))
    for name in ("L0", "N0", "CTR", "dx", "h0", "hb", "cell_type"):
        c.check("meta %s in the output of the resumed run" % name,
                c.eq(fixed(c, b, name, "meta"), fixed(c, u, name, "meta")))
    for name in ("x", "y"):
        c.check("axis %s in the output of the resumed run" % name, c.eq(fixed(c, b, name), fixed(c, u, name)))
    c.check("records", c.eq(b.save_iter, len(series(c, b, "time"))))


def arrays(c, m):
    from numbers import Number
    out = {}
    for k, v in m.__dict__.items():
        if hasattr(v, "dtype") and hasattr(v, "shape") and len(v.shape) > 0 and getattr(v.dtype, "kind", "O") in "fiu":
            out[k] = v
    return out


def leftovers(c):
    kw = small(4, 7, save_checkpoint=True, Np_water=2, Np_sed=4, itermax=1, SLR=1e-3, S0=0.000244140625)
    a = c.model(defer_output=True, **kw)
    b = c.model(defer_output=True, **kw)
    d = fresh_folder(c, a)
    b.out_dir, b.prefix, b.prefix_abspath = d, d, d
    c.fix_draws([((i * 7919 + 13) % 997) / 1024 for i in range(400)])
    c.prime_rng()
    start_output(a)
    fresh = {k: c.np.copy(v) for k, v in arrays(c, a).items()}
    a._save_time_since_checkpoint = 10**9
    a.update()
    ck = checkpoint(c, d)
    names = []
    for k, v in arrays(c, a).items():
        if k in ck or k in GRIDS:
            continue
        o = fresh.get(k)
        if o is not None and o.shape == v.shape and all(bool(x == y) for x, y in zip(flat(v), flat(o))):
            continue
        if k in ("inlet", "cell_type"):
            continue
        names.append(k)
    for k in sorted(names):
        v = getattr(a, k)
        setattr(a, k, c.arr("left_" + k, v.shape, -50, 50, dtype=str(v.dtype)))
    st = c.mod("shared_tools").get_random_state()
    a.update()
    b.resume_checkpoint = True
    b.load_checkpoint(defer_output=True)
    s2 = c.mod("shared_tools").get_random_state()
    c.check("random state", s2[0] == st[0] and list(s2[1]) == list(st[1]))
    b.update()
    c.observe("end", [a.qw, b.qw, a.eta, b.eta])
    for g in GRIDS + ["qs", "Vp_dep_sand", "Vp_dep_mud"]:
        c.check("%s after the next step does not depend on what a checkpoint leaves out" % g,
                c.eq(getattr(a, g), getattr(b, g)))
    c.check("counters", c.And(c.eq(a.time, b.time), c.eq(a.time_iter, b.time_iter), c.eq(a.H_SL, b.H_SL)))


def flat(x):
    from symx.ctx import _flat
    return _flat(x)
