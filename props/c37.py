"""Order of the steps of an update and of a construction, and their hooks."""
import os

from props.iolib import *
from props.lib import small

META = dict(
    bounds="updates with a symbolic number of water iterations (0..4, thorough 0..8), subsidence and output settings symbolic, "
           "any state; constructions with and without deferred output and resuming",
    outside="what the steps do (other properties)",
    assumptions=["the routing steps are recorded, not executed"])

LEAF = ["init_water_iteration", "run_water_iteration", "compute_free_surface", "finalize_water_iteration",
        "init_sediment_iteration", "route_all_sand_parcels", "topo_diffusion", "route_all_mud_parcels"]
STEP = ["solve_water_and_sediment_timestep", "route_water", "route_sediment", "apply_subsidence", "finalize_timestep",
        "compute_sand_frac", "output_data", "output_checkpoint", "import_files", "process_input_to_model",
        "create_other_variables", "create_domain", "load_checkpoint", "init_output_file"]
AFTER = ["hook_after_create_domain", "hook_after_route_water", "hook_after_route_sediment", "hook_after_finalize_timestep"]


def recording(c):
    Base = c.pkg.DeltaModel

    def rec(self, name, *a):
        if "calls" not in self.__dict__:
            self.calls = []
        t = self.__dict__.get("_time", None)
        self.calls.append((name,) + a)
        self.__dict__.setdefault("times", []).append(t)

    ns = {}
    for n in LEAF:
        ns[n] = (lambda n: lambda self, *a: rec(self, n, *a))(n)
    for n in STEP:
        def mk(n):
            f = getattr(Base, n)

            def g(self, *a, **k):
                rec(self, n)
                return f(self, *a, **k)
            return g
        ns[n] = mk(n)
    for n in AFTER + ["hook_" + n for n in LEAF + STEP]:
        ns[n] = (lambda n: lambda self, *a: rec(self, n, *a))(n)
    return type("Recording", (Base,), ns)


def cases(tier):
    out = [dict(name="update", kw=dict(kind="update", n=4 if tier == "quick" else 8))]
    for k in ("plain", "defer", "resume", "resume-nofile", "resume-defer"):
        out.append(dict(name="construct-" + k, kw=dict(kind="construct", n=k)))
    return out


def hooked(*names):
    out = []
    for n in names:
        out += [("hook_" + n,), (n,)]
    return out


def run(c, kind, n):
    if kind == "construct":
        return construct(c, n)
    m = c.model(cls=recording, defer_output=True, **small(3, 3, save_eta_grids=True))
    d = fresh_folder(c, m)
    start_output(m)
    k = c.int("itermax", 0, n)
    m.itermax = k
    m.toggle_subsidence = c.choice("subsidence", [False, True])
    if m.toggle_subsidence:
        m.subsidence_rate = 1e-9
        m.init_subsidence()
    m.save_dt = c.int("save_dt", 0, 100)
    m._dt = c.int("dt", 1, 100)
    m._time = c.int("time", 0, 1000)
    m.eta = c.arr("eta", (3, 3), -10, 10)
    t0 = m._time
    m.calls, m.times = [], []
    m.update()
    want = [("hook_solve_water_and_sediment_timestep",), ("solve_water_and_sediment_timestep",),
            ("hook_route_water",), ("route_water",)]
    for i in range(int(k)):
        want += hooked("init_water_iteration", "run_water_iteration", "compute_free_surface")
        want += [("hook_finalize_water_iteration", i), ("finalize_water_iteration", i)]
    want += [("hook_after_route_water",), ("hook_route_sediment",), ("route_sediment",)]
    want += hooked("init_sediment_iteration", "route_all_sand_parcels", "topo_diffusion", "route_all_mud_parcels")
    want += [("hook_after_route_sediment",)]
    want += hooked("apply_subsidence", "finalize_timestep", "compute_sand_frac")
    want += [("hook_after_finalize_timestep",)]
    want += hooked("output_data", "output_checkpoint")
    c.observe("calls", [len(m.calls)])
    c.check("the same number of steps and hooks", len(m.calls) == len(want))
    for i, (a, b) in enumerate(zip(m.calls, want)):
        c.check("steps and hooks in their order", a[0] == b[0] and len(a) == len(b))
        if len(a) == len(b) == 2:
            c.check("the water iteration is told its number", c.eq(a[1], b[1]))
    late = [t for x, t in zip(m.calls, m.times) if "output" in x[0]]
    early = [t for x, t in zip(m.calls, m.times) if "output" not in x[0]]
    c.check("steps see the time of the start", c.And([c.eq(t, t0) for t in early]))
    c.check("output sees the new time", c.And([c.eq(t, t0 + m._dt) for t in late]))


def construct(c, how):
    defer = "defer" in how
    kw = small(3, 3, save_eta_grids=True, save_checkpoint=True, save_dt=c_one())
    d = os.path.join(c.scratch(), "out-" + how)
    if how.startswith("resume"):
        a = c.model(out_dir=d, **kw)
        a.finalize()
        if how == "resume-nofile":
            p = os.path.join(d, "pyDeltaRCM_output.nc")
            if os.path.exists(p):
                os.remove(p)
        kw["resume_checkpoint"] = True
    if defer:
        kw["defer_output"] = True
    m = c.model(cls=recording, out_dir=d, **kw)
    want = hooked("import_files", "process_input_to_model", "create_other_variables", "create_domain")
    want += [("hook_after_create_domain",)]
    if how.startswith("resume"):
        want += hooked("load_checkpoint")
        if how == "resume-nofile":
            want += hooked("init_output_file")
    elif not defer:
        want += hooked("init_output_file", "output_data", "output_checkpoint")
    c.check("steps and hooks of a construction in their order", [x[0] for x in m.calls] == [x[0] for x in want])
    c.check("a new model starts at time zero", c.And(c.eq(m.time, 0), c.eq(m.time_iter, 0)))


def c_one():
    return 1
