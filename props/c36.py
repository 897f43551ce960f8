"""Where randomness comes from."""
import importlib
import os

from props.iolib import fresh_folder, still
from props.joblib import *
from props.lib import small

ALWAYS_JIT = True

META = dict(
    bounds="seeding: symbolic seeds, 3 serial jobs of 2 steps; sources: the step functions of water and sediment routing, "
           "surface, diffusion and output with the symbolic inputs of C01-C20 (their smaller cases); a whole time step of "
           "a 4x7 model",
    outside="generators of user subclasses",
    assumptions=["the random generator is a tape of draws with a position that can be saved and restored; equal seeds give "
                 "equal tapes"])

DRIVERS = {"C01": ["land-cell", "grid-type-12", "grid-depth-12"], "C02": ["cell-row0-theta1", "step-mud-mid", "step-sand-mid"],
           "C03": ["walk-0-2x1", "walk-1-1x3", "walk-loops", "growing-record"], "C05": ["loops-6x7-L02-1", "loops-6x7-L01-0"],
           "C06": ["surface-1", "finalize-1"], "C07": ["relax-t1", "smooth-2-n1"], "C08": ["cell11-0"],
           "C09": ["flow-t1-i1", "iteration"], "C10": ["walks-1"], "C11": ["free-sand-1", "free-mud-1"],
           "C17": ["two-passes"], "C18": ["finalize", "two-cells"], "C19": ["L02-rescaled"], "C20": ["with-flooding"],
           "C21": ["run-3-ckpt"], "C22": ["all"], "C34": ["starts-3-2", "water-starts"], "C27": ["domain"]}


def cases(tier):
    out = [dict(name="seeds", kw=dict(kind="seeds")),
           dict(name="given", kw=dict(kind="given")),
           dict(name="drawn", kw=dict(kind="drawn")),
           dict(name="step", kw=dict(kind="step"))]
    for p in sorted(DRIVERS):
        try:
            mod = importlib.import_module("props." + p.lower())
        except ImportError:
            continue
        for cs in mod.cases("quick"):
            if cs["name"] in DRIVERS[p]:
                out.append(dict(name="%s:%s" % (p, cs["name"]), kw=dict(kind="driver", prop=p, kw=cs.get("kw", {})),
                                opt=dict(cs.get("opt", {}), witnesses=1)))
    return out


class Quiet:
    """The same world, with the other property's checks left out."""
    def __init__(self, c):
        object.__setattr__(self, "_c", c)

    def __getattr__(self, n):
        return getattr(self._c, n)

    def __setattr__(self, n, v):
        setattr(self._c, n, v)

    def check(self, *a):
        pass

    def observe(self, *a):
        pass


def drawing(c):
    class Model(c.pkg.DeltaModel):
        def solve_water_and_sediment_timestep(self):
            self.eta0 = c.np.copy(self.eta)
            self.got = getattr(self, "got", []) + [c.mod("shared_tools").get_random_uniform(1.0)]
    return Model


def run(c, kind, prop=None, kw=None):
    st = c.mod("shared_tools")
    if kind == "driver":
        mod = importlib.import_module("props." + prop.lower())
        mod.run(Quiet(c), **kw)
        c.check("nothing draws from another generator", not c.unseeded())
    elif kind == "seeds":
        seeds(c)
    elif kind in ("given", "drawn"):
        m = c.model(defer_output=True, **small(3, 3))
        s = c.int("seed", 0, 1000)
        c.prime_rng()
        st.set_random_seed(c.int("earlier", 0, 1000))
        m.seed = s if kind == "given" else None
        m.determine_random_seed()
        got = [st.get_random_uniform(1.0) for _ in range(3)]
        if kind == "given":
            c.check("the seed is kept", c.eq(m.seed, s))
            c.check("seeding with a given seed uses no other generator", not c.unseeded())
        else:
            c.check("a seed is chosen", m.seed is not None)
            c.check("the chosen seed is in range", c.And(c.ge(int_(c, m.seed), 0), c.lt(int_(c, m.seed), 2**32)))
        st.set_random_seed(m.seed)
        again = [st.get_random_uniform(1.0) for _ in range(3)]
        c.check("the draws follow from the model's seed", c.eq(got, again))
    else:
        m = c.model(defer_output=True, **small(4, 7, Np_water=2, Np_sed=4, itermax=1, SLR=1e-3, S0=0.000244140625,
                                               save_eta_grids=True, save_checkpoint=True))
        fresh_folder(c, m)
        c.fix_draws([((i * 7919 + 13) % 997) / 1024 for i in range(400)])
        c.prime_rng()
        m.init_output_file()
        m.output_data()
        m.update()
        c.check("nothing draws from another generator", not c.unseeded())


def int_(c, x):
    return x if c.sym else int(x)


def seeds(c):
    """Every job of a serial run draws what it draws alone."""
    P = c.mod("preprocessor")
    st = c.mod("shared_tools")
    n = 3
    ss = [c.int("seed%d" % i, 0, 1000) for i in range(n)]
    ms = []
    for i in range(n):
        ms.append(c.model(cls=drawing, defer_output=True, **small(3, 3)))
        ms[i]._dt = 1.0
    given = []

    def make(input_file=None, defer_output=False, **kw):
        m = ms[len(given)]
        given.append(m)
        m.seed = ss[len(given) - 1]
        m.determine_random_seed()          # as the constructor does
        return m
    f = write(c, "out_dir: %s\nset:\n  - {seed: 1}\n  - {seed: 2}\n  - {seed: 3}\n" % os.path.join(c.scratch(), "jobs"))
    pp = P.Preprocessor(f, timesteps=2)
    pp.run_jobs(DeltaModel=make)
    for i in range(n):
        st.set_random_seed(ss[i])
        alone = [st.get_random_uniform(1.0) for _ in range(2)]
        c.check("a job of a serial run draws from its own seed", c.eq(ms[i].got, alone))
