"""Records contain the fields that were asked for, as they are at that time."""
import os

from props.iolib import *
from props.lib import small

META = dict(
    bounds="3x3 grid with all nine cells of every output field symbolic; every single toggle alone, all together, and "
           "any pair of toggles switched on and off in any order; two records; both file layouts; figures on and off",
    outside="drawing of figures itself (only which field is drawn to which file is decided); larger grids",
    assumptions=["values fit the four-byte floats of the file (tolerance 1e-4 when replayed)"])
G = {"save_eta_grids": {"eta": "eta"}, "save_stage_grids": {"stage": "stage"}, "save_depth_grids": {"depth": "depth"},
     "save_discharge_grids": {"discharge": "qw"}, "save_velocity_grids": {"velocity": "uw"},
     "save_sedflux_grids": {"sedflux": "qs"}, "save_sandfrac_grids": {"sandfrac": "sand_frac"},
     "save_discharge_components": {"discharge_x": "qx", "discharge_y": "qy"},
     "save_velocity_components": {"velocity_x": "ux", "velocity_y": "uy"}}
F = {"save_eta_figs": ("eta", "eta"), "save_stage_figs": ("stage", "stage"), "save_depth_figs": ("depth", "depth"),
     "save_discharge_figs": ("discharge", "qw"), "save_velocity_figs": ("velocity", "uw"),
     "save_sedflux_figs": ("sedflux", "qs"), "save_sandfrac_figs": ("sandfrac", "sand_frac")}
META_T = {"H_SL": "H_SL", "f_bedload": "f_bedload", "C0_percent": "C0_percent", "u0": "u0"}


def cases(tier):
    out = [dict(name="only-" + g, kw=dict(kind="grids", on=[g], legacy=False, meta=False)) for g in G]
    out += [dict(name="all", kw=dict(kind="grids", on=list(G), legacy=False)),
            dict(name="all-legacy", kw=dict(kind="grids", on=list(G), legacy=True)),
            dict(name="metadata-only", kw=dict(kind="grids", on=[], legacy=False)),
            dict(name="nothing", kw=dict(kind="none", on=[], legacy=False)),
            dict(name="grid-toggles", kw=dict(kind="toggles", on=[], legacy=False, rounds=2 if tier == "quick" else 4)),
            dict(name="fig-toggles", kw=dict(kind="figtoggles", on=[], legacy=False, rounds=2 if tier == "quick" else 4)),
            dict(name="figures", kw=dict(kind="figures", on=[], legacy=False)),
            dict(name="figure-content", kw=dict(kind="content", on=[], legacy=False)),
            dict(name="figure-files", kw=dict(kind="files", on=[], legacy=False))]
    return out


def recording(c):
    class Model(still(c)):
        def make_figure(self, var, time):
            self.figs.append((var, time))
            return var

        def save_figure(self, fig, directory, filename_root, save_iter, ext=".png", close=True):
            self.saved.append((fig, directory, filename_root, save_iter))
    return Model


def run(c, kind, on, legacy, rounds=2, meta=True):
    if kind == "files":
        return files(c)
    if kind == "content":
        return content(c)
    off = {g: False for g in G}
    if kind in ("toggles", "figtoggles"):
        # any toggle, switched any way twice (or left alone), with any other one on or off
        m = c.model(cls=still, defer_output=True, **small(3, 3))
        if kind == "toggles":
            D, L = G, m._save_var_list
        else:
            D, L = {k: {v[0]: v[1]} for k, v in F.items()}, m._save_fig_list
        for g in D:
            setattr(m, g, False)
        other = c.choice("other", list(D))
        ov = c.choice("other_on", [True, False])
        setattr(m, other, ov)
        g = c.choice("toggle", list(D))
        v = ov if g == other else False
        for r in range(rounds):
            w = c.choice("v%d" % r, [True, False, None])
            if w is not None:
                setattr(m, g, w)
                v = w
            c.check("a toggle reads back", getattr(m, g) is v)
            for n in D[g]:
                c.check("a field is written (drawn) exactly when it is switched on", (n in L) == v)
                if v:
                    c.check("it is the field it is named after", n in L and L[n][0] == D[g][n])
            for h in D:
                if h != g:
                    for n in D[h]:
                        c.check("a toggle leaves the other fields alone", (n in L) == (h == other and ov))
        return
    kw = dict(off)
    kw.update({g: True for g in on})
    if kind == "figures":
        kw.update({g: True for g in F})
    m = c.model(cls=recording, defer_output=True,
                **small(3, 3, save_metadata=(kind == "grids" and meta), legacy_netcdf=legacy, save_dt=1, toggle_subsidence=True,
                        subsidence_rate=0.25, start_subsidence=1000000, **kw))
    fresh_folder(c, m)
    m.figs, m.saved = [], []
    m._dt = c.scalar(1)
    vals = []
    for k in range(2):
        cur = {}
        fs = {f for g in on for f in G[g].values()} or {"eta"}
        for f in sorted(fs):
            a = c.arr("%s_%d" % (f, k), (3, 3), -50, 50)
            setattr(m, f, a)
            cur[f] = a.copy()
        for f in META_T:
            x = c.real("%s_%d" % (f, k), 0.0625, 1)
            setattr(m, "_" + f, x)
            cur[f] = x
        cur["time"] = c.int("time%d" % k, 0, 1000)
        m._time = cur["time"]
        if k == 0:
            m.init_output_file()
        m._save_time_since_data = 5
        m.output_data()
        vals.append(cur)
    if kind == "none":
        c.check("no output file when nothing is to be saved", not hasattr(m, "output_netcdf"))
        c.check("no figures when none are switched on", not m.figs and not m.saved)
        return
    if kind == "figures":
        c.check("every figure is drawn from its field at every record",
                sorted(x[0] for x in m.figs) == sorted([v[1] for v in F.values()] * 2))
        c.check("figures carry the model time", c.And([c.eq(x[1], vals[i // len(F)]["time"]) for i, x in enumerate(m.figs)]))
        c.check("figures are saved under their name and record number",
                sorted((x[0], x[2], int(x[3])) for x in m.saved) ==
                sorted((v[1], v[0] + "_", k) for k in range(2) for v in F.values()))
        return
    c.check("there is an output file when something is to be saved", hasattr(m, "output_netcdf"))
    want = sorted([n for g in on for n in G[g]] + ["time", "x", "y"])
    c.check("the file holds exactly the fields that are switched on", variables(c, m) == want)
    T = series(c, m, "time")
    c.check("one entry per record", sorted(T) == [0, 1])
    for k in range(2):
        c.check("each record has its time", c.eq(T[k], vals[k]["time"]))
        for g in on:
            for n, f in G[g].items():
                s = series(c, m, n)
                c.check("one entry per record", sorted(s) == [0, 1])
                if k == 1:
                    c.observe(n, s[k])
                c.check("a record holds the field as it was at that time", c.eq(s[k], vals[k][f]))
        for n, f in META_T.items():
            s = series(c, m, n, "meta")
            c.check("sea level and inlet conditions are recorded at every record",
                    c.And(s is not None and sorted(s) == [0, 1], c.eq(s[k], vals[k][f])))
    for n in ("L0", "N0", "CTR", "dx", "h0", "hb", "cell_type", "sigma", "start_subsidence"):
        c.check("the domain is described", c.eq(fixed(c, m, n, "meta"), getattr(m, n)))
    if legacy:
        c.check("coordinates", c.And(c.eq(fixed(c, m, "x"), m.x), c.eq(fixed(c, m, "y"), m.y)))
    else:
        c.check("coordinates", c.And(c.eq(fixed(c, m, "x"), [4 * i for i in range(3)]),
                                     c.eq(fixed(c, m, "y"), [4 * i for i in range(3)])))
    m.finalize()
    if c.sym:
        c.check("finalizing closes the file", m.output_netcdf.closed)
    else:
        c.check("finalizing closes the file", not m.output_netcdf.isopen())


def files(c):
    """Under which name does a figure end up?"""
    class Fig:
        def savefig(self, path, *a, **k):
            saved.append(str(path))
    m = c.model(cls=still, defer_output=True, **small(3, 3))
    fresh_folder(c, m)
    m._save_figs_sequential = c.choice("sequential", [True, False])
    # two records, both small or far into a long run
    base = c.choice("record", [0, 9, 99, 999, 9999, 12345, 99999, 123456])
    names = []
    for root in ("eta_", "depth_"):
        for k in (base, base + 1, base + 10000):
            saved = []
            m.save_figure(Fig(), directory=m.prefix, filename_root=root, save_iter=k)
            c.check("a figure is written to one file", len(saved) == 1)
            d, n = os.path.split(saved[0])
            c.check("figures go to the output folder", os.path.normpath(d) == os.path.normpath(m.prefix))
            if m._save_figs_sequential:
                c.check("a figure is named after its field and record", n == "%s%05d.png" % (root, k))
            else:
                c.check("only the latest figure of a field is kept", n == root + "latest.png")
            names.append(n)
    c.check("figures of different fields and records never share a file",
            len(set(names)) == (6 if m._save_figs_sequential else 2))


class Drawing:
    """Stand-in of pyplot, figure and axes that keeps the mesh drawn."""
    def __init__(self):
        self.mesh = []

    def subplots(self, *a, **k):
        return self, self

    def pcolormesh(self, *a, **k):
        self.mesh.append(a)
        return self

    pcolor = pcolormesh

    def __getattr__(self, n):
        return lambda *a, **k: self

    ax = property(lambda self: self)


def content(c):
    """What does a figure show?"""
    m = c.model(cls=still, defer_output=True, **small(3, 4))
    f = c.choice("field", [v[1] for v in F.values()])
    for g in {v[1] for v in F.values()}:
        setattr(m, g, c.arr(g, (3, 4), -50, 50))
    was = c.np.copy(getattr(m, f))
    if c.sym:
        it = c.mod("iteration_tools")
        keep, it.plt = it.plt, Drawing()
        try:
            m.make_figure(f, 5.0)
            mesh = it.plt.mesh
        finally:
            it.plt = keep
        if len(mesh) != 1 or len(mesh[0]) != 3:
            return                  # drawn in a way the stand-in does not know: left to the real library
        X, Y, a = mesh[0]
    else:
        import matplotlib
        matplotlib.use("Agg")
        import matplotlib.pyplot as plt
        fig = m.make_figure(f, 5.0)
        ms = [q for q in fig.axes[0].collections if hasattr(q, "get_coordinates")]
        c.check("a figure shows one field", len(ms) == 1)
        a = np.asarray(ms[0].get_array())
        X, Y = ms[0].get_coordinates()[..., 0], ms[0].get_coordinates()[..., 1]
        plt.close("all")
    c.check("a figure shows its field, cell by cell", c.eq(a, was))
    c.check("every cell is drawn in its place", c.And(
        c.eq(X, [[4 * j for j in range(5)] for i in range(4)]), c.eq(Y, [[4 * i for j in range(5)] for i in range(4)])))
    c.check("drawing changes nothing", c.eq(getattr(m, f), was))
