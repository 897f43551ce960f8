"""Set-ups for the sediment routing properties: real parcels on small grids."""
import numpy as np

from props.lib import ambient, grid, small

DT, DX = 2.0, 4.0
P = dict(u_max=3.0, qs0=1.5, u0=1.0, Uero_s=1.25, f=0.5, beta=3, Udep=0.25, Uero_m=1.75, lam=0.25)


def prepare(c, L, W, ct, steps, n=1, inlet=(1,), beta=3, Vp=None, cls=None):
    """A model whose routers carry simple constants; all fields zero, depth 1."""
    before = [("=cell_type", np.array(corridor(L) if W == 3 else ct)), ("=inlet", np.array([1])), ("=_time_iter", 3), ("route_sediment",)]
    m = c.model(cls=cls, warm=before, **small(L, W, Np_sed=2 * n, f_bedload=0.5, stepmax=steps, beta=beta))
    ambient(c, m, ("_f_bedload",))
    m._dt, m._dx = c.scalar(DT), c.scalar(DX)
    m.Vp_sed = Vp
    m.u_max, m.qs0, m._u0 = c.scalar(P["u_max"]), c.scalar(P["qs0"]), c.scalar(P["u0"])
    m.U_ero_sand, m.U_dep_mud, m.U_ero_mud = c.scalar(P["Uero_s"]), c.scalar(P["Udep"]), c.scalar(P["Uero_m"])
    m._lambda = c.scalar(P["lam"])
    m.dry_depth = c.scalar(0.125)
    m.theta_sand = m.theta_mud = c.scalar(1)
    z = [[0.0] * W for _ in range(L)]
    for f in ("eta", "stage", "uw", "ux", "uy", "qw", "qx", "qy", "qs", "Vp_dep_sand", "Vp_dep_mud"):
        setattr(m, f, c.const(z))
    m.depth = c.const([[1.0] * W for _ in range(L)])
    m.mod_erosion = c.const([[1.0] * W for _ in range(L)])
    m.mod_sed_weight = c.const([[1.0] * W for _ in range(L)])
    m.cell_type = c.const(ct, "int64")
    m.inlet = c.const(list(inlet), "int64")
    m.init_sediment_routers()
    return m


def corridor(L):
    """One column of water between land, open end at the last row."""
    return [[-2, 1, -2]] + [[-2, 0, -2] for _ in range(L - 2)] + [[-2, -1, -2]]


def route(c, m, kind):
    if kind == "sand":
        m.route_all_sand_parcels()
        return m._sr
    m.route_all_mud_parcels()
    return m._mr


def symcell(c, m, p, k, what=("eta", "stage", "uw", "q", "qs", "mod")):
    """Make the fields of cell p symbolic; returns the inputs."""
    s, w = {}, c.wide
    if "eta" in what:
        s["eta"] = m.eta[p] = c.real("eta%s" % k, -8 * w, 4 * w)
    if "stage" in what:
        s["stage"] = m.stage[p] = c.real("stage%s" % k, -2 * w, 4 * w)
    if "uw" in what:
        s["uw"] = m.uw[p] = c.real("uw%s" % k, 0, 2 if w == 1 else 8)
    if "qs" in what:
        s["qs"] = m.qs[p] = c.real("qs%s" % k, 0, 2 * w)
    if "q" in what:
        s["qw"] = m.qw[p] = c.real("qw%s" % k, 0, 8 * w)
        s["qx"] = m.qx[p] = c.real("qx%s" % k, 0.25, 8 * w)
        s["qy"] = m.qy[p] = c.real("qy%s" % k, -8 * w, 8 * w)
    if "mod" in what:
        s["mod"] = m.mod_erosion[p] = c.real("mod%s" % k, 0, 2 if w == 1 else 16)
    return s


def snap(m, L, W):
    return {f: grid(getattr(m, f).copy(), L, W) for f in
            ("eta", "depth", "stage", "uw", "ux", "uy", "qs", "Vp_dep_sand", "Vp_dep_mud")}
