"""Shared pieces of the harnesses: small models and reference arithmetic."""
import inspect

NB = [(di, dj) for di in (-1, 0, 1) for dj in (-1, 0, 1)]     # 3x3 neighbourhood, row-major


def small(L=3, W=3, **kw):
    """Keyword arguments of a small model (unit-length cells are 4 m)."""
    d = dict(Length=4.0 * L, Width=4.0 * W, dx=4, L0_meters=4.0, N0_meters=12.0, S0=0.0625, u0=1.0, h0=4.0, hb=4.0,
             f_bedload=0.5, C0_percent=50, Np_water=3, Np_sed=4, itermax=1, Nsmooth=1, theta_water=1.0,
             coeff_theta_sand=2.0, coeff_theta_mud=1.0, beta=3, sed_lag=0.5, alpha=0.125,
             coeff_U_dep_mud=0.25, coeff_U_ero_mud=1.5, coeff_U_ero_sand=1.25,
             omega_sfc=0.125, omega_flow=0.5, Csmooth=0.875, seed=0, save_dt=50000, save_checkpoint=False)
    d.update(kw)
    return d


WATER = [("=gamma", 0.25), ("=_time_iter", 3), ("route_water",)]        # earlier work of a model (see symx.ctx.warmed)

STEP = WATER + [("route_sediment",), ("apply_subsidence",), ("finalize_timestep",)]


def edge(n, i):
    return 0 if i < 0 else n - 1 if i >= n else i


def nbrs(a, L, W, i, j):
    """Edge-replicated neighbourhood values of cell (i, j), a indexed [i][j]."""
    return [a[edge(L, i + di)][edge(W, j + dj)] for di, dj in NB]


def grid(x, L, W):
    return [[x[i, j] for j in range(W)] for i in range(L)]


def ambient(c, m, skip=(), fields=(), shape=None):
    """Free everything that has no say in what is checked: a long history, unrelated settings, unrelated fields."""
    for k, lo, hi in (("_time", 0, 10 ** 9), ("_SLR", -1, 1), ("_subsidence_rate", -1, 1), ("_start_subsidence", 0, 10 ** 9),
                      ("_save_time_since_data", 0, 10 ** 6), ("_S0", 0, 1), ("_C0_percent", 0, 100), ("_f_bedload", 0, 1),
                      ("_active_layer_thickness", 0, 8), ("_hb", 0.25, 16)):
        if k not in skip:
            setattr(m, k, c.real("amb" + k, lo, hi))
    for k, lo, hi in (("_time_iter", 1, 10 ** 6), ("_save_iter", 0, 10 ** 5), ("_itermax", 1, 100), ("_Nsmooth", 0, 100)):
        if k not in skip:
            setattr(m, k, c.int("amb" + k, lo, hi))
    for k in ("_toggle_subsidence", "_save_checkpoint", "_save_metadata"):
        if k not in skip:
            setattr(m, k, c.bool("amb" + k))
    for f in fields:
        lo, hi = (0, 16) if f in ("depth", "uw", "qw", "qs", "Vp_dep_sand", "Vp_dep_mud") else (0, 1) if f in (
            "sand_frac", "active_layer") else (-16, 16)
        setattr(m, f, c.arr("amb" + f, shape, lo, hi))


def by_name(fn, **kw):
    """Call a private helper positionally, in the order in which it names its parameters (renamed ones keep theirs)."""
    names = list(inspect.signature(getattr(fn, "py_func", fn)).parameters)
    if len(names) != len(kw):
        raise LookupError("another helper than the one this harness knows: nothing is claimed about it")
    rest = [k for k in kw if k not in names]
    return fn(*[kw[n] if n in kw else kw[rest.pop(0)] for n in names])
