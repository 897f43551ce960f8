"""Reading what a model wrote, in both worlds."""
import os

import numpy as np


def still(c):
    """Model class whose time steps do not route anything (as a user subclass may do)."""
    class Model(c.pkg.DeltaModel):
        def solve_water_and_sediment_timestep(self):
            self.eta0 = c.np.copy(self.eta)
    return Model


def start_output(m):
    """What a model does at the end of its construction when output is deferred."""
    m.init_output_file()
    m.output_data()
    m.output_checkpoint()


def series(c, m, name, group=None):
    """{record index: value} of an output variable, None if it does not exist."""
    ds = m.output_netcdf
    vs = ds.variables if group is None else ds.groups[group].variables if group in ds.groups else {}
    if name not in vs:
        return None
    v = vs[name]
    if c.sym:
        return {k: x for k, x in v.data.items() if k != "all"}
    out = {}
    for k in range(v.shape[0]):
        x = v[k]
        if np.ma.is_masked(x) and np.all(np.ma.getmaskarray(x)):
            continue
        if group is not None and np.all(np.isnan(np.asarray(x, dtype=float))):
            continue                # a new file's metadata start with an empty record
        out[k] = np.asarray(x)
    return out


def fixed(c, m, name, group=None):
    """Whole value of a variable without record dimension."""
    ds = m.output_netcdf
    v = (ds.variables if group is None else ds.groups[group].variables)[name]
    return v.data["all"] if c.sym else np.asarray(v[:])


def variables(c, m, group=None):
    ds = m.output_netcdf
    return sorted(ds.variables if group is None else ds.groups[group].variables if group in ds.groups else [])


def checkpoint(c, folder):
    """Contents of the checkpoint file of a folder, or None."""
    p = os.path.join(folder, "checkpoint.npz")
    if not os.path.exists(p):
        return None
    return c.np.load(p, allow_pickle=True)


def drop_checkpoint(folder):
    p = os.path.join(folder, "checkpoint.npz")
    if os.path.exists(p):
        os.remove(p)


def fresh_folder(c, m):
    """Give the model an output folder of this run alone."""
    d = os.path.join(c.scratch(), "o%d" % len(os.listdir(c.scratch())))
    os.makedirs(d)
    m.out_dir = d
    m.prefix, m.prefix_abspath = d, d
    return d
