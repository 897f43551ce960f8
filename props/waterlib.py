"""Set-ups for the water routing properties."""
from props.lib import STEP, WATER, ambient, grid, small


def quiet_surface(c):
    """Model class whose last free-surface stages do nothing (as a user subclass may do)."""
    class Model(c.pkg.DeltaModel):
        def finalize_free_surface(self):
            pass
    return Model


def no_flooding(c):
    class Model(c.pkg.DeltaModel):
        def flooding_correction(self):
            pass
    return Model


def fill(c, m, L, W, **fields):
    for k, v in fields.items():
        setattr(m, k, v if not isinstance(v, list) else c.const(v, "int64" if k == "cell_type" else "float32"))
