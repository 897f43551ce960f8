"""Debug views show the named field and the cells asked for, and change nothing."""
import warnings

import numpy as np

from props.lib import small

META = dict(
    bounds="3x4 model grid; every field symbolic (all cells); any flat index 0..12 or pair, alone, in lists and arrays of up "
           "to three; lines of three symbolic cells, alone, as lists, as columns of an array, with and without gaps at index "
           "zero",
    outside="rendering inside matplotlib (stand-in; the replay draws on real axes)",
    assumptions=["the axes keep what is drawn on them in order"])
FIELDS = ["eta", "depth", "stage", "uw", "ux", "uy", "qw", "qx", "qy", "qs", "sand_frac", "cell_type"]
L, W = 3, 4


def cases(tier):
    return [dict(name=k, kw=dict(kind=k)) for k in ("field", "refused", "point", "points", "line", "lines", "columns", "pairs")]


class Axes:
    """Records what is drawn."""
    def __init__(self):
        self.images, self.points = [], []

    def imshow(self, a, **k):
        self.images.append(a)
        return self

    def plot(self, x, y, *a, **k):
        self.points.append((x, y))
        return (("line", len(self.points)),)

    def __getattr__(self, n):
        return lambda *a, **k: self

    def __bool__(self):
        return True

    yaxis = xaxis = property(lambda self: self)


def axes(c):
    if c.sym:
        return Axes()
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    plt.close("all")
    return plt.figure().add_subplot()


def drawn(c, ax):
    """[(xs, ys)] of the points and lines drawn so far"""
    if c.sym:
        return [(seq(x), seq(y)) for x, y in ax.points]
    return [(seq(l.get_xdata()), seq(l.get_ydata())) for l in ax.lines]


def seq(x):
    from symx.ctx import _flat
    return _flat(x)


def state(c, m):
    out = []
    for f in FIELDS:
        v = m.__dict__.get(f)
        out.append(c.np.copy(v))
    return out


def run(c, kind):
    warnings.simplefilter("ignore")
    m = c.model(defer_output=True, **small(L, W))
    if kind in ("field", "refused"):
        for f in FIELDS[:-1]:
            setattr(m, f, c.arr(f, (L, W), -10 ** 4, 10 ** 4))
        m.cell_type = c.arr("cell_type", (L, W), -2, 1, dtype="int64")
    before = state(c, m)
    ax = axes(c)
    if kind == "field":
        f = c.choice("field", FIELDS)
        grid, lab = c.choice("grid", [True, False]), c.choice("label", [None, "x"])
        m.show_attribute(f, ax=ax, grid=grid, label=lab)
        im = ax.images
        c.check("one image is drawn", len(im) == 1)
        a = im[0] if c.sym else np.asarray(im[0].get_array())
        c.check("the field asked for is drawn, cell by cell", c.And(tuple(a.shape) == (L, W), c.eq(a, getattr(m, f))))
    elif kind == "refused":
        bad, err = c.choice("bad", [("inlet", ValueError), ("L", TypeError), ("water_weights3", AttributeError), (3, TypeError),
                                    ("u0", TypeError)])
        e = c.raises(m.show_attribute, bad, ax=ax)
        c.check("what is not a field of the domain is refused", isinstance(e, err) and not ax.images)
    else:
        marks(c, m, ax, kind)
    for f, v in zip(FIELDS, before):
        c.check("the views change nothing", c.eq(getattr(m, f), v))


def at(c, i):
    """(column, row) of a flat index"""
    r = c.floor(c.scalar(i) / W) if not isinstance(i, int) else i // W
    return i - r * W, r


def marks(c, m, ax, kind):
    one = kind in ("point", "points")
    n = 1 if kind == "point" else 2 if kind in ("points", "pairs") else 3
    ix = [c.int("i%d" % k, 0, L * W if one else L * W - 1) for k in range(n)]
    arr = c.as_arr(np.zeros(n, dtype="int64"))
    for k in range(n):
        arr[k] = ix[k]
    style = c.choice("style", [(), ("k-",)])
    if one:
        form = c.choice("form", ["flat", "pair"] if kind == "point" else ["list", "array", "mixed"])
        if form in ("pair", "mixed"):
            r, q = c.choice("row", range(L)), c.choice("col", range(W))
        arg = {"flat": lambda: ix[0], "pair": lambda: (r, q), "list": lambda: list(ix), "array": lambda: arr,
               "mixed": lambda: [(r, q)] + ix[1:]}[form]()
        e = c.raises(m.show_ind, arg, *style, ax=ax)
        used = [] if form == "pair" else ix[1:] if form == "mixed" else ix
        ok = c.And([c.lt(i, L * W, exact=True) for i in used] or [True])
        c.check("an index beyond the grid is refused, any other shown", c.Iff(ok, e is None))
        if e is None:
            want = [at(c, i) for i in used]
            if form in ("pair", "mixed"):
                want = [(q, r)] + want
            got = drawn(c, ax)
            c.check("one mark for every cell asked for", len(got) == len(want))
            for (x, y), (wx, wy) in zip(got, want):
                c.check("a cell is marked where it is: column across, row down", c.And(c.eq(x, wx), c.eq(y, wy)))
        return
    if kind == "pairs":
        p = [[ix[0], ix[1]], [1, 2], [0, 3]]
        form = c.choice("form", ["array", "list"])
        if form == "array":
            a = c.as_arr(np.zeros((3, 2), dtype="int64"))
            for i in range(3):
                for j in range(2):
                    a[i, j] = p[i][j]
            lines = m.show_line(a, *style, ax=ax)
        else:
            lines = m.show_line([tuple(q) for q in p], *style, ax=ax)
        want = [[(q[0], q[1], False) for q in p]]
    else:
        nz = c.choice("nozeros", [True, False])
        kw = dict(nozeros=nz)
        if kind == "line":
            form = c.choice("form", ["array", "list"])
            lines = m.show_line(arr if form == "array" else list(ix), *style, ax=ax, **kw)
            want = [ix]
        elif kind == "lines":
            lines = m.show_line([arr, c.const([0, 5], "int64")], *style, ax=ax, **kw)
            want = [ix, [0, 5]]
        else:
            a = c.as_arr(np.zeros((3, 2), dtype="int64"))
            for k in range(3):
                a[k, 0], a[k, 1] = ix[k], [7, 0, 11][k]
            lines = m.show_line(a, multiline=True, ax=ax, **kw)
            want = [ix, [7, 0, 11]]
        want = [[at(c, i) + (nz and bool(i == 0),) for i in w] for w in want]
    got = drawn(c, ax)
    c.check("one line for every line asked for, all of them returned", len(got) == len(want) == len(lines))
    for (xs, ys), w in zip(got, want):
        c.check("a line has one point per cell", len(xs) == len(ys) == len(w))
        for x, y, (wx, wy, gap) in zip(xs, ys, w):
            if gap:
                c.check("a gap where index zero is left out", nan(x) and nan(y))
            else:
                c.check("a line leads through its cells", c.And(c.eq(x, wx), c.eq(y, wy)))


def nan(x):
    x = getattr(x, "v", x)
    return isinstance(x, float) and x != x
