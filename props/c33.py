"""Flat and two-dimensional cell indices convert into each other exactly and reject positions outside the grid."""
META = dict(
    bounds="every grid shape up to 100x100 and every index up to 20000 (symbolic integers); padding of symbolic arrays "
           "of shapes 1x1 to 4x5; every step direction on grids up to 60 wide",
    outside="negative indices (never produced), larger shapes",
    assumptions=["indices are non-negative"])


def cases(tier):
    shp = [(1, 1), (1, 4), (3, 3), (4, 5), (2, 1)] + ([] if tier == "quick" else [(6, 7), (1, 9), (8, 2)])
    return [dict(name="unravel", kw=dict(kind="unravel")), dict(name="ravel", kw=dict(kind="ravel")),
            dict(name="steps", kw=dict(kind="steps"))] + \
        [dict(name="pad-%dx%d" % s, kw=dict(kind="pad", L=s[0], W=s[1])) for s in shp]


def run(c, kind, L=0, W=0):
    sh = c.mod("shared_tools")
    if kind == "pad":
        a = c.arr("a", (L, W), -8, 8)
        p = sh.custom_pad(a)
        c.observe("p", p)
        c.check("padding adds one cell on every side", p.shape == (L + 2, W + 2))
        for i in range(L + 2):
            for j in range(W + 2):
                c.check("padding repeats the nearest cell of the grid",
                        c.eq(p[i, j], a[min(max(i - 1, 0), L - 1), min(max(j - 1, 0), W - 1)]))
        return
    if kind == "steps":
        from props.lib import NB
        m = c.model(**__import__("props.lib").lib.small(3, 5))
        W = m.W = c.int("W", 3, 60)
        m.set_constants()
        k = c.int("k", 0, 8).__index__()
        d, i, j, a = sh.get_steps(k, m.iwalk_flat, m.jwalk_flat)
        c.observe("step", [d, i, j])
        di, dj = NB[k]
        # the nine directions are the row-major 3x3 neighbourhood: along the grid (row), across (column)
        c.check("a direction steps to its neighbour", c.And(c.eq(j, di), c.eq(i, dj)))
        c.check("a step's length is its geometric distance", c.eq(d * d, di * di + dj * dj))
        c.check("only the centre is no step", bool(a) == ((di, dj) != (0, 0)))
        c.check("the flat step leads to the same neighbour", c.eq(m.ravel_walk_flat[k], di * W + dj))
        return
    H, W = c.int("H", 1, 100), c.int("W", 1, 100)
    if kind == "unravel":
        i = c.int("i", 0, 20000)
        e = None
        try:
            x, y = sh.custom_unravel(i, (H, W))
        except IndexError as ex:
            e = ex
        if e is not None:
            c.check("an index is refused only outside the grid", c.ge(i, H * W))
            return
        c.check("an index outside the grid is refused", c.lt(i, H * W))
        c.observe("xy", [x, y])
        c.check("row and column are inside the grid", c.And(c.ge(x, 0), c.lt(x, H), c.ge(y, 0), c.lt(y, W)))
        c.check("row-major order", c.eq(x * W + y, i))
        c.check("converting back gives the same index", c.eq(sh.custom_ravel((x, y), (H, W)), i))
    else:
        x, y = c.int("x", 0, 150), c.int("y", 0, 150)
        inside = c.And(c.lt(x, H), c.lt(y, W))
        try:
            i = sh.custom_ravel((x, y), (H, W))
        except IndexError:
            c.check("a position is refused only outside the grid", c.Not(inside))
            return
        c.check("a position outside the grid is refused", inside)
        c.observe("i", i)
        c.check("row-major order", c.eq(x * W + y, i))
        a, b = sh.custom_unravel(i, (H, W))
        c.check("converting back gives the same position", c.And(c.eq(a, x), c.eq(b, y)))
