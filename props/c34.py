"""Random choices follow the given weights; parcels start only in weighted inlet cells."""
META = dict(
    bounds="weight vectors of length 1 to 9 with symbolic non-negative weights (sum symbolic, not necessarily one), "
           "every draw in (0,1); start cells for 1-5 parcels over inlets of 1-4 cells with symbolic weights",
    outside="a draw that is exactly zero (probability 2^-53)",
    assumptions=["weights are non-negative and not all zero", "draws lie strictly between 0 and 1"])


def cases(tier):
    out = [dict(name="pick-%d" % n, kw=dict(kind="pick", n=n)) for n in (1, 2, 4, 9)]
    out += [dict(name="starts-%d-%d" % (n, k), kw=dict(kind="start", n=n, k=k)) for n, k in ((1, 2), (3, 1), (3, 2), (4, 3), (2, 5))]
    out += [dict(name="water-starts", kw=dict(kind="model", n=3, k=2)), dict(name="uniform", kw=dict(kind="uniform", n=1))]
    return out


def run(c, kind, n, k=1):
    sh = c.mod("shared_tools")
    if kind == "uniform":
        lim = c.real("lim", 0.25, 8)
        c.prime_rng()
        u = sh.get_random_uniform(lim)
        c.observe("u", u)
        c.check("a uniform draw lies within its limits", c.And(c.ge(u, 0), c.le(u, lim)))
        return
    if kind == "model":
        m = c.model(**__import__("props.lib").lib.small(4, 6))
        w = m.get_inlet_weights_water()
        w2 = m.get_inlet_weights_sediment(parcel_type="sand")
        c.observe("w", w)
        c.check("by default every inlet cell is equally likely",
                c.And(len(w) == len(m.inlet), c.eq(w, w[0]), c.gt(w[0], 0), c.eq(w2, w2[0]), c.gt(w2[0], 0),
                      len(w2) == len(m.inlet)))
        return
    w = c.arr("w", (n,), 0, 4, dtype="float64")
    tot = c.sum(w)
    c.assume(c.gt(tot, 0.25))
    cum = [0]
    for i in range(n):
        cum.append(cum[-1] + w[i])
    if kind == "pick":
        c.prime_rng()
        i = sh.random_pick(w)
        c.observe("i", i)
        i = i.__index__()
        U = draw(c, 0)
        c.check("the choice is the cell in whose share of the weights the draw falls",
                c.And(c.le(cum[i], U * tot), c.le(U * tot, cum[i + 1])))
        c.check("a choice never has zero weight", c.gt(w[i], 0, tol=1e-12))
        return
    inlet = c.const([2 * i + 1 for i in range(n)], "int64")
    c.prime_rng()
    s = sh.get_start_indices(inlet, w, k)
    c.observe("s", s)
    c.check("one start for every parcel", len(s) == k)
    c.check("every start has a draw of its own", len(c.draws) >= k)
    if len(c.draws) < k:
        return
    for q in range(k):
        v = s[q]
        c.check("starts are inlet cells with weight", c.Or([c.And(c.eq(v, 2 * i + 1), c.gt(w[i], 0, tol=1e-12))
                                                             for i in range(n)]))
        U = draw(c, q)
        for i in range(n):
            c.check("each start follows the inlet weights by its own draw",
                    c.Implies(c.eq(v, 2 * i + 1), c.And(c.le(cum[i], U * tot), c.le(U * tot, cum[i + 1]))))


def draw(c, q):
    """The q-th draw made, as a number."""
    if c.sym:
        from symx.core import Num
        return Num(c.draws[q][1], "f")
    from fractions import Fraction
    return float(Fraction(c.draws[q][1]))
