"""Discharge and velocity fields after a water iteration."""
from props.waterlib import *

META = dict(
    bounds="3x4 grid, accumulated direction sums and discharge of two cells symbolic, old discharge, depth, relaxation "
           "symbolic, first and later time steps, first and later iterations within a step",
    outside="more cells at once (the update is cell-wise except for the inlet); floating-point rounding",
    assumptions=["values are real numbers (tolerance 1e-4 when replayed)"])


def cases(tier):
    return [dict(name="flow-t%d-i%d" % (t, i), kw=dict(kind="flow", t=t, i=i)) for t in (0, 1) for i in (0, 1)] + \
        [dict(name="velocity", kw=dict(kind="vel", t=1, i=0)), dict(name="iteration", kw=dict(kind="all", t=1, i=0))]


def run(c, kind, t, i):
    L, W = 3, 4
    m = c.model(warm=WATER, **small(L, W, itermax=4))
    p, q, inl = (1, 1), (2, 0), (0, 1)
    m.inlet = c.const([1, 2], "int64")
    ambient(c, m, fields=("stage", "depth", "eta", "uw") if kind == "flow" else (), shape=(L, W))
    if t == 0:
        m._time_iter = 0
    if kind in ("flow", "all"):
        S = {}
        for k, x in (("p", p), ("i", inl)) + ((("q", q),) if t == 0 else ()):
            for f, lo, hi in (("qxn", -16, 16), ("qyn", -16, 16), ("qwn", 0, 64), ("qx", -16, 16), ("qy", -16, 16)):
                S[f + k] = c.real(f + k, lo, hi)
                getattr(m, f)[x] = S[f + k]
        om, omi = c.real("om", 0, 1), c.real("omi", 0, 1)
        m._omega_flow, m.omega_flow_iter = om, omi
        old = {f: getattr(m, f).copy() for f in ("qx", "qy", "qxn", "qyn", "qwn")}
        if kind == "flow":
            m.update_flow_field(i)
        else:
            m.finalize_water_iteration(i)
        for f in ("qx", "qy", "qw"):
            c.observe(f, getattr(m, f))
        w = om if i == 0 else omi
        for k, x in (("p", p),) + ((("q", q),) if t == 0 else ()):
            a, b, n = S["qxn" + k], S["qyn" + k], S["qwn" + k]
            qx, qy, qw = m.qx[x], m.qy[x], m.qw[x]
            c.check("discharge magnitude belongs to its components",
                    c.And(c.ge(qw, 0), c.eq(qw * qw, qx * qx + qy * qy)))
            # the newly routed discharge (after taking out the relaxed old one)
            if t == 0:
                nx, ny = qx, qy
            else:
                nx, ny = qx - (1 - w) * S["qx" + k], qy - (1 - w) * S["qy" + k]
                n = n * w
            c.check("new discharge points along the parcels' mean direction",
                    c.And(c.eq(nx * b, ny * a), c.ge(nx * a, 0), c.ge(ny * b, 0)))
            c.check("new discharge has the magnitude of the parcels routed through",
                    c.Implies(c.Or(c.gt(c.abs(a), 0.0625), c.gt(c.abs(b), 0.0625)),
                              c.eq(nx * nx + ny * ny, n * n)))
            c.check("cells no parcel crossed with direction get no new discharge",
                    c.Implies(c.And(c.eq(a, 0, exact=True), c.eq(b, 0, exact=True)), c.And(c.eq(nx, 0), c.eq(ny, 0))))
        for x in (inl, (0, 2)):
            c.check("the inlet keeps its prescribed discharge", c.And(
                c.eq(m.qx[x], m.qw0), c.eq(m.qy[x], 0), c.eq(m.qw[x], m.qw0)))
        if kind == "flow":
            return
    if kind == "vel":
        for k, x in (("p", p), ("q", q)):
            m.qx[x] = c.real("qx" + k, -4, 4)
            m.qy[x] = c.real("qy" + k, -4, 4)
            m.qw[x] = c.real("qw" + k, 0, 64)
            m.depth[x] = c.real("d" + k, 0, 64)
            m.uw[x] = c.real("u" + k, 0, 2)
            m.ux[x] = 1.5
            m.uy[x] = -1.5
        m.u_max = c.scalar(2)
        m.dry_depth = c.scalar(0.125)
        m.update_velocity_field()
        for f in ("ux", "uy", "uw"):
            c.observe(f, getattr(m, f))
        for x in (p, q):
            D, qw, uw = m.depth[x], m.qw[x], m.uw[x]
            on = c.And(c.gt(D, 0.125, exact=True), c.gt(qw, 0, exact=True))
            c.check("wet cells with discharge move at discharge over depth, capped",
                    c.Implies(on, c.eq(uw * D, c.min(2 * D, qw))))
            c.check("velocity points along the discharge",
                    c.Implies(on, c.And(c.eq(m.ux[x] * qw, uw * m.qx[x]), c.eq(m.uy[x] * qw, uw * m.qy[x]))))
            c.check("dry cells and cells without discharge stand still",
                    c.Implies(c.Not(on), c.And(c.eq(uw, 0), c.eq(m.ux[x], 0), c.eq(m.uy[x], 0))))
    um = m.u_max
    for a in range(L):
        for b in range(W):
            c.check("no velocity is negative or above the cap", c.And(c.ge(m.uw[a, b], 0), c.le(m.uw[a, b], um)))
