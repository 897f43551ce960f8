"""Symbolic world of the harness interface."""
import copy
import os
from fractions import Fraction

import numpy as np
import z3

from . import core, loader, npshim
from .core import Num, lift, truth, z
from .ctx import Atom, BoolP, Comb, CtxBase, Prop, propify, warmed, _flat
from .npshim import ST, SArr, asarr


def _b(n):
    n = truth(lift(n))
    return z(n, "b")


class SymCtx(CtxBase):
    sym = True

    def __init__(self, engine):
        super().__init__()
        self.e = engine
        self.pkg = loader.load()
        self.inputs = {}      # name -> (z3 term)
        self.draws = []
        self.pending = []     # (label, Prop)

    # inputs
    def _bound(self, v, lo, hi, lo_open=False, hi_open=False):
        if lo is not None:
            self.e.assume(v > lo if lo_open else v >= lo)
        if hi is not None:
            self.e.assume(v < hi if hi_open else v <= hi)

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False):
        t = z3.Real(name)
        self.inputs[name] = t
        n = Num(t, "f")
        self._bound(n, lo, hi, lo_open, hi_open)
        return n

    def int(self, name, lo=None, hi=None):
        t = z3.Int(name)
        self.inputs[name] = t
        n = Num(t, "i")
        self._bound(n, lo, hi)
        return n

    def bool(self, name):
        t = z3.Bool(name)
        self.inputs[name] = t
        return Num(t, "b")

    def choice(self, name, options):
        n = self.int(name, 0, len(options) - 1)
        return options[n.__index__()]

    def arr(self, name, shape, lo=None, hi=None, dtype="float32"):
        dt = np.dtype(dtype)
        a = np.empty(shape, dtype=object)
        for idx in np.ndindex(*a.shape):
            n = name + "".join("_%d" % i for i in idx)
            a[idx] = self.bool(n) if dt.kind == "b" else \
                self.int(n, lo, hi) if dt.kind in "iu" else self.real(n, lo, hi)
        return SArr(a, dt)

    def const(self, x, dtype="float32"):
        return asarr(np.array(x, dtype=dtype))

    def scalar(self, x):
        return core.cast(lift(x), "f")

    # claims
    def assume(self, p):
        if isinstance(p, Prop):
            self.e.assume(Num(self.exact(p), "b"))
        else:
            for x in _flat(p):
                self.e.assume(x)

    def check(self, label, p):
        self.checks.append(label)
        self.pending.append((label, propify(p)))

    def exact(self, p):
        if isinstance(p, BoolP):
            xs = [_b(x) for x in _flat(p.b)]
            return xs[0] if len(xs) == 1 else z3.And(*xs)
        if isinstance(p, Atom):
            if p.a is None or p.b is None or isinstance(p.a, str) or isinstance(p.b, str):
                return z3.BoolVal(p.a == p.b)
            f = {"eq": core.eq, "le": core.le, "lt": core.lt}[p.op]
            a, b = lift(p.a), lift(p.b)
            return _b(f(a, b))
        if p.op == "not":
            return z3.Not(self.exact(p.ps[0]))
        xs = [self.exact(q) for q in p.ps]
        return z3.And(*xs) if p.op == "and" else z3.Or(*xs)

    def robust(self, p, val, m):
        """Formula: p has truth value val with margin m (reals only)."""
        if isinstance(p, BoolP):
            e = self.exact(p)
            return e if val else z3.Not(e)
        if isinstance(p, Atom):
            e = self.exact(p)
            if p.exact or p.a is None or p.b is None \
                    or isinstance(p.a, str) or isinstance(p.b, str):
                return e if val else z3.Not(e)
            a, b = lift(p.a), lift(p.b)
            if a.special or b.special or (a.k != "f" and b.k != "f"):
                return e if val else z3.Not(e)
            x, y = z(a, "f"), z(b, "f")
            mm = z3.RealVal("%d/%d" % (m.numerator, m.denominator))
            if p.op == "eq":
                if val:
                    return x == y
                return z3.Or(x > y + mm, y > x + mm)
            if val:
                return x <= y - mm
            return x > y + mm
        if p.op == "not":
            return self.robust(p.ps[0], not val, m)
        xs = [self.robust(q, val, m) for q in p.ps]
        if (p.op == "and") == val:
            return z3.And(*xs)
        return z3.Or(*xs)

    def observe(self, name, val):
        self.obs.append((name, [x if isinstance(x, str) else lift(x) for x in _flat(val)]))

    # value helpers
    def ite(self, c, a, b):
        return core.ite(c, a, b)

    def min(self, a, b):
        return core.minimum(lift(a), lift(b))

    def max(self, a, b):
        return core.maximum(lift(a), lift(b))

    def abs(self, a):
        return core.absolute(lift(a))

    def sqrt(self, a):
        return core.sqrt(lift(a))

    def floor(self, a):
        return core.floor(lift(a))

    # randomness
    def draw(self, stream):
        if stream == "seeded":
            return loader.RngState.next(lambda: self._draw(stream))
        return self._draw(stream)

    def fix_draws(self, values):
        """The next draws are these numbers."""
        self.fixed_draws = [Fraction(v) for v in values]

    def _draw(self, stream):
        fd = getattr(self, "fixed_draws", None)
        if fd:
            v = fd.pop(0)
            self.draws.append((stream, z3.RealVal("%d/%d" % (v.numerator, v.denominator))))
            return lift(float(v))
        t = z3.Real("u!%d" % len(self.draws))
        self.draws.append((stream, t))
        self.e.add(z3.And(t > 0, t < 1))
        return Num(t, "f")

    def prime_rng(self):
        pass

    def unseeded(self):
        """Whether another generator than the seeded one has been used."""
        return any(s != "seeded" for s, _ in self.draws)

    def as_arr(self, x):
        return asarr(x)

    @property
    def np(self):
        return self.pkg._np_shim

    # model
    _templates = {}

    def model(self, cls=None, warm=None, **kw):
        key = (repr(sorted(kw.items(), key=str)), cls, repr(warm))
        if key not in SymCtx._templates:
            ST.concrete = True
            try:
                k = dict(kw)
                k.setdefault("out_dir", os.path.join(self.scratch(), "out"))
                Model = (cls(self) if cls else self.pkg.DeltaModel)
                m = warmed(Model(**k), warm)
            finally:
                ST.concrete = False
            SymCtx._templates[key] = m
        return symbolize(SymCtx._templates[key])


def _conv(v, memo):
    if id(v) in memo:
        return memo[id(v)][0]
    if isinstance(v, np.ndarray):
        r = asarr(v.copy()) if v.dtype.kind in "biuf" else v.copy()
    elif isinstance(v, (bool, np.bool_)):
        return bool(v)
    elif isinstance(v, np.generic) or isinstance(v, float):
        return lift(v)
    elif isinstance(v, list):
        r = [_conv(x, memo) for x in v]
    elif isinstance(v, tuple) and type(v) is tuple:
        r = tuple(_conv(x, memo) for x in v)
    elif isinstance(v, dict):
        r = {k: _conv(x, memo) for k, x in v.items()}
    else:
        return v
    memo[id(v)] = (r, v)
    return r


def symbolize(m):
    """A copy of a concretely built model whose numbers are exact."""
    new = object.__new__(type(m))
    memo = {}
    for k, v in m.__dict__.items():
        new.__dict__[k] = _conv(v, memo)
    new.init_sediment_routers()
    return new
