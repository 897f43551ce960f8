"""The harness interface.

A harness `run(c, **kw)` is written once and executed in two worlds:

* SymCtx - inputs are z3 variables, the code of /repo runs on the symbolic
  stand-ins, and every `c.check` becomes a solver query;
* ConCtx - inputs are concrete values (a solver model), and the unmodified,
  really imported package runs on them (jitted or not); `c.check` evaluates.
"""
import copy
import importlib
import itertools
import json
import os
import random
import shutil
import sys
import tempfile
import types
from fractions import Fraction

import numpy as np


# =========================================================== propositions
class Prop:
    """A claim with an exact meaning, and a robust (margin) truth/falsity."""
    pass


class Atom(Prop):
    def __init__(self, op, a, b, exact=False, tol=None):
        self.op, self.a, self.b, self.exact, self.tol = op, a, b, exact, tol


class BoolP(Prop):
    def __init__(self, b):
        self.b = b


class Comb(Prop):
    def __init__(self, op, ps):
        self.op, self.ps = op, ps


def _flat(x):
    """Flatten any array-like to a list of scalars."""
    if isinstance(x, np.ndarray):
        return x.reshape(-1).tolist() if x.dtype != object else list(x.reshape(-1))
    if hasattr(x, "a") and hasattr(x, "dtype") and hasattr(x.a, "reshape"):
        return list(x.a.reshape(-1))
    if isinstance(x, (list, tuple)):
        r = []
        for e in x:
            r.extend(_flat(e))
        return r
    return [x]


class AssumptionFailed(BaseException):
    pass


def propify(p):
    if isinstance(p, Prop):
        return p
    if isinstance(p, (list, tuple)) and any(isinstance(x, Prop) for x in p):
        return Comb("and", [propify(x) for x in p])
    return BoolP(p)


class CtxBase:
    sym = False
    wide = 1            # range of the inputs relative to the usual one; tolerances grow with it

    def __init__(self):
        self.checks = []
        self.obs = []
        self._tmp = None

    # --- proposition builders
    def _atoms(self, op, a, b, exact, tol):
        fa, fb = _flat(a), _flat(b)
        if len(fa) == 1 and len(fb) != 1:
            fa = fa * len(fb)
        if len(fb) == 1 and len(fa) != 1:
            fb = fb * len(fa)
        if len(fa) != len(fb):
            return BoolP(False)
        ps = [Atom(op, x, y, exact, tol) for x, y in zip(fa, fb)]
        return ps[0] if len(ps) == 1 else Comb("and", ps)

    def eq(self, a, b, exact=False, tol=None):
        return self._atoms("eq", a, b, exact, tol)

    def ne(self, a, b, exact=False):
        return Comb("not", [self._atoms("eq", a, b, exact, None)])

    def le(self, a, b, exact=False, tol=None):
        return self._atoms("le", a, b, exact, tol)

    def lt(self, a, b, exact=False, tol=None):
        return self._atoms("lt", a, b, exact, tol)

    def ge(self, a, b, exact=False, tol=None):
        return self._atoms("le", b, a, exact, tol)

    def gt(self, a, b, exact=False, tol=None):
        return self._atoms("lt", b, a, exact, tol)

    def And(self, *ps):
        return Comb("and", [propify(p) for p in _listify(ps)])

    def Or(self, *ps):
        return Comb("or", [propify(p) for p in _listify(ps)])

    def Not(self, p):
        return Comb("not", [propify(p)])

    def Implies(self, p, q):
        return Comb("or", [Comb("not", [propify(p)]), propify(q)])

    def Iff(self, p, q):
        return self.And(self.Implies(p, q), self.Implies(q, p))

    # --- generic helpers
    def sum(self, xs):
        r = 0
        for x in _flat(xs) if not isinstance(xs, list) else xs:
            r = r + x
        return r

    def mod(self, name):
        return importlib.import_module("pyDeltaRCM." + name) if name else self.pkg

    def scratch(self):
        if self._tmp is None:
            self._tmp = tempfile.mkdtemp(prefix="vfx_")
        return self._tmp

    def cleanup(self):
        if self._tmp is not None and os.path.basename(self._tmp).startswith("vfx_"):
            shutil.rmtree(self._tmp, ignore_errors=True)
        self._tmp = None

    def raises(self, fn, *a, **k):
        """Exception the call raises, or None."""
        try:
            fn(*a, **k)
        except Exception as e:
            from_core = sys.modules.get("symx.core")
            if from_core is not None and isinstance(e, from_core.Unsupported):
                raise
            return e
        return None


def _listify(ps):
    if len(ps) == 1 and isinstance(ps[0], (list, tuple, types.GeneratorType)):
        return list(ps[0])
    return list(ps)


# =========================================================== concrete world
TOL = 1e-4


class ConCtx(CtxBase):
    def __init__(self, values, draws, jit):
        super().__init__()
        self.values, self.jit = values, jit
        self.draws = draws
        self.failed = []
        self.unclear = []
        import pyDeltaRCM
        self.pkg = pyDeltaRCM
        self.primed = False

    # inputs
    def _get(self, name):
        v = self.values[name]
        return v

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False):
        return float(Fraction(self._get(name)))

    def int(self, name, lo=None, hi=None):
        return int(self._get(name))

    def bool(self, name):
        return bool(self._get(name))

    def choice(self, name, options):
        return options[int(self._get(name))]

    def arr(self, name, shape, lo=None, hi=None, dtype="float32"):
        dt = np.dtype(dtype)
        out = np.empty(shape, dtype=dt)
        for idx in np.ndindex(*out.shape):
            n = name + "".join("_%d" % i for i in idx)
            v = self._get(n)
            out[idx] = bool(v) if dt.kind == "b" else int(v) if dt.kind in "iu" else float(Fraction(v))
        return out

    def const(self, x, dtype="float32"):
        return np.array(x, dtype=dtype)

    def scalar(self, x):
        return float(x)

    # claims
    def assume(self, p):
        if isinstance(p, Prop):
            r = self.ev(p, 0.0)
            if r is False:
                raise AssumptionFailed()
        elif not bool(np.all(p)):
            raise AssumptionFailed()

    def check(self, label, p):
        self.checks.append(label)
        r = self.ev(propify(p), TOL * self.wide)
        if r is False:
            self.failed.append(label)
        elif r is None:
            self.unclear.append(label)

    def reach(self, label="reach"):
        pass

    def ev(self, p, tol):
        """Kleene evaluation with tolerance."""
        if isinstance(p, BoolP):
            return bool(np.all(p.b))
        if isinstance(p, Atom):
            a, b = p.a, p.b
            if isinstance(a, (bool, np.bool_)) or isinstance(b, (bool, np.bool_)):
                a, b = int(a), int(b)
            if a is None or b is None or isinstance(a, str) or isinstance(b, str):
                return a == b
            a, b = float(a), float(b)
            if not (np.isfinite(a) and np.isfinite(b)):
                return {"eq": a == b, "le": a <= b, "lt": a < b}[p.op]
            if p.exact or tol == 0.0:
                return {"eq": a == b, "le": a <= b, "lt": a < b}[p.op]
            t = (p.tol if p.tol is not None else tol) * (1 + max(abs(a), abs(b)))
            if p.op == "eq":
                return abs(a - b) <= t
            if a <= b - t:
                return True
            if a > b + t:
                return False
            return None if p.op == "lt" or a > b else True
        if p.op == "not":
            r = self.ev(p.ps[0], tol)
            return None if r is None else not r
        rs = [self.ev(q, tol) for q in p.ps]
        if p.op == "and":
            return False if any(r is False for r in rs) else (None if any(r is None for r in rs) else True)
        return True if any(r is True for r in rs) else (None if any(r is None for r in rs) else False)

    def observe(self, name, val):
        self.obs.append((name, [float(x) if not isinstance(x, str) else x for x in _flat(val)]))

    # value helpers
    def ite(self, c, a, b):
        return a if bool(c) else b

    def min(self, a, b):
        return a if a <= b else b

    def max(self, a, b):
        return a if a >= b else b

    def abs(self, a):
        return abs(a)

    def sqrt(self, a):
        return float(np.sqrt(a))

    def floor(self, a):
        return int(np.floor(a))

    # randomness
    def fix_draws(self, values):
        pass

    def prime_rng(self):
        set_rng(self.draws, self.jit)
        self._others = self._other_states()

    def _other_states(self):
        s = np.random.get_state()
        return s[1].tobytes(), s[2], random.getstate()

    def unseeded(self):
        """Whether another generator than the seeded one has been used (compiled code only)."""
        return self.jit and self._others != self._other_states()

    # model
    def model(self, cls=None, warm=None, **kw):
        kw = dict(kw)
        kw.setdefault("out_dir", os.path.join(self.scratch(), "out"))
        Model = (cls(self) if cls else self.pkg.DeltaModel)
        return warmed(Model(**kw), warm)

    def as_arr(self, x):
        return np.asarray(x)

    @property
    def np(self):
        return np


def warmed(m, calls):
    """The model does some work and is then set back, field by field: nothing else it keeps may matter."""
    keep = {k: v.copy() if isinstance(v, np.ndarray) else v for k, v in vars(m).items()}
    for name, *args in calls or ():
        if name[0] == "=":
            setattr(m, name[1:], args[0](m) if callable(args[0]) else args[0])
        else:
            getattr(m, name)(*args)
    for k, v in keep.items():
        cur = m.__dict__.get(k)
        if isinstance(v, np.ndarray) and isinstance(cur, np.ndarray) and cur.shape == v.shape and cur.dtype == v.dtype:
            cur[...] = v
        else:
            m.__dict__[k] = v
    return m


def untemper(y):
    y ^= y >> 18
    y ^= (y << 15) & 0xEFC60000
    y &= 0xFFFFFFFF
    t = y
    for _ in range(7):
        t = y ^ ((t << 7) & 0x9D2C5680)
    y = t & 0xFFFFFFFF
    t = y
    for _ in range(3):
        t = y ^ (t >> 11)
    return t & 0xFFFFFFFF


def mt_words(us):
    words = []
    for u in us:
        k = int(Fraction(u) * (1 << 53))
        k = max(0, min(k, (1 << 53) - 1))
        a, b = k >> 26, k & ((1 << 26) - 1)
        words += [untemper((a << 5) & 0xFFFFFFFF), untemper((b << 6) & 0xFFFFFFFF)]
    rnd = random.Random(12345)
    while len(words) < 624:
        words.append(rnd.getrandbits(32) | 1)
    return words[:624]


def set_rng(draws, jit):
    """Make the generators return the given draws next."""
    if jit:
        from numba import _helperlib
        w = mt_words([u for s, u in draws if s == "seeded"])
        ptr = _helperlib.rnd_get_np_state_ptr()
        _helperlib.rnd_set_state(ptr, (0, w))
        w2 = mt_words([u for s, u in draws if s != "seeded"])
        np.random.set_state(("MT19937", np.array(w2, dtype=np.uint32), 0))
    else:
        w = mt_words([u for s, u in draws])
        np.random.set_state(("MT19937", np.array(w, dtype=np.uint32), 0))
