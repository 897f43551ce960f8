"""A numpy look-alike over arrays of symbolic numbers.

`SArr` keeps a numpy object array of `Num` and a logical dtype; basic slices are
views, so aliasing behaves as in numpy.  Symbolic boolean masks become
if-then-else terms (no path split); everything without a symbolic rule falls back
to real numpy when its arguments are concrete and raises Unsupported otherwise.
"""
import builtins
import itertools
import math
import types
from fractions import Fraction

import numpy as _np
import scipy.ndimage as _ndi

from . import core
from .core import Num, Unsupported, cast, ite, kind_of_dtype, lift, truth

_obj = _np.dtype("O")


class State:
    concrete = True      # pass straight through to numpy
    njit_depth = 0
    rng = None           # object with draw(lo, hi) for seeded / unseeded


ST = State()


def _ndt(dt):
    """numpy dtype of a dtype-like."""
    if dt is None:
        return _np.dtype("float64")
    if getattr(dt, "_is_shim_int", False):
        return _np.dtype("int64")
    if getattr(dt, "_is_shim_float", False):
        return _np.dtype("float64")
    return _np.dtype(getattr(dt, "_dt", dt))


class DT(type):
    """np.float32 & co: usable as dtype, as a caster, and in isinstance."""
    def __new__(mcs, name):
        return super().__new__(mcs, name, (), {"_dt": _np.dtype(name)})

    def __init__(cls, name):
        pass

    def __call__(cls, x=0):
        if isinstance(x, (SArr, _np.ndarray, list, tuple)):
            return asarr(x).astype(cls._dt)
        if isinstance(x, str):
            return lift(cls._dt.type(x))
        x = lift(x)
        if ST.concrete and not x.sym:
            return cls._dt.type(x.to_py())
        return cast(x, kind_of_dtype(cls._dt))

    def __instancecheck__(cls, x):
        if isinstance(x, Num):
            return x.k == kind_of_dtype(cls._dt)
        return isinstance(x, cls._dt.type)

    def __subclasscheck__(cls, sub):
        return issubclass(getattr(sub, "_dt", _np.dtype(object)).type, cls._dt.type)

    def __eq__(cls, o):
        try:
            return _np.dtype(getattr(o, "_dt", o)) == cls._dt
        except Exception:
            return False

    def __hash__(cls):
        return hash(cls._dt)


# ------------------------------------------------------------------ arrays
def _objarr(shape):
    return _np.empty(shape, dtype=object)


def to_obj(x):
    """object ndarray of Num from anything array-like, plus its dtype."""
    if isinstance(x, SArr):
        return x.a, x.dtype
    if isinstance(x, MSel):
        x = x.concretize()
        return x.a, x.dtype
    if isinstance(x, Num):
        a = _objarr(())
        a[()] = x
        return a, x.dtype
    if isinstance(x, _np.ndarray):
        if x.dtype == _obj:
            a = _objarr(x.shape)
            k = "b"
            for i in _np.ndindex(x.shape):
                a[i] = lift(x[i])
                k = max(k, a[i].k, key="bif".index)
            return a, {"b": _np.dtype(bool), "i": _np.dtype("int64"), "f": _np.dtype("float64")}[k]
        a = _objarr(x.shape)
        flat = a.reshape(-1)
        for n, e in enumerate(x.reshape(-1).tolist()):
            flat[n] = lift(e)
        return a, x.dtype
    if isinstance(x, (list, tuple, range)):
        parts = [to_obj(e) for e in x]
        if not parts:
            return _objarr((0,)), _np.dtype("float64")
        shp = parts[0][0].shape
        for p, _ in parts:
            if p.shape != shp:
                raise ValueError("inhomogeneous array")
        a = _objarr((len(parts),) + shp)
        dts = [d for _, d in parts]
        for i, (p, _) in enumerate(parts):
            if shp == ():
                a[i] = p[()]
            else:
                a[i] = p
        dt = dts[0]
        for d in dts[1:]:
            dt = _np.promote_types(dt, d)
        return a, dt
    if isinstance(x, (set, frozenset, dict, str)) or x is None:
        raise Unsupported("array from %r" % type(x))
    try:
        n = lift(x)
    except Unsupported:
        if hasattr(x, "__iter__"):
            return to_obj(list(x))
        raise
    a = _objarr(())
    a[()] = n
    dt = _np.asarray(x).dtype if not isinstance(x, (Num, Fraction)) else n.dtype
    return a, dt


def asarr(x, dtype=None):
    if isinstance(x, SArr) and dtype is None:
        return x
    a, dt = to_obj(x)
    r = SArr(a, dt)
    return r if dtype is None else r.astype(dtype)


def castarr(a, k):
    out = _objarr(a.shape)
    o, i = out.reshape(-1), a.reshape(-1)
    for n in range(len(i)):
        o[n] = cast(i[n], k)
    return out


def all_const(a):
    return not any(e.sym for e in a.reshape(-1))


def to_real(x):
    """real numpy value of a fully concrete SArr / Num (else Unsupported)."""
    if isinstance(x, SArr):
        if not all_const(x.a):
            raise Unsupported("symbolic array where a concrete one is needed")
        out = _np.empty(x.a.shape, dtype=x.dtype)
        o, i = out.reshape(-1), x.a.reshape(-1)
        for n in range(len(i)):
            o[n] = i[n].to_py()
        return out
    if isinstance(x, Num):
        return x.to_py()
    if isinstance(x, MSel):
        return to_real(x.concretize())
    if isinstance(x, (list, tuple)):
        return type(x)(to_real(e) for e in x)
    if isinstance(x, dict):
        return {k: to_real(v) for k, v in x.items()}
    if isinstance(x, DT):
        return x._dt
    if getattr(x, "_is_shim_int", False):
        return int
    if getattr(x, "_is_shim_float", False):
        return float
    return x


def from_real(x):
    if isinstance(x, _np.ndarray) and x.dtype.kind in "biuf":
        return asarr(x)
    if isinstance(x, _np.generic) and x.dtype.kind in "biuf":
        return lift(x)
    if isinstance(x, tuple) and type(x) is tuple:
        return tuple(from_real(e) for e in x)
    if isinstance(x, list):
        return [from_real(e) for e in x]
    return x


_OPD = {}


def _result_dt(f, *args):
    """dtype of an elementwise result."""
    nm = f.__name__
    if nm in ("lt", "le", "gt", "ge", "eq", "ne", "land", "lor", "lnot", "lxor",
              "isnan", "isfinite", "isinf"):
        return _np.dtype(bool)
    kinds = []
    arrd = []
    for x in args:
        if isinstance(x, (SArr, MSel)):
            arrd.append(x.dtype)
            kinds.append(kind_of_dtype(x.dtype))
        elif isinstance(x, _np.ndarray):
            arrd.append(x.dtype)
            kinds.append(kind_of_dtype(x.dtype))
        elif isinstance(x, (list, tuple)):
            d = asarr(x).dtype
            arrd.append(d)
            kinds.append(kind_of_dtype(d))
        else:
            kinds.append(lift(x).k)
    k = max(kinds, key="bif".index)
    if nm in ("div", "sqrt", "hypot"):
        k = "f"
    if nm in ("floor_f", "rint_f") and k == "b":
        k = "f"
    if k == "b" and nm in ("add", "sub", "power", "floordiv", "mod"):
        k = "i"
    fl = [d for d in arrd if d.kind == {"f": "f", "i": "i", "b": "b"}[k]]
    if fl:
        d = fl[0]
        for e in fl[1:]:
            d = _np.promote_types(d, e)
        if k == "f":
            for e in arrd:
                if e.kind in "iu":
                    d = _np.promote_types(d, e)
        return d
    return {"f": _np.dtype("float64"), "i": _np.dtype("int64"), "b": _np.dtype(bool)}[k]


def elementwise(f, *args):
    """Apply a scalar function elementwise with broadcasting."""
    ms = [x for x in args if isinstance(x, MSel)]
    if ms:
        m0 = ms[0]
        ok = True
        for x in args:
            if isinstance(x, MSel):
                if not x.same_mask(m0):
                    ok = False
            elif isinstance(x, (SArr, _np.ndarray, list, tuple)) and asarr(x).size != 1:
                ok = False
        if ok:
            res = _objarr(m0.mask.shape)
            dt = _result_dt(f, *args)
            r, mk = res.reshape(-1), m0.mask.reshape(-1)
            cols = []
            for x in args:
                if isinstance(x, MSel):
                    cols.append(x.vals.reshape(-1))
                else:
                    n = asarr(x).a.reshape(-1)[0] if isinstance(x, (SArr, _np.ndarray, list, tuple)) else lift(x)
                    cols.append([n] * len(r))
            e = core.ENG
            for i in range(len(r)):
                g = mk[i]
                if not g.sym and not g.v:
                    r[i] = cast(lift(0), kind_of_dtype(dt))
                    continue
                old = e.guard if e is not None else True
                if e is not None:
                    e.guard = g if g.sym else True
                try:
                    r[i] = f(*[c[i] for c in cols])
                finally:
                    if e is not None:
                        e.guard = old
            return MSel(res, m0.mask, dt)
        args = tuple(x.concretize() if isinstance(x, MSel) else x for x in args)
    arrs = [to_obj(x)[0] for x in args]
    scalar = all(not isinstance(x, (SArr, _np.ndarray, list, tuple)) for x in args)
    if scalar:
        return f(*[a[()] for a in arrs])
    bs = _np.broadcast_arrays(*arrs) if len(arrs) > 1 else arrs
    res = _objarr(bs[0].shape)
    for idx in _np.ndindex(bs[0].shape):
        res[idx] = f(*[b[idx] for b in bs])
    dt = _result_dt(f, *args)
    k = kind_of_dtype(dt)
    return wrap(castarr(res, k), dt)


def wrap(a, dt):
    return SArr(a, dt)


class MSel:
    """x[mask] with a symbolic mask, kept lazy: values plus the mask."""
    _is_msel = True
    __array_ufunc__ = None
    ndim = 1

    def __init__(self, vals, mask, dtype):
        self.vals, self.mask, self.dtype = vals, mask, dtype

    def same_mask(self, o):
        if self.mask is o.mask:
            return True
        if self.mask.shape != o.mask.shape:
            return False
        for p, q in zip(self.mask.reshape(-1), o.mask.reshape(-1)):
            if p.sym != q.sym:
                return False
            if p.sym:
                if not p.v.eq(q.v) and not core.z3.simplify(p.v).eq(core.z3.simplify(q.v)):
                    return False
            elif p.v != q.v:
                return False
        return True

    def concretize(self):
        m = _np.array([builtins.bool(x) for x in self.mask.reshape(-1)], dtype=bool)
        m = m.reshape(self.mask.shape)
        return SArr(self.vals[m], self.dtype)

    @property
    def size(self):
        r = lift(0)
        for b in self.mask.reshape(-1):
            r = r + cast(b, "i")
        return r

    @property
    def shape(self):
        return (self.concretize().a.shape[0],)

    def __len__(self):
        return self.concretize().a.shape[0]

    def __iter__(self):
        # membership is decided element by element, only as far as the loop goes
        for v, m in self._pairs():
            if builtins.bool(m):
                yield v

    def __getitem__(self, i):
        if isinstance(i, MSel) and i.dtype.kind == "b" and self.same_mask(i):
            mk = _objarr(self.mask.shape)
            for p in _np.ndindex(mk.shape):
                mk[p] = core.land(self.mask[p], i.vals[p])
            return MSel(self.vals.copy(), mk, self.dtype)
        return self.concretize()[i]

    def __getattr__(self, n):
        if n.startswith("__") or n in ("vals", "mask", "dtype"):
            raise AttributeError(n)
        return getattr(self.concretize(), n)

    def _pairs(self):
        return list(zip(self.vals.reshape(-1), self.mask.reshape(-1)))

    def astype(self, dt, **kw):
        k = kind_of_dtype(dt)
        return MSel(castarr(self.vals, k), self.mask, _ndt(dt))

    def copy(self):
        return MSel(self.vals.copy(), self.mask, self.dtype)

    def ravel(self):
        return self

    flatten = ravel

    def sum(self, *a, **k):
        kd = kind_of_dtype(self.dtype)
        kd = "i" if kd == "b" else kd
        r = cast(lift(0), kd)
        for v, m in self._pairs():
            r = r + ite(m, cast(v, kd), cast(lift(0), kd))
        return r

    def any(self, *a, **k):
        r = lift(False)
        for v, m in self._pairs():
            r = core.lor(r, core.land(m, truth(v)))
        return r

    def all(self, *a, **k):
        r = lift(True)
        for v, m in self._pairs():
            r = core.land(r, core.lor(core.lnot(m), truth(v)))
        return r

    def max(self, *a, **k):
        return self.concretize().max()

    def min(self, *a, **k):
        return self.concretize().min()

    def mean(self, *a, **k):
        return self.concretize().mean()


def _binop(f, rev=False):
    def op(self, o):
        if o is None or isinstance(o, (str, dict)):
            return NotImplemented
        return elementwise(f, o, self) if rev else elementwise(f, self, o)
    return op


def _conc_int_array(x):
    """numpy int array of a (possibly symbolic) integer array index."""
    a, dt = to_obj(x)
    out = _np.empty(a.shape, dtype=_np.int64)
    for i in _np.ndindex(a.shape):
        out[i] = a[i].__index__()
    return out


class _Flat:
    def __init__(self, arr):
        self.arr = arr

    def _view(self):
        v = self.arr.a.reshape(-1)
        return v

    def __getitem__(self, i):
        r = SArr(self._view(), self.arr.dtype)[i]
        return r.copy() if isinstance(r, SArr) else r

    def __setitem__(self, i, v):
        if self.arr.a.flags.c_contiguous:
            SArr(self._view(), self.arr.dtype)[i] = v
        else:
            tmp = self.arr.a.reshape(-1).copy()
            SArr(tmp, self.arr.dtype)[i] = v
            self.arr.a[...] = tmp.reshape(self.arr.a.shape)

    def __iter__(self):
        return iter(self._view())

    def __len__(self):
        return self.arr.a.size


_HARMLESS = {"order": ("C", "K", "A", None), "subok": None, "casting": None, "kind": None, "mode": ("raise",),
             "assume_unique": None, "equal_nan": None, "copy": (True, None), "like": (None,), "where": (True,),
             "out": (None,), "dtype": (None,), "initial": (), "axis": (None,), "keepdims": (False,), "bias": None}


def _nokw(kw):
    """Options the rules below do not model are refused, not dropped."""
    for k, v in kw.items():
        ok = _HARMLESS.get(k, ())
        if ok is not None and not builtins.any(v is o or (type(v) is type(o) and v == o) for o in ok):
            raise Unsupported("numpy option %s=%r" % (k, v))


class SArr:
    __array_priority__ = 1001.0
    __array_ufunc__ = None

    def __init__(self, a, dtype):
        self.a = a
        self.dtype = _np.dtype(dtype)

    # ---- structure
    @property
    def shape(self):
        return self.a.shape

    @shape.setter
    def shape(self, s):
        self.a.shape = s

    @property
    def ndim(self):
        return self.a.ndim

    @property
    def size(self):
        return self.a.size

    @property
    def T(self):
        return SArr(self.a.T, self.dtype)

    @property
    def flat(self):
        return _Flat(self)

    @flat.setter
    def flat(self, v):
        _Flat(self)[:] = v

    @property
    def flags(self):
        return self.a.flags

    @property
    def nbytes(self):
        return self.a.size * self.dtype.itemsize

    def __len__(self):
        return len(self.a)

    def __iter__(self):
        for i in range(len(self.a)):
            yield self[i]

    def __repr__(self):
        return "SArr(%r, %s)" % (self.a, self.dtype)

    def __bool__(self):
        if self.a.size != 1:
            raise ValueError("The truth value of an array with more than one element is ambiguous.")
        return builtins.bool(self.a.reshape(-1)[0])

    def __int__(self):
        return self.a.reshape(-1)[0].__int__()

    def __index__(self):
        if self.a.size != 1:
            raise TypeError("only size-1 arrays can be an index")
        return self.a.reshape(-1)[0].__index__()

    def __float__(self):
        return self.a.reshape(-1)[0].__float__()

    def __array__(self, dtype=None, copy=None):
        r = to_real(self)
        return r if dtype is None else r.astype(dtype)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def copy(self, order=None):
        return SArr(self.a.copy(), self.dtype)

    def astype(self, dt, copy=True, **kw):
        d = _ndt(dt)
        return SArr(castarr(self.a, kind_of_dtype(d)), d)

    def reshape(self, *s, order="C", **kw):
        if order not in ("C", "A"):
            return SArr(_np.reshape(self.a, to_real(s[0] if len(s) == 1 else s), order=order), self.dtype)
        if len(s) == 1 and not isinstance(s[0], (int, Num)):
            s = s[0]
        s = tuple(x.__index__() for x in s) if isinstance(s, (tuple, list)) else s
        return SArr(self.a.reshape(s), self.dtype)

    def ravel(self, order="C"):
        return SArr(self.a.ravel(order), self.dtype)

    def flatten(self, order="C"):
        return SArr(self.a.flatten(order), self.dtype)

    def squeeze(self, axis=None):
        return SArr(self.a.squeeze(axis), self.dtype)

    def transpose(self, *ax):
        return SArr(self.a.transpose(*ax), self.dtype)

    def swapaxes(self, a, b):
        return SArr(self.a.swapaxes(a, b), self.dtype)

    def view(self, *a, **k):
        if a or k:
            raise Unsupported("ndarray.view with options")
        return SArr(self.a[...], self.dtype)

    def tolist(self):
        return self.a.tolist()

    def item(self, *i):
        if not i:
            return self.a.reshape(-1)[0]
        return self.a.item(*i)

    def fill(self, v):
        self[...] = v

    def take(self, idx, axis=None, **kw):
        _nokw(kw)
        if axis is not None:
            return SArr(self.a.take(_conc_int_array(idx), axis=axis), self.dtype)
        return SArr(self.a.reshape(-1), self.dtype)[idx]

    def repeat(self, n, axis=None):
        return SArr(self.a.repeat(to_real(n), axis=axis), self.dtype)

    def nonzero(self):
        return nonzero(self)

    # ---- indexing
    def _norm(self, idx):
        if not isinstance(idx, tuple):
            idx = (idx,)
        out = []
        for i in idx:
            if isinstance(i, Num):
                if i.k == "b":
                    i = builtins.bool(i)
                else:
                    i = i.__index__()
            elif isinstance(i, slice):
                i = slice(*[None if x is None else x.__index__() for x in (i.start, i.stop, i.step)])
            elif isinstance(i, MSel):
                i = _conc_int_array(i) if i.dtype.kind in "iu" else i.concretize()
            elif isinstance(i, (list, tuple)):
                i = asarr(i)
                if i.size == 0:
                    i = _np.zeros(i.shape, dtype=int)
            if isinstance(i, SArr):
                if i.dtype.kind == "b":
                    if all_const(i.a):
                        i = _np.array([builtins.bool(e.v) for e in i.a.reshape(-1)], dtype=bool).reshape(i.a.shape)
                else:
                    i = _conc_int_array(i)
                    if i.ndim == 0:
                        i = int(i)
            out.append(i)
        return tuple(out)

    def _symmask(self, idx):
        return [n for n, i in enumerate(idx) if isinstance(i, SArr)]

    def __getitem__(self, idx):
        idx = self._norm(idx)
        sm = self._symmask(idx)
        if sm:
            if len(idx) == 1 and idx[0].shape == self.a.shape:
                return MSel(self.a.copy(), idx[0].a, self.dtype)
            idx = self._forkmasks(idx)
        r = self.a[idx if len(idx) != 1 else idx[0]]
        if isinstance(r, _np.ndarray):
            return SArr(r, self.dtype)
        return r

    def _forkmasks(self, idx):
        out = []
        for i in idx:
            if isinstance(i, SArr):
                i = _np.array([builtins.bool(e) for e in i.a.reshape(-1)], dtype=bool).reshape(i.a.shape)
            out.append(i)
        return tuple(out)

    def __setitem__(self, idx, v):
        idx = self._norm(idx)
        k = kind_of_dtype(self.dtype)
        sm = self._symmask(idx)
        if sm and len(idx) == 1 and idx[0].shape == self.a.shape:
            mask = idx[0].a
            if isinstance(v, MSel):
                if MSel(None, mask, None).same_mask(v):
                    for p in _np.ndindex(self.a.shape):
                        self.a[p] = ite(mask[p], cast(v.vals[p], k), self.a[p])
                    return
                v = v.concretize()
            if not isinstance(v, (SArr, _np.ndarray, list, tuple)) or asarr(v).size == 1:
                s = asarr(v).a.reshape(-1)[0] if isinstance(v, (SArr, _np.ndarray, list, tuple)) else lift(v)
                s = cast(s, k)
                for p in _np.ndindex(self.a.shape):
                    self.a[p] = ite(mask[p], s, self.a[p])
                return
            idx = self._forkmasks(idx)
        elif sm:
            idx = self._forkmasks(idx)
        if isinstance(v, MSel):
            v = v.concretize()
        if isinstance(v, (SArr, _np.ndarray, list, tuple)):
            va = castarr(to_obj(v)[0], k)
        else:
            va = _objarr(())
            va[()] = cast(lift(v), k)
        ii = idx if len(idx) != 1 else idx[0]
        tgt = self.a[ii]
        if isinstance(tgt, _np.ndarray):
            while va.ndim > tgt.ndim and va.shape[0] == 1:
                va = va[0]
            if va.shape == ():
                bv = _objarr(tgt.shape)
                bv.fill(va[()])
            else:
                bv = _np.broadcast_to(va, tgt.shape)
            self.a[ii] = bv
        else:
            if va.size != 1:
                raise ValueError("setting an array element with a sequence.")
            self.a[ii] = va.reshape(-1)[0]

    # ---- arithmetic
    __add__ = _binop(core.add)
    __radd__ = _binop(core.add, True)
    __sub__ = _binop(core.sub)
    __rsub__ = _binop(core.sub, True)
    __mul__ = _binop(core.mul)
    __rmul__ = _binop(core.mul, True)
    __truediv__ = _binop(core.div)
    __rtruediv__ = _binop(core.div, True)
    __floordiv__ = _binop(core.floordiv)
    __rfloordiv__ = _binop(core.floordiv, True)
    __mod__ = _binop(core.mod)
    __rmod__ = _binop(core.mod, True)
    __pow__ = _binop(core.power)
    __rpow__ = _binop(core.power, True)
    __and__ = _binop(core.band)
    __rand__ = _binop(core.band, True)
    __or__ = _binop(core.bor)
    __ror__ = _binop(core.bor, True)
    __xor__ = _binop(core.bxor)
    __rxor__ = _binop(core.bxor, True)
    __lt__ = _binop(core.lt)
    __le__ = _binop(core.le)
    __gt__ = _binop(core.gt)
    __ge__ = _binop(core.ge)
    __hash__ = None

    def __eq__(self, o):
        if o is None or isinstance(o, (str, dict)):
            return False
        return elementwise(core.eq, self, o)

    def __ne__(self, o):
        if o is None or isinstance(o, (str, dict)):
            return True
        return elementwise(core.ne, self, o)

    def __neg__(self):
        return elementwise(_neg, self)

    def __pos__(self):
        return self.copy()

    def __abs__(self):
        return elementwise(core.absolute, self)

    def __invert__(self):
        return elementwise(_inv, self)

    def __matmul__(self, o):
        return dot(self, o)

    def _inplace(f):
        def op(self, o):
            r = elementwise(f, self, o)
            self[...] = r
            return self
        return op

    __iadd__ = _inplace(core.add)
    __isub__ = _inplace(core.sub)
    __imul__ = _inplace(core.mul)
    __itruediv__ = _inplace(core.div)
    __ifloordiv__ = _inplace(core.floordiv)
    __ipow__ = _inplace(core.power)
    __iand__ = _inplace(core.band)
    __ior__ = _inplace(core.bor)
    __ixor__ = _inplace(core.bxor)
    __imod__ = _inplace(core.mod)
    del _inplace

    # ---- reductions
    def sum(self, axis=None, dtype=None, out=None, keepdims=False, where=True, initial=0, **kw):
        _nokw(kw)
        x = self
        if where is not True:
            x = globals()["where"](where, x, 0)
        if dtype is not None:
            x = x.astype(dtype)
        r = _reduce(x, core.add, axis, keepdims, lift(initial), numeric=True)
        if out is not None:
            out[...] = r
            return out
        return r

    def prod(self, axis=None, keepdims=False, **kw):
        _nokw(kw)
        return _reduce(self, core.mul, axis, keepdims, lift(1), numeric=True)

    def min(self, axis=None, keepdims=False, **kw):
        _nokw(kw)
        return _reduce(self, core.minimum, axis, keepdims, None)

    def max(self, axis=None, keepdims=False, **kw):
        _nokw(kw)
        return _reduce(self, core.maximum, axis, keepdims, None)

    def any(self, axis=None, keepdims=False, **kw):
        _nokw(kw)
        return _reduce(self, core.lor, axis, keepdims, lift(False), boolean=True)

    def all(self, axis=None, keepdims=False, **kw):
        _nokw(kw)
        return _reduce(self, core.land, axis, keepdims, lift(True), boolean=True)

    def mean(self, axis=None, keepdims=False, **kw):
        _nokw(kw)
        n = self.a.size if axis is None else self.a.shape[axis]
        return self.sum(axis=axis, keepdims=keepdims) / n

    def cumsum(self, axis=None, **kw):
        _nokw(kw)
        if axis is None:
            src = self.a.reshape(-1)
            out = _objarr(src.shape)
            k = kind_of_dtype(self.dtype)
            acc = None
            for i, e in enumerate(src):
                e = cast(e, "i") if k == "b" else e
                acc = e if acc is None else acc + e
                out[i] = acc
            return SArr(out, _np.dtype("int64") if k == "b" else self.dtype)
        out = self.a.copy()
        mv = _np.moveaxis(out, axis, 0)
        for i in range(1, mv.shape[0]):
            for p in _np.ndindex(mv.shape[1:]):
                mv[(i,) + p] = mv[(i - 1,) + p] + mv[(i,) + p]
        return SArr(out, self.dtype)

    def argmax(self, axis=None, **kw):
        _nokw(kw)
        return _argext(self, core.gt, axis)

    def argmin(self, axis=None, **kw):
        _nokw(kw)
        return _argext(self, core.lt, axis)

    def clip(self, min=None, max=None, out=None, **kw):
        return clip(self, min, max, out=out, **kw)

    def round(self, decimals=0, out=None, **kw):
        _nokw(kw)
        return np_round(self, decimals, out=out)

    def dot(self, o):
        return dot(self, o)


def _neg(a):
    return -a


def _inv(a):
    return ~a


def _argext(x, better, axis=None):
    if axis is not None and x.ndim > 1:
        mv = _np.moveaxis(x.a, axis, -1)
        out = _objarr(mv.shape[:-1])
        for p in _np.ndindex(out.shape):
            out[p] = _argext(SArr(mv[p], x.dtype), better)
        return SArr(out, _np.dtype("int64"))
    src = x.a.reshape(-1)
    bi, bv = lift(0), src[0]
    for i in range(1, len(src)):
        c = better(src[i], bv)
        bi, bv = ite(c, lift(i), bi), ite(c, src[i], bv)
    return bi


def _reduce(x, f, axis, keepdims, init, numeric=False, boolean=False):
    a = x.a
    k = kind_of_dtype(x.dtype)
    if numeric and k == "b":
        a = castarr(a, "i")
        k = "i"
    if boolean:
        a = castarr(a, "b")
        k = "b"
    dt = {"b": _np.dtype(bool), "i": _np.dtype("int64"),
          "f": x.dtype if x.dtype.kind == "f" else _np.dtype("float64")}[k]
    ini = None if init is None else cast(init, k)
    if axis is None:
        acc = ini
        for e in a.reshape(-1):
            acc = e if acc is None else f(acc, e)
        if acc is None:
            raise ValueError("zero-size array to reduction operation")
        if keepdims:
            o = _objarr((1,) * a.ndim)
            o.fill(acc)
            return SArr(o, dt)
        return acc
    axes = axis if isinstance(axis, tuple) else (axis,)
    axes = tuple(int(ax) % a.ndim for ax in axes)
    rest = [d for d in range(a.ndim) if d not in axes]
    mv = a.transpose(list(axes) + rest)
    mv = mv.reshape((-1,) + tuple(a.shape[d] for d in rest))
    out = _objarr(mv.shape[1:])
    for p in _np.ndindex(out.shape):
        acc = ini
        for i in range(mv.shape[0]):
            e = mv[(i,) + p]
            acc = e if acc is None else f(acc, e)
        out[p] = acc
    if keepdims:
        out = out.reshape(tuple(1 if d in axes else a.shape[d] for d in range(a.ndim)))
        return SArr(out, dt)
    if out.shape == ():
        return out[()]
    return SArr(out, dt)


# -------------------------------------------------------------- functions
def _symbolic_mode():
    return not ST.concrete


def _has_sym(x):
    if isinstance(x, (SArr, Num, MSel)):
        return True
    if isinstance(x, (list, tuple)):
        return builtins.any(_has_sym(e) for e in x)
    if isinstance(x, dict):
        return builtins.any(_has_sym(e) for e in x.values())
    return False


FUNCS = {}


def shim(name=None, create=False):
    """Register a symbolic implementation of numpy.<name>."""
    def deco(f):
        FUNCS[name or f.__name__] = (f, create)
        return f
    return deco


def _full(shape, v, dt):
    if isinstance(shape, (SArr, list)):
        shape = tuple(shape)
    if isinstance(shape, tuple):
        shape = tuple(s.__index__() for s in shape)
    else:
        shape = (shape.__index__(),)
    if dt.kind not in "biuf":
        return _np.full(shape, v, dtype=dt)
    a = _objarr(shape)
    a.fill(cast(lift(v), kind_of_dtype(dt)))
    return SArr(a, dt)


@shim(create=True)
def zeros(shape, dtype=None, **kw):
    _nokw(kw)
    return _full(shape, 0, _ndt(dtype))


@shim(create=True)
def ones(shape, dtype=None, **kw):
    _nokw(kw)
    return _full(shape, 1, _ndt(dtype))


@shim(create=True)
def empty(shape, dtype=None, **kw):
    _nokw(kw)
    if dtype is not None and _np.dtype(to_real(dtype)) == _obj:
        return _np.empty(to_real(shape), dtype=object)
    return _full(shape, 0, _ndt(dtype))


@shim(create=True)
def full(shape, fill_value, dtype=None, **kw):
    _nokw(kw)
    if dtype is None:
        d = lift(fill_value).dtype
    else:
        d = _ndt(dtype)
    return _full(shape, fill_value, d)


def _like(x, v, dtype, shape=None):
    x = asarr(x)
    return _full(shape if shape is not None else x.shape, v, x.dtype if dtype is None else _ndt(dtype))


@shim()
def savetxt(fname, X, *a, **kw):
    _np.savetxt(fname, X.a if isinstance(X, SArr) else X, *a, **kw)


@shim()
def zeros_like(x, dtype=None, shape=None, **kw):
    _nokw(kw)
    return _like(x, 0, dtype, shape)


@shim()
def ones_like(x, dtype=None, shape=None, **kw):
    _nokw(kw)
    return _like(x, 1, dtype, shape)


@shim()
def empty_like(x, dtype=None, shape=None, **kw):
    _nokw(kw)
    return _like(x, 0, dtype, shape)


@shim()
def full_like(x, fill_value, dtype=None, shape=None, **kw):
    _nokw(kw)
    return _like(x, fill_value, dtype, shape)


@shim(create=True)
def arange(*args, dtype=None):
    a = [lift(x) for x in args]
    if builtins.any(x.sym for x in a):
        if builtins.any(x.k == "f" for x in a):
            raise Unsupported("arange with symbolic floats")
        vals = list(range(*[x.__index__() for x in a]))
        return asarr(_np.array(vals, dtype=_np.int64), dtype)
    if builtins.all(x.k != "f" for x in a):
        r = asarr(_np.array(list(range(*[int(x.v) for x in a])), dtype=_np.int64))
    else:
        st, sp, step = (lift(0), a[0], lift(1)) if len(a) == 1 else (a + [lift(1)])[:3]
        n = max(0, math.ceil((sp.v - st.v) / Fraction(step.v)))
        o = _objarr((n,))
        for i in range(n):
            o[i] = cast(st + step * i, "f")
        r = SArr(o, _np.dtype("float64"))
    return r if dtype is None else r.astype(dtype)


@shim(create=True)
def linspace(start, stop, num=50, endpoint=True, dtype=None, **kw):
    _nokw(kw)
    n = num.__index__()
    start, stop = cast(lift(start), "f"), cast(lift(stop), "f")
    dv = (n - 1) if endpoint else n
    o = _objarr((n,))
    for i in range(n):
        o[i] = start if dv == 0 else start + (stop - start) * i / dv
    return SArr(o, _np.dtype("float64"))


@shim(create=True)
def eye(n, m=None, k=0, dtype=None):
    return asarr(_np.eye(n, m, k), dtype)


@shim(create=True)
def array(x, dtype=None, copy=True, ndmin=0, **kw):
    if dtype is not None and _ndt(dtype).kind == "O":
        return _np.array(x, dtype=object)
    if isinstance(x, (SArr, MSel)) or _numericlike(x):
        r = asarr(x)
        r = r.copy() if dtype is None else r.astype(dtype)
        while r.ndim < ndmin:
            r = SArr(r.a[None], r.dtype)
        return r
    return _np.array(x) if dtype is None else _np.array(x, dtype=_ndt(dtype))


def _numericlike(x):
    if isinstance(x, (Num, bool, int, float, _np.generic)):
        return not isinstance(x, (_np.str_, _np.bytes_))
    if isinstance(x, _np.ndarray):
        return x.dtype.kind in "biuf"
    if isinstance(x, (list, tuple, range)):
        return builtins.all(_numericlike(e) or isinstance(e, (SArr, MSel)) for e in x)
    return False


@shim(create=True)
def asarray(x, dtype=None, **kw):
    _nokw(kw)
    if isinstance(x, SArr):
        return x if dtype is None or _ndt(dtype) == x.dtype else x.astype(dtype)
    return array(x, dtype=dtype)


@shim(create=True)
def ascontiguousarray(x, dtype=None, **kw):
    _nokw(kw)
    return asarray(x, dtype)


@shim(create=True)
def asanyarray(x, dtype=None, **kw):
    _nokw(kw)
    return asarray(x, dtype)


@shim(create=True)
def atleast_1d(x):
    r = asarr(x)
    return SArr(r.a.reshape(1), r.dtype) if r.ndim == 0 else r


@shim(create=True)
def atleast_2d(x):
    r = asarr(x)
    return SArr(_np.atleast_2d(r.a), r.dtype)


@shim()
def copy(x, **kw):
    _nokw(kw)
    return x.copy() if isinstance(x, MSel) else asarr(x).copy()


class UF:
    """ufunc look-alike."""
    def __init__(self, f, nin):
        self.f, self.nin = f, nin
        self.__name__ = f.__name__

    def __call__(self, *args, out=None, where=True, dtype=None, **kw):
        args = list(args)
        if len(args) > self.nin:
            out = args.pop()
        if where is not True:
            w = asarr(where)
            bs = _np.broadcast_arrays(*[to_obj(x)[0] for x in args], w.a)
            if isinstance(out, tuple):
                out = out[0]
            if out is None:
                raise Unsupported("ufunc where= without out=")
            for p in _np.ndindex(bs[0].shape):
                g = truth(bs[-1][p])
                if not g.sym and not g.v:
                    continue
                e = core.ENG
                old = e.guard if e is not None else True
                if e is not None:
                    e.guard = g if g.sym else True
                try:
                    val = self.f(*[b[p] for b in bs[:-1]])
                finally:
                    if e is not None:
                        e.guard = old
                out.a[p] = ite(g, cast(val, kind_of_dtype(out.dtype)), out.a[p])
            return out
        r = elementwise(self.f, *args)
        if isinstance(out, tuple):
            out = out[0]
        if out is not None:
            out[...] = r
            return out
        if dtype is not None:
            r = r.astype(dtype)
        return r

    def at(self, arr, idx, *vals):
        ii = arr._norm(idx)
        ii = arr._forkmasks(ii)
        ii = ii if len(ii) != 1 else ii[0]
        pos = _np.arange(arr.a.size).reshape(arr.a.shape)[ii]
        flat = arr.a.reshape(-1) if arr.a.flags.c_contiguous else None
        if flat is None:
            raise Unsupported("ufunc.at on a strided view")
        pos = _np.atleast_1d(pos)
        k = kind_of_dtype(arr.dtype)
        bv = [_np.broadcast_to(to_obj(v)[0], pos.shape) for v in vals]
        for p in _np.ndindex(pos.shape):
            flat[pos[p]] = cast(self.f(flat[pos[p]], *[b[p] for b in bv]), k)

    def reduce(self, x, axis=0, **kw):
        _nokw(kw)
        x = asarr(x)
        if self.f in (core.land, core.lor):
            return _reduce(x, self.f, axis, False, None, boolean=True)
        return _reduce(x, self.f, axis, False, None)

    def outer(self, a, b):
        a, b = asarr(a), asarr(b)
        return elementwise(self.f, SArr(a.a.reshape(a.shape + (1,) * b.ndim), a.dtype), b)

    def accumulate(self, x, axis=0, **kw):
        _nokw(kw)
        if self.f is core.add:
            return asarr(x).cumsum(axis=axis)
        x = asarr(x)
        out = x.a.copy()
        for i in range(1, out.shape[0]):
            for p in _np.ndindex(out.shape[1:]):
                out[(i,) + p] = self.f(out[(i - 1,) + p], out[(i,) + p])
        return SArr(out, x.dtype)


def square(a):
    return a * a


def reciprocal(a):
    return lift(1) / a


def floor_f(a):
    return cast(core.floor(a), "f") if not a.special else a


def ceil_f(a):
    return cast(-core.floor(-a), "f") if not a.special else a


def trunc_f(a):
    return cast(core.to_int(a), "f") if not a.special else a


def rint_f(a):
    return core.rint(a, "f")


def ident(a):
    return a


def heaviside(a, b):
    return ite(a > 0, lift(1.0), ite(core.eq(a, lift(0)), cast(b, "f"), lift(0.0)))


for _n, _f, _k in [
        ("add", core.add, 2), ("subtract", core.sub, 2), ("multiply", core.mul, 2),
        ("divide", core.div, 2), ("true_divide", core.div, 2), ("power", core.power, 2),
        ("float_power", core.power, 2),
        ("floor_divide", core.floordiv, 2), ("mod", core.mod, 2), ("remainder", core.mod, 2),
        ("minimum", core.minimum, 2), ("maximum", core.maximum, 2),
        ("fmin", core.minimum, 2), ("fmax", core.maximum, 2), ("hypot", core.hypot, 2),
        ("less", core.lt, 2), ("less_equal", core.le, 2), ("greater", core.gt, 2),
        ("greater_equal", core.ge, 2), ("equal", core.eq, 2), ("not_equal", core.ne, 2),
        ("logical_and", core.land, 2), ("logical_or", core.lor, 2), ("logical_xor", core.lxor, 2),
        ("bitwise_and", core.band, 2), ("bitwise_or", core.bor, 2), ("bitwise_xor", core.bxor, 2),
        ("logical_not", core.lnot, 1), ("invert", _inv, 1), ("bitwise_not", _inv, 1),
        ("negative", _neg, 1), ("positive", ident, 1),
        ("absolute", core.absolute, 1), ("abs", core.absolute, 1), ("fabs", core.absolute, 1),
        ("sqrt", core.sqrt, 1), ("square", square, 1), ("sign", core.sign, 1),
        ("isnan", core.isnan, 1), ("isfinite", core.isfinite, 1), ("isinf", core.isinf, 1),
        ("floor", floor_f, 1), ("ceil", ceil_f, 1), ("rint", rint_f, 1), ("trunc", trunc_f, 1),
        ("fix", trunc_f, 1), ("reciprocal", reciprocal, 1), ("heaviside", heaviside, 2)]:
    FUNCS[_n] = (UF(_f, _k), False)


def _red(x, name, axis=None, **kw):
    if isinstance(x, Num):
        return getattr(asarr([x]), name)()
    if not isinstance(x, (SArr, MSel)):
        x = asarr(x)
    w = kw.pop("where", None)
    if w is not None and w is not True:
        if name not in ("sum", "any", "all", "prod"):
            raise Unsupported("numpy option where= of %s" % name)
        neutral = {"sum": 0, "any": False, "all": True, "prod": 1}[name]
        x = where(w, x, neutral)
    return getattr(x, name)(axis=axis, **kw)


for _n, _m in [("sum", "sum"), ("any", "any"), ("all", "all"), ("prod", "prod"),
               ("min", "min"), ("max", "max"), ("amin", "min"), ("amax", "max"),
               ("mean", "mean"), ("nansum", "sum"), ("nanmin", "min"), ("nanmax", "max"),
               ("nanmean", "mean"), ("sometrue", "any"), ("alltrue", "all")]:
    FUNCS[_n] = ((lambda m: lambda x, axis=None, **kw: _red(x, m, axis, **kw))(_m), False)


@shim()
def average(x, axis=None, weights=None):
    if weights is None:
        return asarr(x).mean(axis=axis)
    x, w = asarr(x), asarr(weights)
    return (x * w).sum(axis=axis) / w.sum(axis=axis)


@shim()
def ptp(x, axis=None):
    return asarr(x).max(axis=axis) - asarr(x).min(axis=axis)


@shim()
def cumsum(x, axis=None, **kw):
    _nokw(kw)
    return asarr(x).cumsum(axis=axis)


@shim()
def diff(x, n=1, axis=-1):
    x = asarr(x)
    for _ in range(n):
        mv = SArr(_np.moveaxis(x.a, axis, 0), x.dtype)
        r = mv[1:] - mv[:-1]
        x = SArr(_np.moveaxis(r.a, 0, axis), r.dtype)
    return x


@shim()
def argmax(x, axis=None):
    return asarr(x).argmax(axis)


@shim()
def argmin(x, axis=None):
    return asarr(x).argmin(axis)


@shim()
def count_nonzero(x, axis=None):
    if isinstance(x, MSel):
        return x.astype(bool).sum()
    return asarr(x).astype(bool).sum(axis=axis)


@shim()
def clip(x, a_min=None, a_max=None, out=None, min=None, max=None, **kw):
    _nokw(kw)
    a_min = min if a_min is None else a_min
    a_max = max if a_max is None else a_max
    r = x
    if a_min is not None:
        r = elementwise(core.maximum, r, a_min)
    if a_max is not None:
        r = elementwise(core.minimum, r, a_max)
    if out is not None:
        out[...] = r
        return out
    return r


def _ite3(c, a, b):
    return ite(c, a, b)


@shim()
def where(c, *ab):
    if not ab:
        return nonzero(c)
    a, b = ab
    r = elementwise(_ite3, c, a, b)
    if isinstance(r, SArr):
        d = _result_dt(core.maximum, a, b)
        r = SArr(castarr(r.a, kind_of_dtype(d)), d)
    return r


@shim()
def nonzero(x):
    x = asarr(x)
    m = _np.array([builtins.bool(e) for e in x.a.reshape(-1)], dtype=bool).reshape(x.a.shape)
    return tuple(asarr(i) for i in _np.nonzero(m))


@shim()
def flatnonzero(x):
    return nonzero(asarr(x).ravel())[0]


@shim()
def argwhere(x):
    nz = nonzero(x)
    return SArr(_np.stack([n.a for n in nz], axis=1) if nz[0].size else _objarr((0, len(nz))), _np.dtype("int64"))


@shim()
def extract(c, x):
    return asarr(x)[asarr(c).astype(bool)]


@shim()
def compress(c, x, axis=None):
    return asarr(x)[asarr(c).astype(bool)]


@shim()
def putmask(x, mask, v):
    x[asarr(mask)] = v


@shim()
def place(x, mask, v):
    x[asarr(mask)] = v


@shim()
def copyto(dst, src, where=True, **kw):
    _nokw(kw)
    if where is True:
        dst[...] = src
    else:
        w = asarr(where)
        s = _np.broadcast_to(to_obj(src)[0], dst.shape)
        ww = _np.broadcast_to(w.a, dst.shape)
        for p in _np.ndindex(dst.shape):
            dst.a[p] = ite(ww[p], cast(s[p], kind_of_dtype(dst.dtype)), dst.a[p])


@shim()
def choose(i, ch, **kw):
    raise Unsupported("np.choose")


@shim()
def select(conds, choices, default=0):
    r = default
    for c, x in reversed(list(zip(conds, choices))):
        r = where(c, x, r)
    return r


@shim()
def take(x, idx, axis=None, **kw):
    _nokw(kw)
    return asarr(x).take(idx, axis=axis)


@shim()
def put(x, idx, v):
    x.flat[idx] = v


@shim()
def pad(x, width, mode="constant", **kw):
    x = asarr(x)
    idx = _np.arange(x.a.size).reshape(x.a.shape)
    if mode == "constant":
        cv = kw.get("constant_values", 0)
        p = _np.pad(idx, to_real(width), "constant", constant_values=-1)
        out = _objarr(p.shape)
        src = x.a.reshape(-1)
        c = cast(lift(cv), kind_of_dtype(x.dtype))
        for q in _np.ndindex(p.shape):
            out[q] = c if p[q] < 0 else src[p[q]]
        return SArr(out, x.dtype)
    p = _np.pad(idx, to_real(width), mode, **kw)
    return SArr(x.a.reshape(-1)[p], x.dtype)


@shim()
def roll(x, shift, axis=None):
    x = asarr(x)
    return SArr(_np.roll(x.a, to_real(shift), axis=axis), x.dtype)


def _structural(name):
    rf = getattr(_np, name)

    def f(x, *args, **kw):
        if name in ("hstack", "vstack", "concatenate", "stack", "dstack", "column_stack", "row_stack") \
                and isinstance(x, (list, tuple)):
            arrs = [asarr(e) for e in x]
            dt = arrs[0].dtype
            for e in arrs[1:]:
                dt = _np.promote_types(dt, e.dtype)
            k = kind_of_dtype(dt)
            return SArr(rf([castarr(e.a, k) for e in arrs], *to_real(args), **kw), dt)
        x = asarr(x)
        r = rf(x.a, *to_real(args), **kw)
        if isinstance(r, list):
            return [SArr(e, x.dtype) for e in r]
        return SArr(r, x.dtype) if isinstance(r, _np.ndarray) else r
    return f


for _n in ("hstack", "vstack", "concatenate", "stack", "dstack", "column_stack", "reshape",
           "transpose", "ravel", "squeeze", "expand_dims", "flip", "fliplr", "flipud", "rot90",
           "tile", "repeat", "moveaxis", "swapaxes", "broadcast_to", "delete", "triu", "tril",
           "diag", "split", "array_split", "row_stack"):
    if hasattr(_np, _n):
        FUNCS[_n] = (_structural(_n), False)


@shim()
def append(x, v, axis=None):
    if axis is None:
        return FUNCS["concatenate"][0]([asarr(x).ravel(), atleast_1d(v).ravel()])
    return FUNCS["concatenate"][0]([x, v], axis)


@shim()
def broadcast_arrays(*xs):
    bs = _np.broadcast_arrays(*[asarr(x).a for x in xs])
    return [SArr(b, asarr(x).dtype) for b, x in zip(bs, xs)]


@shim()
def dot(a, b):
    a, b = asarr(a), asarr(b)
    if a.ndim == 1 and b.ndim == 1:
        return (a * b).sum()
    if a.ndim == 2 and b.ndim == 1:
        return SArr(_np.array([(a[i] * b).sum() for i in range(a.shape[0])], dtype=object), _np.dtype("float64"))
    raise Unsupported("np.dot of these shapes")


@shim()
def inner(a, b):
    return dot(a, b)


@shim()
def vdot(a, b):
    return dot(asarr(a).ravel(), asarr(b).ravel())


@shim(name="round")
def np_round(x, decimals=0, out=None, **kw):
    _nokw(kw)
    if out is not None:
        out[...] = np_round(x, decimals)
        return out
    def f(n):
        if decimals == 0:
            return core.rint(n, "f") if n.k == "f" else n
        return n.__round__(decimals)
    f.__name__ = "rint"
    return elementwise(f, x)


FUNCS["around"] = (np_round, False)
FUNCS["round_"] = (np_round, False)


@shim()
def isclose(a, b, rtol=1e-5, atol=1e-8, **kw):
    _nokw(kw)
    return elementwise(core.le, abs(asarr(a) - b) if isinstance(a, (SArr, _np.ndarray)) else abs(lift(a) - b),
                       atol + rtol * (abs(asarr(b)) if isinstance(b, (SArr, _np.ndarray)) else abs(lift(b))))


@shim()
def allclose(a, b, **kw):
    r = isclose(a, b, **kw)
    return r.all() if isinstance(r, SArr) else r


@shim()
def array_equal(a, b, **kw):
    _nokw(kw)
    a, b = asarr(a), asarr(b)
    if a.shape != b.shape:
        return False
    return (a == b).all()


@shim()
def searchsorted(a, v, side="left", **kw):
    _nokw(kw)
    a = asarr(a)
    if isinstance(v, (SArr, _np.ndarray, list, tuple)):
        vv = asarr(v)
        out = _objarr(vv.shape)
        for p in _np.ndindex(vv.shape):
            out[p] = searchsorted(a, vv.a[p], side)
        return SArr(out, _np.dtype("int64"))
    v = lift(v)
    # position of the first element not less than (left) / greater than (right) v,
    # as numpy's binary search finds it on a sorted array
    n = len(a.a)
    for i in range(n):
        e = a.a[i]
        c = core.ge(e, v) if side == "left" else core.gt(e, v)
        if builtins.bool(c):
            return lift(i)
    return lift(n)


@shim()
def digitize(x, bins, right=False):
    return searchsorted(bins, x, side="left" if right else "right")


@shim()
def unique(x, return_counts=False, **kw):
    x = asarr(x)
    if kw:
        raise Unsupported("np.unique options")
    if not all_const(x.a):
        vals = _conc_int_array(x)
    else:
        vals = to_real(x)
    r = _np.unique(vals, return_counts=return_counts)
    return from_real(r)


@shim()
def isin(x, test, invert=False, **kw):
    _nokw(kw)
    t = asarr(test).a.reshape(-1)

    def f(e):
        r = lift(False)
        for q in t:
            r = core.lor(r, core.eq(e, q))
        return core.lnot(r) if invert else r
    f.__name__ = "land"
    return elementwise(f, x)


FUNCS["in1d"] = FUNCS["isin"]


@shim()
def sort(x, **kw):
    _nokw(kw)
    x = asarr(x)
    if all_const(x.a):
        return asarr(_np.sort(to_real(x)))
    if x.ndim != 1:
        raise Unsupported("sort of a symbolic matrix")
    import functools
    return SArr(_np.array(sorted(x.a, key=functools.cmp_to_key(
        lambda p, q: -1 if builtins.bool(p < q) else (1 if builtins.bool(q < p) else 0))), dtype=object), x.dtype)


@shim()
def ndenumerate(x):
    x = asarr(x)
    return iter([(p, x.a[p]) for p in _np.ndindex(x.a.shape)])


@shim(create=True)
def meshgrid(*xs, **kw):
    arrs = [asarr(x) for x in xs]
    idx = _np.meshgrid(*[_np.arange(a.size) for a in arrs], **kw)
    return [SArr(a.a.reshape(-1)[i], a.dtype) for a, i in zip(arrs, idx)]


@shim()
def unravel_index(i, shape):
    if isinstance(i, (SArr, _np.ndarray)):
        return from_real(_np.unravel_index(_conc_int_array(i), to_real(shape)))
    i = lift(i)
    if len(shape) != 2:
        raise Unsupported("unravel_index ndim != 2")
    if builtins.bool(core.lor(i < 0, i >= shape[0] * shape[1])):
        raise ValueError("index out of bounds")
    return (i // shape[1], i % shape[1])


@shim()
def ravel_multi_index(t, shape, **kw):
    _nokw(kw)
    if len(shape) != 2:
        raise Unsupported("ravel_multi_index ndim != 2")
    return t[0] * shape[1] + t[1]


@shim()
def shape(x):
    return asarr(x).shape


@shim()
def size(x, axis=None):
    return asarr(x).size if axis is None else asarr(x).shape[axis]


@shim()
def ndim(x):
    return asarr(x).ndim


@shim()
def may_share_memory(a, b):
    return _np.may_share_memory(asarr(a).a, asarr(b).a)


@shim()
def shares_memory(a, b):
    return _np.shares_memory(asarr(a).a, asarr(b).a)


@shim()
def isscalar(x):
    return isinstance(x, (Num, int, float, str, bool, _np.generic))


@shim()
def iterable(x):
    return isinstance(x, (SArr, list, tuple)) or hasattr(x, "__iter__")


@shim()
def nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    def f(e):
        if not e.special:
            return e
        if math.isnan(e.v):
            return lift(nan)
        return lift(posinf if e.v > 0 else neginf) if (posinf is not None and neginf is not None) else lift(3e38 if e.v > 0 else -3e38)
    f.__name__ = "maximum"
    return elementwise(f, x)


@shim()
def exp(x, **kw):
    _nokw(kw)
    return _transcend("exp", x)


@shim()
def log(x, **kw):
    _nokw(kw)
    return _transcend("log", x)


@shim()
def sin(x, **kw):
    _nokw(kw)
    return _transcend("sin", x)


@shim()
def cos(x, **kw):
    _nokw(kw)
    return _transcend("cos", x)


@shim()
def arctan2(y, x, **kw):
    _nokw(kw)
    if isinstance(x, Num) and x.sym or isinstance(y, Num) and y.sym:
        raise Unsupported("arctan2")
    return from_real(_np.arctan2(to_real(y), to_real(x)))


def _transcend(name, x):
    def f(e):
        if e.sym:
            raise Unsupported("np.%s of a symbolic value" % name)
        return lift(getattr(_np, name)(e.to_py()))
    f.__name__ = "sqrt"
    return elementwise(f, x)


@shim()
def cbrt(x):
    return elementwise(lambda e: core.power(e, lift(Fraction(1, 3))), x)


# ------------------------------------------------------------------ random
class _Random(types.ModuleType):
    """np.random: draws are symbolic values of the requested distribution."""
    def __init__(self):
        super().__init__("numpy.random")

    def _stream(self):
        return "seeded" if ST.njit_depth > 0 else "unseeded"

    def _u(self):
        return ST.rng(self._stream())

    def seed(self, s=None):
        if ST.concrete or ST.rng is None:
            return
        h = getattr(ST, "on_seed", None)
        if h is not None:
            h(self._stream(), s)

    def uniform(self, low=0.0, high=1.0, size=None):
        if ST.concrete:
            return _np.random.uniform(low, high, size)
        if size is not None:
            return self._many(size, lambda: self.uniform(low, high))
        return lift(low) + (lift(high) - lift(low)) * self._u()

    def _many(self, size, f):
        shp = (size,) if isinstance(size, (int, Num)) else tuple(size)
        shp = tuple(s.__index__() for s in shp)
        o = _objarr(shp)
        for p in _np.ndindex(shp):
            o[p] = f()
        return asarr(o)

    def random(self, size=None):
        if ST.concrete:
            return _np.random.random(size)
        if size is not None:
            return self._many(size, self._u)
        return self._u()

    random_sample = random
    sample = random
    ranf = random

    def rand(self, *shape):
        return self.random(shape or None)

    def randint(self, low, high=None, size=None, dtype=int):
        if ST.concrete:
            return _np.random.randint(low, high, size, dtype=to_real(dtype))
        if size is not None:
            return self._many(size, lambda: self.randint(low, high))
        if high is None:
            low, high = 0, low
        return core.floor(lift(low) + (lift(high) - lift(low)) * self._u())

    def choice(self, a, size=None, replace=True, p=None):
        if ST.concrete:
            return _np.random.choice(a, size, replace, p)
        if size is not None:
            return self._many(size, lambda: self.choice(a, None, replace, p))
        arr = asarr(a) if not isinstance(a, (int, Num)) else arange(a)
        if p is None:
            return arr[core.floor(self._u() * len(arr))]
        cp = asarr(p).cumsum()
        return arr[searchsorted(cp, self._u(), side="right")]

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        if ST.concrete:
            return getattr(_np.random, n)
        raise Unsupported("np.random.%s" % n)


class _NdMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (SArr, MSel, _np.ndarray))

    def __getattr__(cls, n):
        return getattr(_np.ndarray, n)


class ndarray(metaclass=_NdMeta):
    pass


class _AbstractMeta(type):
    def __instancecheck__(cls, x):
        if isinstance(x, Num):
            return x.k in cls._kinds
        return isinstance(x, cls._real)


def _abstract(name, kinds):
    return _AbstractMeta(name, (), {"_kinds": kinds, "_real": getattr(_np, name)})


def sliding_window_view(x, window_shape, axis=None, *, subok=False, writeable=False):
    if isinstance(x, _np.ndarray) and ST.concrete:
        return _np.lib.stride_tricks.sliding_window_view(x, to_real(window_shape), axis=axis)
    x = asarr(x)
    return SArr(_np.lib.stride_tricks.sliding_window_view(x.a, to_real(window_shape), axis=axis), x.dtype)


class _Lib(types.ModuleType):
    """numpy.lib, with the window view shared by both modes."""
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        if n == "sliding_window_view":
            return sliding_window_view
        if n == "stride_tricks":
            return _Lib("numpy.lib.stride_tricks")
        src = _np.lib.stride_tricks if self.__name__.endswith("stride_tricks") else _np.lib
        return getattr(src, n)


class NumpyShim(types.ModuleType):
    def __init__(self):
        super().__init__("numpy")
        self.__dict__["_cache"] = {}
        self.ndarray = ndarray
        self.random = _Random()
        self.newaxis = None
        self.__dict__["lib"] = _Lib("numpy.lib")
        for n in ("float16", "float32", "float64", "int8", "int16", "int32", "int64",
                  "uint8", "uint16", "uint32", "uint64"):
            self.__dict__[n] = DT(n)
        self.__dict__["bool_"] = DT("bool")
        self.__dict__["intp"] = self.__dict__["int_"] = self.__dict__["int64"]
        self.__dict__["double"] = self.__dict__["float_"] = self.__dict__["float64"]
        self.__dict__["single"] = self.__dict__["float32"]
        self.__dict__["generic"] = _abstract("generic", "bif")
        self.__dict__["number"] = _abstract("number", "if")
        self.__dict__["integer"] = _abstract("integer", "i")
        self.__dict__["savez"] = self.__dict__["savez_compressed"] = savez
        self.__dict__["load"] = load
        self.__dict__["floating"] = _abstract("floating", "f")
        self.__path__ = []

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        c = self.__dict__["_cache"]
        if n in c:
            return c[n]
        real = getattr(_np, n)
        if n in FUNCS:
            f, create = FUNCS[n]
            c[n] = Dual(n, real, f, create)
        elif isinstance(real, (types.FunctionType, types.BuiltinFunctionType, _np.ufunc)) or \
                (callable(real) and not isinstance(real, type)):
            c[n] = Fallback(n, real)
        else:
            return real
        return c[n]


class NPZ(dict):
    """Contents of a saved archive; the file on disk only names them."""
    store = {}
    files = property(lambda self: list(self))

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


def _npz_path(f):
    f = str(f)
    return f if f.endswith(".npz") else f + ".npz"


def savez(file, *args, **kw):
    if ST.concrete and not (_has_sym(args) or _has_sym(kw)):
        return _np.savez(file, *args, **kw)
    kw.update({"arr_%d" % i: a for i, a in enumerate(args)})
    # (numbers come back as 0-d arrays and are converted by their users)
    d = {k: v.copy() if isinstance(v, (SArr, _np.ndarray)) else v for k, v in kw.items()}
    key = "npz%d" % len(NPZ.store)
    NPZ.store[key] = d
    if hasattr(file, "write"):
        file.write(key.encode())
    else:
        with open(_npz_path(file), "w") as f:
            f.write(key)


def load(file, *a, **k):
    if ST.concrete:
        return _np.load(file, *a, **k)
    if hasattr(file, "read"):
        key = file.read()
        key = key.decode() if isinstance(key, bytes) else key
    else:
        with open(str(file), "rb") as f:
            key = f.read().decode(errors="replace")
    if key not in NPZ.store:
        raise Unsupported("np.load of a real file")
    return NPZ({k: v.copy() if isinstance(v, (SArr, _np.ndarray)) else v for k, v in NPZ.store[key].items()})


class Dual:
    """Real numpy on concrete data in concrete mode, the rule above otherwise."""
    def __init__(self, name, real, f, create):
        self.name, self.real, self.f, self.create = name, real, f, create
        self.__name__ = name

    def _use_real(self, args, kw):
        if not ST.concrete:
            return False
        return not (_has_sym(args) or _has_sym(kw))

    def __call__(self, *args, **kw):
        if self._use_real(args, kw):
            if "dtype" in kw:
                kw["dtype"] = to_real(kw["dtype"])
            return self.real(*[to_real(a) if isinstance(a, DT) or hasattr(a, "_is_shim_int") else a for a in args], **kw)
        return self.f(*args, **kw)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        inner = getattr(self.f, n) if hasattr(self.f, n) else None
        real = getattr(self.real, n)

        def g(*args, **kw):
            if self._use_real(args, kw):
                return real(*args, **kw)
            if inner is None:
                raise Unsupported("np.%s.%s" % (self.name, n))
            return inner(*args, **kw)
        return g


class Fallback:
    def __init__(self, name, real):
        self.name, self.real = name, real
        self.__name__ = name

    def __call__(self, *args, **kw):
        if ST.concrete and not (_has_sym(args) or _has_sym(kw)):
            return self.real(*args, **{k: to_real(v) for k, v in kw.items()})
        try:
            ra, rk = to_real(tuple(args)), to_real(kw)
        except Unsupported:
            raise Unsupported("np.%s on symbolic data" % self.name)
        return from_real(self.real(*ra, **rk))

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return getattr(self.real, n)


# --------------------------------------------------------------- scipy shim
def convolve(x, w, output=None, mode="reflect", cval=0.0, origin=0, **kw):
    if ST.concrete and not (_has_sym(x) or _has_sym(w)):
        return _ndi.convolve(x, w, output=output, mode=mode, cval=cval, origin=origin)
    x, w = asarr(x), asarr(w)
    return correlate(x, SArr(w.a[::-1, ::-1], w.dtype), mode=mode, cval=cval)


def correlate(x, w, output=None, mode="reflect", cval=0.0, origin=0, **kw):
    if ST.concrete and not (_has_sym(x) or _has_sym(w)):
        return _ndi.correlate(x, w, output=output, mode=mode, cval=cval, origin=origin)
    x, w = asarr(x), asarr(w)
    pm = {"constant": "constant", "nearest": "edge", "reflect": "symmetric",
          "mirror": "reflect", "wrap": "wrap"}[mode]
    r = [s // 2 for s in w.shape]
    p = pad(x, [(q, q) for q in r], pm, **({"constant_values": cval} if pm == "constant" else {}))
    out = _objarr(x.shape)
    k = kind_of_dtype(x.dtype)
    for i, j in _np.ndindex(x.shape):
        acc = cast(lift(0), k)
        for u, v in _np.ndindex(w.shape):
            acc = acc + w.a[u, v] * p.a[i + u, j + v]
        out[i, j] = cast(acc, k)
    return SArr(out, x.dtype)


class NdimageShim(types.ModuleType):
    def __init__(self):
        super().__init__("scipy.ndimage")
        self.convolve = convolve
        self.correlate = correlate

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Fallback("ndimage." + n, getattr(_ndi, n))


for _n in ("add radd sub rsub mul rmul truediv rtruediv floordiv rfloordiv mod rmod pow rpow and rand or ror xor rxor "
           "lt le gt ge eq ne neg abs invert").split():
    setattr(MSel, "__%s__" % _n, SArr.__dict__["__%s__" % _n])
MSel.__hash__ = None
