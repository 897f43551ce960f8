"""Load the code under test from /repo into the symbolic world."""
import builtins
import importlib
import math as _math
import os
import sys
import types

import numpy as _np

from . import core, npshim
from .core import Num, Unsupported, lift
from .npshim import ST, SArr

REPO = os.environ.get("VERIF_REPO", "/repo")


# ------------------------------------------------------------ numba stand-in
class _NbType:
    def __init__(self, name):
        self.name = name
        self._dt = _np.dtype(name)

    def __getitem__(self, i):
        return _NbArr(self.name)

    def __call__(self, x=0, *a):
        if isinstance(x, (_NbType,)) or a:
            return self
        return core.cast(lift(x), core.kind_of_dtype(self._dt)) if not ST.concrete else self._dt.type(x)


class _NbArr(_NbType):
    pass


def _wrap(f):
    import functools

    @functools.wraps(f)
    def g(*a, **k):
        ST.njit_depth += 1
        try:
            if MERGE is not None and not ST.concrete and MERGE(f):
                from .merge import call_merged
                return call_merged(f, a, k)
            return f(*a, **k)
        finally:
            ST.njit_depth -= 1
    g.py_func = f
    g._is_njit = True
    return g


MERGE = None


def njit(*a, **k):
    if len(a) == 1 and not k and isinstance(a[0], types.FunctionType):
        return _wrap(a[0])
    return _wrap


def jitclass(*a, **k):
    spec = dict(a[0]) if a and not isinstance(a[0], type) else {}

    def deco(cls):
        for n, v in list(_all_funcs(cls).items()):
            if n == "__init__" or not n.startswith("__"):
                setattr(cls, n, _wrap(v))

        def setter(self, name, val):
            # a jitted class stores its scalars in the declared type
            t = spec.get(name)
            if isinstance(t, _NbType) and not isinstance(t, _NbArr) and not ST.concrete:
                val = core.cast(lift(val), core.kind_of_dtype(t._dt))
            object.__setattr__(self, name, val)
        cls.__setattr__ = setter
        return cls
    if len(a) == 1 and isinstance(a[0], type):
        return deco(a[0])
    return deco


def _all_funcs(cls):
    d = {}
    for c in reversed(cls.__mro__):
        for n, v in c.__dict__.items():
            if isinstance(v, types.FunctionType):
                d[n] = getattr(v, "py_func", v)
    return d


class RngState:
    """The generator's state is a tape of draws and a position on it."""
    tape, pos = "start", 0
    tapes = {}

    @classmethod
    def reset(cls):
        cls.tape, cls.pos, cls.tapes = "start", 0, {}

    @classmethod
    def seed(cls, stream, s):
        if stream == "seeded":
            cls.tape, cls.pos = "seed %s" % (s.v.sexpr() if isinstance(s, Num) and s.sym else s,), 0

    @classmethod
    def next(cls, make):
        t = cls.tapes.setdefault(cls.tape, [])
        if cls.pos >= len(t):
            t.append(make())
        cls.pos += 1
        return t[cls.pos - 1]


def make_numba():
    nb = types.ModuleType("numba")
    nb.njit = njit
    nb.jit = njit
    nb.vectorize = njit
    nb.prange = builtins.range
    for n in ("float32", "float64", "int64", "int32", "uint64", "uint32"):
        setattr(nb, n, _NbType(n))
    nb.boolean = _NbType("bool")
    nb.bool_ = nb.boolean
    nb.types = types.SimpleNamespace(UniTuple=lambda *a: None, **{n: getattr(nb, n) for n in ("float32", "float64", "int64", "boolean")})
    nb.typed = types.SimpleNamespace(List=list, Dict=dict)
    ex = types.ModuleType("numba.experimental")
    ex.jitclass = jitclass
    nb.experimental = ex
    hl = types.ModuleType("numba._helperlib")
    hl.rnd_get_np_state_ptr = lambda: "np-state"
    hl.rnd_get_state = lambda ptr: (RngState.pos, [RngState.tape])

    def _set(ptr, st):
        RngState.pos, RngState.tape = int(st[0]), st[1][0]
    hl.rnd_set_state = _set
    nb._helperlib = hl
    nb.__path__ = []
    return {"numba": nb, "numba.experimental": ex, "numba._helperlib": hl}


# ------------------------------------------------------------ other stand-ins
class Anything(types.ModuleType):
    """Accepts any call and attribute; returns itself."""
    def __init__(self, name="stub"):
        super().__init__(name)
        self.__path__ = []

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return self

    def __call__(self, *a, **k):
        return self

    def __iter__(self):
        return iter((self, self))

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class NCAll(dict):
    """All that was written to a variable."""
    pass


class NCVar:
    def __init__(self, ds, name):
        self.__dict__["_ds"], self.__dict__["_name"] = ds, name
        self.__dict__["data"] = {}
        self.__dict__["log"] = []

    def clone(self, ds):
        v = NCVar(ds, self._name)
        v.__dict__.update({k: x for k, x in self.__dict__.items() if k not in ("_ds", "data", "log")})
        v.data.update(self.data)
        v.log.extend(self.log)
        return v

    @property
    def datatype(self):
        return self.dtype

    def __setitem__(self, idx, val):
        if isinstance(val, (SArr, _np.ndarray)):
            val = val.copy()
        i0 = idx[0] if isinstance(idx, tuple) else idx
        self.log.append((idx, val))
        self._ds._log.append(("write", self._name, i0, val))
        if isinstance(val, NCAll):
            self.data.update(val)
        elif isinstance(i0, (int, Num)):
            i0 = int(i0)
            if i0 < 0:
                raise Unsupported("negative record index")
            self.data[i0] = val
        else:
            self.data["all"] = val

    def __getitem__(self, idx):
        i0 = idx[0] if isinstance(idx, tuple) else idx
        if isinstance(i0, slice):
            return NCAll(self.data)
        return self.data.get(int(i0))

    def __len__(self):
        n = [k for k in self.data if k != "all"]
        return builtins.max(n) + 1 if n else 0

    @property
    def shape(self):
        return (len(self),)


class NCGroup:
    def __init__(self, ds):
        self.variables = {}

    def __getitem__(self, n):
        return self.variables[n]


class NCDim:
    def __init__(self, size):
        self.size = size

    def isunlimited(self):
        return self.size is None

    def __len__(self):
        return builtins.int(self.size or 0)


class Dataset:
    """Recording stand-in of netCDF4.Dataset; the file on disk only names the recording."""
    made = []
    store = {}

    def __init__(self, path, mode="r", **kw):
        d = self.__dict__
        path = str(path)
        if mode == "w":
            d.update(_log=[], variables={}, groups={}, dimensions={}, attrs={}, opens=0, disk=None, writer=[self])
            key = "nc%d" % len(Dataset.store)
            d["state"] = key
            Dataset.store[key] = d
            with open(path, "w") as f:
                f.write(key)
        else:
            with open(path) as f:
                key = f.read()
            if key not in Dataset.store:
                raise OSError("not a recording")
            o = Dataset.store[key]
            for n in ("_log", "variables", "groups", "dimensions", "attrs", "state", "writer"):
                d[n] = o[n]
            w = d["writer"][0]
            if w is not None:
                # whoever writes this file has not closed it: only what has been synced is there
                if w.disk is None:
                    raise OSError("NetCDF: nothing in the file")
                vs, gs = w.disk
                d["variables"], d["groups"] = {n: v.clone(self) for n, v in vs.items()}, {}
                for g, x in gs.items():
                    d["groups"][g] = NCGroup(self)
                    d["groups"][g].variables.update({n: v.clone(self) for n, v in x.items()})
                d["writer"] = [None]
            if mode != "r":
                d["writer"][0] = self
            d["disk"] = None
        d["path"], d["mode"], d["closed"] = path, mode, False
        d["synced"] = 0
        Dataset.made.append(self)

    def __setattr__(self, n, v):
        self.attrs[n] = v
        self.__dict__[n] = v

    def createDimension(self, n, size=None):
        self.dimensions[n] = NCDim(size)

    def createGroup(self, n):
        self.groups.setdefault(n, NCGroup(self))
        return self.groups[n]

    def createVariable(self, name, dtype=None, dims=(), **kw):
        v = NCVar(self, name)
        v.__dict__["dtype"], v.__dict__["dimensions"] = dtype, dims
        if "/" in name:
            g, n = name.split("/")
            self.groups.setdefault(g, NCGroup(self)).variables[n] = v
        else:
            self.variables[name] = v
        return v

    def __getitem__(self, n):
        if n in self.groups:
            return self.groups[n]
        if "/" in n:
            g, k = n.split("/")
            return self.groups[g].variables[k]
        return self.variables[n]

    def flushed(self):
        self.__dict__["disk"] = ({n: v.clone(self) for n, v in self.variables.items()},
                                 {g: {n: v.clone(self) for n, v in x.variables.items()} for g, x in self.groups.items()})

    def sync(self):
        self.__dict__["synced"] += 1
        self.flushed()
        self._log.append(("sync",))

    def close(self):
        if self.closed:
            raise RuntimeError("NetCDF: Not a valid ID")
        self.__dict__["closed"] = True
        if self.writer[0] is self:
            self.writer[0] = None
        self._log.append(("close",))

    def isopen(self):
        return not self.closed

    def ncattrs(self):
        return list(self.attrs)

    def getncattr(self, n):
        return self.attrs[n]

    def setncattr(self, n, v):
        self.attrs[n] = v

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


# ------------------------------------------------------------ builtins / math
class _IntMeta(type):
    _is_shim_int = True

    def __instancecheck__(cls, x):
        return isinstance(x, builtins.int) or (isinstance(x, Num) and x.k in "ib")

    def __subclasscheck__(cls, s):
        return issubclass(s, builtins.int)

    def __eq__(cls, o):
        return o is builtins.int or o is cls

    def __hash__(cls):
        return hash(builtins.int)

    def __call__(cls, x=0, *a):
        if isinstance(x, SArr):
            x = x.item()
        if isinstance(x, Num):
            if ST.concrete and not x.sym:
                return builtins.int(x.to_py())
            return core.to_int(x)
        if isinstance(x, str) and x in core.TEXT and not a:
            t = core.TEXT[x]
            if t.k == "f":
                raise ValueError("invalid literal for int() with base 10: %r" % x)
            return t
        return builtins.int(x, *a)

    def __getattr__(cls, n):
        return getattr(builtins.int, n)


class ShimInt(metaclass=_IntMeta):
    _is_shim_int = True


class _FloatMeta(type):
    _is_shim_float = True

    def __instancecheck__(cls, x):
        return isinstance(x, builtins.float) or (isinstance(x, Num) and x.k == "f")

    def __subclasscheck__(cls, s):
        return issubclass(s, builtins.float)

    def __eq__(cls, o):
        return o is builtins.float or o is cls

    def __hash__(cls):
        return hash(builtins.float)

    def __call__(cls, x=0.0):
        if isinstance(x, SArr):
            x = x.item()
        if isinstance(x, Num):
            return core.cast(x, "f")
        if isinstance(x, str) and x in core.TEXT:
            return core.cast(core.TEXT[x], "f")
        return builtins.float(x)

    def __getattr__(cls, n):
        return getattr(builtins.float, n)


class ShimFloat(metaclass=_FloatMeta):
    _is_shim_float = True


ShimInt.__name__ = "int"
ShimFloat.__name__ = "float"


class _TypeMeta(type):
    def __call__(cls, x, *a, **k):
        if a or k:
            return builtins.type(x, *a, **k)
        if isinstance(x, Num):
            return {"f": ShimFloat, "i": ShimInt, "b": builtins.bool}[x.k]
        t = builtins.type(x)
        # the names `int` and `float` of the loaded modules are the shims: keep `type(x) is int` true
        return ShimInt if t is builtins.int else ShimFloat if t is builtins.float else t

    def __instancecheck__(cls, x):
        return isinstance(x, builtins.type)

    def __eq__(cls, o):
        return o is builtins.type or o is cls

    def __hash__(cls):
        return hash(builtins.type)


class ShimType(metaclass=_TypeMeta):
    pass


def _mm(f, py):
    def g(*args, key=None, default=None, **kw):
        if key is None and default is None:
            xs = list(args[0]) if len(args) == 1 else list(args)
            if any(isinstance(x, Num) for x in xs):
                r = lift(xs[0])
                for x in xs[1:]:
                    # python's min/max keeps the first of equal values, as ite does
                    r = f(r, lift(x))
                return r
            return py(*args)
        if default is not None:
            kw["default"] = default
        return py(*args, key=key, **kw) if key is not None else py(*args, **kw)
    return g


shim_min = _mm(core.minimum, builtins.min)
shim_max = _mm(core.maximum, builtins.max)


class MathShim(types.ModuleType):
    def __init__(self):
        super().__init__("math")

    def _1(name):
        f = {"sqrt": core.sqrt, "fabs": core.absolute, "floor": core.floor,
             "ceil": lambda a: -core.floor(-a), "trunc": core.to_int,
             "isnan": core.isnan, "isfinite": core.isfinite, "isinf": core.isinf}[name]
        real = getattr(_math, name)

        def g(self, x):
            if isinstance(x, SArr):
                x = x.item()
            if isinstance(x, Num) and (x.sym or not ST.concrete):
                r = f(x)
                return bool(r) if r.k == "b" else r
            return real(x)
        return g
    sqrt, fabs, floor, ceil, trunc = _1("sqrt"), _1("fabs"), _1("floor"), _1("ceil"), _1("trunc")
    isnan, isfinite, isinf = _1("isnan"), _1("isfinite"), _1("isinf")
    del _1

    def hypot(self, a, b):
        if isinstance(a, Num) or isinstance(b, Num):
            return core.hypot(lift(a), lift(b))
        return _math.hypot(a, b)

    def pow(self, a, b):
        if isinstance(a, Num) or isinstance(b, Num):
            return core.power(lift(a), lift(b))
        return _math.pow(a, b)

    def isclose(self, a, b, rel_tol=1e-9, abs_tol=0.0):
        if isinstance(a, Num) or isinstance(b, Num):
            a, b = lift(a), lift(b)
            return bool(abs(a - b) <= core.maximum(lift(rel_tol) * core.maximum(abs(a), abs(b)), lift(abs_tol)))
        return _math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)

    def prod(self, xs, start=1):
        r = start
        for x in xs:
            r = r * x
        return r

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return getattr(_math, n)


class _StubFinder:
    """Any matplotlib / mpl_toolkits submodule is a do-nothing stand-in."""
    def find_spec(self, name, path=None, target=None):
        if name.split(".")[0] in ("matplotlib", "mpl_toolkits"):
            import importlib.machinery
            return importlib.machinery.ModuleSpec(name, self, is_package=True)
        return None

    def create_module(self, spec):
        return Anything(spec.name)

    def exec_module(self, m):
        pass


class PyRandom(types.ModuleType):
    """The standard library's generator: draws of their own stream."""
    def __init__(self):
        super().__init__("random")

    def _u(self):
        return ST.rng("python")

    def random(self):
        import random
        return random.random() if ST.concrete else self._u()

    def uniform(self, a, b):
        return lift(a) + (lift(b) - lift(a)) * self.random()

    def randrange(self, a, b=None, step=1):
        a, b = (0, a) if b is None else (a, b)
        return core.to_int(lift(a) + (lift(b) - lift(a)) * self.random())

    def randint(self, a, b):
        return self.randrange(a, b + 1)

    def choice(self, xs):
        return xs[self.randrange(len(xs)).__index__()]

    def seed(self, *a):
        pass

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        import random
        return getattr(random, n)


class ScipyShim(types.ModuleType):
    def __init__(self, nd):
        super().__init__("scipy")
        self.ndimage = nd
        self.__path__ = []

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        import scipy
        return getattr(scipy, n)


_loaded = None


def load():
    """Import pyDeltaRCM from REPO with the stand-ins; returns the package."""
    global _loaded
    if _loaded is not None:
        return _loaded
    import yaml  # noqa: real modules the package needs, imported before the swap
    import logging, argparse, random, itertools, multiprocessing, platform, warnings, pathlib, tempfile  # noqa
    np_s = npshim.NumpyShim()
    nd = npshim.NdimageShim()
    swap = {"numpy": np_s, "numpy.random": np_s.random, "numpy.lib": np_s.lib, "numpy.lib.stride_tricks": np_s.lib.stride_tricks, "scipy": ScipyShim(nd), "scipy.ndimage": nd,
            "netCDF4": types.ModuleType("netCDF4"), "math": MathShim(), "random": PyRandom()}
    swap["netCDF4"].Dataset = Dataset
    swap.update(make_numba())
    finder = _StubFinder()
    sys.meta_path.insert(0, finder)
    mpl = {n: m for n, m in sys.modules.items() if n.split(".")[0] in ("matplotlib", "mpl_toolkits")}
    for n in mpl:
        del sys.modules[n]
    import warnings
    warnings.simplefilter("ignore")
    saved = {n: sys.modules.get(n) for n in swap}
    for n in [n for n in sys.modules if n == "pyDeltaRCM" or n.startswith("pyDeltaRCM.")]:
        del sys.modules[n]
    sys.modules.update(swap)
    old_path = list(sys.path)
    sys.path.insert(0, REPO)
    sys.dont_write_bytecode = True
    try:
        pkg = importlib.import_module("pyDeltaRCM")
        for s in ("model", "preprocessor", "shared_tools", "water_tools", "sed_tools",
                  "init_tools", "iteration_tools", "hook_tools", "debug_tools"):
            importlib.import_module("pyDeltaRCM." + s)
    finally:
        for n, m in saved.items():
            if m is None:
                sys.modules.pop(n, None)
            else:
                sys.modules[n] = m
        sys.path[:] = old_path
        sys.meta_path.remove(finder)
        for n in [n for n in sys.modules if n.split(".")[0] in ("matplotlib", "mpl_toolkits")]:
            del sys.modules[n]
        sys.modules.update(mpl)
    if not pkg.__file__.startswith(REPO.rstrip("/") + "/"):
        raise RuntimeError("loaded %s, not from %s" % (pkg.__file__, REPO))
    mods = {n: m for n, m in sys.modules.items() if n == "pyDeltaRCM" or n.startswith("pyDeltaRCM.")}
    for m in mods.values():
        m.__dict__.setdefault("int", ShimInt)
        m.__dict__.setdefault("float", ShimFloat)
        m.__dict__.setdefault("type", ShimType)
        m.__dict__.setdefault("min", shim_min)
        m.__dict__.setdefault("max", shim_max)
    pkg._np_shim = np_s
    _loaded = pkg
    return pkg
