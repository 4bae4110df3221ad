"""Loads the Python sources of pymaster (current working tree) with the symbolic extension module
and numpy stand-in.  Every function executed is recorded."""
import math
import os
import sys
import types
import builtins
import numpy as np
from . import build, symback, sym
from .sym import Unsupported

_code = {}


def src(name):
    if name not in _code:
        p = "%s/pymaster/%s.py" % (build.REPO, name)
        _code[name] = compile(open(p).read(), p, "exec")
    return _code[name]


class Swig(types.ModuleType):
    """nmtlib: the functions of the extension module"""

    def __init__(self, be):
        super().__init__("pymaster.nmtlib")
        self.__dict__["_be"] = be

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return getattr(self._be.lib, k)


def load(be):
    from . import sht
    mods = {}
    lib = Swig(be)
    mods["pymaster.nmtlib"] = lib
    hp = sht.Healpy()
    ducc = sht.ducc0()
    shim = symback.NPS
    order = ["utils", "bins", "field", "workspaces", "covariance"]

    def imp(name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = "pymaster"
            name = pkg + ("." + name if name else "")
        if name == "numpy":
            return shim
        if name == "math":
            return SMath
        if name == "healpy":
            return hp
        if name == "ducc0":
            return ducc
        if name == "pymaster" or name.startswith("pymaster."):
            if name == "pymaster":
                if fromlist:
                    for f in fromlist:
                        get("pymaster." + f)
                return mods["pymaster"]
            m = get(name)
            return m if fromlist else mods["pymaster"]
        return builtins.__import__(name, globals, locals, fromlist, level)

    def get(name):
        if name in mods:
            return mods[name]
        short = name.split(".")[1]
        if not os.path.exists("%s/pymaster/%s.py" % (build.REPO, short)):
            return None
        m = types.ModuleType(name)
        m.__file__ = "%s/pymaster/%s.py" % (build.REPO, short)
        mods[name] = m
        setattr(mods["pymaster"], short, m)
        bi = dict(vars(builtins))
        bi["__import__"] = imp
        bi["float"] = SFloat
        m.__dict__["__builtins__"] = bi
        exec(src(short), m.__dict__)
        return m

    root = types.ModuleType("pymaster")
    root.__path__ = []
    mods["pymaster"] = root
    root.nmtlib = lib
    for s in order:
        get("pymaster." + s)
    for s in order:
        for k, v in vars(mods["pymaster." + s]).items():
            if k.startswith(("Nmt", "mask_apo", "synfast", "compute_", "deprojection", "uncorr", "get_default", "set_", "moore", "gaussian", "map2alm", "alm2map")) \
                    and not hasattr(root, k):
                setattr(root, k, v)
    root.mods = mods
    return root


class SMathM:
    """the math module on symbolic values"""
    NAMES = dict(sqrt="sqrt", cos="cos", sin="sin", tan="tan", exp="exp", log="log", log10="log10", fabs="fabs", hypot="hypot", atan2="arctan2",
                 acos="arccos", asin="arcsin", atan="arctan", radians="radians", degrees="degrees", isnan="isnan", isfinite="isfinite",
                 isinf="isinf", fmod="fmod", fsum="sum", prod="prod")

    def __getattr__(self, k):
        g = getattr(math, k)
        if not callable(g):
            return g
        own = getattr(SMathM, "_" + k, None)

        def f(*a, **kw):
            if not any(symback.hassym(x if isinstance(x, (list, tuple, np.ndarray)) else [x]) for x in a):
                return g(*a, **kw)
            if own:
                return own(*a, **kw)
            if k in self.NAMES:
                return getattr(symback.NPS, self.NAMES[k])(*a)
            raise Unsupported("math.%s of a symbolic value" % k)
        f.__name__ = k
        return f

    @staticmethod
    def _floor(x):
        return sym.floor_int(x)

    @staticmethod
    def _ceil(x):
        return -sym.floor_int(-x)

    @staticmethod
    def _trunc(x):
        return sym.trunc_int(x)

    @staticmethod
    def _pow(x, y):
        return x ** y

    @staticmethod
    def _isclose(a, b, rel_tol=1e-9, abs_tol=0.0):
        NPS = symback.NPS
        d, m = NPS.abs(a - b), symback.smax([NPS.abs(a), NPS.abs(b)])
        return bool(d <= rel_tol * m) or bool(d <= abs_tol)


SMath = SMathM()


class SFloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, float)


class SFloat(metaclass=SFloatMeta):
    npy = np.float64

    def __new__(cls, x=0.0):
        if isinstance(x, (sym.Sym, sym.SymBool)):
            return sym.to_real(x) if isinstance(x, sym.Sym) else float(int(x))
        return float(x)
