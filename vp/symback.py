"""Symbolic back end: the compiled C sources (as IR) behind the same Python interface that the
extension module gives, and the Python sources of pymaster executed over symbolic arrays."""
import os
import sys
import math
import types
import numpy as np
from . import sym, mem, ir, stubs, build
from . import omp as ompm
from .sym import Sym, SymBool, Unsupported, Violation, Infeasible
from .mem import NULL, LD, ST, Obj, new


# ------------------------------------------------------------------ program (one per process)
class Prog:
    def __init__(self, d, omp=False):
        if omp:
            mem.DEFREC = ompm.REC
        paths, self.structs = build.build_ir(d, omp=omp)
        self.mod = ir.Module()
        for t, p in sorted(paths.items()):
            self.mod.load(p, t)
        self.ex = ir.Exec(self.mod, stubs.S)
        H = open(build.REPO + "/src/namaster.h").read() + open(build.REPO + "/src/utils.h").read()
        self.protos = build.protos(H)
        self.inline = build.protos(build.wrap_inline())
        self.applies = build.applies()


def to_num(x, ct):
    """Python number -> C scalar of type ct"""
    if isinstance(x, np.ndarray) and x.ndim == 0:
        x = x.item()
    if isinstance(x, np.generic):
        x = x.item()
    if ct in ("int", "long", "size_t"):
        if isinstance(x, bool):
            x = int(x)
        if isinstance(x, int):
            if ct == "int" and not -2**31 <= x < 2**31:
                raise OverflowError("int out of range")
            return x
        if isinstance(x, Sym) and x.i:
            return x
        if isinstance(x, SymBool):
            return int(x)
        raise TypeError("an integer is required, got %r" % (x,))
    if isinstance(x, (bool, int)):
        return float(x)
    if isinstance(x, SymBool):
        return float(int(x))
    if isinstance(x, (float, Sym)):
        return sym.to_real(x)
    raise TypeError("a float is required, got %r" % (x,))


class CObj:
    """pointer to a C structure, attributes through compiled accessors"""

    def __init__(self, be, ptr, st):
        self.__dict__.update(_be=be, ptr=ptr, st=st)

    def __getattr__(self, k):
        be = self._be
        m = be.prog.structs.get(self.st, {})
        if k not in m:
            raise AttributeError(k)
        v = be.ex.fn("vp_get_%s__%s" % (self.st, k))(self.ptr)
        base, np_ = m[k]
        if np_ == 0:
            return v
        if v == NULL:
            return None
        if np_ == 1 and base in be.prog.structs:
            return CObj(be, v, base)
        return CPtr(be, v, base, np_)

    def __setattr__(self, k, v):
        be = self._be
        m = be.prog.structs[self.st]
        base, np_ = m[k]
        if np_:
            v = v.ptr if v is not None else NULL
        else:
            v = to_num(v, base)
        be.ex.fn("vp_set_%s__%s" % (self.st, k))(self.ptr, v)


KD = {"int": ("4", 4), "flouble": ("d", 8), "double": ("d", 8), "long": ("8", 8), "size_t": ("8", 8), "char": ("1", 1)}


class CPtr:
    def __init__(self, be, ptr, base, n):
        self.be, self.ptr, self.base, self.n = be, ptr, base, n

    def __getitem__(self, i):
        o, off = self.ptr
        if self.n > 1:
            return CPtr(self.be, LD["p"]((o, off + 8 * i)), self.base, self.n - 1)
        k, s = KD[self.base]
        return LD[k]((o, off + s * i))

    def __setitem__(self, i, v):
        o, off = self.ptr
        if self.n > 1:
            ST["p"]((o, off + 8 * i), NULL if v is None else v.ptr)
            return
        k, s = KD[self.base]
        ST[k]((o, off + s * i), to_num(v, self.base))

    def read(self, n):
        return [self[i] for i in range(n)]


def is_numeric(a):
    return isinstance(a, np.ndarray) and a.dtype != object


class Buf:
    """argument buffer"""


def flat_list(a):
    if isinstance(a, np.ndarray):
        return a.ravel().tolist() if a.dtype != object else list(a.ravel())
    return list(a)


def conv_in(x, nd, ct):
    """numpy.i IN_ARRAY conversion -> (shape, flat list)"""
    if isinstance(x, np.ndarray):
        a = x
    else:
        a = np.empty((), dtype=object)
        try:
            a = asobj(x)
        except ValueError:
            raise TypeError("Array of %d dimensions required" % nd)
    if a.ndim != nd:
        raise TypeError("Array must have %d dimensions.  Given array has %d dimensions" % (nd, a.ndim))
    vals = flat_list(a)
    if ct == "int":
        if a.dtype != object and a.dtype not in (np.int32, np.int16, np.int8, np.uint8, np.uint16, np.bool_) and isinstance(x, np.ndarray):
            raise TypeError("Cannot cast array data from dtype('%s') to dtype('int32') according to the rule 'safe'" % a.dtype)
        out = []
        for v in vals:
            out.append(to_num(v, "int"))
        return a.shape, out
    return a.shape, [to_num(v, "double") for v in vals]


def asobj(x):
    """nested sequence -> object array of numbers"""
    if isinstance(x, np.ndarray):
        return x
    if isinstance(x, (Sym, SymBool, int, float, complex, np.generic)):
        a = np.empty((), dtype=object)
        a[()] = x
        return a
    els = [asobj(e) for e in x]
    if not els:
        return np.empty((0,), dtype=object)
    sh = els[0].shape
    for e in els:
        if e.shape != sh:
            raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
    a = np.empty((len(els),) + sh, dtype=object)
    for i, e in enumerate(els):
        if sh == ():
            a[i] = e.item() if e.dtype != object else e[()]
        else:
            a[i] = e
    return a


def buf(vals, ct, name="arg", init=True):
    k, s = KD[ct]
    o = Obj(max(len(vals), 0) * s, name, "array")
    if init:
        d = o.cells(k)
        for i, v in enumerate(vals):
            d[i * s] = v
    return (o, 0)


class Lib:
    """what pymaster calls 'nmtlib'"""

    def __init__(self, be):
        self._be = be
        self._c = {}

    def __getattr__(self, name):
        f = self._c.get(name)
        if f is None:
            f = self._c[name] = self._make(name)
        return f

    def _make(self, name):
        be = self._be
        P = be.prog
        if name in P.inline and name in P.mod.funcs:
            cname, (ret, args) = name, P.inline[name]
        elif "nmt_" + name in P.protos:
            cname, (ret, args) = "nmt_" + name, P.protos["nmt_" + name]
        elif name in P.protos:
            cname, (ret, args) = name, P.protos[name]
        else:
            raise AttributeError("nmtlib has no %s" % name)
        groups = []
        i = 0
        while i < len(args):
            hit = None
            for n in (4, 3, 2):
                key = tuple(a[2] for a in args[i:i + n])
                if len(key) == n and key in P.applies:
                    hit = (P.applies[key], args[i:i + n])
                    break
            if hit:
                groups.append(hit)
                i += len(hit[1])
            else:
                groups.append((None, args[i:i + 1]))
                i += 1

        def call(*pa):
            if len(pa) != len(groups):
                raise TypeError("%s() takes %d arguments (%d given)" % (name, len(groups), len(pa)))
            cargs, outs = [], []
            for v, (ap, ar) in zip(pa, groups):
                if ap is None:
                    ct, np_, an = ar[0]
                    if np_ == 0:
                        cargs.append(to_num(v, "double" if ct == "flouble" else ct))
                    elif v is None:
                        cargs.append(NULL)
                    elif isinstance(v, CObj):
                        if v.st != ct:
                            raise TypeError("in method '%s', argument of type '%s *' expected" % (name, ct))
                        cargs.append(v.ptr)
                    elif isinstance(v, CPtr):
                        cargs.append(v.ptr)
                    elif ct == "char" and isinstance(v, str):
                        cargs.append(mem.new_cstr(v))
                    else:
                        raise TypeError("in method '%s', argument '%s'" % (name, an))
                elif ap[0] == "out":
                    n = v
                    if isinstance(n, np.generic):
                        n = n.item()
                    if isinstance(n, Sym):
                        n = sym.CTX.concretize(n)
                    if not isinstance(n, int):
                        raise TypeError("Typemap int DIM1 expects an int")
                    if n < 0:
                        raise ValueError("negative dimensions are not allowed")
                    b = buf([None] * n, ap[1], "output array of %s" % name, init=False)
                    outs.append((b, n, ap[1]))
                    cargs += [b, n]
                else:
                    nd = int(ap[0][2])
                    sh, vals = conv_in(v, nd, ap[1])
                    cargs += list(sh) + [buf(vals, ap[1], "array argument %s of %s" % (ar[-1][2], name))]
            r = be.ccall(cname, cargs)
            res = []
            if ret != ("void", 0):
                if ret[1] and ret[0] in P.structs:
                    res.append(CObj(be, r, ret[0]) if r != NULL else None)
                else:
                    res.append(r)
            for b, n, ct in outs:
                o = b[0]
                if isinstance(o, Obj):
                    a = np.empty(n, dtype=object if ct != "int" else object).view(SArr)
                    k, s = KD[ct]
                    for i in range(n):
                        a[i] = LD[k]((o, s * i))
                    if ct == "int" and all(type(x) is int for x in a):
                        a = np.array(list(a), dtype=np.int32)
                    res.append(a)
            if not res:
                return None
            return res[0] if len(res) == 1 else res
        call.__name__ = name
        return call


class CApi:
    """direct calls of C functions with Python scalars, C objects and buffers"""

    def __init__(self, be):
        self._be = be

    def __getattr__(self, name):
        be = self._be
        P = be.prog
        pr = P.protos.get(name) or P.inline.get(name)

        def call(*a):
            args = []
            if pr is None:
                raise AttributeError(name)
            ret, al = pr
            for v, (ct, np_, an) in zip(a, al):
                if np_ == 0:
                    args.append(to_num(v, "double" if ct in ("flouble", "double") else ct))
                elif v is None:
                    args.append(NULL)
                elif isinstance(v, (CObj, CPtr)):
                    args.append(v.ptr)
                elif isinstance(v, str):
                    args.append(mem.new_cstr(v))
                else:
                    raise TypeError("%s: %r" % (name, v))
            r = be.ccall(name, args)
            if ret[1]:
                if r == NULL:
                    return None
                if ret[1] == 1 and ret[0] in P.structs:
                    return CObj(be, r, ret[0])
                return CPtr(be, r, ret[0], ret[1])
            return r
        return call


class Backend:
    symbolic = True

    def __init__(self, prog):
        self.prog = prog
        self.ex = prog.ex
        self.lib = Lib(self)
        self.C = CApi(self)
        self.depth = 0
        self._pm = None
        self.pyfuncs = set()

    def reset(self):
        ompm.reset()
        self.ex.reset()
        self.ex.fn("set_error_policy")(1)
        self._pm = None

    def ccall(self, name, args):
        try:
            return self.ex.fn(name)(*args)
        except stubs.CThrow:
            raise RuntimeError(mem.cstr(self.ex.gptr("nmt_error_message")))
        except stubs.CExit as e:
            raise Violation("exit", "the process would exit with code %s" % e.code)

    # buffers
    def dbuf(self, vals):
        return CPtr(self, buf([to_num(v, "double") for v in vals], "double"), "double", 1)

    def ibuf(self, vals):
        return CPtr(self, buf([to_num(v, "int") for v in vals], "int"), "int", 1)

    def lbuf(self, vals):
        return CPtr(self, buf([to_num(v, "long") for v in vals], "long"), "long", 1)

    def pbuf(self, ptrs):
        o = Obj(8 * len(ptrs), "pointer array", "array")
        for i, p in enumerate(ptrs):
            o.cp[8 * i] = NULL if p is None else p.ptr
        return CPtr(self, (o, 0), "double", 2)

    def gmat(self, rows):
        m = stubs.gm_alloc(len(rows), len(rows[0]))
        for i, r in enumerate(rows):
            for j, v in enumerate(r):
                stubs.gm_set(m, i, j, to_num(v, "double"))
        o = CPtr(self, m, "gsl_matrix", 1)
        o.values = lambda: stubs.gm_list(m)
        return o

    def pm(self):
        if self._pm is None:
            from . import pyload
            self._pm = pyload.load(self)
        return self._pm


# ------------------------------------------------------------------ numpy over symbolic values
class SArr(np.ndarray):
    __array_priority__ = 2000.0

    def astype(self, t, *a, **k):
        if self.dtype != object:
            return np.asarray(self).astype(t)
        t = np.dtype(t) if not isinstance(t, np.dtype) else t
        r = np.empty(self.shape, dtype=object).view(SArr)
        rf, sf = r.reshape(-1), self.reshape(-1)
        if t.kind in "fc" or t == object:
            for i in range(sf.size):
                v = sf[i]
                rf[i] = sym.to_real(v) if isinstance(v, (Sym, int, float, bool)) else (float(int(v)) if isinstance(v, SymBool) else v)
            return r
        if t.kind in "iu":
            al = True
            for i in range(sf.size):
                v = sf[i]
                rf[i] = sym.trunc_int(v) if not isinstance(v, (bool, SymBool)) else int(v)
                al = al and not isinstance(rf[i], Sym)
            if al:
                return np.array([int(x) for x in rf], dtype=t).reshape(self.shape)
            return r
        if t.kind == "b":
            return np.array([bool(x) for x in sf], dtype=bool).reshape(self.shape)
        raise Unsupported("astype %s" % t)

    @property
    def real(self):
        return vec(self, lambda x: x.real)

    @property
    def imag(self):
        return vec(self, lambda x: x.imag)

    def conj(self):
        return vec(self, lambda x: x.conjugate())
    conjugate = conj

    def __array_wrap__(self, arr, context=None, return_scalar=False):
        if arr.ndim == 0 and return_scalar:
            return arr[()]
        return np.ndarray.__array_wrap__(self, arr, context, False)

    def std(self, *a, **k):
        return NPS.sqrt(np.ndarray.var(self, *a, **k))

    def max(self, *a, **k):
        return smax(list(self.reshape(-1))) if not a and not k else np.ndarray.max(self, *a, **k)

    def min(self, *a, **k):
        return smin(list(self.reshape(-1))) if not a and not k else np.ndarray.min(self, *a, **k)


def vec(a, f):
    r = np.empty(a.shape, dtype=object).view(SArr)
    rf, af = r.reshape(-1), np.asarray(a).reshape(-1)
    for i in range(af.size):
        rf[i] = f(af[i])
    return r


def smax(l):
    m = l[0]
    for x in l[1:]:
        if x > m:
            m = x
    return m


def smin(l):
    m = l[0]
    for x in l[1:]:
        if x < m:
            m = x
    return m


def sa(x):
    """object array view of anything float-like"""
    a = asobj(x) if not isinstance(x, np.ndarray) else x
    if a.dtype.kind in "fcO":
        return obj(a)
    return a


def obj(a):
    if isinstance(a, SArr) and a.dtype == object:
        return a
    if a.dtype == object:
        return a.view(SArr)
    r = np.empty(a.shape, dtype=object).view(SArr)
    r.reshape(-1)[:] = a.reshape(-1).tolist() if a.size else []
    return r


def hassym(x):
    if isinstance(x, (Sym, SymBool, sym_c())):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)):
        return any(hassym(e) for e in x)
    return False


def sym_c():
    return SymC


class SymC:
    """complex number with symbolic parts"""
    __slots__ = ("re", "im")
    __array_priority__ = 1500.0
    __hash__ = None

    def __init__(self, re, im):
        self.re, self.im = re, im

    @property
    def real(self):
        return self.re

    @property
    def imag(self):
        return self.im

    def conjugate(self):
        return SymC(self.re, -self.im)
    conj = conjugate

    @staticmethod
    def of(x):
        if isinstance(x, SymC):
            return x
        if isinstance(x, (complex, np.complexfloating)):
            return SymC(float(x.real), float(x.imag))
        if isinstance(x, (int, float, Sym, np.floating, np.integer)):
            return SymC(x, 0.0)
        return None

    def __add__(self, o):
        o = SymC.of(o)
        return NotImplemented if o is None else SymC(self.re + o.re, self.im + o.im)
    __radd__ = __add__

    def __neg__(self):
        return SymC(-self.re, -self.im)

    def __sub__(self, o):
        o = SymC.of(o)
        return NotImplemented if o is None else SymC(self.re - o.re, self.im - o.im)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if isinstance(o, (int, float, Sym)):
            return SymC(self.re * o, self.im * o)
        o = SymC.of(o)
        if o is None:
            return NotImplemented
        return SymC(self.re * o.re - self.im * o.im, self.re * o.im + self.im * o.re)
    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, (int, float, Sym)):
            return SymC(self.re / o, self.im / o)
        o = SymC.of(o)
        if o is None:
            return NotImplemented
        d = o.re * o.re + o.im * o.im
        return self * o.conjugate() / d

    def __rtruediv__(self, o):
        return SymC.of(o) / self

    def __pow__(self, n):
        if isinstance(n, float) and n == int(n):
            n = int(n)
        if not isinstance(n, (int, np.integer)) or n < 0 or n > 16:
            raise Unsupported("power of a complex number")
        r = SymC(1.0, 0.0)
        for _ in range(int(n)):
            r = r * self
        return r

    def __abs__(self):
        return sym.sym_sqrt(self.re * self.re + self.im * self.im)

    def __eq__(self, o):
        o = SymC.of(o)
        return sym.b_and(self.re == o.re, self.im == o.im)

    def __repr__(self):
        return "SymC(%r,%r)" % (self.re, self.im)


def _cmul(self, o):
    """Sym * complex"""


# Sym with complex numbers
_oadd, _omul = Sym.__add__, Sym.__mul__


def _add(self, o):
    if isinstance(o, (complex, np.complexfloating)):
        return SymC(self + o.real, float(o.imag))
    return _oadd(self, o)


def _mul(self, o):
    if isinstance(o, (complex, np.complexfloating)):
        return SymC(self * float(o.real), self * float(o.imag))
    return _omul(self, o)


Sym.__add__ = Sym.__radd__ = _add
Sym.__mul__ = Sym.__rmul__ = _mul


class NPLinalg:
    LinAlgError = np.linalg.LinAlgError

    def __getattr__(self, k):
        return getattr(np.linalg, k)

    def inv(self, m):
        m = sa(m)
        A = [list(r) for r in m]
        try:
            return sa(stubs.inverse_of(A))
        except Violation as e:
            if e.kind == "singular":
                raise np.linalg.LinAlgError("Singular matrix")
            raise

    def pinv(self, m, *a, **k):
        raise Unsupported("np.linalg.pinv")

    def solve(self, m, b):
        return np.dot(self.inv(m), sa(b))

    def det(self, m):
        m = sa(m)
        n = len(m)
        if n > 5:
            raise Unsupported("determinant of a %dx%d matrix" % (n, n))

        def d(rows, cols):
            if not cols:
                return 1.0
            return sum((-1) ** i * m[rows[0], c] * d(rows[1:], cols[:i] + cols[i + 1:]) for i, c in enumerate(cols))
        return d(list(range(n)), list(range(n)))

    def eigvalsh(self, m, *a, **k):
        return self.eigh(m)[0]

    def eigh(self, m, *a, **k):
        m = sa(m)
        n = len(m)
        A = [[m[max(i, j)][min(i, j)] for j in range(n)] for i in range(n)]
        w, v = stubs.eigh_contract(A)
        # ascending order
        k = list(range(n))
        for a in range(1, n):
            b = a
            while b and bool(w[k[b]] < w[k[b - 1]]):
                k[b], k[b - 1] = k[b - 1], k[b]
                b -= 1
        return sa([w[i] for i in k]), sa([[r[i] for i in k] for r in v])


class NPRandom:
    """numpy.random: see noise.py"""

    def __getattr__(self, k):
        from . import noise
        return getattr(noise.Rng(), k)


class Ufunc:
    """a numpy ufunc applied to object arrays"""

    def __init__(self, np_, f):
        self.n, self.f = np_, f
        self.__name__ = f.__name__

    def _in(self, x):
        return sa(x) if isinstance(x, (np.ndarray, list, tuple)) else x

    def __call__(self, *a, **kw):
        kw.pop("dtype", None) if kw.get("dtype") in (float, np.float64, "float64") else None
        g = NP.own.get(self.f.__name__)
        if g is not None and not (set(kw) - {"out", "where"} if self.f.__name__ in ("divide", "true_divide") else kw):
            return g(self.n, *a, **kw)
        if "where" in kw and isinstance(kw["where"], np.ndarray) and kw["where"].dtype == object:
            kw["where"] = self.n._b(kw["where"])
        return self.n._fix(self.f(*a, **kw))

    def reduce(self, x, *a, **k):
        name = self.f.__name__
        if name in ("logical_or", "logical_and"):
            x = self.n._b(x)
        return self.n._fix(self.f.reduce(self._in(x), *a, **k))

    def accumulate(self, x, *a, **k):
        return self.n._fix(self.f.accumulate(self._in(x), *a, **k))

    def reduceat(self, x, idx, *a, **k):
        return self.n._fix(self.f.reduceat(self._in(x), idx, *a, **k))

    def outer(self, x, y, **k):
        return self.n._fix(self.f.outer(self._in(x), self._in(y), **k))

    def at(self, x, i, *b):
        idx = np.broadcast(*[np.asarray(q) for q in (i if isinstance(i, tuple) else (i,))])
        if isinstance(i, (np.ndarray, list)) and np.asarray(i).dtype == bool:
            raise Unsupported("ufunc.at with a boolean index")
        v = np.broadcast_to(np.asarray(sa(b[0]) if isinstance(b[0], (np.ndarray, list, tuple)) else asobj(b[0])), idx.shape) if b else None
        for k, q in enumerate(idx):
            q = tuple(int(z) for z in q)
            x[q] = self.f(x[q], v.reshape(-1)[k]) if b else self.f(x[q])


class _F64(type):
    def __instancecheck__(cls, x):
        return isinstance(x, np.float64)

    def __eq__(cls, o):
        return o is cls or o is np.float64

    def __hash__(cls):
        return hash(np.float64)


class F64(np.float64, metaclass=_F64):
    """numpy.float64 inside the executed sources"""

    def __new__(cls, x=0.0):
        if isinstance(x, (Sym, SymBool)):
            return sym.to_real(x) if isinstance(x, Sym) else float(int(x))
        if isinstance(x, np.ndarray) and x.dtype == object:
            return x if x.ndim else x.item()
        return float(x) if not isinstance(x, (list, tuple, np.ndarray)) else obj(np.asarray(x, dtype=np.float64))


class NP:
    """numpy stand-in inside the executed Python sources: float arrays are object arrays"""
    linalg = NPLinalg()
    random = NPRandom()
    float64 = double = F64

    def __getattr__(self, k):
        v = getattr(np, k)
        if isinstance(v, np.ufunc):
            return Ufunc(self, v)
        if callable(v) and not isinstance(v, type):
            def f(*a, **kw):
                kw.pop("dtype", None) if kw.get("dtype") in (float, np.float64, "float64") else None
                r = v(*a, **kw)
                return self._fix(r)
            f.__name__ = k
            return f
        return v

    def _fix(self, r):
        if isinstance(r, np.ndarray) and r.dtype.kind in "fcO" and not isinstance(r, SArr):
            return obj(r)
        if isinstance(r, np.floating):
            return float(r)
        if isinstance(r, np.integer):
            return r
        if isinstance(r, tuple):
            return tuple(self._fix(x) for x in r)
        return r

    @staticmethod
    def _full(shape, v, dtype):
        if isinstance(shape, (Sym,)):
            shape = int(shape)
        if dtype is not None and np.dtype(dtype).kind in "iub":
            return np.full(shape, int(v) if v is not None else 0, dtype=dtype)
        if dtype is not None and np.dtype(dtype).kind == "c":
            v = complex(v)
        r = np.empty(shape, dtype=object).view(SArr)
        r[...] = v
        return r

    def zeros(self, shape, dtype=None, **k):
        return self._full(shape, 0.0, dtype)

    def ones(self, shape, dtype=None, **k):
        return self._full(shape, 1.0, dtype)

    def empty(self, shape, dtype=None, **k):
        return self._full(shape, None, dtype) if dtype is None else self._full(shape, 0.0, dtype)

    def full(self, shape, v, dtype=None, **k):
        return self._full(shape, v, dtype)

    def zeros_like(self, a, dtype=None, **k):
        a = sa(a)
        if dtype is None and a.dtype != object:
            return np.zeros_like(a)
        return self._full(a.shape, 0.0, dtype)

    def ones_like(self, a, dtype=None, **k):
        a = sa(a)
        if dtype is None and a.dtype != object:
            return np.ones_like(a)
        return self._full(a.shape, 1.0, dtype)

    def empty_like(self, a, dtype=None, **k):
        return self.zeros_like(a, dtype)

    def array(self, x, dtype=None, copy=True, **k):
        if isinstance(x, np.ndarray):
            r = x.copy()
        else:
            # nested: keep integers integer
            if x is None:
                return np.array(None)
            try:
                o = asobj(x)
            except (TypeError,):
                return np.array(x)
            vals = list(o.reshape(-1))
            if all(isinstance(v, (bool, np.bool_)) for v in vals) and vals:
                r = np.array(vals, dtype=bool).reshape(o.shape)
            elif all(isinstance(v, (int, np.integer)) for v in vals) and vals:
                r = np.array([int(v) for v in vals]).reshape(o.shape)
            else:
                r = o
        if dtype is not None:
            return sa(r).astype(dtype) if r.dtype == object else self._fix(r.astype(dtype))
        if r.dtype.kind in "fcO":
            r = obj(r)
        return r

    def asarray(self, x, dtype=None, **k):
        if isinstance(x, np.ndarray) and dtype is None:
            return self._fix(x)
        return self.array(x, dtype)

    asanyarray = asarray

    def ascontiguousarray(self, x, dtype=None):
        return self.asarray(x, dtype)

    def atleast_1d(self, x):
        a = self.asarray(x)
        return a.reshape(1) if a.ndim == 0 else a

    def atleast_2d(self, x):
        a = self.asarray(x)
        return a.reshape(1, 1) if a.ndim == 0 else (a[None, :] if a.ndim == 1 else a)

    def shape(self, x):
        return self.asarray(x).shape

    def _elt(self, f, x):
        if isinstance(x, (int, float, Sym, np.generic)):
            return f(x.item() if isinstance(x, np.generic) else x)
        if isinstance(x, (SymC, complex)):
            return f(x)
        a = self.asarray(x)
        return vec(a, lambda v: f(v.item() if isinstance(v, np.generic) else v))

    def sqrt(self, x):
        return self._elt(sym.sym_sqrt, x)

    def fabs(self, x):
        return self._elt(stubs.m_fabs, x)

    def abs(self, x):
        return self._elt(lambda v: stubs.m_fabs(v) if not isinstance(v, (SymC, complex)) else abs(v), x)
    absolute = abs

    def _fn(name, stub):
        def f(self, x):
            return self._elt(lambda v: stubs.S[stub](sym.to_real(v)), x)
        return f
    def exp(self, x):
        def f(v):
            if isinstance(v, (SymC, complex)):
                re, im = sym.to_real(v.real), sym.to_real(v.imag)
                m = stubs.S["exp"](re) if isinstance(re, Sym) or re != 0 else 1.0
                return SymC.of(0) + SymC(m * stubs.S["cos"](im), m * stubs.S["sin"](im))
            return stubs.S["exp"](sym.to_real(v))
        return self._elt(f, x)

    def arctan2(self, y, x):
        return self._fix(np.frompyfunc(lambda a, b: stubs.S["atan2"](sym.to_real(a), sym.to_real(b)), 2, 1)(y, x))

    def hypot(self, y, x):
        return self._fix(np.frompyfunc(lambda a, b: sym.sym_sqrt(a * a + b * b), 2, 1)(y, x))

    def angle(self, z):
        return self._elt(lambda v: stubs.S["atan2"](sym.to_real(v.imag), sym.to_real(v.real)), z)

    def fmod(self, x, y):
        return self._fix(np.frompyfunc(lambda a, b: a - b * stubs.S["trunc"](a / b) if isinstance(a, Sym) or isinstance(b, Sym) else math.fmod(a, b), 2, 1)(x, y))

    def log10(self, x):
        return self._elt(lambda v: self.log(v) / math.log(10.0) if isinstance(v, Sym) else math.log10(v), x)

    def isinf(self, x):
        return np.logical_not(np.logical_or(self.isfinite(x), self.isnan(x)))

    def rint(self, x):
        return self._elt(lambda v: stubs.S['rint'](v) if isinstance(v, Sym) else float(np.rint(v)), x)

    def round(self, x, decimals=0):
        if decimals:
            raise Unsupported("round to decimals")
        return self.rint(x)
    around = round

    def std(self, x, *a, **k):
        return self.sqrt(self.var(x, *a, **k))

    def bincount(self, x, weights=None, minlength=0):
        x = np.asarray(x)
        if x.dtype == object:
            x = np.array([int(v) for v in x])
        if weights is None:
            return np.bincount(x, minlength=minlength)
        w = sa(weights) if isinstance(weights, (np.ndarray, list, tuple)) else weights
        r = self.zeros(max(minlength, int(x.max()) + 1 if x.size else 0))
        for i, v in zip(x, w):
            r[i] = r[i] + v
        return r

    def count_nonzero(self, x, *a, **k):
        return np.count_nonzero(self._b(x), *a, **k)

    def divide(self, a, b, out=None, where=None):
        if out is None and where is None:
            return self._fix(np.true_divide(a, b))
        a, b = np.broadcast_arrays(sa(self.asarray(a)), sa(self.asarray(b)))
        w = np.broadcast_to(self._b(where) if where is not None else True, a.shape)
        r = out if out is not None else self.zeros(a.shape)
        for i in np.ndindex(a.shape):
            if w[i]:
                r[i] = a[i] / b[i]
        return r
    true_divide = divide
    log = _fn("log", "log")
    cos = _fn("cos", "cos")
    sin = _fn("sin", "sin")
    tan = _fn("tan", "tan")
    arccos = _fn("arccos", "acos")
    arcsin = _fn("arcsin", "asin")
    arctan = _fn("arctan", "atan")
    floor = _fn("floor", "floor")
    ceil = _fn("ceil", "ceil")
    del _fn

    def radians(self, x):
        return self._elt(lambda v: v * (math.pi / 180), x)
    deg2rad = radians

    def degrees(self, x):
        return self._elt(lambda v: v * (180 / math.pi), x)
    rad2deg = degrees

    def conj(self, x):
        return self._elt(lambda v: v.conjugate(), x)
    conjugate = conj

    def real(self, x):
        return self._elt(lambda v: v.real, x)

    def imag(self, x):
        return self._elt(lambda v: v.imag, x)

    def square(self, x):
        return self._elt(lambda v: v * v, x)

    def isnan(self, x):
        def f(v):
            return v != v if isinstance(v, (float, complex)) else False
        if isinstance(x, (int, float, Sym, np.generic)):
            return f(x)
        a = self.asarray(x)
        return np.array([f(v) for v in a.reshape(-1)], dtype=bool).reshape(a.shape)

    def isfinite(self, x):
        def f(v):
            return math.isfinite(v) if isinstance(v, (int, float)) else True
        if isinstance(x, (int, float, Sym, np.generic)):
            return f(x)
        a = self.asarray(x)
        return np.array([f(v) for v in a.reshape(-1)], dtype=bool).reshape(a.shape)

    def max(self, x, *a, **k):
        x = self.asarray(x)
        if a or k:
            return self._fix(np.max(x, *a, **k))
        return smax(list(x.reshape(-1))) if x.dtype == object else x.max()
    amax = max

    def min(self, x, *a, **k):
        x = self.asarray(x)
        if a or k:
            return self._fix(np.min(x, *a, **k))
        return smin(list(x.reshape(-1))) if x.dtype == object else x.min()
    amin = min

    def maximum(self, a, b):
        return self._fix(np.frompyfunc(lambda x, y: y if y > x else x, 2, 1)(a, b))

    def minimum(self, a, b):
        return self._fix(np.frompyfunc(lambda x, y: y if y < x else x, 2, 1)(a, b))

    def sum(self, x, *a, **k):
        x = self.asarray(x)
        w = k.pop("where", None)
        if w is not None:
            x = self.where(np.broadcast_to(self._b(w), x.shape), x, 0)
        r = np.sum(x, *a, **k)
        return self._fix(r)

    def mean(self, x, axis=None, **k):
        x = self.asarray(x)
        n = x.size if axis is None else x.shape[axis]
        return self._fix(np.sum(obj(x) if x.dtype.kind in "fcO" else x, axis=axis) / n)

    def average(self, x, axis=None, weights=None):
        if weights is None:
            return self.mean(x, axis)
        x, weights = self.asarray(x), self.asarray(weights)
        if axis is not None and weights.ndim == 1 and x.ndim > 1:
            weights = weights.reshape([-1 if i == axis % x.ndim else 1 for i in range(x.ndim)])
            return self.sum(x * weights, axis=axis) / self.sum(weights)
        return self.sum(self.asarray(x) * weights, axis=axis) / self.sum(weights, axis=axis)

    def any(self, x, *a, **k):
        x = self.asarray(x)
        if x.dtype != object or a or k:
            return np.any(x, *a, **k)
        for v in x.reshape(-1):
            if v:
                return True
        return False

    def all(self, x, *a, **k):
        x = self.asarray(x)
        if x.dtype != object or a or k:
            return np.all(x, *a, **k)
        for v in x.reshape(-1):
            if not v:
                return False
        return True

    def where(self, c, *a):
        c = self.asarray(c)
        if c.dtype == object:
            c = np.array([bool(v) for v in c.reshape(-1)], dtype=bool).reshape(c.shape)
        if not a:
            return np.where(c)
        return self._fix(np.where(c, *[sa(x) if not isinstance(x, (int,)) else x for x in a]))

    def nonzero(self, c):
        return self.where(c)

    def logical_and(self, a, b):
        return np.logical_and(self._b(a), self._b(b))

    def logical_or(self, a, b):
        return np.logical_or(self._b(a), self._b(b))

    def logical_not(self, a):
        return np.logical_not(self._b(a))

    def _b(self, a):
        a = self.asarray(a)
        if a.dtype != object:
            return a
        return np.array([bool(v) for v in a.reshape(-1)], dtype=bool).reshape(a.shape)

    def isclose(self, a, b, rtol=1e-5, atol=1e-8):
        a, b = np.broadcast_arrays(self.asarray(a), self.asarray(b))
        r = np.empty(a.shape, dtype=bool)
        for i in np.ndindex(a.shape):
            r[i] = bool(stubs.m_fabs(a[i] - b[i]) <= atol + rtol * stubs.m_fabs(b[i]))
        return r if r.shape else bool(r)

    def allclose(self, a, b, **k):
        return bool(np.all(self.isclose(a, b, **k)))

    def array_equal(self, a, b):
        a, b = self.asarray(a), self.asarray(b)
        if a.shape != b.shape:
            return False
        return all(bool(x == y) for x, y in zip(a.reshape(-1), b.reshape(-1)))

    def einsum(self, spec, *ops, **k):
        k.pop("optimize", None)
        return self._fix(np.einsum(spec, *[sa(o) for o in ops], **k))

    def dot(self, a, b):
        return self._fix(np.dot(sa(a), sa(b)))

    def diag(self, x):
        x = sa(x)
        if x.ndim == 1 and x.dtype == object:
            r = self.zeros((len(x), len(x)))
            for i in range(len(x)):
                r[i, i] = x[i]
            return r
        return self._fix(np.diag(x))

    def eye(self, n, *a, **k):
        return obj(np.eye(n))
    identity = eye

    def finfo(self, t=None):
        return np.finfo(np.float64)

    def dtype(self, t, *a, **k):
        return np.dtype(getattr(t, "npy", t), *a, **k)

    def result_type(self, *a):
        return np.result_type(*[getattr(t, "npy", t) for t in a])

    def iscomplex(self, x):
        return self._elt(lambda v: v.imag != 0 if isinstance(v, (SymC, complex)) else False, x)

    def iscomplexobj(self, x):
        if isinstance(x, np.ndarray) and x.dtype == object:
            return any(isinstance(v, (SymC, complex)) for v in x.reshape(-1))
        return isinstance(x, SymC) or np.iscomplexobj(x)

    def interp(self, x, xp, fp, left=None, right=None):
        xp, fp = [list(self.asarray(v).reshape(-1)) for v in (xp, fp)]

        def f(v):
            if bool(v < xp[0]):
                return fp[0] if left is None else left
            if bool(v > xp[-1]):
                return fp[-1] if right is None else right
            for i in range(len(xp) - 1):
                if bool(v < xp[i + 1]):
                    return fp[i] + (fp[i + 1] - fp[i]) / (xp[i + 1] - xp[i]) * (v - xp[i])
            return fp[-1]
        return self._elt(f, x)

    def linspace(self, *a, **k):
        return obj(np.linspace(*a, **k))


NP.own = {k: v for k, v in vars(NP).items() if isinstance(getattr(np, k, None), np.ufunc)}
for _k in NP.own:
    setattr(NP, _k, property(lambda self, f=getattr(np, _k): Ufunc(self, f)))
for _a, _b in (("abs", "absolute"), ("true_divide", "divide"), ("conjugate", "conj"), ("max", None), ("min", None)):
    if _b and _b in NP.own:
        NP.own.setdefault(_a, NP.own[_b])
        NP.own.setdefault(getattr(np, _a).__name__, NP.own[_b])
NPS = NP()
