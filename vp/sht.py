"""healpy and ducc0 inside the symbolically executed Python sources.

The transforms are linear over the reals.  Their matrices are taken from the installed libraries (by applying them
to unit vectors) and applied to the symbolic values; this is the contract used for them: linearity and these matrices.
The power-spectrum helpers are executed exactly."""
import sys
import types
import importlib
import numpy as np
from . import sym, symback
from .sym import Sym, Unsupported
from .symback import SymC, obj, SArr

_SITE = "/opt/venv/lib/python3.12/site-packages"
_cache = {}
CUT = 1e-14


def real(name):
    if _SITE not in sys.path:
        sys.path.append(_SITE)
    return importlib.import_module(name)


def freeze(x):
    if isinstance(x, np.ndarray):
        return (x.shape, str(x.dtype), x.tobytes())
    if isinstance(x, (list, tuple)):
        return tuple(freeze(v) for v in x)
    return x


def plain(x, what):
    """concrete argument"""
    if isinstance(x, np.ndarray) and x.dtype == object:
        v = x.reshape(-1).tolist()
        if any(isinstance(e, (Sym, SymC)) for e in v):
            raise Unsupported("symbolic %s in a harmonic transform" % what)
        t = complex if any(isinstance(e, complex) for e in v) else float
        return np.array(v, dtype=t).reshape(x.shape)
    if isinstance(x, (Sym, SymC)):
        raise Unsupported("symbolic %s in a harmonic transform" % what)
    if isinstance(x, (np.ndarray, str)) or x is None:
        return x
    if isinstance(x, (list, tuple)):
        return type(x)(plain(e, what) for e in x)
    return x


def parts(v):
    if isinstance(v, SymC):
        return v.re, v.im
    if isinstance(v, (complex, np.complexfloating)):
        return float(v.real), float(v.imag)
    return v, 0.0


def lincomb(col, vals):
    """sum of col[j]*vals[j]"""
    acc = {}
    for c, v in zip(col, vals):
        if c == 0.0:
            continue
        if isinstance(v, Sym):
            for m, k in v.p.items():
                acc[m] = acc.get(m, 0.0) + c * k
        elif v != 0:
            acc[()] = acc.get((), 0.0) + c * float(v)
    return Sym.norm(Sym({m: c for m, c in acc.items() if c != 0}, False))


def linear(name, f, x, cplx, args):
    """f applied to the (possibly symbolic) array x; args: all the other arguments, for the cache"""
    x = np.asarray(x)
    if x.dtype != object:
        return symback.NPS._fix(np.asarray(f(np.ascontiguousarray(x, dtype=complex if cplx else float))))
    vals = x.reshape(-1).tolist()
    if not any(isinstance(v, (Sym, SymC)) for v in vals):
        return symback.NPS._fix(np.asarray(f(np.array([complex(v) if cplx else float(v) for v in vals]).reshape(x.shape))))
    comp = []
    for v in vals:
        re, im = parts(v)
        comp.append(re)
        if cplx:
            comp.append(im)
        elif isinstance(im, Sym) or im != 0.0:
            raise Unsupported("complex map")
    key = (name, x.shape, cplx, freeze(args))
    M = _cache.get(key)
    if M is None:
        rows = []
        n = len(vals)
        for j in range(len(comp)):
            b = np.zeros(n, dtype=complex if cplx else float)
            if cplx:
                b[j // 2] = 1j if j & 1 else 1.0
            else:
                b[j] = 1.0
            r = np.asarray(f(b.reshape(x.shape)))
            shape = r.shape
            r = r.reshape(-1)
            outc = np.iscomplexobj(r)
            rows.append(np.stack([r.real, r.imag], axis=-1).reshape(-1) if outc else r.astype(float))
        A = np.array(rows)
        A[np.abs(A) < CUT * max(1e-300, np.abs(A).max())] = 0.0
        M = _cache[key] = (A, shape, outc)
    A, shape, outc = M
    o = [lincomb(A[:, k].tolist(), comp) for k in range(A.shape[1])]
    if outc:
        o = [cplxval(o[2 * i], o[2 * i + 1]) for i in range(len(o) // 2)]
    r = np.empty(len(o), dtype=object).view(SArr)
    for i, v in enumerate(o):
        r[i] = v
    return r.reshape(shape)


def cplxval(re, im):
    return SymC(re, im) if isinstance(re, Sym) or isinstance(im, Sym) else complex(re, im)


def lm(nelem, lmax, mmax):
    """(l, m) of every coefficient, healpy order"""
    return [(l, m) for m in range(mmax + 1) for l in range(m, lmax + 1)]


def lmax_of(n):
    return int((-3 + (9 + 8 * (n - 1)) ** 0.5) / 2 + 1e-9)


class Healpy:
    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        if k in ("UNSEEN",):
            return getattr(real("healpy"), k)
        f = getattr(real("healpy"), k, None)
        if f is None:
            raise AttributeError(k)
        if isinstance(f, types.ModuleType) or not callable(f):
            return f

        def call(*a, **kw):
            r = f(*[plain(v, k) for v in a], **{n: plain(v, k) for n, v in kw.items()})
            return symback.NPS._fix(r)
        return call

    def alm2map(self, alms, nside, **kw):
        hp = real("healpy")
        kw = {k: plain(v, k) for k, v in kw.items()}
        return linear("hp.alm2map", lambda a: hp.alm2map(a, nside, **kw), alms, True, (int(nside), sorted(kw.items())))

    def alm2map_spin(self, alms, nside, spin, lmax, mmax=None):
        hp = real("healpy")
        a = np.array([list(np.asarray(v)) for v in alms], dtype=object)
        return linear("hp.alm2map_spin", lambda x: np.array(hp.alm2map_spin(list(x), nside, spin, lmax, mmax)), a, True,
                      (int(nside), int(spin), int(lmax), mmax))

    def map2alm(self, maps, **kw):
        hp = real("healpy")
        kw = {k: plain(v, k) for k, v in kw.items()}
        return linear("hp.map2alm", lambda a: hp.map2alm(a, **kw), maps, False, sorted(kw.items()))

    def map2alm_spin(self, maps, spin, lmax=None, mmax=None):
        hp = real("healpy")
        a = np.array([list(np.asarray(v)) for v in maps], dtype=object)
        return linear("hp.map2alm_spin", lambda x: np.array(hp.map2alm_spin(list(x), spin, lmax, mmax)), a, False,
                      (int(spin), lmax, mmax))

    def almxfl(self, alm, fl, mmax=None, inplace=False):
        a = np.asarray(alm)
        if a.ndim != 1:
            raise Unsupported("almxfl on several alms")
        if mmax is None or mmax < 0:
            lmax = mmax = lmax_of(a.size)
        else:
            # size = mmax*(2*lmax+1-mmax)/2 + lmax + 1
            lmax = (2 * a.size + mmax * mmax - mmax - 2) // (2 * mmax + 2)
        fl = np.asarray(fl)
        idx = lm(a.size, lmax, mmax)
        if len(idx) != a.size:
            raise ValueError("wrong alm size")
        r = np.empty(a.size, dtype=object).view(SArr)
        for i, (l, m) in enumerate(idx):
            f = fl[l] if l < fl.size else 0.0
            f = f.item() if isinstance(f, np.generic) else f
            v = a[i]
            re, im = parts(v.item() if isinstance(v, np.generic) else v)
            r[i] = cplxval(re * f, im * f)
        if inplace:
            alm[...] = r
            return alm
        return r

    def alm2cl(self, alms1, alms2=None, lmax=None, mmax=None, lmax_out=None, nspec=None):
        a = np.asarray(alms1)
        b = a if alms2 is None else np.asarray(alms2)
        if a.ndim != 1 or b.ndim != 1:
            raise Unsupported("alm2cl on several alms")
        if mmax is not None and lmax is not None and mmax != lmax:
            raise Unsupported("alm2cl with mmax")
        if a.size != b.size:
            raise ValueError("different numbers of alms")
        if lmax is None:
            lmax = lmax_of(a.size)
        if (lmax + 1) * (lmax + 2) // 2 != a.size:
            raise ValueError("wrong alm size")
        out = lmax if lmax_out is None else lmax_out
        r = np.empty(out + 1, dtype=object).view(SArr)
        acc = [0.0] * (lmax + 1)
        for i, (l, m) in enumerate(lm(a.size, lmax, lmax)):
            x, y = (v.item() if isinstance(v, np.generic) else v for v in (a[i], b[i]))
            x, y = parts(x), parts(y)
            if m == 0:
                acc[l] = acc[l] + x[0] * y[0]
            else:
                acc[l] = acc[l] + 2.0 * (x[0] * y[0] + x[1] * y[1])
        for l in range(out + 1):
            r[l] = acc[l] / (2.0 * l + 1) if l <= lmax else 0.0
        return r

    def synalm(self, cls, lmax=None, mmax=None, new=False, verbose=True):
        from . import noise
        return noise.synalm(cls, lmax, mmax, new)


def wrap_lin(f, name, argname, cplx):
    def call(*pos, **kw):
        if argname not in kw:
            raise Unsupported("%s called without %s=" % (name, argname))
        x = kw.pop(argname)
        kw = {k: plain(v, k) for k, v in kw.items()}
        kw = {k: np.ascontiguousarray(v) if isinstance(v, np.ndarray) else v for k, v in kw.items()}
        if kw.get("nthreads", 1) != 1:
            kw["nthreads"] = 1
        pos = [plain(p, name) for p in pos]
        return linear(name, lambda v: f(*pos, **dict(kw, **{argname: v})), x, cplx, (pos, sorted(kw.items(), key=lambda t: t[0])))
    return call


def is_sym(a):
    a = np.asarray(a)
    return a.dtype == object and any(isinstance(e, (Sym, SymC)) for e in a.reshape(-1).tolist())


def harmonic(s, l, m, ang):
    """sY_lm at symbolic angles given as (cos, sin) of half the colatitude and of the longitude; (re, im)"""
    if l < max(abs(s), abs(m)):
        return 0.0, 0.0
    import math
    f = math.factorial
    c, n, cp, sp = ang
    pre = (-1) ** m * math.sqrt((2 * l + 1) / (4 * math.pi) * f(l - m) * f(l + m) * f(l + s) * f(l - s))
    d = 0.0
    # d^l_{-m,s}
    for k in range(max(0, s + m), min(l + s, l + m) + 1):
        d = d + (-1) ** (-m - s + k) * pre / (f(l + s - k) * f(k) * f(-m - s + k) * f(l + m - k)) * c ** (2 * l + s + m - 2 * k) * n ** (2 * k - m - s)
    re, im = 1.0, 0.0
    for _ in range(abs(m)):
        re, im = re * cp - im * sp, re * sp + im * cp
    return d * re, (d if m >= 0 else -d) * im


def points(real_f):
    """adjoint_synthesis_general with symbolic positions: the exact sum over points"""
    lin = wrap_lin(real_f, "ducc0.sht.adjoint_synthesis_general", "map", False)

    def call(*pos, **kw):
        loc = kw.get("loc")
        if pos or loc is None or not is_sym(loc):
            return lin(*pos, **kw)
        extra = set(kw) - {"map", "spin", "loc", "lmax", "epsilon", "nthreads"}
        if extra:
            raise Unsupported("adjoint_synthesis_general with " + str(sorted(extra)))
        from . import stubs
        maps, spin, lmax = np.asarray(kw["map"]), int(kw["spin"]), int(kw["lmax"])
        loc = np.asarray(loc)
        idx = lm(None, lmax, lmax)
        acc = [[[0.0, 0.0] for _ in idx] for _ in range(maps.shape[0])]
        val = lambda v: v.item() if isinstance(v, np.generic) else v
        for i in range(loc.shape[0]):
            th, ph = val(loc[i, 0]), val(loc[i, 1])
            ang = tuple(stubs.S[n](sym.to_real(x)) for n, x in (("cos", th * 0.5), ("sin", th * 0.5), ("cos", ph), ("sin", ph)))
            v = [val(x) for x in maps[:, i]]
            for k, (l, m) in enumerate(idx):
                if spin == 0:
                    y = harmonic(0, l, m, ang)
                    acc[0][k][0], acc[0][k][1] = acc[0][k][0] + v[0] * y[0], acc[0][k][1] - v[0] * y[1]
                    continue
                # q + iu = -sum (e + ib) sY; adjoint over both signs of m
                q, u = v
                a, b = harmonic(spin, l, m, ang), harmonic(-spin, l, m, ang)
                g = -1.0 if spin & 1 else 1.0
                p = (-(q * a[0] + u * a[1]), q * a[1] - u * a[0])
                r = ((u * b[1] - q * b[0]) * g, (u * b[0] + q * b[1]) * g)
                acc[0][k][0], acc[0][k][1] = acc[0][k][0] + (p[0] + r[0]) * 0.5, acc[0][k][1] + (p[1] + r[1]) * 0.5
                acc[1][k][0], acc[1][k][1] = acc[1][k][0] + (p[1] - r[1]) * 0.5, acc[1][k][1] + (r[0] - p[0]) * 0.5
        o = np.empty((len(acc), len(idx)), dtype=object).view(SArr)
        for c, row in enumerate(acc):
            for k, (re, im) in enumerate(row):
                o[c, k] = cplxval(re, im)
        return o
    return call


def ducc0():
    try:
        d = real("ducc0")
    except ImportError:
        raise ModuleNotFoundError("ducc0")
    s = types.SimpleNamespace()
    e = types.SimpleNamespace()
    for ns, src, pre in ((s, d.sht, "ducc0.sht."), (e, d.sht.experimental, "ducc0.sht.experimental.")):
        for n, arg, c in (("synthesis", "alm", True), ("adjoint_synthesis", "map", False), ("adjoint_synthesis_general", "map", False),
                          ("synthesis_general", "alm", True)):
            if hasattr(src, n):
                setattr(ns, n, wrap_lin(getattr(src, n), pre + n, arg, c))
    for ns, src in ((s, d.sht), (e, d.sht.experimental)):
        if hasattr(src, "adjoint_synthesis_general"):
            ns.adjoint_synthesis_general = points(src.adjoint_synthesis_general)
    g = d.sht.experimental.get_gridweights if hasattr(d.sht.experimental, "get_gridweights") else d.sht.get_gridweights

    def gw(*a, **k):
        return obj(np.asarray(g(*[plain(v, "weights") for v in a], **k)))
    e.get_gridweights = s.get_gridweights = gw
    s.experimental = e
    return types.SimpleNamespace(sht=s)


class WCSProxy:
    """astropy WCS given coordinate arrays of the shim numpy (the coordinates are concrete)"""

    def __init__(self, w):
        self.__dict__["_w"] = w

    def __getattr__(self, k):
        v = getattr(self._w, k)
        if not callable(v) or k == "wcs":
            return v

        def call(*a, **kw):
            r = v(*[plain(x, k) for x in a], **{n: plain(x, k) for n, x in kw.items()})
            return symback.NPS._fix(r)
        return call
