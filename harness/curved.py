"""Helpers for curved-sky fields: small maps with a few symbolic pixels, reference transforms."""
import sys
import numpy as np
from . import ref

SITE = "/opt/venv/lib/python3.12/site-packages"


def car_wcs(nx, ny, dx, dy, y0, flip_x=False, flip_y=False):
    """CAR WCS with ny x nx pixels of dx x dy degrees; declination of the first row y0"""
    if SITE not in sys.path:
        sys.path.append(SITE)
    from astropy.wcs import WCS
    w = WCS(naxis=2)
    w.wcs.cdelt = [-dx if flip_x else dx, -dy if flip_y else dy]
    w.wcs.crval = [0., 0.]
    w.wcs.ctype = ['RA---CAR', 'DEC--CAR']
    w.wcs.crpix = [nx if flip_x else 1., 1. - y0 / (-dy if flip_y else dy)]
    return w


def geom(h, kind):
    """(wcs, shape) of small geometries"""
    w, sh = _geom(kind)
    if w is not None and h.sym:
        from vp import sht
        w = sht.WCSProxy(w)
    return w, sh


def _geom(kind):
    if kind == "hp2":
        return None, (48,)
    if kind == "car":      # 4 of 8 columns, 3 of 5 rows
        return car_wcs(4, 3, 45., 45., -45.), (3, 4)
    if kind == "carflip":
        return car_wcs(4, 3, 45., 45., 45., flip_x=True, flip_y=True), (3, 4)
    if kind == "carfull":
        return car_wcs(8, 5, 45., 45., -90.), (5, 8)
    raise ValueError(kind)


def mask(h, name, shape, sym, lo=0.3, hi=1.0, seed=1, zeros=True):
    """map with the given flat pixels symbolic in [lo,hi], other pixels concrete"""
    rng = np.random.RandomState(seed)
    n = int(np.prod(shape))
    base = np.round(0.2 + 0.8 * rng.rand(n), 3)
    if zeros:
        base[rng.permutation(n)[:n // 4]] = 0.
    m = h.zeros((n,))
    for i in range(n):
        m[i] = float(base[i])
    for i in sym:
        m[i] = h.real("%s_%d" % (name, i), lo, hi)
    return m.reshape(shape)


def m2a(h, fld, maps, spin, ainfo, n_iter):
    return h.nmt.utils.map2alm(maps, spin, fld.minfo, ainfo, n_iter=n_iter)


def lms(lmax):
    return [(l, m) for m in range(lmax + 1) for l in range(m, lmax + 1)]


def re_im(v):
    if isinstance(v, tuple):
        return v
    if isinstance(v, (complex, np.complexfloating)) or hasattr(v, "im"):
        return (v.real, v.imag)
    return (v, 0.0)


def cross(a, b, lmax):
    """pseudo-C_l of two sets of coefficients"""
    c = [0.0] * (lmax + 1)
    for (l, m), x, y in zip(lms(lmax), a, b):
        x, y = re_im(x), re_im(y)
        t = x[0] * y[0]
        if m:
            t = 2.0 * (t + x[1] * y[1])
        c[l] = c[l] + t * (1.0 / (2 * l + 1))
    return c
