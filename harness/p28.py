"""P28: spherical-harmonic transforms follow their definition for every geometry, back end and number of iterations."""
import math
import numpy as np
from . import ylm, hpx, p22
from .p19 import G, cmp, smap

NOTE = "every value of the symbolic pixels and coefficients within [-1,1]; geometries, spins, lmax and iterations as enumerated"
BOUNDS = {"quick": "HEALPix nside 2 and 4, CAR patches of 3x4 pixels (both orientations), full CAR spheres 5x8 and 9x16; spins 0-3, lmax 2-6, 0-3 iterations; all coefficients symbolic in the synthesis, up to 12 pixels in "
                   "the analysis; both back ends on HEALPix; quadrature of CAR patches for all headers with a reference longitude, column and declination (within 9e-4 degrees)",
          "thorough": "all pixels symbolic, lmax 8"}
ASSUMPTIONS = ["the kernels of ducc0 and healpy are the sums of their definition (used for single transforms; conventions, weights, padding and iterations are NaMaster's)"]


def geo(h, kind):
    g = G(h, "hp2" if kind == "hp4" else kind)
    if kind == "hp4":
        g.n, g.shape = 192, (192,)
        g.pos = tuple((math.acos(z), p) for z, p in hpx.pixels(4))
        g.w = (4 * math.pi / 192,) * 192
        g.idx = g.order = list(range(192))
    return g


def info(h, g, lmax):
    return h.nmt.NmtMapInfo(g.wcs, g.shape), h.nmt.NmtAlmInfo(lmax)


def coefs(h, spin, lmax, e0=True):
    """all coefficients; m = 0 real; multipoles below the spin vanish"""
    out = []
    for c in range(2 if spin else 1):
        v = []
        for l, m in ylm.lms(lmax):
            if l < spin:
                v.append((0.0, 0.0))
            else:
                v.append((h.real("r%d_%d_%d" % (c, l, m)), h.real("i%d_%d_%d" % (c, l, m)) if m else 0.0))
        out.append(v)
    return out


def calc(h, name):
    if name:
        h.nmt.set_sht_calculator(name)


def synthesis(h, kind, spin, lmax, back=None):
    g = geo(h, kind)
    mi, ai = info(h, g, lmax)
    a = coefs(h, spin, lmax)
    h.true("number of coefficients", ai.nelem == len(ylm.lms(lmax)))
    x = h.array([[h.cplx(*z) for z in v] for v in a])
    calc(h, back)
    m = h.nmt.alm2map(x, spin, mi, ai)
    calc(h, back and "ducc")
    h.true("shape", m.shape == (len(a), g.n))
    ref = g.map(h, a, spin, lmax)
    for i in range(len(a)):
        h.close("map %d" % i, list(m[i]), ref[i], 1e-9)
    cmp(h, "coefficients kept", x, a, 0)


def analysis(h, kind, spin, lmax, n_iter, sym=(0, 2, 5, 7, 11), back=None):
    g = geo(h, kind)
    mi, ai = info(h, g, lmax)
    a = [smap(h, g, "m%d_" % i, sym, 3 + i) for i in range(2 if spin else 1)]
    x = h.array(a)
    calc(h, back)
    o = h.nmt.map2alm(x, spin, mi, ai, n_iter=n_iter)
    calc(h, back and "ducc")
    cmp(h, "coefficients", o, g.alm(h, a, spin, lmax, n_iter))
    h.close("map kept", h.flat(x), [v for m in a for v in m], 0)


def exact(h, kind, spin, lmax, n_iter):
    """on a full sphere with enough rings the coefficients come back"""
    g = geo(h, kind)
    mi, ai = info(h, g, lmax)
    a = coefs(h, spin, lmax)
    x = h.array([[h.cplx(*z) for z in v] for v in a])
    o = h.nmt.map2alm(h.nmt.alm2map(x, spin, mi, ai), spin, mi, ai, n_iter=n_iter)
    cmp(h, "round trip", o, a, 1e-9)


def adjoint(h, kind, spin, lmax):
    """without iterations, analysis is the adjoint of synthesis in the pixel and multipole products"""
    g = geo(h, kind)
    mi, ai = info(h, g, lmax)
    a = coefs(h, spin, lmax)
    r = np.random.RandomState(3)
    m = np.round(2 * r.rand(len(a), g.n) - 1, 3)
    s = h.nmt.alm2map(h.array([[h.cplx(*z) for z in v] for v in a]), spin, mi, ai)
    t = h.nmt.map2alm(h.array([[float(v) for v in x] for x in m]), spin, mi, ai, n_iter=0)
    d = mi.si.dot_map(s, h.array([[float(v) for v in x] for x in m]))
    e = 0.0
    from . import curved
    for c in range(len(a)):
        for (l, mm), z, q in zip(ylm.lms(lmax), a[c], list(t[c])):
            p = curved.re_im(q)
            e = e + (z[0] * p[0] + z[1] * p[1]) * (2. if mm else 1.)
    h.close("products", d, e, 1e-8)


def layout(h, lmax):
    """index of (l,m): lengths of the blocks of constant m"""
    ai = h.nmt.NmtAlmInfo(lmax)
    L = ylm.lms(lmax)
    h.true("lmax", ai.lmax == lmax and ai.mmax == lmax)
    h.true("count", ai.nelem == len(L))
    h.true("starts", [int(ai.mstart[m]) + l for l, m in L] == list(range(len(L))))
    h.true("equality", ai == h.nmt.NmtAlmInfo(lmax) and not ai == h.nmt.NmtAlmInfo(lmax + 1) and ai != h.nmt.NmtAlmInfo(lmax + 1) and not ai == 3)


def cases(tier):
    T = tier != "quick"
    c = []
    for s in range(4):
        for k, l in (("hp2", 5), ("car", 4), ("carflip", 4), ("carfull", 3), ("hp4", 3)):
            if l >= max(s, 1):
                c.append(("syn_%s_%d" % (k, s), synthesis, dict(kind=k, spin=s, lmax=l)))
                c.append(("adj_%s_%d" % (k, s), adjoint, dict(kind=k, spin=s, lmax=l)))
                for n in (0, 1, 2, 3) if k in ("hp2", "car") else (0, 2):
                    c.append(("ana_%s_%d_%d" % (k, s, n), analysis, dict(kind=k, spin=s, lmax=l, n_iter=n)))
        for n in (0, 1, 3):
            c.append(("hpy_%d_%d" % (s, n), analysis, dict(kind="hp2", spin=s, lmax=4, n_iter=n, back="healpy")))
            c.append(("exact_%d_%d" % (s, n), exact, dict(kind="full9", spin=s, lmax=4, n_iter=n)))
        c.append(("hpys_%d" % s, synthesis, dict(kind="hp2", spin=s, lmax=4, back="healpy")))
        c.append(("big_%d" % s, analysis, dict(kind="hp2", spin=s, lmax=6, n_iter=1, sym=tuple(range(12)))))
    # quadrature weights, padding and ring positions for whole families of headers
    for t, g in (("p", dict(nx=4, ny=3, dx=45., dy=45., row0=1)), ("r", dict(nx=8, ny=3, dx=45., dy=22.5, row0=2)), ("q", dict(nx=3, ny=4, dx=60., dy=30., row0=2))):
        c += [("areas_%s%d%d" % (t, a, b), p22.geometry, dict(g, sx=a, sy=b, what=("ra", "px", "dec"))) for a in (1, -1) for b in (1, -1)]
    c += [("layout_%d" % l, layout, dict(lmax=l)) for l in (1, 2, 3, 7, 8)]
    if T:
        for s in range(4):
            for k in ("hp2", "car", "carfull"):
                c.append(("anaT_%s_%d" % (k, s), analysis, dict(kind=k, spin=s, lmax=8, n_iter=2, sym=None), 9))
                c.append(("synT_%s_%d" % (k, s), synthesis, dict(kind=k, spin=s, lmax=8), 3))
    return c
