"""P22: pixelizations: WCS headers, orientation, padding, inner products, equality."""
import math
import types
import numpy as np
from . import ylm, hpx, curved

NOTE = "every value of the symbolic map pixels and header numbers within the bounds; map sizes, axis directions and resolutions as enumerated"
BOUNDS = {"quick": "CAR maps up to 5x8 pixels of 22.5 to 90 degrees, all four axis directions, symbolic reference point (longitude, pixels, declination) and pixel sizes, 1-4 dimensional stacks of maps; "
                   "HEALPix nside 2-16; default multipoles for 1 to 400 rings; harmonic layouts for lmax up to 12",
          "thorough": "HEALPix to nside 64, default multipoles for 1 to 3000 rings, larger maps"}
ASSUMPTIONS = ["symbolic headers: astropy's pixel-to-world conversion for a CAR header whose reference point is on the equator is linear in both axes, longitudes reduced to [0,360) (real astropy is used natively and for concrete headers)",
               "CAR maps whose rings do not fall on the Clenshaw-Curtis grid (equator on a ring) are outside: their weights are not checked"]
OPTS = {}
CTX = {"eager_int": 64}


class Lin:
    """CAR header as a linear map"""

    def __init__(self, h, cdelt, crval, crpix, ctype):
        self.wcs = types.SimpleNamespace(cdelt=list(cdelt), crval=list(crval), crpix=h.array(list(crpix)), ctype=list(ctype))
        self.h = h

    def wcs_pix2world(self, c, origin):
        w = self.wcs
        out = []
        for row in np.asarray(c):
            r = []
            for i in range(2):
                x = row[i]
                v = w.crval[i] + (x + (1 - origin) - w.crpix[i]) * w.cdelt[i]
                if i == 0:
                    # positions beyond the native longitudes of the projection do not exist
                    o = v - w.crval[i]
                    v = math.nan if o > 180 or o < -180 else wrap(v, 360.)
                r.append(v)
            out.append(r)
        return self.h.array(out)


def wrap(v, T):
    while v < 0:
        v = v + T
    while v >= T:
        v = v - T
    return v


def header(h, cdelt, crval, crpix, ctype=("RA---CAR", "DEC--CAR")):
    if h.sym:
        return Lin(h, cdelt, crval, crpix, ctype)
    import sys
    if curved.SITE not in sys.path:
        sys.path.append(curved.SITE)
    from astropy.wcs import WCS
    w = WCS(naxis=2)
    w.wcs.cdelt, w.wcs.crval, w.wcs.crpix, w.wcs.ctype = list(cdelt), list(crval), list(crpix), list(ctype)
    return w


RAD = math.pi / 180


def px0(nx, dx, sx):
    """reference column: pixels within 180 degrees of it"""
    return 1. if (nx - 1) * dx < 180 else 0.5 + nx / 2


def car(h, nx, ny, dx, dy, sx, sy, row0, what=()):
    """header with the reference pixel on the equator; the lowest row (in declination) is row0 rings above the south pole"""
    NT = round(180 / dy)
    eq = NT // 2 - row0                                   # rows (northwards) from the southernmost one to the equator
    py = 1. + eq if sy > 0 else ny - eq
    ra, dec, px = 30., 0., px0(nx, dx, sx)
    if "ra" in what:
        ra = h.real("ra", 0., 359.)
    if "dec" in what:
        dec = h.real("dec", -9e-4, 9e-4)
    if "px" in what:
        px = h.real("px", max(0.2, nx - 179 / dx), min(float(nx), 1 + 179 / dx))
    if "py" in what:
        # anywhere that keeps the map between the poles
        u = h.real("py", 0.01, NT - ny + 0.99)
        py = 1. + NT / 2 - u if sy > 0 else ny - (NT / 2 - u)
        row0 = u
    w = header(h, [sx * dx, sy * dy], [ra, dec], [px, py])
    return w, ra, dec, px, row0


def geometry(h, nx, ny, dx, dy, sx, sy, row0, what=()):
    w, ra, dec, px, row0 = car(h, nx, ny, dx, dy, sx, sy, row0, what)
    m = h.nmt.NmtMapInfo(w, (ny, nx))
    h.true("shape", not m.is_healpix and m.npix == nx * ny and m.nx == nx and m.ny == ny)
    h.true("axes", bool(m.flip_th) == (sy > 0) and bool(m.flip_ph) == (sx < 0))
    tmax = (180. - row0 * dy - dec) * RAD
    # the world coordinates of a header whose reference is off the equator are only linear to this accuracy
    T = 8e-5 if "dec" in what else 1e-7
    h.close("pixel size", [m.d_theta, m.d_phi], [dy * RAD, dx * RAD], 1e-12)
    h.close("colatitudes", [m.theta_min, m.theta_max], [tmax - (ny - 1) * dy * RAD, tmax], T)
    first = ra + (1 - px) * sx * dx if sx > 0 else ra + (nx - px) * sx * dx
    if "dec" in what:
        # not where rounding decides between 0 and 360 degrees
        v = wrap(first, 360.)
        h.assume(v >= 0.01)
        h.assume(v <= 359.99)
    h.close("first longitude", m.phi0, wrap(first, 360.) * RAD, T)
    s = m.si
    h.true("rings", s.nring == ny and len(s.theta) == ny and len(s.phi0) == ny and s.is_CAR and s.nx_short == nx and s.nx_full == round(360 / dx))
    h.close("ring colatitudes", list(s.theta), [tmax - (ny - 1 - i) * dy * RAD for i in range(ny)], T)
    h.close("ring longitudes", list(s.phi0), [wrap(first, 360.) * RAD] * ny, T)
    h.true("ring sizes", [int(x) for x in s.nphi] == [round(360 / dx)] * ny and [int(x) for x in s.offsets] == [i * round(360 / dx) for i in range(ny)])
    h.true("default multipole", m.get_lmax() == int(180 / min(dx, dy) + 1e-6))
    if "py" in what:
        return
    NT = round(180 / dy)
    cc = ylm.cc_weights(NT)
    i0 = NT - row0 - (ny - 1)
    h.close("areas", list(s.weight), [cc[i0 + i] * 2 * math.pi / round(360 / dx) for i in range(ny)], 1e-12)
    # inner products
    a = [h.real("a%d" % i, -1., 1.) for i in range(nx * ny)]
    b = [round(math.sin(3 * i + 1), 3) for i in range(nx * ny)]
    r = 0.0
    for i in range(nx * ny):
        r = r + a[i] * (b[i] * float(cc[i0 + i // nx]) * 2 * math.pi / round(360 / dx))
    h.close("inner product", s.dot_map(h.array(a), np.array(b)), r)
    h.close("inner product of stacks", s.dot_map(h.array([a, b]), np.array([b, b])), r + sum(b[i] ** 2 * float(cc[i0 + i // nx]) * 2 * math.pi / round(360 / dx) for i in range(nx * ny)))
    h.close("sphere" if ny == NT + 1 and nx == round(360 / dx) else "patch", s.dot_map(np.ones(nx * ny), np.ones(nx * ny)),
            4 * math.pi if ny == NT + 1 and nx == round(360 / dx) else sum(float(cc[i0 + i]) for i in range(ny)) * nx * 2 * math.pi / round(360 / dx), 1e-10)


def maps(h, nx, ny, dx, dy, sx, sy, row0, pre=()):
    w, *_ = car(h, nx, ny, dx, dy, sx, sy, row0)
    m = h.nmt.NmtMapInfo(w, (ny, nx))
    n = int(np.prod(pre)) if pre else 1
    v = [[[h.real("m%d_%d_%d" % (k, y, x), -1., 1.) for x in range(nx)] for y in range(ny)] for k in range(n)]
    a = h.array(v).reshape(tuple(pre) + (ny, nx))
    r = m.reform_map(a)
    h.true("shape", r.shape == tuple(pre) + (nx * ny,))
    # northernmost row first, eastwards
    ref = [v[k][y][x] for k in range(n) for y in (range(ny)[::-1] if sy > 0 else range(ny)) for x in (range(nx)[::-1] if sx < 0 else range(nx))]
    h.close("internal order", h.flat(r), ref, 0)
    h.close("input kept", h.flat(a), [z for k in v for y in k for z in y], 0)
    NX = round(360 / dx)
    p = m.si.pad_map(r)
    h.true("padded shape", p.shape == tuple(pre) + (NX * ny,))
    h.close("padded", h.flat(p), [ref[(k * ny + y) * nx + x] if x < nx else 0. for k in range(n) for y in range(ny) for x in range(NX)], 0)
    u = m.si.unpad_map(p)
    h.true("shape", u.shape == tuple(pre) + (nx * ny,))
    h.close("cut", h.flat(u), ref, 0)
    q = [h.real("q%d" % i, -1., 1.) for i in range(n * ny * NX)]
    u = m.si.unpad_map(h.array(q).reshape(tuple(pre) + (ny * NX,)))
    h.close("cut", h.flat(u), [q[(k * ny + y) * NX + x] for k in range(n) for y in range(ny) for x in range(nx)], 0)
    t = m.si.times_weight(r)
    wt = list(m.si.weight)
    h.true("shape", t.shape == r.shape)
    h.close("areas", h.flat(t), [z * wt[(i // nx) % ny] for i, z in enumerate(ref)], 1e-12)
    f = m.si.times_weight(p)
    h.close("areas of full rings", h.flat(f), [z * wt[(i // NX) % ny] for i, z in enumerate(h.flat(p))], 1e-12)
    for s in ((ny + 1, nx), (ny, nx - 1), (nx, ny)) if nx != ny else ((ny + 1, nx), (ny, nx - 1)):
        h.raises("other shape", m.reform_map, np.zeros(tuple(pre) + s))
    if ny > 1:
        h.raises("flattened", m.reform_map, np.zeros((1, nx * ny)))


def equality(h, nx, ny, dx, dy, sx, sy, row0, what):
    """equal exactly when the pixels are the same"""
    M = h.nmt.NmtMapInfo
    w, ra, dec, px, _ = car(h, nx, ny, dx, dy, sx, sy, row0)
    a, b = M(w, (ny, nx)), M(car(h, nx, ny, dx, dy, sx, sy, row0)[0], (ny, nx))
    h.true("same", bool(a == b) and not bool(a != b) and bool(a == a))
    H = lambda cd, cv, cp: header(h, cd, cv, cp)
    cd, cv = [sx * dx, sy * dy], [30., 0.]
    p0 = px0(nx, dx, sx)
    cp = [p0, car_py(ny, dy, sy, row0)]
    if what == "ra":
        d = h.real("d", 1e-3, 200.)
        o = M(H(cd, [30. + d, 0.], cp), (ny, nx))
    elif what == "px":
        d = h.real("d", 1e-3, min(nx - 1., 179 / dx + 1 - p0))
        o = M(H(cd, cv, [p0 + d, cp[1]]), (ny, nx))
    elif what == "py":
        d = h.real("d", 1e-3, 0.9)
        o = M(H(cd, cv, [p0, cp[1] + (-d if (sy > 0) == (row0 == 0) else d)]), (ny, nx))
    elif what == "dec":
        d = h.real("d", 1e-5, 9e-4)
        o = M(H(cd, [30., -d if row0 else d], cp), (ny, nx))
    elif what == "nx":
        o = M(H(cd, cv, cp), (ny, nx - 1))
    elif what == "ny":
        o = M(H(cd, cv, cp if sy > 0 or row0 else [p0, cp[1]]), (ny - 1, nx))
    elif what == "dx":
        o = M(H([sx * dx / 2, sy * dy], cv, cp), (ny, nx))
    elif what == "dxr":
        d = h.real("d", 1e-4, 0.01)
        o = M(H([sx * (dx + d), sy * dy], cv, cp), (ny, nx - 1 if nx == round(360 / dx) else nx))
        if nx == round(360 / dx):
            return
    elif what == "hp":
        o = M(None, (48,))
        h.true("other HEALPix", not bool(o == M(None, (192,))) and bool(o == M(None, (48,))) and bool(o != M(None, (192,))))
    else:
        o = "something else"
    h.true("different", not bool(a == o) and bool(a != o))
    if what != "obj":
        h.true("different", not bool(o == a) and bool(o != a))


def car_py(ny, dy, sy, row0):
    eq = round(180 / dy) // 2 - row0
    return 1. + eq if sy > 0 else float(ny - eq)


def refused(h, what, sx=1, sy=1):
    M = h.nmt.NmtMapInfo
    nx, ny, dx, dy = 4, 3, 45., 45.
    cd, cv, cp = [sx * dx, sy * dy], [30., 0.], [1., 2.]
    ok = M(header(h, cd, cv, cp), (ny, nx))
    if what == "dec":
        for lo, hi in ((1.1e-3, 40.), (-40., -1.1e-3)):
            h.raises("reference off the equator", M, header(h, cd, [30., h.real("d%d" % (lo > 0), lo, hi)], cp), (ny, nx))
    elif what == "poles":
        # three rows need the middle one within 45 degrees of the equator
        for i, (lo, hi) in enumerate(((-3., 0.99), (3.01, 7.))):
            h.raises("beyond a pole", M, header(h, cd, cv, [1., h.real("p%d" % i, lo, hi)]), (ny, nx))
    elif what == "dx":
        for i, (lo, hi) in enumerate(((45.1, 51.3), (40.06, 44.9))):
            h.raises("columns", M, header(h, [sx * h.real("d%d" % i, lo, hi), sy * dy], cv, cp), (ny, nx))
    elif what == "dy":
        for i, (lo, hi) in enumerate(((45.2, 59.7), (36.1, 44.8))):
            h.raises("rows", M, header(h, [sx * dx, sy * h.real("d%d" % i, lo, hi)], cv, cp), (1, nx))
    elif what == "wrap":
        for n in (9, 10, 20):
            h.raises("more than once", M, header(h, cd, cv, cp), (ny, n))
    elif what == "type":
        for t in (("RA---TAN", "DEC--TAN"), ("RA---CAR", "DEC--TAN"), ("RA---CEA", "DEC--CAR")):
            h.raises("projection", M, header(h, cd, cv, cp, t), (ny, nx))
        h.raises("one-dimensional", M, header(h, cd, cv, cp), (12,))
        h.raises("three-dimensional", M, header(h, cd, cv, cp), (1, 3, 4))
    elif what == "hp":
        for n in (1, 12, 47, 49, 100, 108, 300):
            h.raises("HEALPix size %d" % n, M, None, (n,))
        m = M(None, (48,))
        h.raises("size", m.reform_map, np.zeros((1, 47)))
        h.raises("size", m.reform_map, np.zeros((2, 192)))


def healpix(h, nside):
    n = 12 * nside ** 2
    m = h.nmt.NmtMapInfo(None, (n,))
    R = hpx.rings(nside)
    s = m.si
    h.true("attributes", m.is_healpix and m.nside == nside and m.npix == n and not s.is_CAR and s.nside == nside and s.nring == 4 * nside - 1 and m.get_lmax() == 3 * nside - 1)
    h.close("colatitudes", [math.cos(t) for t in s.theta], [z for p, k, z, f, d in R], 1e-12)
    h.close("first longitudes", list(s.phi0), [f for p, k, z, f, d in R], 1e-12)
    h.true("ring sizes", [int(x) for x in s.nphi] == [k for p, k, z, f, d in R] and [int(x) for x in s.offsets] == [p for p, k, z, f, d in R])
    if nside > 2:
        return
    a = [h.real("a%d" % i, -1., 1.) for i in range(n)]
    A = h.array([a])
    for f in (m.reform_map, s.pad_map, s.unpad_map):
        h.close("unchanged", h.flat(f(A)), a, 0)
    w = 4 * math.pi / n
    h.close("area", h.flat(s.times_weight(A)), [x * w for x in a])
    b = [round(math.cos(i), 3) for i in range(n)]
    h.close("inner product", s.dot_map(A, np.array([b])), sum((x * (y * w) for x, y in zip(a, b)), 0.0))


def lmaxes(h, N):
    """default maximum multipole: pi over the smaller spacing"""
    for n in range(2, N):
        for i in (0, 1):
            if 2 * n >= 4:
                d = [180. / n, 180. / n]
                if i:
                    d = [d[0] * 2, d[1]] if n % 2 == 0 else [d[0] / 2, d[1]]
                w = header(h, [-d[0], d[1]], [0., 0.], [1., 1.])
                m = h.nmt.NmtMapInfo(w, (1, 1))
                e = n if not i or n % 2 == 0 else 2 * n
                h.true("default multipole %d %d" % (n, i), m.get_lmax() == e)


def layout(h, lmax):
    a = h.nmt.NmtAlmInfo(lmax)
    L = ylm.lms(lmax)
    h.true("sizes", a.lmax == lmax and a.mmax == lmax and a.nelem == len(L))
    for m in range(lmax + 1):
        h.true("start", int(a.mstart[m]) + m == L.index((m, m)) and int(a.mstart[m]) + lmax == L.index((lmax, m)))
    h.true("same", bool(a == h.nmt.NmtAlmInfo(lmax)))
    for k in (lmax - 1, lmax + 1, 2 * lmax):
        if k > 0 and k != lmax:
            h.true("different", not bool(a == h.nmt.NmtAlmInfo(k)) and bool(a != h.nmt.NmtAlmInfo(k)))
    h.true("other type", not bool(a == lmax))


def cases(tier):
    T = tier != "quick"
    c = []
    G = [("p", dict(nx=4, ny=3, dx=45., dy=45., row0=1)), ("s", dict(nx=4, ny=2, dx=45., dy=45., row0=0)), ("n", dict(nx=3, ny=2, dx=90., dy=45., row0=3)), ("f", dict(nx=8, ny=5, dx=45., dy=45., row0=0)),
         ("r", dict(nx=8, ny=3, dx=45., dy=22.5, row0=2)), ("q", dict(nx=3, ny=4, dx=60., dy=30., row0=2)), ("o", dict(nx=1, ny=1, dx=60., dy=90., row0=1))]
    if T:
        G += [("R", dict(nx=7, ny=6, dx=22.5, dy=18., row0=3)), ("F", dict(nx=12, ny=7, dx=30., dy=30., row0=0)), ("P", dict(nx=10, ny=9, dx=10., dy=15., row0=2))]
    for n, g in G:
        for sx in (1, -1):
            for sy in (1, -1):
                t = "%s%s%s" % (n, "+-"[sx < 0], "+-"[sy < 0])
                k = dict(g, sx=sx, sy=sy)
                c += [("g" + t, geometry, dict(k, what=("ra",))), ("gp" + t, geometry, dict(k, what=("ra", "px", "dec") if 0 < g["row0"] and g["row0"] + g["ny"] - 1 < round(180 / g["dy"]) else ("px",))), ("m" + t, maps, k)]
                if g["ny"] - 1 < round(180 / g["dy"]):
                    c.append(("gy" + t, geometry, dict(k, what=("py", "px"))))
                if n in "pq":
                    c += [("m1" + t, maps, dict(k, pre=(1,))), ("m2" + t, maps, dict(k, pre=(2,))), ("m12" + t, maps, dict(k, pre=(1, 2)))]
                if n in "pnr":
                    c += [("e%s%s" % (w, t), equality, dict(k, what=w)) for w in ("ra", "px", "py", "nx", "ny", "dx", "dxr", "hp", "obj") + (("dec",) if n in "pr" else ())]
    # whole rings whose width is not exactly 360 degrees in floating point
    for n in (39, 169):
        for sx in (1, -1):
            c.append(("w%d%s" % (n, "+-"[sx < 0]), geometry, dict(nx=n, ny=1, dx=360. / n, dy=90., row0=1, sx=sx, sy=1, what=("ra",))))
    for w in ("dec", "poles", "dx", "dy"):
        c += [("x%s%s%s" % (w, "+-"[sx < 0], "+-"[sy < 0]), refused, dict(what=w, sx=sx, sy=sy)) for sx in (1, -1) for sy in (1, -1)]
    c += [("x" + w, refused, dict(what=w)) for w in ("wrap", "type", "hp")]
    c += [("h%d" % n, healpix, dict(nside=n)) for n in (2, 4, 8, 16) + ((32, 64) if T else ())]
    c += [("lmax", lmaxes, dict(N=400))] + ([("LMAX", lmaxes, dict(N=3000))] if T else [])
    c += [("a%d" % l, layout, dict(lmax=l)) for l in (1, 2, 3, 5, 8, 12)]
    return c
