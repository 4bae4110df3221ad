"""P24: simulated fields have the requested power spectra, beams and geometry, reproducibly."""
import math
import numpy as np
from . import flat, p19, ylm, curved

NOTE = "every power spectrum and beam value within the bounds (for several flat-sky maps: every eigenvalue and rotation angle); exact second moments over the random numbers; grids and spins enumerated"
BOUNDS = {"quick": "flat sky: 3x3 to 5x4 pixels (even and odd), 1 to 3 maps, spins 0, 1, 2, 5 multipoles, unit or symbolic beams, rank-deficient spectra; "
                   "sphere: HEALPix nside 2 and 4 and full-sphere CAR grids of 5x8 pixels in 4 orientations, 1 to 4 maps, spins 0..3, lmax 1..4; seeds: repeated, different, negative",
          "thorough": "5x5 and 4x6 pixels, all pairs of pixels on the sphere"}
ASSUMPTIONS = ["random generators: independent uniform deviates, a function of the seed, independent between seeds; healpy.synalm returns Gaussian coefficients with the covariance given to it (n>1 spectra in row-major order with new=False)",
               "spin fields on the flat sky are observed below the Nyquist frequency, where their E/B decomposition is defined",
               "second moments only: the Gaussian shape is that of the generators"]

NL = 5
GEO = {"3x3": (3, 3, 4.1, 3.3), "4x4": (4, 4, 5.2, 4.3), "5x4": (4, 5, 4.4, 5.3), "4x3": (3, 4, 3.6, 4.1), "5x5": (5, 5, 5.1, 4.4), "4x6": (6, 4, 6.2, 4.6), "3x5": (5, 3, 5.2, 3.1)}


def lin(v, k):
    """linear interpolation at k, constant below and zero above the last multipole"""
    i = int(k)
    if i >= len(v) - 1:
        return 0.0
    return v[i] * (1 - (k - i)) + v[i + 1] * (k - i)


def spectra(h, n, kind):
    """covariance matrices per multipole"""
    if n == 1:
        C = [[[h.real("cl%d" % l, 0.3, 1.)]] for l in range(NL)]
        return C
    c = h.real("cos", 0.2, 0.95)
    s = h.sqrt(1 - c * c)
    V = np.eye(n).tolist()
    if n > 2:
        V = np.linalg.qr(np.random.RandomState(5).randn(n, n))[0].tolist()
    for r in V:
        r[0], r[1] = r[0] * c + r[1] * s, r[1] * c - r[0] * s
    C = []
    for l in range(NL):
        w = [h.real("w%d_%d" % (l, i), 0.2, 1.) if not (kind == "singular" and i == n - 1) else 0.0 for i in range(n)]
        m = [[0.0] * n for _ in range(n)]
        for i in range(n):
            for j in range(i + 1):
                t = 0.0
                for k in range(n):
                    t = t + w[k] * (V[i][k] * V[j][k])
                m[i][j] = m[j][i] = t
        C.append(m)
    if h.sym:
        h.ctx.memo["eigbases"] = [V]
    return C


def rows(h, C, n):
    return h.array([[C[l][i][j] for l in range(len(C))] for i in range(n) for j in range(i, n)])


def maps_of(spins):
    """(field, component) per map"""
    return [(f, c) for f, s in enumerate(spins) for c in range(2 if s else 1)]


def modes(g, spin):
    """independent modes where a field of this spin is observed: (iy, ix, self-conjugate)"""
    out = []
    for iy, ix in g.modes():
        jy, jx = (-iy) % g.ny, (-ix) % g.nx
        if (jy, jx) < (iy, ix):
            continue
        self_ = (jy, jx) == (iy, ix)
        if spin and (2 * ix == g.nx or 2 * iy == g.ny):
            continue
        if spin & 1 and self_:
            continue
        out.append((iy, ix, self_))
    return out


def observe(g, m, spins):
    """scaled coefficients of all maps of all fields: list of (map, mode, part, value)"""
    dk = math.sqrt(4 * math.pi ** 2 / (g.lx * g.ly))
    out = []
    i = 0
    for s in spins:
        n = 2 if s else 1
        c = flat.map2alm(g, s, [m[i + j] for j in range(n)])
        for j in range(n):
            for iy, ix, se in modes(g, s):
                re, im = c[j][iy, ix]
                # a single definition of which half is kept: the phase of the partner is the conjugate
                out.append((i + j, (iy, ix, se), 0, re * dk))
                if not se:
                    out.append((i + j, (iy, ix, se), 1, im * dk))
        i += n
    return out


def flatcov(h, kind, spins, beam=False, eig=None):
    g = flat.Geo(*GEO[kind])
    mp = maps_of(spins)
    n = len(mp)
    C = spectra(h, n, eig)
    B = [[h.real("b%d_%d" % (f, l), 0.5, 1.) for l in range(NL)] for f in range(len(spins))] if beam else None
    box = {}

    def sim(seed):
        m = h.nmt.synfast_flat(g.nx, g.ny, g.lx, g.ly, rows(h, C, n), list(spins), beam=h.array(B) if beam else None, seed=seed)
        if "shape" not in box:
            box["shape"] = m.shape
        if not h.sym:
            if "M" not in box:
                # observing is linear
                box["M"] = np.array([[o[3] for o in observe(g, u.reshape(m.shape), spins)] for u in np.eye(m.size)], dtype=float).T
                box["keys"] = [o[:3] for o in observe(g, m, spins)]
            return box["M"] @ np.asarray(m).ravel()
        ob = observe(g, m, spins)
        box["keys"] = [o[:3] for o in ob]
        return [o[3] for o in ob]
    S = h.cov(sim)
    if not h.sym:
        S.take(1)
    h.true("shape", tuple(box["shape"]) == (n, g.ny, g.nx))
    K = box["keys"]
    want = {}
    for i, (a, k, p) in enumerate(K):
        for j in range(i, len(K)):
            b, k2, p2 = K[j]
            e = 0.0
            if k == k2 and p == p2:
                kk = g.k(k[0], k[1])
                e = lin([C[l][a][b] for l in range(NL)], kk) * (1.0 if k[2] else 0.5)
                if beam:
                    e = e * lin(B[mp[a][0]], kk) * lin(B[mp[b][0]], kk)
            want[i, j] = e
    h.cov_close("covariance of modes", S, [0.0] * len(K), want, 1e-8)


def flatseed(h, spins=(0,), kind="3x3"):
    """same seed: same maps; other seeds, and negative seeds: independent"""
    g = flat.Geo(*GEO[kind])
    n = len(maps_of(spins))
    C = spectra(h, n, None)

    def run(seed):
        m = h.nmt.synfast_flat(g.nx, g.ny, g.lx, g.ly, rows(h, C, n), list(spins), seed=seed)
        return [x for x in h.flat(m)]
    seeding(h, run)


def seeding(h, run):
    # the seed decides the maps, whatever was drawn before
    if h.sym:
        from vp import noise
        h.ctx.rng_hook = noise.uniform
    a = run(11)
    run(-1)
    b = run(11)
    h.close("same seed", a, b, 1e-10)
    sc = 0.2

    def two(s, t):
        def f(i):
            x, y = run(s(i)), run(t(i))
            return [v * sc for v in x[:4] + y[:4]]
        return f
    for lab, s, t in (("other seeds", lambda i: i, lambda i: i + 1), ("negative seeds", lambda i: -1, lambda i: -1)):
        S = h.cov(two(s, t))
        if h.sym:
            h.close(lab + " independent", [S[1][i][4 + j] for i in range(4) for j in range(4)], [0.0] * 16, 1e-8)
        else:
            c = S.take(3000)[1]
            h.close(lab + " independent", [c[i][4 + j] / math.sqrt(c[i][i] * c[4 + j][4 + j] + 1e-30) for i in range(4) for j in range(4)], [0.0] * 16, 0.3)
    # and the maps are not trivial
    if not h.sym:
        h.true("random", max(abs(x) for x in a) > 1e-6)


CAR = {"car": (False, False), "carx": (True, False), "cary": (False, True), "carxy": (True, True)}


def sphere(h, kind):
    """(nside, wcs, positions by map pixel, shape)"""
    if kind.startswith("hp"):
        ns = int(kind[2:])
        from . import hpx
        return ns, None, tuple((math.acos(z), p) for z, p in hpx.pixels(ns)), (12 * ns * ns,)
    fx, fy = CAR[kind]
    w = curved.car_wcs(8, 5, 45., 45., 90. if fy else -90., flip_x=fx, flip_y=fy)
    w.wcs.crpix[0] = 5.
    pos = []
    for y in range(5):
        for x in range(8):
            ra, dec = (float(w.wcs.crval[i] + (v + 1 - w.wcs.crpix[i]) * w.wcs.cdelt[i]) for i, v in ((0, x), (1, y)))
            pos.append((math.radians(90 - dec), math.radians(ra)))
    if h.sym:
        from vp import sht
        w = sht.WCSProxy(w)
    return -1, w, tuple(pos), (5, 8)


def dense(h, n, nl):
    """diagonally dominant covariances"""
    C = []
    for l in range(nl):
        m = [[0.0] * n for _ in range(n)]
        for i in range(n):
            for j in range(i, n):
                m[i][j] = m[j][i] = h.real("c%d_%d%d" % (l, i, j), 0.8, 1.) if i == j else h.real("c%d_%d%d" % (l, i, j), -0.25, 0.25)
        C.append(m)
    return C


def sphcov(h, kind, spins, nl=4, lmax=None, beam=False, lb=0, every=3):
    ns, wcs, pos, shape = sphere(h, kind)
    mp = maps_of(spins)
    n = len(mp)
    C = dense(h, n, nl)
    L = min(nl - 1, lmax if lmax is not None else 3 * ns - 1 if wcs is None else 4)
    B = [[h.real("b%d_%d" % (f, l), 0.5, 1.) for l in range(L + 1 + lb)] for f in range(len(spins))] if beam else None
    box = {}
    sc = 0.5
    P = len(pos)
    rng = np.random.RandomState(3)
    pick = sorted(rng.permutation(P)[:max(4, (P if P < 100 else 48) // every)].tolist())

    def sim(seed):
        kw = {}
        if lmax is not None:
            kw["lmax"] = lmax
        m = h.nmt.synfast_spherical(ns, rows(h, C, n), list(spins), beam=h.array(B) if beam else None, seed=seed, wcs=wcs, **kw)
        box["shape"] = m.shape
        v = [h.flat(m[i]) for i in range(n)]
        return [v[i][p] * sc for i in range(n) for p in pick]
    cov = h.cov(sim)
    if not h.sym:
        cov.take(1)
    h.true("shape", tuple(box["shape"]) == (n,) + shape)
    # alm -> map
    K = ylm.lms(L)
    S = []
    for s in spins:
        nc = 2 if s else 1
        M = ylm.synth(pos, s, L).reshape(nc, P, nc, len(K), 2)
        for c in range(nc):
            S.append(M[c][pick])          # pixel, component, lm, part
    full = {}
    np_ = len(pick)
    for i, (f, c) in enumerate(mp):
        for j, (f2, c2) in enumerate(mp):
            if j < i:
                continue
            # weights per multipole of the covariances of the components
            A, D = S[i], S[j]
            m0 = [q for q, (f_, c_) in enumerate(mp) if f_ == f]
            m1 = [q for q, (f_, c_) in enumerate(mp) if f_ == f2]
            W = np.zeros((np_, np_, len(m0), len(m1), L + 1))
            for k, (l, m) in enumerate(K):
                for r in (0, 1):
                    if m == 0 and r:
                        continue
                    W[..., l] += np.einsum("pa,qb->pqab", A[:, :, k, r], D[:, :, k, r]) * (0.5 if m else 1.0)
            for p in range(np_):
                for q in range(np_):
                    if i == j and q < p:
                        continue
                    t = 0.0
                    for a in range(len(m0)):
                        for b in range(len(m1)):
                            for l in range(L + 1):
                                x = W[p, q, a, b, l]
                                if abs(x) > 1e-14:
                                    y = C[l][m0[a]][m1[b]] * (float(x) * sc * sc)
                                    if beam:
                                        y = y * (B[f][l] * B[f2][l])
                                    t = t + y
                    full[i * np_ + p, j * np_ + q] = t
    h.cov_close("covariance of pixels", cov, [0.0] * (n * np_), full, 1e-8)


def sphseed(h, kind="hp2", spins=(0,)):
    ns, wcs, pos, shape = sphere(h, kind)
    n = len(maps_of(spins))
    C = dense(h, n, 3)

    def run(seed):
        return h.flat(h.nmt.synfast_spherical(ns, rows(h, C, n), list(spins), seed=seed, wcs=wcs))
    seeding(h, run)


def refusals(h, which):
    N = h.nmt
    nl = 4
    one = h.array([[h.real("c%d" % l, 0.1, 1.) for l in range(nl)]])
    three = h.array([[h.real("c%d_%d" % (i, l), 0.1, 1.) for l in range(nl)] for i in range(3)])
    two = h.array([[1.0] * nl] * 2)
    beam = h.array([[1.0] * nl])
    short = h.array([[1.0] * (nl - 2)])
    long = h.array([[1.0] * (nl + 2)])
    wpart = curved.geom(h, "car")[0]
    sph = lambda *a, **k: N.synfast_spherical(2, *a, **k)
    fl = lambda *a, **k: N.synfast_flat(4, 4, 3.3, 4.1, *a, **k)
    f = sph if which == "sphere" else fl
    if h.sym:
        from vp import noise
        h.ctx.rng_hook = noise.uniform
    h.raises("negative spin", f, one, [-1], seed=1)
    h.raises("spectra missing", f, three, [0, 2], seed=1)
    h.raises("too many spectra", f, three, [0], seed=1)
    h.raises("wrong number", f, two, [0], seed=1)
    h.raises("beams missing", f, three, [0, 0], beam=beam, seed=1)
    h.raises("too many beams", f, one, [0], beam=h.array([[1.0] * nl] * 2), seed=1)
    h.raises("short beam", f, one, [0], beam=short, seed=1)
    if which == "flat":
        h.raises("long beam", f, one, [0], beam=long, seed=1)
        h.raises("negative size", N.synfast_flat, 4, 4, -3.3, 4.1, one, [0], seed=1)
        h.raises("negative size", N.synfast_flat, 4, 4, 3.3, -4.1, one, [0], seed=1)
    else:
        h.raises("partial sphere", N.synfast_spherical, -1, one, [0], seed=1, wcs=wpart)
    h.true("still works", f(one, [0], seed=1).shape == ((1, 48) if which == "sphere" else (1, 4, 4)))


def cases(tier):
    out = []
    for k in ("3x3", "4x4", "5x4", "4x3"):
        for sp in ((0,), (1,), (2,)):
            out.append(("flat %s %s" % (k, sp), flatcov, dict(kind=k, spins=sp), 3))
    for sp in ((0, 0), (0, 2), (2,)):
        out.append(("flat 4x4 %s beam" % (sp,), flatcov, dict(kind="4x4", spins=sp, beam=True), 8))
        out.append(("flat 3x3 %s singular" % (sp,), flatcov, dict(kind="3x3", spins=sp, eig="singular"), 5))
    out.append(("flat 3x3 beam", flatcov, dict(kind="3x3", spins=(0,), beam=True), 3))
    out.append(("flat seeds", flatseed, {}, 3))
    out.append(("flat seeds spin 2", flatseed, dict(spins=(2,), kind="4x3"), 3))
    for k in ("hp2", "hp4", "car", "carx", "cary", "carxy"):
        for sp in ((0,), (2,)):
            out.append(("sphere %s %s" % (k, sp), sphcov, dict(kind=k, spins=sp, nl=3), 4))
    out.append(("sphere hp2 spin 1", sphcov, dict(kind="hp2", spins=(1,), nl=3), 3))
    out.append(("sphere carxy spin 3", sphcov, dict(kind="carxy", spins=(3,), nl=5), 3))
    out.append(("sphere hp2 0,0", sphcov, dict(kind="hp2", spins=(0, 0), nl=3, beam=True), 3))
    out.append(("sphere hp2 0,2", sphcov, dict(kind="hp2", spins=(0, 2), nl=4, beam=True, lb=1), 4))
    out.append(("sphere hp2 2,0", sphcov, dict(kind="hp2", spins=(2, 0), nl=3, beam=True), 4))
    out.append(("sphere hp2 2,1", sphcov, dict(kind="hp2", spins=(2, 1), nl=3, beam=True, every=4), 6))
    out.append(("sphere hp2 lmax 2", sphcov, dict(kind="hp2", spins=(0,), nl=5, lmax=2, beam=True), 3))
    out.append(("sphere carx lmax 3", sphcov, dict(kind="carx", spins=(2,), nl=5, lmax=3, beam=True, every=5), 4))
    out.append(("sphere hp2 long spectra", sphcov, dict(kind="hp2", spins=(0,), nl=6, lb=2, beam=True), 3))
    out.append(("sphere seeds", sphseed, {}, 3))
    out.append(("sphere seeds car 2", sphseed, dict(kind="carxy", spins=(2,)), 3))
    out.append(("refusals sphere", refusals, dict(which="sphere")))
    out.append(("refusals flat", refusals, dict(which="flat")))
    if tier != "quick":
        for k in ("5x5", "4x6", "3x5"):
            for sp in ((0,), (2,), (3,)):
                out.append(("flat %s %s" % (k, sp), flatcov, dict(kind=k, spins=sp, beam=True), 20))
        for k in ("hp2", "hp4", "car", "carx", "cary", "carxy"):
            for sp in ((0,), (2,), (1,), (0, 2), (3,)):
                out.append(("sphere %s %s all" % (k, sp), sphcov, dict(kind=k, spins=sp, nl=5, beam=True, every=1), 30))
    return out
