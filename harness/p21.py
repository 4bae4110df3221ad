"""P21: catalogue-based fields: exact sums over sources, shot noise, couplings."""
import math
import numpy as np
from . import ref, ylm, curved
from .p19 import cmp

NOTE = "every value of the symbolic weights, field values and source positions within the bounds; numbers of sources, spins, multipole ranges and conventions as enumerated"
BOUNDS = {"quick": "1-4 sources, 1-3 randoms, spins 0-3, lmax and lmax_mask 1-6; all weights and field values symbolic (of either sign; sums of the randoms' weights at least 0.2); "
                   "symbolic positions of one source and one random anywhere on the sphere in both conventions with lmax 2",
          "thorough": "up to 6 sources, lmax 8, spins to 4, more symbolic positions"}
ASSUMPTIONS = ["ducc0.sht.adjoint_synthesis_general is the exact sum over sources of values times harmonics (natively to the accuracy it is asked for, 1e-5)",
               "comparisons to 2e-4 for quantities that pass through that transform, 1e-9 otherwise"]
TOL = 2e-4


def spots(n, seed=1):
    r = np.random.RandomState(seed)
    return [(float(np.round(math.acos(2 * r.rand() - 1), 3)), float(np.round(2 * math.pi * r.rand(), 3))) for _ in range(n)]


def given(pos, lonlat):
    """positions in the input convention"""
    if lonlat:
        return np.array([[math.degrees(p) for t, p in pos], [90 - math.degrees(t) for t, p in pos]])
    return np.array([[t for t, p in pos], [p for t, p in pos]])


def sums(h, pos, vals, spin, lmax):
    M = ylm.analysis(tuple(pos), (1.0,) * len(pos), spin, lmax, 0)
    o = h.mat(M, [v for m in vals for v in m])
    K = len(ylm.lms(lmax))
    return [[(o[2 * (c * K + k)], o[2 * (c * K + k) + 1]) for k in range(K)] for c in range(len(vals))]


def sq(v):
    t = 0.0
    for x in v:
        t = t + x * x
    return t


def num(h, name, n, sym=None, lo=-1.5, hi=1.5, seed=3):
    r = np.random.RandomState(seed)
    return [h.real("%s%d" % (name, i), lo, hi) if sym is None or i in sym else round(lo + (hi - lo) * r.rand(), 3) for i in range(n)]


def cat(h, n, spin, lmax, lmask, lonlat=False, weighted=False, beam=None, lists=False, spin_arg=True, sym=None, explicit=True):
    pos = spots(n)
    w = num(h, "w", n, sym)
    f = [num(h, "f%d" % i, n, sym, seed=5 + i) for i in range(2 if spin else 1)]
    fw = f if weighted else [[a * b for a, b in zip(w, x)] for x in f]
    kw = {}
    if spin_arg:
        kw["spin"] = spin
    if lmask != lmax or explicit:
        kw["lmax_mask"] = lmask
    if beam:
        kw["beam"] = h.array(num(h, "b", lmax + 1, (), 0.2, 1.))
    p = given(pos, lonlat)
    aw, af = h.array(w), h.array(f[0] if lists and len(f) == 1 else f)
    o = h.nmt.NmtFieldCatalog([list(p[0]), list(p[1])] if lists else p, aw, af, lmax, field_is_weighted=weighted, lonlat=lonlat, **kw)
    cmp(h, "mask coefficients", [o.get_mask_alms()], sums(h, pos, [w], 0, lmask), TOL)
    cmp(h, "coefficients", o.get_alms(), sums(h, pos, fw, spin, lmax), TOL)
    h.close("mask noise", o.Nw * (4 * math.pi), sq(w))
    h.close("field noise", o.Nf * (4 * math.pi * len(f)), sq([v for x in fw for v in x]))
    h.true("attributes", o.spin == spin and o.nmaps == len(f) and o.alpha is None and o.is_catalog)
    h.close("beam", list(o.beam)[:lmax + 1], num(h, "b", lmax + 1, (), 0.2, 1.) if beam else [1.0] * (lmax + 1), 0)
    h.close("weights kept", h.flat(aw), w, 0)
    h.close("values kept", h.flat(af), [v for x in f for v in x], 0)
    for g in (o.get_maps, o.get_mask, o.get_templates, o.get_anisotropic_mask):
        h.raises("no maps", g)


def maskonly(h, n, spin, lmax, lmask):
    pos = spots(n)
    w = num(h, "w", n)
    o = h.nmt.NmtFieldCatalog(given(pos, False), h.array(w), None, lmax, lmax_mask=lmask, spin=spin)
    cmp(h, "mask coefficients", [o.get_mask_alms()], sums(h, pos, [w], 0, lmask), TOL)
    h.close("mask noise", o.Nw * (4 * math.pi), sq(w))
    h.true("attributes", o.spin == spin and o.is_catalog)
    h.raises("no values", o.get_alms)
    h.raises("spin needed", h.nmt.NmtFieldCatalog, given(pos, False), h.array(w), None, lmax)


def clustering(h, n, nr, lmax, lonlat=False, sym=None, rsym=None):
    pos, pr = spots(n), spots(nr, 2)
    w = num(h, "w", n, sym)
    v = num(h, "v", nr, rsym, 0.1, 1.5, 4)
    if nr > 1 and (rsym is None or 0 in rsym):
        # not all of the randoms' weights are positive
        v[:2] = [h.real("v0p", 0.6, 1.5), h.real("v1n", -0.3, 1.5)]
    S, V = sum(w, 0.0), sum(v, 0.0)
    o = h.nmt.NmtFieldCatalogClustering(given(pos, lonlat), h.array(w), given(pr, lonlat), h.array(v), lmax, lonlat=lonlat)
    h.close("alpha", o.alpha * V, S)
    h.close("mask noise", o.Nw * (4 * math.pi) * V * V, S * S * sq(v), 1e-8)
    h.close("field noise", o.Nf * (4 * math.pi) * V * V, sq(w) * V * V + S * S * sq(v), 1e-8)
    mk = sums(h, pr, [v], 0, lmax)[0]
    da = sums(h, pos, [w], 0, lmax)[0]
    for i, z in enumerate(list(o.get_mask_alms())):
        for a, b in zip(curved.re_im(z), mk[i]):
            h.close("mask %d" % i, a * V, b * S, 4 * TOL)
    h.true("size", len(o.get_mask_alms()) == len(mk) and len(o.get_alms()) == 1 and len(o.get_alms()[0]) == len(da))
    for i, z in enumerate(list(o.get_alms()[0])):
        for a, b, c in zip(curved.re_im(z), da[i], mk[i]):
            h.close("contrast %d" % i, a * V, b * V - c * S, 4 * TOL)
    h.close("beam", list(o.beam), [1.0] * (lmax + 1), 0)
    h.true("attributes", o.spin == 0 and o.is_catalog)
    h.close("monopole of the contrast", [curved.re_im(o.get_alms()[0][0])[0]], [0.0], 2 * TOL)


def sYs(h, s, l, m, ang):
    """spin harmonic at a symbolic position: (real, imaginary) from cosines and sines of half the colatitude and of the longitude"""
    c, n, cp, sp = ang
    if l < max(abs(s), abs(m)):
        return 0.0, 0.0
    f = math.factorial
    M = -m
    pre = math.sqrt(f(l + M) * f(l - M) * f(l + s) * f(l - s)) * (-1) ** m * math.sqrt((2 * l + 1) / (4 * math.pi))
    d = 0.0
    for k in range(max(0, s - M), min(l + s, l - M) + 1):
        d = d + c ** (2 * l + s - M - 2 * k) * n ** (M - s + 2 * k) * (pre * (-1) ** (M - s + k) / (f(l + s - k) * f(k) * f(M - s + k) * f(l - M - k)))
    z = (1.0, 0.0)
    for _ in range(abs(m)):
        z = (z[0] * cp - z[1] * sp, z[0] * sp + z[1] * cp)
    return d * z[0], d * z[1] * (1 if m >= 0 else -1)


def coefs(h, ang, vals, spin, lmax):
    """coefficients of one source"""
    o = [[] for _ in vals]
    for l, m in ylm.lms(lmax):
        if not spin:
            y = sYs(h, 0, l, m, ang)
            o[0].append((y[0] * vals[0], -y[1] * vals[0]))
            continue
        a, b = sYs(h, spin, l, m, ang), sYs(h, -spin, l, m, ang)
        q, u = vals
        # E + iB and E - iB
        s = (-1) ** spin
        p = (-(q * a[0] + u * a[1]), -(u * a[0] - q * a[1]))
        r = (-s * (q * b[0] - u * b[1]), -s * (-u * b[0] - q * b[1]))
        o[0].append(((p[0] + r[0]) * 0.5, (p[1] + r[1]) * 0.5))
        o[1].append(((p[1] - r[1]) * 0.5, (p[0] - r[0]) * (-0.5)))
    return o


def angles(h, x, y, lonlat):
    th, ph = (math.pi / 2 - y * (math.pi / 180), x * (math.pi / 180)) if lonlat else (x, y)
    return h.cos(th * 0.5), h.sin(th * 0.5), h.cos(ph), h.sin(ph)


def place(h, name, lonlat, r=None):
    if lonlat:
        a, b = (0.01, 359.99), (-89.99, 89.99)
    else:
        a, b = (0.001, 3.14), (0.001, 6.28)
    if r:
        a, b = r
    return h.real(name + "x", *a), h.real(name + "y", *b)


def anywhere(h, spin, lonlat, lmax=2, cl=False):
    """a source at any position; another at a fixed one"""
    x, y = place(h, "s", lonlat)
    w, f = [0.7, 0.4], [[0.6, -0.3], [0.2, 0.9]][:2 if spin else 1]
    q = (200.3, -35.2) if lonlat else (1.1, 4.2)
    p = h.array([[x, q[0]], [y, q[1]]])
    an = [angles(h, x, y, lonlat), angles(h, q[0], q[1], lonlat)]

    def add(parts):
        return [[tuple(s + t for s, t in zip(a, b)) for a, b in zip(m, n)] for m, n in zip(*parts)]
    wl = add([coefs(h, a, [v], 0, lmax) for a, v in zip(an, w)])
    if not cl:
        o = h.nmt.NmtFieldCatalog(p, np.array(w), np.array(f), lmax, spin=spin, lonlat=lonlat)
        cmp(h, "mask coefficients", [o.get_mask_alms()], wl, TOL)
        cmp(h, "coefficients", o.get_alms(), add([coefs(h, a, [v * u[i] for u in f], spin, lmax) for i, (a, v) in enumerate(zip(an, w))]), TOL)
        return
    x, y = place(h, "r", lonlat)
    q = (q[0] - 0.7, q[1] - 0.6)
    pr = h.array([[x, q[0]], [y, q[1]]])
    ar = [angles(h, x, y, lonlat), angles(h, q[0], q[1], lonlat)]
    v = [0.5, 0.25]
    o = h.nmt.NmtFieldCatalogClustering(p, np.array(w), pr, np.array(v), lmax, lonlat=lonlat)
    al = 1.1 / 0.75
    ml = add([coefs(h, a, [u * al], 0, lmax) for a, u in zip(ar, v)])
    cmp(h, "mask coefficients", [o.get_mask_alms()], ml, TOL)
    cmp(h, "contrast", o.get_alms(), [[tuple(s - t for s, t in zip(a, b)) for a, b in zip(wl[0], ml[0])]], TOL)


def outside(h, lonlat, what, n=2):
    """positions outside the documented range"""
    ok = [[10., 200.], [20., -70.]] if lonlat else [[0.5, 2.5], [1., 6.]]
    lim = {(True, "x"): ((-400., -0.01), (360.01, 800.)), (True, "y"): ((-200., -90.01), (90.01, 200.)),
           (False, "x"): ((-5., -1e-3), (math.pi + 1e-3, 10.)), (False, "y"): ((-5., -1e-3), (2 * math.pi + 1e-3, 20.))}[lonlat, what]
    one = np.ones(2)
    for k, (lo, hi) in enumerate(lim):
        v = h.real("p%d" % k, lo, hi)
        p = [list(ok[0]), list(ok[1])]
        p["xy".index(what)][k] = v
        p = h.array(p)
        h.raises("outside", h.nmt.NmtFieldCatalog, p, one, [one], 2, lonlat=lonlat)
        h.raises("outside", h.nmt.NmtFieldCatalogClustering, p, one, np.array(ok), one, 2, lonlat=lonlat)
        h.raises("random outside", h.nmt.NmtFieldCatalogClustering, np.array(ok), one, p, one, 2, lonlat=lonlat)


def edges(h):
    """poles and the meridian are valid"""
    w = np.ones(4)
    o = h.nmt.NmtFieldCatalog([[0., 360., 10., 20.], [10., 20., -90., 90.]], w, [w], 2, lonlat=True)
    pos = [(math.radians(80), 0.), (math.radians(70), 2 * math.pi), (math.pi, math.radians(10)), (0., math.radians(20))]
    cmp(h, "degrees", [o.get_mask_alms()], sums(h, pos, [[1.0] * 4], 0, 2), TOL)
    o = h.nmt.NmtFieldCatalog([[p[0] for p in pos], [p[1] for p in pos]], w, [w], 2)
    cmp(h, "radians", [o.get_mask_alms()], sums(h, pos, [[1.0] * 4], 0, 2), TOL)
    o = h.nmt.NmtFieldCatalogClustering([[p[0] for p in pos], [p[1] for p in pos]], w, [[p[0] for p in pos], [p[1] for p in pos]], w, 2)
    cmp(h, "contrast of the randoms", o.get_alms(), [[(0., 0.)] * 6], TOL)


def refused(h):
    F, C = h.nmt.NmtFieldCatalog, h.nmt.NmtFieldCatalogClustering
    p3, w3, w2, f3 = given(spots(3), False), np.ones(3), np.ones(2), np.ones((1, 3))
    h.raises("weights", F, p3, w2, f3, 3)
    h.raises("positions", F, p3.T.copy(), w3, f3, 3)
    h.raises("positions", F, p3[:1], w3, f3, 3)
    h.raises("field size", F, p3, w3, np.ones((1, 2)), 3)
    h.raises("three values", F, p3, w3, np.ones((3, 3)), 3)
    h.raises("spin 0 with two values", F, p3, w3, np.ones((2, 3)), 3, spin=0)
    h.raises("spin 2 with one value", F, p3, w3, f3, 3, spin=2)
    h.raises("short beam", F, p3, w3, f3, 3, beam=np.ones(3))
    h.raises("bad beam", F, p3, w3, f3, 3, beam=1.)
    h.raises("weights", C, p3, w2, p3, w3, 3)
    h.raises("random weights", C, p3, w3, p3, w2, 3)
    h.raises("positions", C, p3.T.copy(), w3, p3, w3, 3)
    h.raises("random positions", C, p3, w3, p3.T.copy(), w3, 3)
    a, b, c = F(p3, w3, f3, 3), F(p3, w3, f3, 4), F(p3, w3, f3, 3, lmax_mask=5)
    for x in (b, c):
        h.raises("other multipoles", h.nmt.compute_coupled_cell, a, x)
        h.raises("other multipoles", h.nmt.NmtWorkspace.from_fields, a, x, h.nmt.NmtBin.from_lmax_linear(3, 2))
    h.raises("bins", h.nmt.NmtWorkspace.from_fields, a, a, h.nmt.NmtBin.from_lmax_linear(4, 2))
    d = F(p3, w3, f3, 3)
    h.raises("FKP cross", h.nmt.NmtWorkspace.from_fields, a, d, h.nmt.NmtBin.from_lmax_linear(3, 2), normalization="FKP")
    h.raises("covariance", h.nmt.NmtCovarianceWorkspace.from_fields, a, a, a, a)


def pcl(lmax, a, b):
    r = [0.0] * (lmax + 1)
    for (l, m), x, y in zip(ylm.lms(lmax), a, b):
        r[l] = r[l] + (x[0] * y[0] + x[1] * y[1]) * ((2. if m else 1.) / (2 * l + 1))
    return r


def make(h, kind, name, lmax, lmask, sym=(0, 1), seed=1):
    """(field, mask coefficients, field coefficients, mask noise, field noise)"""
    if kind == "c":
        n, nr = 3, 2
        pos, pr = spots(n, seed), spots(nr, seed + 10)
        w, v = num(h, name + "w", n, sym, 0.2, 1.5), [0.6, 0.9]
        al = sum(w, 0.0) * (1 / 1.5)
        f = h.nmt.NmtFieldCatalogClustering(given(pos, False), h.array(w), given(pr, False), h.array(v), lmax)
        mk = [(a * al, b * al) for a, b in sums(h, pr, [v], 0, lmask)[0]]
        d = sums(h, pos, [w], 0, lmax)[0]
        nw = al * al * (sq(v) / (4 * math.pi))
        return f, mk, [[(a - c, b - e) for (a, b), (c, e) in zip(d, mk)]], nw, nw + sq(w) * (1 / (4 * math.pi))
    spin = int(kind)
    n = 3
    pos = spots(n, seed)
    w = num(h, name + "w", n, sym, 0.2, 1.5)
    v = [num(h, name + "f%d" % i, n, sym, seed=5 + i + seed) for i in range(2 if spin else 1)]
    f = h.nmt.NmtFieldCatalog(given(pos, False), h.array(w), h.array(v), lmax, lmax_mask=lmask, spin=spin, field_is_weighted=True)
    return f, sums(h, pos, [w], 0, lmask)[0], sums(h, pos, v, spin, lmax), sq(w) * (1 / (4 * math.pi)), sq([x for m in v for x in m]) * (1 / (4 * math.pi * len(v)))


def coupled(h, k1, k2, lmax=3, same=False, lmask=3):
    a = make(h, k1, "a", lmax, lmask)
    b = a if same else make(h, k2, "b", lmax, lmask, seed=1 if k1 == k2 and same is None else 2)
    c = h.nmt.compute_coupled_cell(a[0], b[0])
    h.true("shape", c.shape == (len(a[2]) * len(b[2]), lmax + 1))
    for i in range(len(a[2])):
        for j in range(len(b[2])):
            r = pcl(lmax, a[2][i], b[2][j])
            if same and i == j:
                r = [x - a[4] for x in r]
            h.close("spectrum %d %d" % (i, j), list(c[i * len(b[2]) + j]), r, 3 * TOL * (5 if "c" in k1 + k2 else 1))


def coupling(h, k1, k2, lmax=3, lmask=5, same=False, fkp=False):
    if "c" in (k1, k2):
        lmask = lmax
    a = make(h, k1, "a", lmax, lmask)
    b = a if same else make(h, k2, "b", lmax, lmask, seed=2)
    bn = h.nmt.NmtBin.from_lmax_linear(lmax, 1)
    kw = dict(normalization="FKP") if fkp else {}
    w = h.nmt.NmtWorkspace.from_fields(a[0], b[0], bn, **kw)
    p = pcl(lmask, a[1], b[1])
    if same:
        p = [x - a[3] for x in p]
    s = [0 if k == "c" else int(k) for k in (k1, k2)]
    K, n = ref.mcm(s[0], s[1], lmax, lmask, p)
    h.close("matrix", [list(r) for r in w.get_coupling_matrix()], ref.dense(K, n, n * (lmax + 1)), 40 * TOL)
    if fkp:
        # with identity bins: the coupled bandpowers over the normalisation
        c = [[round(math.cos(i + 2 * l), 3) for l in range(lmax + 1)] for i in range(n)]
        d = w.decouple_cell(np.array(c))
        for i in range(n):
            for l in range(2, lmax + 1):
                h.close("FKP %d %d" % (i, l), d[i, l - 2] * a[3], c[i][l], 1e-8)


def cases(tier):
    T = tier != "quick"
    c = []
    for s in (0, 1, 2, 3):
        c += [("c%d" % s, cat, dict(n=3, spin=s, lmax=4, lmask=4, explicit=False)), ("cw%d" % s, cat, dict(n=2, spin=s, lmax=3, lmask=5, weighted=True, lonlat=True)),
              ("cl%d" % s, cat, dict(n=3, spin=s, lmax=5, lmask=3, lonlat=True, beam=True))]
    c += [("c1src", cat, dict(n=1, spin=0, lmax=1, lmask=2, lists=True)), ("cdef0", cat, dict(n=4, spin=0, lmax=6, lmask=6, spin_arg=False, lists=True)), ("cdef2", cat, dict(n=4, spin=2, lmax=6, lmask=6, spin_arg=False))]
    c += [("m%d" % s, maskonly, dict(n=3, spin=s, lmax=3, lmask=4)) for s in (0, 2, 3)]
    c += [("k32", clustering, dict(n=3, nr=2, lmax=3)), ("k13", clustering, dict(n=1, nr=3, lmax=2, lonlat=True)), ("k42", clustering, dict(n=4, nr=1, lmax=4, lonlat=True)), ("k11", clustering, dict(n=1, nr=1, lmax=1))]
    for L in (0, 1):
        c += [("any%d_%d" % (s, L), anywhere, dict(spin=s, lonlat=bool(L))) for s in (0, 1, 2)]
        c += [("anyk_%d" % L, anywhere, dict(spin=0, lonlat=bool(L), cl=True)), ("outx%d" % L, outside, dict(lonlat=bool(L), what="x")), ("outy%d" % L, outside, dict(lonlat=bool(L), what="y"))]
    c += [("edges", edges, {}), ("refused", refused, {})]
    for a, b in (("0", "0"), ("0", "2"), ("2", "2"), ("2", "0"), ("c", "0"), ("c", "2"), ("c", "c"), ("1", "3")):
        c += [("x%s%s" % (a, b), coupled, dict(k1=a, k2=b)), ("w%s%s" % (a, b), coupling, dict(k1=a, k2=b))]
    for a in ("0", "1", "2", "c"):
        c += [("xs" + a, coupled, dict(k1=a, k2=a, same=True)), ("xt" + a, coupled, dict(k1=a, k2=a, same=None)), ("ws" + a, coupling, dict(k1=a, k2=a, same=True)), ("wf" + a, coupling, dict(k1=a, k2=a, same=True, fkp=True))]
    if T:
        for s in (0, 1, 2, 3, 4):
            c += [("C%d_%d" % (s, L), cat, dict(n=6, spin=s, lmax=8, lmask=7, lonlat=bool(L), weighted=bool(L)), 3) for L in (0, 1)]
            c += [("ANY%d_%d" % (s, L), anywhere, dict(spin=s, lonlat=bool(L), lmax=max(3, s)), 3) for L in (0, 1)]
        c += [("K%d%d" % (n, m), clustering, dict(n=n, nr=m, lmax=5), 3) for n in (3, 5) for m in (2, 4)]
        c += [("W%s%s" % (a, b), coupling, dict(k1=a, k2=b, lmax=5, lmask=8), 3) for a, b in (("0", "2"), ("2", "2"), ("c", "2"), ("1", "3"))]
        c += [("X%s%s" % (a, b), coupled, dict(k1=a, k2=b, lmax=6, lmask=6), 3) for a, b in (("0", "2"), ("2", "2"), ("c", "2"), ("1", "3"))]
    return c
