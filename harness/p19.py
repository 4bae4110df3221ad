"""P19: curved-sky fields: masking, deprojection, purification, coefficients."""
import math
import numpy as np
from . import curved, hpx, ylm

NOTE = "every value of the symbolic map, mask and template pixels (or harmonic coefficients) within the bounds; geometries, spins, template sets and flags as enumerated"
BOUNDS = {"quick": "HEALPix nside 2 and CAR patches of 3x4 pixels (both orientations) and the full sphere 5x8, spins 0..3, lmax 2..5 and a different lmax_mask, 0..2 iterations, up to 12 symbolic pixels; "
                   "purification also against its definition on an exact 9x16 grid, for any E and B multipoles up to 3 and any mask multipoles up to 2; template sets incl. dependent and vanishing ones",
          "thorough": "all pixels symbolic, lmax 5, more template sets"}
ASSUMPTIONS = ["symbolic templates: squared norm within the mask at least 1e-2", "transforms of ducc0/healpy are the linear maps of their definition (checked here against spherical harmonics)"]


class G:
    """geometry: positions and quadrature weights of the pixels in internal order, padded to full rings"""

    def __init__(self, h, kind):
        self.kind = kind
        self.wcs, self.shape = curved.geom(h, kind) if not kind.startswith("full") else fullcar(h, int(kind[4:]))
        self.n = int(np.prod(self.shape))
        if self.wcs is None:
            ns = int(round(math.sqrt(self.n / 12)))
            self.pos = tuple((math.acos(z), p) for z, p in hpx.pixels(ns))
            self.w = (4 * math.pi / self.n,) * self.n
            self.idx = list(range(self.n))
            self.order = self.idx
            return
        w = (curved._geom(kind)[0] if not kind.startswith("full") else fullcar(None, int(kind[4:]))[0])
        ny, nx = self.shape
        dd = [abs(x) for x in w.wcs.cdelt]
        NX, NT = round(360 / dd[0]), round(180 / dd[1])
        co = {}
        for y in range(ny):
            for x in range(nx):
                # CAR with the reference point on the equator is linear
                ra, dec = (float(w.wcs.crval[i] + (v + 1 - w.wcs.crpix[i]) * w.wcs.cdelt[i]) for i, v in ((0, x), (1, y)))
                co[y, x] = (90 - dec, ra % 360)
        th = sorted(set(round(c[0], 6) for c in co.values()))
        # first longitude of the patch: columns are consecutive eastwards
        east = co[0, nx - 1 if w.wcs.cdelt[0] < 0 else 0][1]
        cc = ylm.cc_weights(NT)
        self.pos, self.w = [], []
        for t in th:
            for k in range(NX):
                self.pos.append((math.radians(t), math.radians(east + k * dd[0])))
                self.w.append(cc[round(t / dd[1])] * 2 * math.pi / NX)
        self.pos, self.w = tuple(self.pos), tuple(self.w)
        # padded index of every internal pixel, and internal order of the input pixels
        self.idx = [r * NX + c for r in range(ny) for c in range(nx)]
        where = {}
        for (y, x), (t, ra) in co.items():
            r = th.index(round(t, 6))
            c = round(((ra - east) % 360) / dd[0]) % NX
            where[r * nx + c] = y * nx + x
        self.order = [where[i] for i in range(self.n)]

    def flat(self, m):
        """input map to internal order"""
        v = list(np.asarray(m).reshape(-1)) if isinstance(m, np.ndarray) else list(m)
        return [v[i] for i in self.order]

    def shaped(self, h, v):
        """list of values in input order to a map"""
        return h.array(v).reshape(self.shape)

    def pw(self):
        return [self.w[i] for i in self.idx]

    def alm(self, h, maps, spin, lmax, n_iter):
        T = ylm.analysis(self.pos, self.w, spin, lmax, n_iter)
        N = len(self.pos)
        T = T[:, [c * N + i for c in range(len(maps)) for i in self.idx]]
        o = h.mat(T, [v for m in maps for v in m])
        K = len(ylm.lms(lmax))
        return [[(o[2 * (c * K + k)], o[2 * (c * K + k) + 1]) for k in range(K)] for c in range(len(maps))]

    def map(self, h, alms, spin, lmax):
        N = len(self.pos)
        S = ylm.synth(self.pos, spin, lmax)[[c * N + i for c in range(len(alms)) for i in self.idx]]
        o = h.mat(S, [v for a in alms for z in a for v in z])
        return [o[c * self.n:(c + 1) * self.n] for c in range(len(alms))]


def fullcar(h, n):
    """n rings, 2(n-1) columns, declination increasing"""
    d = 180. / (n - 1)
    w = curved.car_wcs(2 * (n - 1), n, d, d, -90.)
    if h is not None and h.sym:
        from vp import sht
        w = sht.WCSProxy(w)
    return w, (n, 2 * (n - 1))


def cmp(h, lab, a, ref, tol=1e-9):
    """coefficients"""
    h.true(lab + " count", len(a) == len(ref))
    for i, (x, y) in enumerate(zip(a, ref)):
        x = list(x)
        h.true(lab + " size", len(x) == len(y))
        h.close("%s %d" % (lab, i), [v for z in x for v in curved.re_im(z)], [v for z in y for v in z], tol)


def smap(h, g, name, sym, seed, lo=-1., hi=1., zeros=False):
    r = np.random.RandomState(seed)
    b = np.round(2 * r.rand(g.n) - 1, 3) if lo < 0 else np.round(lo + (hi - lo) * r.rand(g.n), 3)
    if zeros:
        b[r.permutation(g.n)[:g.n // 4]] = 0.
    v = [float(x) for x in b]
    for i in range(g.n) if sym is None else sym:
        v[i] = h.real("%s%d" % (name, i), lo, hi)
    return v


def times(w, m):
    return [x * y for x, y in zip(w, m)]


def field(h, g, w, maps, spin, **k):
    m = None if maps is None else h.array([g.shaped(h, x) for x in maps]) if g.wcs is not None else h.array(maps)
    t = k.pop("templates", None)
    if t is not None:
        k["templates"] = h.array([[g.shaped(h, x) for x in y] for y in t])
    for q in ("mask_12", "mask_22"):
        if q in k:
            k[q] = g.shaped(h, k[q])
    return h.nmt.NmtField(g.shaped(h, w), m, spin=spin, wcs=g.wcs, **k)


def plain(h, kind, spin, lmax=4, lmask=3, n_iter=1, sym=(0, 5, 7, 11), msym=(1, 5, 8), masked=False, lite=False, default=False):
    g = G(h, kind)
    w = smap(h, g, "w", msym, 1, 0., 1., True)
    a = [smap(h, g, "a%d" % i, sym, 3 + i) for i in range(2 if spin else 1)]
    wa = [times(w, x) for x in a]
    kw = dict(n_iter=n_iter, n_iter_mask=n_iter + 1)
    if default:
        h.nmt.set_n_iter_default(n_iter)
        h.nmt.set_n_iter_default(n_iter + 1, mask=True)
        kw = {}
    f = field(h, g, w, wa if masked else a, spin, lmax=lmax, lmax_mask=lmask, masked_on_input=masked, lite=lite, **kw)
    if default:
        h.nmt.set_n_iter_default(3)
        h.nmt.set_n_iter_default(3, mask=True)
    iw, im = g.flat(w), [g.flat(x) for x in wa]
    h.close("mask", f.get_mask(), iw)
    if lite:
        h.raises("maps of a lite field", f.get_maps)
    else:
        h.close("maps", f.get_maps(), im)
        h.true("shape", f.get_maps().shape == (len(a), g.n))
    cmp(h, "coefficients", f.get_alms(), g.alm(h, im, spin, lmax, n_iter))
    for _ in range(2):
        cmp(h, "mask coefficients", [f.get_mask_alms()], g.alm(h, [iw], 0, lmask, n_iter + 1))
    h.raises("no templates", f.get_templates)
    h.raises("isotropic", f.get_anisotropic_mask)
    h.raises("isotropic", f.get_anisotropic_mask_alms)
    # mask-only field
    o = field(h, g, w, None, spin, lmax=lmax, lmax_mask=lmask, n_iter_mask=n_iter + 1)
    h.close("mask", o.get_mask(), iw)
    cmp(h, "mask coefficients", [o.get_mask_alms()], g.alm(h, [iw], 0, lmask, n_iter + 1))
    h.true("attributes", o.spin == f.spin == spin and o.nmaps == f.nmaps == len(a))
    h.true("compatible", bool(o.is_compatible(f)) and bool(f.is_compatible(o)))
    h.raises("maps of a mask-only field", o.get_maps)
    h.raises("coefficients of a mask-only field", o.get_alms)


def healpy(h, spin, n_iter):
    """both transform back ends"""
    g = G(h, "hp2")
    w = smap(h, g, "w", (1, 30), 1, 0., 1., True)
    a = [smap(h, g, "a%d" % i, (0, 20, 40), 3 + i) for i in range(2 if spin else 1)]
    h.nmt.set_sht_calculator("healpy")
    f = field(h, g, w, a, spin, lmax=4, lmax_mask=4, n_iter=n_iter, n_iter_mask=0)
    cmp(h, "coefficients", f.get_alms(), g.alm(h, [times(w, x) for x in a], spin, 4, n_iter))
    cmp(h, "mask coefficients", [f.get_mask_alms()], g.alm(h, [w], 0, 4, 0))
    h.nmt.set_sht_calculator("ducc")
    h.raises("unknown back end", h.nmt.set_sht_calculator, "none")
    f = field(h, g, w, a, spin, lmax=4, lmax_mask=4, n_iter=n_iter, n_iter_mask=0)
    cmp(h, "coefficients", f.get_alms(), g.alm(h, [times(w, x) for x in a], spin, 4, n_iter))


def inputs_kept(h, kind, spin):
    g = G(h, kind)
    n = 2 if spin else 1
    v = [smap(h, g, "w", (0, 3), 1, 0.2, 1.)] + [smap(h, g, "a%d" % i, (1, 3), 3 + i) for i in range(n)] + [smap(h, g, "t%d" % i, (), 8 + i) for i in range(n)]
    w, a, t = g.shaped(h, v[0]), h.array([g.shaped(h, x) for x in v[1:1 + n]]), h.array([[g.shaped(h, x) for x in v[1 + n:]]])
    wc = g.shaped(h, smap(h, g, "w", (), 1, 0.2, 1.))
    h.nmt.NmtField(w, a, spin=spin, wcs=g.wcs, n_iter=0, lmax=3, lmax_mask=3)
    h.nmt.NmtField(wc, a, spin=spin, templates=t, wcs=g.wcs, n_iter=0, lmax=3, lmax_mask=3)
    if spin == 2:
        h.nmt.NmtField(wc, a, purify_b=True, wcs=g.wcs, n_iter=0, n_iter_mask=0, lmax=3, lmax_mask=3, templates=t)
        h.nmt.NmtField(wc, a, purify_b=True, wcs=g.wcs, n_iter=0, n_iter_mask=0, lmax=3, lmax_mask=3, templates=t, masked_on_input=True)
        h.nmt.NmtField(wc, a, mask_22=wc, mask_12=0.1 * wc, wcs=g.wcs, n_iter=0, lmax=3, lmax_mask=3)
    h.close("mask kept", h.flat(w), v[0], 0)
    h.close("maps kept", h.flat(a), [x for m in v[1:1 + n] for x in m], 0)
    h.close("templates kept", h.flat(t), [x for m in v[1 + n:] for x in m], 0)


def aniso(h, kind, spin, lmax=3, lmask=4, masked=False, lite=False):
    g = G(h, kind)
    a = [smap(h, g, "a%d" % i, (0, 5), 3 + i) for i in range(2)]
    w1, w2 = smap(h, g, "w", (1, 5), 1, 0., 1.), smap(h, g, "v", (5, 8), 2, 0., 1.)
    r = np.random.RandomState(5)
    w3 = []
    for i in range(g.n):
        if i == 5:
            w3.append(h.real("x5", -1., 1.))
            h.assume(w1[5] * w2[5] - w3[5] * w3[5] >= 0)
        else:
            w3.append(0.0 if i in (1, 8) else round((2 * r.rand() - 1) * math.sqrt(w1[i] * w2[i]) * 0.99, 3))
    ma = [[p * q + s * u for p, q, s, u in zip(w1, a[0], w3, a[1])], [s * q + v * u for v, q, s, u in zip(w2, a[0], w3, a[1])]]
    f = field(h, g, w1, ma if masked else a, spin, mask_22=w2, mask_12=w3, n_iter=1, n_iter_mask=0, lmax=lmax, lmax_mask=lmask, masked_on_input=masked, lite=lite)
    o = field(h, g, w1, None, spin, mask_22=w2, mask_12=w3, n_iter_mask=0, lmax=lmax, lmax_mask=lmask)
    im = [g.flat(x) for x in ma]
    if not lite:
        h.close("maps", f.get_maps(), im)
    cmp(h, "coefficients", f.get_alms(), g.alm(h, im, spin, lmax, 1))
    iso = g.flat([0.5 * (x + y) for x, y in zip(w1, w2)])
    an = [g.flat([0.5 * (x - y) for x, y in zip(w1, w2)]), g.flat(w3)]
    for q in (f, o):
        h.close("mask", q.get_mask(), iso)
        h.close("anisotropic mask", q.get_anisotropic_mask(), an)
        for _ in range(2):
            cmp(h, "mask coefficients", [q.get_mask_alms()], g.alm(h, [iso], 0, lmask, 0))
            cmp(h, "anisotropic mask coefficients", q.get_anisotropic_mask_alms(), g.alm(h, an, 2 * spin, lmask, 0))


def aniso_bad(h, kind):
    g = G(h, kind)
    w1, w2, w3 = smap(h, g, "w", (1, 5), 1, 0., 1.), smap(h, g, "v", (5, 8), 2, 0., 1.), [0.0] * g.n
    w3[5] = h.real("x5", -1., 1.)
    h.assume(w1[5] * w2[5] - w3[5] * w3[5] <= -1e-3)
    a = [smap(h, g, "a%d" % i, (), 3 + i) for i in range(2)]
    h.raises("not positive definite", field, h, g, w1, a, 2, mask_22=w2, mask_12=w3)
    h.raises("not positive definite", field, h, g, w1, None, 2, mask_22=w2, mask_12=w3)
    ok = [0.5] * g.n
    no = [0.1] * g.n
    for kw in (dict(mask_22=ok), dict(mask_12=no)):
        h.raises("half an anisotropic mask", field, h, g, ok, a, 2, **kw)
    kw = dict(mask_22=ok, mask_12=no)
    h.raises("spin 0", field, h, g, ok, a[:1], 0, **kw)
    h.raises("spin 0", field, h, g, ok, None, 0, **kw)
    h.raises("purified", field, h, g, ok, a, 2, purify_b=True, **kw)
    h.raises("templates", field, h, g, ok, a, 2, templates=[a], **kw)


def dot(g, a, b):
    t = 0.0
    for x, y in zip(a, b):
        for p, u, v in zip(g.pw(), x, y):
            t = t + u * v * p
    return t


def tempset(g, kind, n, w):
    r = np.random.RandomState(21)
    t = [[np.round(r.rand(g.n) - 0.4, 2) for _ in range(n)] for _ in range(3)]
    wz = (np.array(w) == 0) * 1.0
    t = {"one": t[:1], "two": t[:2], "three": t, "dup": [t[0], [2 * x for x in t[0]]], "dep": [t[0], t[1], [x - 2 * y for x, y in zip(t[0], t[1])]],
         "zero": [[0.0 * x for x in t[0]]], "gone": [[x * wz for x in t[0]]], "mixed": [t[0], [x * wz for x in t[1]]]}[kind]
    return [[[float(v) for v in m] for m in x] for x in t]


def factors(lmax):
    f1 = [2 / math.sqrt((l + 2) * (l - 1)) if l > 1 else 0. for l in range(lmax + 1)]
    f2 = [1 / math.sqrt((l + 2) * (l + 1) * l * (l - 1)) if l > 1 else 0. for l in range(lmax + 1)]
    return f1, f2


def purified(h, g, w, maps, flags, lmax, lmask, n_iter, n_iter_mask):
    """coefficients from the mask and its first and second derivatives (all in internal order)"""
    mw = g.alm(h, [w], 0, lmask, n_iter_mask)[0]
    K = ylm.lms(lmask)
    # derivatives of the mask: E-type coefficients -sqrt((l+1)!/(l-1)!), +sqrt((l+2)!/(l-2)!)
    d1 = g.map(h, [[(-math.sqrt(l * (l + 1)) * a, -math.sqrt(l * (l + 1)) * b) for (l, m), (a, b) in zip(K, mw)], [(0., 0.)] * len(K)], 1, lmask)
    q = [math.sqrt((l + 2) * (l + 1) * l * (l - 1)) if l > 1 else 0. for l, m in K]
    d2 = g.map(h, [[(c * a, c * b) for c, (a, b) in zip(q, mw)], [(0., 0.)] * len(K)], 2, lmask)
    out = g.alm(h, [times(w, m) for m in maps], 2, lmax, n_iter)

    def conj(d):
        # conj(d) times (Q + iU)
        return [[x * a + y * b for x, y, a, b in zip(d[0], d[1], *maps)], [x * b - y * a for x, y, a, b in zip(d[0], d[1], *maps)]]
    a1 = g.alm(h, conj(d1), 1, lmax, n_iter)
    a0 = [g.alm(h, [m], 0, lmax, n_iter)[0] for m in conj(d2)]
    f1, f2 = factors(lmax)
    for c in (0, 1):
        if flags[c]:
            out[c] = [(x[0] + f1[l] * y[0] + f2[l] * z[0], x[1] + f1[l] * y[1] + f2[l] * z[1]) for (l, m), x, y, z in zip(ylm.lms(lmax), out[c], a1[c], a0[c])]
    return out


def pure(h, kind, flags, lmax=3, lmask=4, n_iter=1, sym=(0, 5, 7), msym=(1, 5), masked=False, lite=False):
    g = G(h, kind)
    w = smap(h, g, "w", msym, 1, 0., 1., True)
    a = [smap(h, g, "a%d" % i, sym, 3 + i) for i in range(2)]
    wa = [times(w, x) for x in a]
    f = field(h, g, w, wa if masked else a, 2, purify_e=bool(flags[0]), purify_b=bool(flags[1]), lmax=lmax, lmax_mask=lmask, n_iter=n_iter, n_iter_mask=0, masked_on_input=masked, lite=lite)
    eff = a
    if masked:
        eff = [[x if u > 0 else 0.0 for x, u in zip(m, w)] for m in a]
    ref = purified(h, g, g.flat(w), [g.flat(x) for x in eff], flags, lmax, lmask, n_iter, 0)
    cmp(h, "purified coefficients", f.get_alms(), ref, 1e-8)
    if not lite:
        h.close("purified maps", f.get_maps(), g.map(h, ref, 2, lmax), 1e-8)
    h.close("mask", f.get_mask(), g.flat(w))


def definition(h, flags, n=9, lw=2, le=3, lmax=3, lmask=2, msym=((0, 0), (1, 0), (2, 1)), esym=None):
    """exact quadrature: pure coefficients are transforms of the masked scalar potentials' derivatives"""
    g = G(h, "full%d" % n)
    r = np.random.RandomState(4)

    def coef(name, l0, L, sym):
        o = []
        for l, m in ylm.lms(L):
            z = [0., 0.]
            for k in range(2 if m else 1):
                z[k] = 0. if l < l0 else h.real("%s%d%d%d" % (name, l, m, k)) if sym is None or (l, m) in sym else round(2 * r.rand() - 1, 2)
            o.append(tuple(z))
        return o
    w = g.map(h, [coef("w", 0, lw, msym)], 0, lw)[0]
    E = [coef(c, 2, le, esym) for c in "eb"]
    maps = g.map(h, E, 2, le)

    def inv(m):
        v = [None] * g.n
        for i, k in enumerate(g.order):
            v[k] = m[i]
        return v
    f = field(h, g, inv(w), [inv(m) for m in maps], 2, purify_e=bool(flags[0]), purify_b=bool(flags[1]), lmax=lmax, lmax_mask=lmask, n_iter=0, n_iter_mask=0)
    std = g.alm(h, [times(w, m) for m in maps], 2, lmax, 0)
    _, f2 = factors(max(lmax, le))
    for c in (0, 1):
        if not flags[c]:
            cmp(h, "unpurified", [f.get_alms()[c]], [std[c]], 1e-8)
            continue
        chi = g.map(h, [[(a / f2[l] if l > 1 else 0., b / f2[l] if l > 1 else 0.) for (l, m), (a, b) in zip(ylm.lms(le), E[c])]], 0, le)[0]
        p = g.alm(h, [times(w, chi)], 0, lmax, 0)[0]
        ref = [(f2[l] * a, f2[l] * b) for (l, m), (a, b) in zip(ylm.lms(lmax), p)]
        got = [z if l > 1 else 0. for (l, m), z in zip(ylm.lms(lmax), list(f.get_alms()[c]))]
        cmp(h, "pure modes", [got], [ref], 1e-8)


def deproj(h, kind, spin, tk, flags=(0, 0), sym=(0, 5, 9), masked=False, lite=False, tol=None, n_iter=0, lmax=3, lmask=3):
    """concrete templates and mask, symbolic map"""
    g = G(h, kind)
    n = 2 if spin else 1
    w = smap(h, g, "w", (), 1, 0.1, 1.)
    w[0] = w[6] = 0.
    a = [smap(h, g, "a%d" % i, sym, 3 + i) for i in range(n)]
    t = tempset(g, tk, n, w)
    iw, ia, it = g.flat(w), [g.flat(x) for x in a], [[g.flat(m) for m in x] for x in t]
    wa, wt = [times(iw, x) for x in ia], [[times(iw, m) for m in x] for x in it]
    # least squares with the pixel weights
    sq = np.tile(np.sqrt(np.array(g.pw())), n)
    U, s, V = np.linalg.svd(np.array(wt).reshape(len(t), -1) * sq, full_matrices=False)
    alpha = [0.0] * len(t)
    for q in range(len(s)):
        if s[q] > 1e-6:
            p = h.mat(np.array([V[q] * sq / s[q]]), [v for m in wa for v in m])[0]
            alpha = [z + p * float(U[i][q]) for i, z in enumerate(alpha)]

    def minus(m, ts):
        return [[m[i][x] - sum((alpha[j] * ts[j][i][x] for j in range(len(t)) if ts[j][i][x] != 0.0), 0.0) for x in range(g.n)] for i in range(n)]
    kw = dict(purify_e=bool(flags[0]), purify_b=bool(flags[1])) if any(flags) else {}
    if tol:
        kw["tol_pinv"] = tol
    f = field(h, g, w, [times(w, x) for x in a] if masked else a, spin, templates=[[times(w, m) for m in x] for x in t] if masked else t, masked_on_input=masked, lite=lite,
              n_iter=n_iter, n_iter_mask=0, lmax=lmax, lmax_mask=lmask, **kw)
    T = 1e-7
    if any(flags):
        kp = [1.0 if x > 0 or not masked else 0.0 for x in iw]
        ref = purified(h, g, iw, minus([times(kp, m) for m in ia], [[times(kp, m) for m in x] for x in it]), flags, lmax, lmask, n_iter, 0)
        mp = g.map(h, ref, 2, lmax)
    else:
        mp = minus(wa, wt)
        ref = g.alm(h, mp, spin, lmax, n_iter)
    cmp(h, "deprojected coefficients", f.get_alms(), ref, T)
    if lite:
        h.raises("templates of a lite field", f.get_templates)
        return
    out = f.get_maps()
    h.close("maps", out, mp, T)
    h.close("templates", f.get_templates(), wt)
    at = getattr(f, "alm_temp", None)
    if at is not None:
        # coefficients of the templates, purified like those of the maps
        h.true("template coefficients", len(at) == len(t))
        for j in range(len(t)):
            cmp(h, "coefficients of template %d" % j, at[j], purified(h, g, iw, [times(kp, m) for m in it[j]], flags, lmax, lmask, n_iter, 0) if any(flags) else g.alm(h, wt[j], spin, lmax, n_iter), T)
    if not any(flags):
        for j in range(len(t)):
            h.close("orthogonal to template %d" % j, dot(g, wt[j], [list(m) for m in out]), 0.0, T)


def symtemp(h, kind, spin, tsym, sym, msym=(), two=False, masked=False):
    """one symbolic template, or two with disjoint support"""
    g = G(h, kind)
    n = 2 if spin else 1
    w = smap(h, g, "w", msym, 1, 0.3, 1.)
    a = [smap(h, g, "a%d" % i, sym, 3 + i) for i in range(n)]
    ts = []
    for j in range(2 if two else 1):
        t = [smap(h, g, "t%d_%d" % (j, i), tsym, 10 * j + 13 + i) for i in range(n)]
        if two:
            t = [[v if k % 2 == j else 0.0 for k, v in enumerate(m)] for m in t]
        ts.append(t)
    iw = g.flat(w)
    wa = [times(iw, g.flat(m)) for m in a]
    wt = [[times(iw, g.flat(m)) for m in t] for t in ts]
    nn = [dot(g, t, t) for t in wt]
    for x in nn:
        h.assume(x >= 1e-2)
    if h.sym and two:
        if nn[0] < nn[1]:
            pass
        h.ctx.memo["eigs"] = [([[nn[0], 0.0], [0.0, nn[1]]], list(nn), np.eye(2).tolist())]
    f = field(h, g, w, [times(w, m) for m in a] if masked else a, spin, templates=[[times(w, m) for m in t] for t in ts] if masked else ts, masked_on_input=masked, n_iter=0, lmax=2, lmax_mask=2)
    out = f.get_maps()
    pr = [dot(g, t, wa) for t in wt]
    for i in range(n):
        for x in range(g.n):
            c = nn[0] if not two else nn[0] * nn[1]
            k = [pr[0]] if not two else [pr[0] * nn[1], pr[1] * nn[0]]
            e = wa[i][x] * c
            for q, t in zip(k, wt):
                e = e - q * t[i][x]
            h.close("map %d %d" % (i, x), out[i, x] * c, e, 1e-7)
    h.close("templates", f.get_templates(), wt)


def refused(h, kind):
    g = G(h, kind)
    F = h.nmt.NmtField
    w = g.shaped(h, [1.0] * g.n)
    m = g.shaped(h, [round(math.sin(i), 2) for i in range(g.n)])
    bad = np.ones(g.n + 1) if g.wcs is None else np.ones((g.shape[0], g.shape[1] + 1))
    W = dict(wcs=g.wcs, n_iter=0, lmax=3, lmax_mask=3)
    h.raises("three maps", F, w, [m, m, m], **W)
    h.raises("spin 0 with two maps", F, w, [m, m], spin=0, **W)
    h.raises("spin 1 with one map", F, w, [m], spin=1, **W)
    h.raises("spin-1 purification", F, w, [m, m], spin=1, purify_b=True, **W)
    h.raises("spin-0 purification", F, w, [m], purify_e=True, **W)
    h.raises("map shape", F, w, [bad], **W)
    h.raises("mask shape", F, bad, [m], **W)
    h.raises("template shape", F, w, [m], templates=[[bad]], **W)
    h.raises("template count", F, w, [m], templates=[[m, m]], **W)
    h.raises("template count", F, w, [m, m], templates=[[m]], **W)
    h.raises("template type", F, w, [m], templates=1., **W)
    h.raises("beam type", F, w, [m], beam=1., **W)
    h.raises("beam size", F, w, [m], beam=np.ones(3), **W)
    h.raises("no spin", F, w, None, **W)
    for k in ("lmax", "lmax_mask"):
        for v in (0, -1):
            h.raises(k, F, w, [m], **dict(W, **{k: v}))
    f0, f2 = F(w, [m], **W), F(w, [m, m], beam=np.ones(4), **W)
    h.true("default spins", f0.spin == 0 and f2.spin == 2)
    for k, v in (("lmax", 2), ("lmax_mask", 2)):
        f = F(w, [m], **dict(W, **{k: v}))
        h.true("incompatible " + k, not f.is_compatible(f0) and not f0.is_compatible(f) and not f.is_compatible(f0, strict=False))
    h.true("compatible", bool(f0.is_compatible(f2)))
    if kind != "hp2":
        p = G(h, "hp2")
        o = F(p.shaped(h, [1.0] * 48), [p.shaped(h, [1.0] * 48)], n_iter=0, lmax=3, lmax_mask=3)
        h.true("other pixels", not o.is_compatible(f0) and bool(o.is_compatible(f0, strict=False)))


def cases(tier):
    T = tier != "quick"
    c = []
    for k in ("hp2", "car", "carflip", "carfull"):
        for s in (0, 1, 2, 3):
            c.append(("p%d_%s" % (s, k), plain, dict(kind=k, spin=s, n_iter=s % 3)))
        for s in (0, 2):
            c += [("pm%d_%s" % (s, k), plain, dict(kind=k, spin=s, masked=True, lmax=2, lmask=4)), ("pl%d_%s" % (s, k), plain, dict(kind=k, spin=s, lite=True, lmax=3, lmask=3)), ("kept%d_%s" % (s, k), inputs_kept, dict(kind=k, spin=s))]
        c += [("an2_%s" % k, aniso, dict(kind=k, spin=2)), ("an1_%s" % k, aniso, dict(kind=k, spin=1, lmax=4, lmask=3)), ("anm_%s" % k, aniso, dict(kind=k, spin=2, masked=True)), ("anl_%s" % k, aniso, dict(kind=k, spin=2, lite=True)),
              ("anbad_%s" % k, aniso_bad, dict(kind=k)), ("refused_" + k, refused, dict(kind=k))]
        for f in ((1, 0), (0, 1), (1, 1)):
            t = "%d%d_%s" % (f + (k,))
            c += [("b" + t, pure, dict(kind=k, flags=f), 2), ("bx" + t, pure, dict(kind=k, flags=f, lmax=4, lmask=2, n_iter=0)), ("bl" + t, pure, dict(kind=k, flags=f, lite=True, lmask=3, msym=())), ("bm" + t, pure, dict(kind=k, flags=f, masked=True, lmask=3))]
        c.append(("pd_" + k, plain, dict(kind=k, spin=2, n_iter=2, default=True)))
    c += [("hpy%d_%d" % (s, i), healpy, dict(spin=s, n_iter=i)) for s in (0, 1, 2) for i in (0, 2)]
    for f in ((1, 0), (0, 1), (1, 1)):
        c += [("def%d%d" % f, definition, dict(flags=f), 3), ("defs%d%d" % f, definition, dict(flags=f, lmax=4, le=2, lmask=4, msym=None, esym=((2, 0), (2, 1))), 3)]
    for tk in ("one", "two", "three", "dup", "dep", "zero", "gone", "mixed"):
        for i, s in enumerate((0, 2)):
            k = ("car", "hp2", "carflip", "carfull")[("one", "two", "three", "dup", "dep", "zero", "gone", "mixed").index(tk) % 4 if not i else (len(tk) + i) % 4]
            c.append(("d%d_%s_%s" % (s, tk, k), deproj, dict(kind=k, spin=s, tk=tk, masked=tk in ("dup", "three"))))
        c.append(("db_%s" % tk, deproj, dict(kind="car", spin=2, tk=tk, flags=((1, 1), (0, 1), (1, 0))[len(tk) % 3], masked=tk in ("dup", "three"))))
    c += [("dl0", deproj, dict(kind="car", spin=0, tk="two", lite=True)), ("dl2", deproj, dict(kind="car", spin=2, tk="three", lite=True, masked=True)), ("dlb", deproj, dict(kind="car", spin=2, tk="two", lite=True, flags=(0, 1))),
          ("dt", deproj, dict(kind="hp2", spin=0, tk="two", tol=1e-3)), ("dlx", deproj, dict(kind="carfull", spin=2, tk="two", flags=(0, 1), lmax=3, lmask=4, n_iter=1))]
    c += [("s0", symtemp, dict(kind="car", spin=0, tsym=(0, 4), sym=(1, 4))), ("s2", symtemp, dict(kind="car", spin=2, tsym=(4,), sym=(1, 4))), ("s0m", symtemp, dict(kind="carflip", spin=0, tsym=(0, 4), sym=(4,), masked=True)),
          ("s0w", symtemp, dict(kind="car", spin=0, tsym=(4,), sym=(4,), msym=(4,))), ("ss0", symtemp, dict(kind="car", spin=0, tsym=(3, 4), sym=(3, 4), two=True)), ("s0h", symtemp, dict(kind="hp2", spin=0, tsym=(3, 40), sym=(4,)))]
    if T:
        for k in ("hp2", "car", "carflip", "carfull"):
            c += [("P%d_%s" % (s, k), plain, dict(kind=k, spin=s, lmax=5, lmask=4, n_iter=3, sym=None, msym=None), 5) for s in (0, 1, 2)]
            c += [("B%d%d_%s" % (f + (k,)), pure, dict(kind=k, flags=f, sym=tuple(range(12)), msym=tuple(range(0, 12, 2)), lmax=4, lmask=4), 6) for f in ((1, 1), (0, 1))]
            c += [("D%d_%s_%s" % (s, t, k), deproj, dict(kind=k, spin=s, tk=t, sym=None, n_iter=2), 3) for s in (0, 1, 2) for t in ("one", "two", "three", "dup", "dep", "mixed")]
            c += [("DB%d%d_%s" % (f + (k,)), deproj, dict(kind=k, spin=2, tk="three", flags=f, n_iter=1, lmask=4), 3) for f in ((1, 0), (0, 1), (1, 1))]
        c += [("DEF%d%d" % f, definition, dict(flags=f, n=13, le=4, lw=3, lmax=5, lmask=3, msym=None), 9) for f in ((1, 0), (0, 1), (1, 1))]
        c += [("S0", symtemp, dict(kind="car", spin=0, tsym=tuple(range(6)), sym=(1, 4)), 9), ("S2", symtemp, dict(kind="carflip", spin=2, tsym=(0, 4, 5), sym=(0, 1, 4)), 9)]
    return c
