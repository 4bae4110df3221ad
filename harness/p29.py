"""P29: global defaults: the values set are the ones used, explicit arguments win, and existing objects keep what they were built with."""
import math
import numpy as np
from .p19 import G, cmp, smap, field, times
from . import p20

NOTE = "every tolerance, and every value of the symbolic pixels and template scales, within the bounds; iteration counts and order of calls as enumerated"
BOUNDS = {"quick": "tolerances in [-1,2] (setter) and [1e-3,0.9] (two templates with a norm ratio in [0.02,0.98], at least 1e-3 from the threshold), iteration counts 0-3 (set: -4 to 6), HEALPix nside 2 and CAR 3x4, spins 0 and 2, lmax 3-4",
          "thorough": "more geometries and spins"}
ASSUMPTIONS = ["transforms of ducc0/healpy are the linear maps of their definition"]
KEYS = ["n_iter_default", "n_iter_mask_default", "sht_calculator", "tol_pinv_default"]
START = dict(sht_calculator="ducc", n_iter_default=3, n_iter_mask_default=3, tol_pinv_default=1e-10)


def guarded(f):
    def g(h, **k):
        try:
            h.true("initial values", h.nmt.get_default_params() == START)
            f(h, **k)
        finally:
            h.nmt.set_n_iter_default(3)
            h.nmt.set_n_iter_default(3, mask=True)
            h.nmt.set_tol_pinv_default(1e-10)
            h.nmt.set_sht_calculator("ducc")
    return g


def now(h, **k):
    d = h.nmt.get_default_params()
    h.true("keys", sorted(d) == KEYS)
    for x, v in dict(START, **k).items():
        if x == "tol_pinv_default":
            h.close(x, d[x], v, 0)
        else:
            h.true(x, d[x] == v)
    return d


@guarded
def tol(h):
    t = h.real("tol", -1., 2.)
    try:
        h.nmt.set_tol_pinv_default(t)
        ok = True
    except ValueError:
        ok = False
    h.true("accepted between 0 and 1", ok == bool((t >= 0) & (t <= 1)))
    now(h, tol_pinv_default=t if ok else 1e-10)


@guarded
def niter(h, mask):
    k = "n_iter_mask_default" if mask else "n_iter_default"
    for n in range(-4, 7):
        h.nmt.set_n_iter_default(5, mask=mask)
        if n < 0:
            h.raises("negative", h.nmt.set_n_iter_default, n, mask=mask)
            now(h, **{k: 5})
        else:
            h.nmt.set_n_iter_default(n, mask=mask)
            now(h, **{k: n})
    h.nmt.set_n_iter_default(2)
    now(h, **{k: 6, "n_iter_default": 2})


@guarded
def back(h):
    for n in ("none", "", "DUCC", "hp", None, 0):
        h.raises("unknown back end", h.nmt.set_sht_calculator, n)
        now(h)
    h.nmt.set_sht_calculator("healpy")
    d = now(h, sht_calculator="healpy")
    h.raises("unknown back end", h.nmt.set_sht_calculator, "none")
    # the dictionary is a copy
    d["n_iter_default"] = 17
    d["sht_calculator"] = "none"
    d["tol_pinv_default"] = 0.7
    now(h, sht_calculator="healpy")
    h.nmt.set_sht_calculator("ducc")
    now(h)


@guarded
def fields(h, kind, spin, n, nm, lmax=4, lmask=3):
    """order of events: default field; defaults changed; lazily computed coefficients; new fields; explicit arguments"""
    g = G(h, kind)
    w = smap(h, g, "w", (1, 5), 1, 0., 1., True)
    a = [smap(h, g, "a%d" % i, (0, 7), 3 + i) for i in range(2 if spin else 1)]
    iw, im = g.flat(w), [g.flat(times(w, x)) for x in a]
    kw = dict(lmax=lmax, lmax_mask=lmask)

    def check(lab, f, n, nm):
        if n is not None:
            cmp(h, lab + ": coefficients", f.get_alms(), g.alm(h, im, spin, lmax, n))
        cmp(h, lab + ": mask coefficients", [f.get_mask_alms()], g.alm(h, [iw], 0, lmask, nm))
    f0 = field(h, g, w, a, spin, **kw)
    o0 = field(h, g, w, None, spin, **kw)
    h.nmt.set_n_iter_default(n)
    f1 = field(h, g, w, a, spin, **kw)
    h.nmt.set_n_iter_default(nm, mask=True)
    f2 = field(h, g, w, a, spin, **kw)
    o2 = field(h, g, w, None, spin, **kw)
    f3 = field(h, g, w, a, spin, n_iter=0, **kw)
    f4 = field(h, g, w, a, spin, n_iter_mask=0, **kw)
    l5 = field(h, g, w, a, spin, n_iter=1, n_iter_mask=2, lite=True, **kw)
    l6 = field(h, g, w, a, spin, n_iter=2, n_iter_mask=0, lite=True, **kw)
    l7 = field(h, g, w, a, spin, lite=True, **kw)
    o8 = field(h, g, w, None, spin, n_iter=0, n_iter_mask=1, **kw)
    o9 = field(h, g, w, None, spin, n_iter=2, n_iter_mask=0, lite=True, **kw)
    h.nmt.set_n_iter_default(3)
    h.nmt.set_n_iter_default(3, mask=True)
    check("before", f0, 3, 3)
    check("mask-only, before", o0, None, 3)
    check("map iterations changed", f1, n, 3)
    check("both changed", f2, n, nm)
    check("mask-only, changed", o2, None, nm)
    check("explicit maps", f3, 0, nm)
    check("explicit mask", f4, n, 0)
    check("explicit both", l5, 1, 2)
    check("explicit both, lite", l6, 2, 0)
    check("again", l6, 2, 0)
    check("both changed, lite", l7, n, nm)
    check("mask-only, explicit", o8, None, 1)
    check("mask-only, explicit, lite", o9, None, 0)
    now(h)


@guarded
def pure(h, kind, n, nm):
    """purification uses both"""
    g = G(h, kind)
    w = smap(h, g, "w", (), 1, 0.2, 1.)
    a = [smap(h, g, "a%d" % i, (0, 7), 3 + i) for i in range(2)]
    h.nmt.set_n_iter_default(n)
    h.nmt.set_n_iter_default(nm, mask=True)
    f = field(h, g, w, a, 2, lmax=3, lmax_mask=4, purify_b=True)
    ia = [v for x in a for v in g.flat(x)]

    def ref(i, j):
        o = h.mat(p20.purify_op(g, np.array(g.flat(w)), (0, 1), 3, 4, i, j), ia)
        k = len(o) // 2
        return [[(o[c * k + 2 * q], o[c * k + 2 * q + 1]) for q in range(k // 2)] for c in (0, 1)]
    cmp(h, "purified", f.get_alms(), ref(n, nm), 1e-8)
    f = field(h, g, w, a, 2, lmax=3, lmax_mask=4, purify_b=True, n_iter=nm, n_iter_mask=n)
    cmp(h, "purified, explicit", f.get_alms(), ref(nm, n), 1e-8)


@guarded
def bias(h, kind, s1, s2, n, explicit, nf=None):
    """the biases use the default for maps, whatever the fields were built with, unless told otherwise"""
    g = G(h, kind)
    nf = n if nf is None else nf
    f1, q1 = p20.make(h, g, s1, "one", (0, 0), 2, 3, nf, 1)
    f2, q2 = p20.make(h, g, s2, "two", (0, 0), 2, 3, nf, 2)
    o1, o2 = q1, q2
    if nf != n:
        _, o1 = p20.make(h, g, s1, "one", (0, 0), 2, 3, n, 1)
        _, o2 = p20.make(h, g, s2, "two", (0, 0), 2, 3, n, 2)
        # the coefficients of the templates are the fields'
        o1.F, o2.F = q1.F, q2.F
    h.nmt.set_n_iter_default(n + 1 if explicit else n)
    h.nmt.set_n_iter_default(n + 2, mask=True)
    N = o1.n * o2.n
    cl = p20.spectra(h, "c", N, 2)
    b = h.nmt.deprojection_bias(f1, f2, h.array(cl), **(dict(n_iter=n) if explicit else {}))
    M = p20.bias(o1, o2, 2).reshape(N * 3, -1)
    h.close("deprojection bias", h.flat(b), h.mat(M, [v for x in cl for v in x]), p20.tol_ok(M))
    v = smap(h, g, "v", (0, 5), 7, 0.1, 2.)
    b = h.nmt.uncorr_noise_deprojection_bias(f1, g.shaped(h, v), **(dict(n_iter=n) if explicit else {}))
    M = p20.noise(o1, g, 2).reshape(o1.n ** 2 * 3, -1)
    h.close("noise bias", h.flat(b), h.mat(M, g.flat(v)), p20.tol_ok(M))


@guarded
def pinv(h, flat, default, explicit=None, nt=2):
    """the smaller of two templates is dropped according to the tolerance in force"""
    n = 16 if flat else 48
    t = h.real("tol", 1e-3, 0.9)
    s = h.real("s", 0.02, 0.98)
    eff = t if explicit is None else explicit
    d = s * s - eff
    keep = bool(d >= 0)
    h.assume(d >= 1e-3 if keep else d <= -1e-3)
    tm = [[(0.3 if k == 0 else 0.3 * s) if i % nt == k else 0.0 for i in range(n)] for k in range(nt)]
    m = [round(math.sin(i + 1), 3) for i in range(n)]
    w = [1.0] * n
    kw = {}
    if default:
        h.nmt.set_tol_pinv_default(t)
        if explicit is not None:
            kw["tol_pinv"] = explicit
    else:
        kw["tol_pinv"] = t
    if flat:
        sh = lambda v: h.array(v).reshape((4, 4))
        f = h.nmt.NmtFieldFlat(0.1, 0.1, sh(w), [sh(m)], spin=0, templates=[[sh(x)] for x in tm], **kw)
    else:
        f = h.nmt.NmtField(h.array(w), h.array([m]), spin=0, templates=h.array([[x] for x in tm]), n_iter=0, lmax=1, lmax_mask=1, **kw)
    h.nmt.set_tol_pinv_default(0.9)
    out = h.flat(f.get_maps())
    for k in range(nt):
        idx = [i for i in range(n) if i % nt == k]
        mean = sum(m[i] for i in idx) / len(idx)
        for i in idx:
            h.close("map %d" % i, out[i], m[i] - (mean if not k or keep else 0.0), 1e-7)


@guarded
def backends(h, spin, n):
    """HEALPix results are the same with both back ends, chosen before or between calls"""
    g = G(h, "hp2")
    w = smap(h, g, "w", (1,), 1, 0., 1., True)
    a = [smap(h, g, "a%d" % i, (0, 30), 3 + i) for i in range(2 if spin else 1)]
    iw, im = w, [times(w, x) for x in a]
    h.nmt.set_n_iter_default(n)
    h.nmt.set_sht_calculator("healpy")
    f = field(h, g, w, a, spin, lmax=3, lmax_mask=4, n_iter_mask=1)
    h.nmt.set_sht_calculator("ducc")
    cmp(h, "coefficients", f.get_alms(), g.alm(h, im, spin, 3, n))
    cmp(h, "mask", [f.get_mask_alms()], g.alm(h, [iw], 0, 4, 1))
    f = field(h, g, w, a, spin, lmax=3, lmax_mask=4, n_iter_mask=1)
    h.nmt.set_sht_calculator("healpy")
    cmp(h, "coefficients", f.get_alms(), g.alm(h, im, spin, 3, n))
    cmp(h, "mask", [f.get_mask_alms()], g.alm(h, [iw], 0, 4, 1))


def cases(tier):
    T = tier != "quick"
    c = [("tol", tol, {}), ("niter", niter, dict(mask=False)), ("nitermask", niter, dict(mask=True)), ("back", back, {})]
    for i, (k, s) in enumerate((("hp2", 0), ("hp2", 2), ("car", 0), ("car", 2), ("carflip", 1))):
        for n, nm in ((1, 0), (0, 2), (2, 1)):
            c.append(("fields_%s%d_%d%d" % (k, s, n, nm), fields, dict(kind=k, spin=s, n=n, nm=nm)))
    for k in ("hp2", "car"):
        c += [("pure_%s_%d%d" % (k, n, m), pure, dict(kind=k, n=n, nm=m)) for n, m in ((0, 1), (2, 0))]
    for e in (0, 1):
        c += [("bias_%d%d_%d%d" % (s1, s2, n, e), bias, dict(kind=k, s1=s1, s2=s2, n=n, explicit=bool(e))) for s1, s2, n, k in ((0, 0, 0, "car"), (0, 2, 1, "hp2"), (2, 0, 2, "carflip"))]
        c += [("biasf_%d%d_%d%d%d" % (s1, s2, n, nf, e), bias, dict(kind=k, s1=s1, s2=s2, n=n, nf=nf, explicit=bool(e))) for s1, s2, n, nf, k in ((0, 0, 0, 2, "hp2"), (2, 0, 2, 0, "car"), (0, 2, 1, 0, "carflip"))]
    for f in (0, 1):
        c += [("pinv%d_%s" % (f, n), pinv, dict(kw, flat=bool(f))) for n, kw in (("default", dict(default=True)), ("arg", dict(default=False)), ("win", dict(default=True, explicit=0.2)), ("win0", dict(default=True, explicit=0.0)))]
    c += [("backends%d_%d" % (s, n), backends, dict(spin=s, n=n)) for s in (0, 2) for n in (0, 2)]
    if T:
        c += [("fields_%s%d_%d%dT" % (k, s, n, nm), fields, dict(kind=k, spin=s, n=n, nm=nm), 2) for k in ("hp2", "car", "carflip", "carfull") for s in (0, 1, 2, 3) for n, nm in ((1, 2), (0, 3))]
        c += [("bias_%s%d%d_T%d" % (k, s1, s2, e), bias, dict(kind=k, s1=s1, s2=s2, n=1, explicit=bool(e)), 2) for k in ("hp2", "car", "carfull") for s1 in (0, 2) for s2 in (0, 2) for e in (0, 1)]
    return c
