"""P27: curved-sky pseudo-spectra, and the one-call estimator equals the documented sequence of steps."""
import numpy as np
from . import curved, wsp
from .p19 import G, smap, field, times

NOTE = "every value of the symbolic map pixels, noise and guess spectra; geometries, spins, templates, normalisations and argument combinations as enumerated"
BOUNDS = {"quick": "HEALPix nside 2, CAR patches of 3x4 pixels (both orientations), the full sphere 5x8, mixed geometries; spins 0-3 in all pairs, lmax 3-4, up to 4 symbolic pixels per map; "
                   "up to 2 templates; workspace given, bandpowers given or both; both normalisations; Toeplitz arguments",
          "thorough": "all pixels of the CAR patch symbolic, lmax 5, more spin pairs"}
ASSUMPTIONS = ["the transforms of ducc0 are the linear maps of their definition"]


def mkf(h, g, spin, k, sym, lmax, lmask=None, n_iter=1, **kw):
    w = smap(h, g, "w%d" % k, (), k, 0.2, 1., False)
    a = [smap(h, g, "a%d%d_" % (k, i), sym, 10 * k + i) for i in range(2 if spin else 1)]
    f = field(h, g, w, a, spin, lmax=lmax, lmax_mask=lmask or lmax, n_iter=n_iter, n_iter_mask=0, **kw)
    return f, [g.flat(times(w, x)) for x in a]


def cells(h, k1, k2, s1, s2, lmax=3, sym=(0, 5), lite=False):
    g1 = G(h, k1)
    g2 = G(h, k2) if k2 != k1 else g1
    f1, m1 = mkf(h, g1, s1, 1, sym, lmax, lite=lite)
    f2, m2 = mkf(h, g2, s2, 2, sym[::-1][:2], lmax)
    a1, a2 = g1.alm(h, m1, s1, lmax, 1), g2.alm(h, m2, s2, lmax, 1)

    def ref(x, y):
        return [curved.cross(p, q, lmax) for p in x for q in y]
    c = h.nmt.compute_coupled_cell(f1, f2)
    h.true("shape", c.shape == (len(m1) * len(m2), lmax + 1))
    h.close("cross", c, ref(a1, a2), 1e-9)
    h.close("exchanged", h.nmt.compute_coupled_cell(f2, f1), ref(a2, a1), 1e-9)
    h.close("auto", h.nmt.compute_coupled_cell(f1, f1), ref(a1, a1), 1e-9)
    # an equal field that is not the same object
    o, _ = mkf(h, g1, s1, 1, sym, lmax)
    h.close("equal field", h.nmt.compute_coupled_cell(f1, o), ref(a1, a1), 1e-9)
    h.close("again", h.nmt.compute_coupled_cell(f1, f2), ref(a1, a2), 1e-9)


def refused(h):
    g = G(h, "hp2")
    f, _ = mkf(h, g, 0, 1, (0,), 3)
    q, _ = mkf(h, g, 2, 2, (0,), 3)
    o, _ = mkf(h, g, 0, 3, (0,), 4)
    k, _ = mkf(h, g, 0, 4, (0,), 3, lmask=4)
    n = h.nmt.NmtField(h.array(smap(h, g, "n", (), 5, 0.2, 1.)), None, spin=0, lmax=3, lmax_mask=3)
    L = h.nmt
    b, _, _, _ = wsp.mkbins(h, "b", 3, 0, False)
    w = L.NmtWorkspace.from_fields(f, q, b)
    for x, y in ((f, o), (o, f), (f, n), (n, f), (f, k)):
        h.raises("incompatible", L.compute_coupled_cell, x, y)
        h.raises("incompatible", L.compute_full_master, x, y, b)
    h.raises("neither bins nor workspace", L.compute_full_master, f, q)
    cl, bad, short = np.ones((2, 4)), np.ones((1, 4)), np.ones((2, 3))
    for x in (bad, short, np.ones((4, 4)), np.ones((2, 5))):
        h.raises("noise", L.compute_full_master, f, q, b, cl_noise=x)
        h.raises("guess", L.compute_full_master, f, q, b, cl_guess=x)
        h.raises("guess", L.deprojection_bias, f, q, x)
    h.raises("workspace of other spins", L.compute_full_master, f, f, workspace=w)
    h.raises("workspace of other spins", L.compute_full_master, q, q, workspace=w)
    h.raises("unknown normalisation", L.compute_full_master, f, q, b, normalization="x")
    h.true("bandpowers", L.compute_full_master(f, q, b, cl_noise=cl, cl_guess=cl).shape == (2, 2))


def full(h, kind, s1, s2, how, t1=0, t2=0, norm="MASTER", noise=True, guess=True, lmax=3, same=False, tpl=None, pure=False):
    g = G(h, kind)
    r = np.random.RandomState(7)

    def templ(n, spin):
        return {"templates": [[[float(x) for x in np.round(2 * r.rand(g.n) - 1, 3)] for _ in range(2 if spin else 1)] for _ in range(n)]} if n else {}
    k1 = dict(purify_b=True) if pure else {}
    f1, _ = mkf(h, g, s1, 1, (0, 5), lmax, **templ(t1, s1), **k1)
    f2 = f1 if same else mkf(h, g, s2, 2, (3,), lmax, **templ(t2, s2))[0]
    b1 = wsp.mkbins(h, "b", lmax, 0, False)[0]
    b2 = wsp.mkbins(h, "c", lmax, 1, False)[0]
    n = (2 if s1 else 1) * (2 if s2 else 1)
    N = h.reals("n", (n, lmax + 1)) if noise else None
    C = h.reals("g", (n, lmax + 1)) if guess else None
    L = h.nmt
    kw = dict(zip(("l_toeplitz", "l_exact", "dl_band"), tpl)) if tpl else {}
    w = L.NmtWorkspace.from_fields(f1, f2, b2 if how == "other" else b1, normalization=norm, **kw)
    a = {}
    if how != "b":
        a["workspace"] = w
    else:
        a.update(kw, normalization=norm)
    if how in ("b", "other", "both"):
        a["b"] = b1
    if noise:
        a["cl_noise"] = N
    if guess:
        a["cl_guess"] = C
    out = L.compute_full_master(f1, f2, **a)
    x = L.compute_coupled_cell(f1, f2)
    if noise:
        x = x - N
    if t1 or t2:
        if guess:
            x = x - L.deprojection_bias(f1, f2, C)
    ref = w.decouple_cell(x)
    h.true("shape", out.shape == ref.shape)
    h.close("bandpowers", out, ref, 1e-8)
    if noise or guess:
        h.close("by its own arguments", w.decouple_cell(L.compute_coupled_cell(f1, f2), cl_noise=N, cl_bias=L.deprojection_bias(f1, f2, C) if guess else None), out, 1e-8)
    if noise:
        h.close("noise kept", list(N.reshape(-1)), list(h.reals("n", (n, lmax + 1)).reshape(-1)), 0)


def cases(tier):
    T = tier != "quick"
    c = []
    for s1, s2 in ((0, 0), (0, 2), (2, 0), (2, 2), (1, 2), (3, 1), (0, 1)):
        c += [("cl_hp2_%d%d" % (s1, s2), cells, dict(k1="hp2", k2="hp2", s1=s1, s2=s2, lmax=4)), ("cl_car_%d%d" % (s1, s2), cells, dict(k1="car", k2="carflip", s1=s1, s2=s2))]
    c += [("cl_mixed", cells, dict(k1="hp2", k2="carfull", s1=2, s2=0)), ("cl_mixed2", cells, dict(k1="car", k2="hp2", s1=1, s2=2)), ("cl_lite", cells, dict(k1="hp2", k2="hp2", s1=2, s2=1, lite=True)),
          ("cl_four", cells, dict(k1="car", k2="car", s1=2, s2=2, sym=(0, 3, 5, 8)), 3)]
    c += [("refused", refused, {})]
    for how in ("b", "w", "other", "both"):
        c += [("full_%s_00" % how, full, dict(kind="hp2", s1=0, s2=0, how=how, t1=1, t2=2)), ("full_%s_02" % how, full, dict(kind="car", s1=0, s2=2, how=how, t1=1)),
              ("full_%s_20" % how, full, dict(kind="carflip", s1=2, s2=0, how=how, t2=1)), ("full_%s_22" % how, full, dict(kind="hp2", s1=2, s2=2, how=how, t1=1, norm="FKP"), 3)]
    c += [("full_noguess", full, dict(kind="hp2", s1=0, s2=0, how="b", guess=False, t1=1)), ("full_nonoise", full, dict(kind="hp2", s1=0, s2=0, how="b", noise=False, t2=1)),
          ("full_bare", full, dict(kind="hp2", s1=0, s2=2, how="w", noise=False, guess=False)), ("full_same", full, dict(kind="hp2", s1=2, s2=2, how="b", same=True, t1=1), 2),
          ("full_same0", full, dict(kind="car", s1=0, s2=0, how="b", same=True, t1=2, t2=2, norm="FKP")), ("full_tpl", full, dict(kind="hp2", s1=0, s2=0, how="b", lmax=4, tpl=(3, 2, 1))),
          ("full_tpl2", full, dict(kind="hp2", s1=2, s2=2, how="b", lmax=4, tpl=(3, 1, 1)), 2), ("full_pure", full, dict(kind="hp2", s1=2, s2=2, how="b", t1=1, pure=True), 3),
          ("full_pure0", full, dict(kind="hp2", s1=2, s2=0, how="both", t1=1, t2=1, pure=True), 3)]
    if T:
        for s1 in range(4):
            for s2 in range(4):
                c += [("clT_%d%d" % (s1, s2), cells, dict(k1="hp2", k2="car", s1=s1, s2=s2, lmax=5, sym=(0, 5, 7))), ("fullT_%d%d" % (s1, s2), full, dict(kind="hp2", s1=s1, s2=s2, how="b", t1=1, t2=1), 5)]
        c += [("clT_all", cells, dict(k1="car", k2="car", s1=2, s2=0, sym=tuple(range(12))), 9)]
    return c
