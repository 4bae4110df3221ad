"""P12: flat-sky mode-coupling matrix equals the brute-force sum over pairs of Fourier modes."""
import math
import numpy as np
from . import flat

NOTE = "every value of the symbolic mask pixels, beams and spectra within the bounds; patch shapes, spins, bands and masked ranges as enumerated"
BOUNDS = {"quick": "patches from 2x3 to 5x5 pixels (odd and even, never square pixels), two different masks with all or half their pixels symbolic in [0,1], spins 0..3 in pairs, all purification "
                   "combinations, TEB, beams, masked ranges of l_x and l_y (also one-sided); unbinned matrix through coupling of arbitrary spectra, binned matrix through decoupling",
          "thorough": "up to 6x6 and 5x7 pixels, all masks symbolic"}
ASSUMPTIONS = ["for binned matrices with symbolic entries: invertible, inverse entries below 1e3"]


def setup(h, geom, s1, s2, p1, p2, sym, same, bm=False, bsym=True, maps=False, cutb=False):
    g = flat.geo(geom)
    m1 = flat.symmap(h, g, "m", sym, 0.0, 1.0, 1, True)
    m2 = m1 if same else flat.symmap(h, g, "n", sym, 0.0, 1.0, 2, True)
    beam = None
    kw1 = kw2 = {}
    if bm:
        # also sampled up to a wavenumber inside the map's range: zero beyond
        kk = [0.0, 8.0, 17.0, 200.0] if not cutb else [0.0, 6.0, 9.0, 13.0]
        b1, b2 = h.reals("b1", 4, 0.2, 1.0) if bsym else [0.9, 0.95, 0.6, 0.2], [1.0, 0.8, 0.5, 0.1]
        kw1 = dict(beam=h.array([kk, b1]))
        kw2 = dict(beam=h.array([kk, b2]))
        beam = {k: flat.interp(kk, b1, g.k(*k)) * flat.interp(kk, b2, g.k(*k)) for k in g.modes()}
    M1, M2 = ([flat.symmap(h, g, "a", (), seed=7 + i) for i in range(2 if s else 1)] if maps else None for s in (s1, s2))
    f1 = flat.field(h, g, m1, M1, s1, purify_e=bool(p1[0]), purify_b=bool(p1[1]), **kw1)
    f2 = f1 if (same and s1 == s2) else flat.field(h, g, m2, M2, s2, purify_e=bool(p2[0]), purify_b=bool(p2[1]), **kw2)
    return g, m1, m2, f1, f2, beam


def bands(g, n, zero=False):
    """bands covering most modes; the first one may include k=0"""
    ks = sorted(set(round(g.k(*m), 9) for m in g.modes()))
    lo = -1.0 if zero else 0.5 * ks[1]
    e = np.linspace(lo, ks[-1] * 1.0001, n + 1)
    return [float(x) for x in e[:-1]], [float(x) for x in e[1:]]


def coupled(h, geom, s1, s2, p1=(0, 0), p2=(0, 0), sym=None, same=False, teb=False, cx=(1., -1.), cy=(1., -1.), nb=2, bm=False, zero=False, maps=False, cutb=False):
    """couple_cell = sum over mode pairs, the spectra averaged in rings"""
    g, m1, m2, f1, f2, beam = setup(h, geom, s1, s2, p1, p2, sym, same, bm, maps=maps, cutb=cutb)
    l0, lf = bands(g, nb, zero)
    b = h.nmt.NmtBinFlat(np.array(l0), np.array(lf))
    w = h.nmt.NmtWorkspaceFlat()
    w.compute_coupling_matrix(f1, f2, b, ell_cut_x=list(cx), ell_cut_y=list(cy), is_teb=teb)
    grp, nr = flat.rings(g)
    ncl = len(flat.comps(s1, s2, teb))
    ls = [g.k(*m) for m in sorted(set(g.modes()), key=lambda m: g.k(*m))]
    ls = [0.0] + [0.5 * max(ls), 1.1 * max(ls)]
    M, n = flat.mcm(g, m1, m2, s1, s2, p1, p2, l0, lf, (grp, nr), cx, cy, teb, beam)
    # spectra: one symbolic component amplitude each, different shapes
    for q in range(ncl):
        cl = [[0.0] * 3 for _ in range(ncl)]
        cl[q] = [h.real("c%d" % q, -1.0, 1.0), 0.3, 0.7]
        av = [0.0] * nr
        cnt = [0] * nr
        for m in g.modes():
            if grp[m] >= 0:
                cnt[grp[m]] += 1
                av[grp[m]] = av[grp[m]] + flat.interp(ls, cl[q], g.k(*m))
        out = w.couple_cell(np.array(ls), h.array(cl))
        for i in range(ncl):
            e = []
            for k in range(nb):
                t = 0.0
                for r in range(nr):
                    if cnt[r]:
                        t = t + M[n * k + i][n * r + q] * (av[r] / cnt[r])
                e.append(t)
            h.close("coupled %d %d" % (i, q), [out[i][k] for k in range(nb)], e)


def decoupled(h, geom, s1, s2, p1=(0, 0), p2=(0, 0), same=False, teb=False, cx=(1., -1.), cy=(1., -1.), nb=2, bm=False, zero=False, seeds=(1, 2)):
    """decoupling inverts the binned brute-force matrix (concrete masks, any spectra)"""
    g, m1, m2, f1, f2, beam = setup(h, geom, s1, s2, p1, p2, (), same, bm, False)
    l0, lf = bands(g, nb, zero)
    b = h.nmt.NmtBinFlat(np.array(l0), np.array(lf))
    w = h.nmt.NmtWorkspaceFlat()
    w.compute_coupling_matrix(f1, f2, b, ell_cut_x=list(cx), ell_cut_y=list(cy), is_teb=teb)
    grp = {m: flat.band(l0, lf, g.k(*m)) for m in g.modes()}
    M, n = flat.mcm(g, m1, m2, s1, s2, p1, p2, l0, lf, (grp, nb), cx, cy, teb, beam)
    v = h.reals("v", (n, nb))
    cl = h.zeros((n, nb))
    for i in range(n):
        for k in range(nb):
            t = 0.0
            for j in range(n):
                for q in range(nb):
                    t = t + M[n * k + i][n * q + j] * v[j][q]
            cl[i][k] = t
    h.close("decoupled", w.decouple_cell(cl), v, 1e-6)


def inverse(h, geom, s1, s2, sym, p2=(0, 0), nb=1):
    """same with a symbolic mask: decoupled spectra are the inverse of the matrix times the spectra"""
    h.inv_bound(1e3)
    g, m1, m2, f1, f2, beam = setup(h, geom, s1, s2, (0, 0), p2, sym, False)
    l0, lf = bands(g, nb)
    b = h.nmt.NmtBinFlat(np.array(l0), np.array(lf))
    w = h.nmt.NmtWorkspaceFlat()
    w.compute_coupling_matrix(f1, f2, b)
    grp = {m: flat.band(l0, lf, g.k(*m)) for m in g.modes()}
    M, n = flat.mcm(g, m1, m2, s1, s2, (0, 0), p2, l0, lf, (grp, nb))
    I = h.inv(M)
    cl = h.reals("v", (n, nb))
    out = w.decouple_cell(cl)
    for i in range(n):
        for k in range(nb):
            t = 0.0
            for j in range(n):
                for q in range(nb):
                    t = t + I[n * k + i][n * q + j] * cl[j][q]
            h.close("decoupled %d %d" % (i, k), out[i][k], t, 1e-6)


def cases(tier):
    T = tier != "quick"
    c = []
    CUTX, CUTY, ONE = dict(cx=(-5., 5.)), dict(cy=(-5., 5.)), dict(cx=(1., 100.), cy=(-100., -1.))
    c += [("c00_3x3", coupled, dict(geom="3x3", s1=0, s2=0)), ("c00_4x4", coupled, dict(geom="4x4", s1=0, s2=0, sym=(0, 3, 5, 6, 10, 13), zero=True)),
          ("c00_2x3", coupled, dict(geom="2x3", s1=0, s2=0)), ("c00_3x5_beam", coupled, dict(geom="3x5", s1=0, s2=0, sym=(0, 4, 7, 11), bm=True, nb=3)),
          ("c00_cutx", coupled, dict(geom="3x5", s1=0, s2=0, sym=(0, 4, 7, 11, 13), cx=(-7.5, 7.5), nb=3)),
          ("c00_cuty", coupled, dict(geom="5x3", s1=0, s2=0, sym=(0, 4, 7, 11, 13), cy=(-6., 6.), nb=3)),
          ("c00_one", coupled, dict(geom="5x5", s1=0, s2=0, sym=(0, 4, 7, 11, 13), nb=3, **ONE), 2)]
    for s in (1, 2, 3):
        c.append(("c0%d" % s, coupled, dict(geom="3x3", s1=0, s2=s)))
        c.append(("c%d0" % s, coupled, dict(geom="3x3", s1=s, s2=0, sym=(0, 2, 3, 7))))
        c.append(("c%d%d" % (s, s), coupled, dict(geom="3x3", s1=s, s2=s, sym=(0, 2, 3, 7)), 2))
    c += [("c12", coupled, dict(geom="3x3", s1=1, s2=2, sym=(1, 5, 6)), 2), ("c21", coupled, dict(geom="3x4", s1=2, s2=1, sym=(1, 5, 6)), 2),
          ("c31", coupled, dict(geom="4x3", s1=3, s2=1, sym=(1, 5, 6)), 2),
          ("c22_same", coupled, dict(geom="3x5", s1=2, s2=2, sym=(1, 5, 6), same=True), 2),
          ("c22_4x4", coupled, dict(geom="4x4", s1=2, s2=2, sym=(1, 5, 6)), 4),
          ("c22_one", coupled, dict(geom="3x5", s1=2, s2=2, sym=(1, 5, 6), **ONE), 2),
          ("c02_one", coupled, dict(geom="5x3", s1=0, s2=2, sym=(1, 5, 6), **ONE), 2),
          ("c22_beam", coupled, dict(geom="3x3", s1=2, s2=2, sym=(1, 5), bm=True, nb=1), 2)]
    P = [(0, 1), (1, 0), (1, 1)]
    for p in P:
        c.append(("c02_p%d%d" % p, coupled, dict(geom="3x3", s1=0, s2=2, p2=p)))
        c.append(("c20_p%d%d" % p, coupled, dict(geom="3x3", s1=2, s2=0, p1=p, sym=(1, 5, 6))))
        c.append(("t_p%d%d" % p, coupled, dict(geom="3x3", s1=0, s2=2, p2=p, sym=(1, 5), teb=True), 2))
    for p in [(0, 0)] + P:
        for q in [(0, 0)] + P:
            if p + q != (0, 0, 0, 0):
                c.append(("c22_p%d%d%d%d" % (p + q), coupled, dict(geom="3x3", s1=2, s2=2, p1=p, p2=q, sym=(1, 5)), 2))
    c += [("c12_p", coupled, dict(geom="3x3", s1=1, s2=2, p2=(0, 1), sym=(1, 5)), 2), ("c21_p", coupled, dict(geom="3x3", s1=2, s2=1, p1=(0, 1), sym=(1, 5)), 2)]
    c += [("c22_pm", coupled, dict(geom="3x3", s1=2, s2=2, p1=(1, 0), p2=(0, 1), sym=(1, 5), maps=True), 2), ("c22_pm2", coupled, dict(geom="3x3", s1=2, s2=2, p1=(1, 1), p2=(1, 1), sym=(1, 5), maps=True), 2),
          ("t_pm", coupled, dict(geom="3x3", s1=0, s2=2, p2=(0, 1), sym=(1, 5), teb=True, maps=True), 2), ("c02_cutbeam", coupled, dict(geom="3x3", s1=0, s2=2, sym=(1, 5), bm=True, cutb=True)),
          ("c00_cutbeam", coupled, dict(geom="3x5", s1=0, s2=0, sym=(0, 4, 7, 11), bm=True, cutb=True, nb=3))]
    for s in (1, 2, 3):
        c.append(("t%d" % s, coupled, dict(geom="3x3", s1=0, s2=s, sym=(1, 5, 6), teb=True), 2))
    D = [("00", dict(geom="4x6", s1=0, s2=0, nb=3)), ("00z", dict(geom="5x5", s1=0, s2=0, nb=3, zero=True, bm=True)), ("02", dict(geom="5x5", s1=0, s2=2)),
         ("03", dict(geom="4x4", s1=0, s2=3)), ("20", dict(geom="5x3", s1=2, s2=0, bm=True)), ("22", dict(geom="5x5", s1=2, s2=2)), ("12", dict(geom="4x6", s1=1, s2=2)),
         ("22p", dict(geom="5x5", s1=2, s2=2, p1=(0, 1), p2=(1, 1))), ("02p", dict(geom="5x5", s1=0, s2=2, p2=(0, 1))), ("20p", dict(geom="5x5", s1=2, s2=0, p1=(1, 0))),
         ("22ps", dict(geom="5x5", s1=2, s2=2, p1=(0, 1), p2=(0, 1), same=True)), ("22cut", dict(geom="5x5", s1=2, s2=2, cx=(-6., 6.))), ("02one", dict(geom="5x5", s1=0, s2=2, **ONE)),
         ("00one", dict(geom="5x5", s1=0, s2=0, **ONE)), ("22one", dict(geom="5x5", s1=2, s2=2, cx=(1., 100.))), ("t", dict(geom="5x5", s1=0, s2=2, teb=True)), ("t1", dict(geom="4x4", s1=0, s2=1, teb=True)),
         ("tp", dict(geom="5x5", s1=0, s2=2, p2=(0, 1), teb=True))]
    c += [("d" + n, decoupled, k) for n, k in D]
    c += [("i00", inverse, dict(geom="3x3", s1=0, s2=0, sym=(0, 4, 5), nb=2)), ("i02", inverse, dict(geom="3x3", s1=0, s2=2, sym=(1, 5)), 3),
          ("i02p", inverse, dict(geom="3x3", s1=0, s2=2, sym=(1, 5), p2=(0, 1)), 3)]
    if T:
        c += [("C00_5x5", coupled, dict(geom="5x5", s1=0, s2=0, nb=3), 9), ("C02_5x5", coupled, dict(geom="5x5", s1=0, s2=2, sym=(0, 4, 8, 12, 16, 20), nb=3), 9),
              ("C22_5x5", coupled, dict(geom="5x5", s1=2, s2=2, sym=(0, 4, 8), nb=2), 9), ("C22_4x6", coupled, dict(geom="4x6", s1=2, s2=2, sym=(0, 9), nb=2), 9),
              ("C22_3x3", coupled, dict(geom="3x3", s1=2, s2=2), 9), ("C12_3x3", coupled, dict(geom="3x3", s1=1, s2=2), 9),
              ("C00_6x6", coupled, dict(geom="6x6", s1=0, s2=0, sym=tuple(range(0, 36, 3)), nb=3), 9), ("C00_7x5", coupled, dict(geom="7x5", s1=0, s2=0, sym=tuple(range(0, 35, 3)), nb=4), 9),
              ("CT_3x5", coupled, dict(geom="3x5", s1=0, s2=2, sym=(1, 5, 6, 9), p2=(0, 1), teb=True), 9)]
        c += [("D" + n + z, decoupled, dict(k, geom=z)) for n, k in D for z in ("6x6", "7x5", "4x6")]
    return c
