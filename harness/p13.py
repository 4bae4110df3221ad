"""P13: flat-sky pseudo-spectra, coupling and decoupling."""
import math
import numpy as np
from . import flat
from .p12 import bands

NOTE = "every value of the symbolic map and mask pixels, spectra, noise and bias within the bounds; patches, spins, bands and masked ranges as enumerated"
BOUNDS = {"quick": "patches from 2x3 to 5x5 pixels (odd and even), fully symbolic maps and masks on 3x3 pixels, partly symbolic otherwise, spins 0..3, up to 4 bands with and without "
                   "k=0 and empty bands, masked ranges of l_x and l_y (one-sided too); coupling of arbitrary symbolic spectra (all spins, TEB, purified); decoupling with symbolic spectra, noise and bias; symbolic band edges (2 bands)",
          "thorough": "up to 7x5 pixels, symbolic band edges for 3 bands"}
ASSUMPTIONS = []


def fields(h, g, s1, s2, sym, same, msym):
    m1 = flat.symmap(h, g, "m", msym, 0.0, 1.0, 1, True)
    a1 = [flat.symmap(h, g, "a%d" % i, sym, seed=3 + i) for i in range(2 if s1 else 1)]
    f1 = flat.field(h, g, m1, a1, s1)
    if same:
        return m1, a1, f1, m1, a1, f1
    m2 = flat.symmap(h, g, "n", msym, 0.0, 1.0, 2, True)
    a2 = [flat.symmap(h, g, "b%d" % i, sym, seed=5 + i) for i in range(2 if s2 else 1)]
    return m1, a1, f1, m2, a2, flat.field(h, g, m2, a2, s2)


def masked(m, maps):
    return [[[m[y][x] * p[y][x] for x in range(len(m[0]))] for y in range(len(m))] for p in maps]


def coupled(h, geom, s1, s2, sym=None, msym=(), same=False, cx=(1., -1.), cy=(1., -1.), nb=2, zero=False, edges=None):
    g = flat.geo(geom)
    m1, a1, f1, m2, a2, f2 = fields(h, g, s1, s2, sym, same, msym)
    l0, lf = bands(g, nb, zero) if edges is None else edges
    b = h.nmt.NmtBinFlat(np.array(l0), np.array(lf))
    out = h.nmt.compute_coupled_cell_flat(f1, f2, b, ell_cut_x=list(cx), ell_cut_y=list(cy))
    A = flat.map2alm(g, s1, masked(m1, a1))
    B = A if same else flat.map2alm(g, s2, masked(m2, a2))
    h.close("coupled", out, flat.spectra(g, A, B, l0, lf, cx, cy))
    h.true("shape", out.shape == (len(A) * len(B), nb))


def symedges(h, geom, nb):
    """arbitrary band edges"""
    g = flat.geo(geom)
    m1, a1, f1, m2, a2, f2 = fields(h, g, 0, 0, (1, 5), False, (0,))
    e = [h.real("e%d" % i, -1.0, 40.0) for i in range(nb + 1)]
    for i in range(nb):
        h.assume(e[i] < e[i + 1])
    b = h.nmt.NmtBinFlat(h.array(e[:-1]), h.array(e[1:]))
    out = h.nmt.compute_coupled_cell_flat(f1, f2, b)
    A, B = flat.map2alm(g, 0, masked(m1, a1))[0], flat.map2alm(g, 0, masked(m2, a2))[0]
    f = 4 * math.pi ** 2 / (g.lx * g.ly)
    for i in range(nb):
        t, n = 0.0, 0
        for m in g.modes():
            if e[i] <= g.k(*m):
                if g.k(*m) < e[i + 1]:
                    n += 1
                    t = t + A[m][0] * B[m][0] + A[m][1] * B[m][1]
        h.close("band %d" % i, out[0][i], t * (f / n) if n else 0.0)


def decouple(h, geom, s1, s2, teb=False, nb=2):
    """B (decoupled) + noise + bias = input"""
    g = flat.geo(geom)
    m1, m2 = (flat.symmap(h, g, n, (), 0, 1, s, True) for n, s in (("m", 1), ("n", 2)))
    f1, f2 = flat.field(h, g, m1, None, s1), flat.field(h, g, m2, None, s2)
    l0, lf = bands(g, nb)
    b = h.nmt.NmtBinFlat(np.array(l0), np.array(lf))
    w = h.nmt.NmtWorkspaceFlat()
    w.compute_coupling_matrix(f1, f2, b, is_teb=teb)
    grp = {m: flat.band(l0, lf, g.k(*m)) for m in g.modes()}
    M, n = flat.mcm(g, m1, m2, s1, s2, (0, 0), (0, 0), l0, lf, (grp, nb), teb=teb)
    cl, nl, bl = (h.reals(x, (n, nb)) for x in "cnb")
    zero = np.zeros((n, nb))
    for lab, args, sub in (("plain", dict(), []), ("noise", dict(cl_noise=nl), [nl]), ("bias", dict(cl_bias=bl), [bl]), ("both", dict(cl_bias=bl, cl_noise=nl), [nl, bl])):
        out = w.decouple_cell(cl, **args)
        h.true("shape", out.shape == (n, nb))
        for i in range(n):
            for k in range(nb):
                t = 0.0
                for j in range(n):
                    for q in range(nb):
                        t = t + M[n * k + i][n * q + j] * out[j][q]
                for x in sub:
                    t = t + x[i][k]
                h.close("%s %d %d" % (lab, i, k), t, cl[i][k], 1e-7)
    if not teb:
        h.raises("wrong number of spectra", w.decouple_cell, np.zeros((n + 1, nb)))
        h.raises("wrong number of bands", w.decouple_cell, np.zeros((n, nb + 1)))
        h.raises("wrong noise", w.decouple_cell, zero, cl_noise=np.zeros((n, nb + 1)))
        h.raises("wrong bias", w.decouple_cell, zero, cl_bias=np.zeros((n + 1, nb)))


def roundtrip(h, geom, s1, s2, teb=False, zero=True, cuts=None, p2=(0, 0)):
    """coupled band-constant spectra decouple to themselves; every band is a union of rings"""
    g = flat.geo(geom)
    m1, m2 = (flat.symmap(h, g, n, (), 0, 1, s, True) for n, s in (("m", 1), ("n", 2)))
    f1, f2 = flat.field(h, g, m1, None, s1), flat.field(h, g, m2, None, s2, purify_e=bool(p2[0]), purify_b=bool(p2[1]))
    dk = min(2 * math.pi / g.lx, 2 * math.pi / g.ly)
    nr = len(f1.get_ell_sampling())
    rg, n0 = flat.rings(g)
    h.true("rings", nr == n0)
    h.close("ring centres", list(f1.get_ell_sampling()), [dk * (i + 0.5) for i in range(nr)])
    pop = sorted(set(rg.values()) - {-1})
    lo = 0 if zero else 1
    cut = [pop[lo], pop[(lo + len(pop)) // 2], pop[-1] + 1]
    l0, lf = [dk * c - 1e-3 * dk for c in cut[:-1]], [dk * c - 1e-3 * dk for c in cut[1:]]
    b = h.nmt.NmtBinFlat(np.array(l0), np.array(lf))
    w = h.nmt.NmtWorkspaceFlat()
    kw = cuts or {}
    w.compute_coupling_matrix(f1, f2, b, is_teb=teb, **kw)
    n = len(flat.comps(s1, s2, teb))
    bp = h.reals("bp", (n, 2))
    ks = sorted(set(g.k(*m) for m in g.modes()))
    cl = [[bp[i][flat.band(l0, lf, k)] if flat.band(l0, lf, k) >= 0 else 0.0 for k in ks] for i in range(n)]
    h.close("roundtrip", w.decouple_cell(w.couple_cell(np.array(ks), h.array(cl))), bp, 1e-6)
    h.raises("wrong number of spectra", w.couple_cell, np.array(ks), np.zeros((n + 1, len(ks))))
    h.raises("wrong number of multipoles", w.couple_cell, np.array(ks), np.zeros((n, len(ks) + 1)))


def couple(h, geom, s1, s2, teb=False, cuts=None, p2=(0, 0), nb=2, msym=(), zero=False):
    """coupling: matrix from rings to bands, applied to the averages over the modes in each ring"""
    g = flat.geo(geom)
    m1, m2 = (flat.symmap(h, g, n, msym if n == "m" else (), 0, 1, s, True) for n, s in (("m", 1), ("n", 2)))
    f1, f2 = flat.field(h, g, m1, None, s1), flat.field(h, g, m2, None, s2, purify_e=bool(p2[0]), purify_b=bool(p2[1]))
    l0, lf = bands(g, nb, zero)
    w = h.nmt.NmtWorkspaceFlat()
    kw = cuts or {}
    w.compute_coupling_matrix(f1, f2, h.nmt.NmtBinFlat(np.array(l0), np.array(lf)), is_teb=teb, **kw)
    cx, cy = (tuple(kw.get("ell_cut_" + x, (1., -1.))) for x in "xy")
    rg, nr = flat.rings(g)
    M, n = flat.mcm(g, m1, m2, s1, s2, (0, 0), p2, l0, lf, (rg, nr), cx=cx, cy=cy, teb=teb)
    ks = sorted(set(g.k(*m) for m in g.modes()))
    cl = h.reals("cl", (n, len(ks)))
    out = w.couple_cell(np.array(ks), cl)
    h.true("shape", np.shape(out) == (n, nb))
    av = [[0.0] * nr for _ in range(n)]
    for r in range(nr):
        md = [m for m in g.modes() if rg[m] == r]
        for j in range(n):
            for m in md:
                av[j][r] = av[j][r] + cl[j][ks.index(g.k(*m))] * (1. / len(md))
    for i in range(n):
        for b in range(nb):
            t = 0.0
            for j in range(n):
                for r in range(nr):
                    t = t + M[n * b + i][n * r + j] * av[j][r]
            h.close("coupled %d" % i, out[i][b], t, 1e-8)


def master(h, geom, s1, s2, ws, noise, same=False, cuts=None, temp=False, nb=2):
    """compute_full_master_flat is the sequence of its steps"""
    g = flat.geo(geom)
    m1 = flat.symmap(h, g, "m", (), 0, 1, 1, True)
    m2 = flat.symmap(h, g, "n", (), 0, 1, 2, True)
    a1 = [flat.symmap(h, g, "a%d" % i, (1, 3), seed=3 + i) for i in range(2 if s1 else 1)]
    a2 = [flat.symmap(h, g, "b%d" % i, (0, 3), seed=5 + i) for i in range(2 if s2 else 1)]
    kw = {}
    t1 = [[flat.symmap(h, g, "t", (), seed=11 + i) for i in range(2 if s1 else 1)]]
    f1 = flat.field(h, g, m1, a1, s1, templates=h.array(t1) if temp else None)
    f2 = f1 if same else flat.field(h, g, m2, a2, s2)
    l0, lf = bands(g, nb)
    b = h.nmt.NmtBinFlat(np.array(l0), np.array(lf))
    kw = cuts or {}
    w = h.nmt.NmtWorkspaceFlat()
    w.compute_coupling_matrix(f1, f2, b, **kw)
    n = w.wsp.ncls
    nl = h.reals("n", (n, nb))
    cl = h.nmt.compute_coupled_cell_flat(f1, f2, b, **kw)
    ells = np.array([0., 10., 20., 50.])
    guess = np.array([[1. + i, 2., 1. - i, 0.5] for i in range(n)])
    args = dict(kw)
    if noise:
        args["cl_noise"] = nl
    bias = None
    if temp:
        args["cl_guess"], args["ells_guess"] = guess, ells
        bias = h.nmt.deprojection_bias_flat(f1, f2, b, ells, guess, **kw)
    if ws:
        args["workspace"] = w
    out = h.nmt.compute_full_master_flat(f1, f2, b, **args)
    h.close("master", out, w.decouple_cell(cl, cl_noise=nl if noise else None, cl_bias=bias), 1e-8)


def cases(tier):
    T = tier != "quick"
    ONE = dict(cx=(1., 100.), cy=(-100., -1.))
    c = [("c00", coupled, dict(geom="3x3", s1=0, s2=0, msym=None)), ("c00_same", coupled, dict(geom="3x3", s1=0, s2=0, msym=None, same=True)),
         ("c00_4x4", coupled, dict(geom="4x4", s1=0, s2=0, zero=True, nb=3)), ("c00_5x5", coupled, dict(geom="5x5", s1=0, s2=0, nb=4)),
         ("c00_2x3", coupled, dict(geom="2x3", s1=0, s2=0, nb=1)), ("c00_empty", coupled, dict(geom="3x3", s1=0, s2=0, nb=3, edges=([0., 1., 5.], [1., 2., 13.]))),
         ("c00_cutx", coupled, dict(geom="5x5", s1=0, s2=0, nb=3, cx=(-9., 9.))), ("c00_cuty", coupled, dict(geom="5x3", s1=0, s2=0, nb=3, cy=(-6., 6.))),
         ("c00_cutxy", coupled, dict(geom="5x5", s1=0, s2=0, nb=3, cx=(-1., 1.), cy=(-1., 1.))),
         ("c00_one", coupled, dict(geom="5x5", s1=0, s2=0, nb=3, **ONE)), ("c22_one", coupled, dict(geom="3x5", s1=2, s2=2, nb=2, **ONE)),
         ("c00_edge", coupled, dict(geom="3x3", s1=0, s2=0, nb=2, cx=(2 * math.pi / 0.5, 1000.)))]
    for s in (1, 2, 3):
        c += [("c0%d" % s, coupled, dict(geom="3x3", s1=0, s2=s)), ("c%d0" % s, coupled, dict(geom="4x3", s1=s, s2=0)), ("c%d%d" % (s, s), coupled, dict(geom="3x3", s1=s, s2=s)),
              ("c%d%d_same" % (s, s), coupled, dict(geom="3x4", s1=s, s2=s, same=True, msym=(0, 1)))]
    c += [("c12", coupled, dict(geom="3x3", s1=1, s2=2, msym=(1, 2))), ("c31", coupled, dict(geom="4x4", s1=3, s2=1, sym=(1, 2, 5, 10, 11)))]
    c += [("edges", symedges, dict(geom="3x3", nb=2), 3)]
    c += [("d00", decouple, dict(geom="4x4", s1=0, s2=0, nb=3)), ("d02", decouple, dict(geom="4x4", s1=0, s2=2)), ("d20", decouple, dict(geom="3x5", s1=2, s2=0)), ("d11", decouple, dict(geom="5x5", s1=1, s2=1)),
          ("d22", decouple, dict(geom="5x5", s1=2, s2=2)), ("dt", decouple, dict(geom="5x5", s1=0, s2=2, teb=True))]
    c += [("r00", roundtrip, dict(geom="5x5", s1=0, s2=0)), ("r02", roundtrip, dict(geom="5x5", s1=0, s2=2)), ("r22", roundtrip, dict(geom="5x5", s1=2, s2=2)), ("r31", roundtrip, dict(geom="7x5", s1=3, s2=1), 3),
          ("rt", roundtrip, dict(geom="5x5", s1=0, s2=2, teb=True)), ("r00z", roundtrip, dict(geom="4x6", s1=0, s2=0, zero=False)), ("r02p", roundtrip, dict(geom="7x5", s1=0, s2=2, p2=(0, 1), zero=False)),
          ("r22p", roundtrip, dict(geom="7x5", s1=2, s2=2, p2=(1, 1), zero=False)), ("r00cut", roundtrip, dict(geom="7x5", s1=0, s2=0, cuts=dict(ell_cut_x=[-1., 1.])), 3)]
    CUT = dict(ell_cut_x=[-5., 5.], ell_cut_y=[-100., -9.])
    c += [("k00", couple, dict(geom="4x4", s1=0, s2=0, nb=3)), ("k00m", couple, dict(geom="4x3", s1=0, s2=0, msym=(1, 4))), ("k02", couple, dict(geom="4x6", s1=0, s2=2)), ("k20", couple, dict(geom="5x5", s1=2, s2=0)),
          ("k22", couple, dict(geom="4x4", s1=2, s2=2)), ("k13", couple, dict(geom="3x5", s1=1, s2=3)), ("kt", couple, dict(geom="5x5", s1=0, s2=2, teb=True), 2), ("kt4", couple, dict(geom="4x4", s1=0, s2=2, teb=True), 2),
          ("k02p", couple, dict(geom="5x5", s1=0, s2=2, p2=(0, 1))), ("k22p", couple, dict(geom="4x4", s1=2, s2=2, p2=(1, 0))), ("ktp", couple, dict(geom="5x5", s1=0, s2=2, teb=True, p2=(1, 1)), 2),
          ("k00z", couple, dict(geom="4x4", s1=0, s2=0, nb=1, zero=True)), ("k02z", couple, dict(geom="3x5", s1=0, s2=2, nb=2, zero=True)), ("k22z", couple, dict(geom="3x3", s1=2, s2=2, nb=1, zero=True)),
          ("k00c", couple, dict(geom="5x5", s1=0, s2=0, cuts=CUT)), ("k22c", couple, dict(geom="6x6", s1=2, s2=2, cuts=CUT), 2)]
    for i, (s1, s2, kw) in enumerate([(0, 0, {}), (0, 2, {}), (2, 0, {}), (2, 2, {}), (2, 2, dict(same=True)), (0, 0, dict(temp=True)), (2, 0, dict(temp=True)), (0, 0, dict(cuts=dict(ell_cut_x=[-5., 5.])))]):
        for ws in (0, 1):
            c.append(("m%d%d_%d%d" % (s1, s2, ws, i), master, dict(geom="5x5", s1=s1, s2=s2, ws=ws, noise=i % 2 == ws, **kw)))
    for ws in (0, 1):
        c += [("m1band_%d" % ws, master, dict(geom="3x5", s1=0, s2=2, ws=ws, noise=ws, nb=1))]
    if T:
        c += [("C00_7x5", coupled, dict(geom="7x5", s1=0, s2=0, nb=4), 5), ("C22_5x5", coupled, dict(geom="5x5", s1=2, s2=2, nb=3), 9), ("C22_m", coupled, dict(geom="3x3", s1=2, s2=2, msym=None), 9),
              ("C22_same", coupled, dict(geom="3x3", s1=2, s2=2, msym=None, same=True), 9), ("C33", coupled, dict(geom="4x4", s1=3, s2=3), 9), ("edges3", symedges, dict(geom="3x3", nb=3), 9),
              ("edges44", symedges, dict(geom="4x4", nb=2), 9)]
    return c
