"""P08: coupling and decoupling are inverse linear maps on bandpowers."""
import numpy as np
from . import wsp

NOTE = "every value of the spectra, noise, bias, beams, weights, f_ell and the symbolic entries of the coupling matrix within the bounds; GSL's LU is a contract (inverse of the matrix it is given)"
BOUNDS = {"quick": "spin pairs 0x0 (lmax 4, 5), 0x2, 2x0 (lmax 3), 2x2 and T-E-B (lmax 3, concrete bins); symbolic matrices, beams, weights, f_ell, spectra; "
                   "FKP normalisation with symbolic mask pixels",
          "thorough": "larger lmax and all entries of the 0x0 matrix symbolic"}
ASSUMPTIONS = ["the binned matrix is invertible, with entries of its inverse below 1e5"]


def make(h, s1, s2, lmax, teb, which, symb, nsym):
    n = 7 if teb else (2 if s1 else 1) * (2 if s2 else 1)
    N = n * (lmax + 1)
    b1 = h.reals("B1", lmax + 1, 0.5, 1.0) if symb else np.linspace(1., 0.7, lmax + 1)
    b2 = h.reals("B2", lmax + 1, 0.5, 1.0) if symb else np.linspace(1., 0.8, lmax + 1)
    f1, _ = wsp.field(h, s1, lmax, beam=b1, seed=1)
    f2, _ = wsp.field(h, s2, lmax, beam=b2, seed=2)
    bins, ells, ww, f = wsp.mkbins(h, "b", lmax, which, symb)
    w = h.nmt.NmtWorkspace.from_fields(f1, f2, bins, is_teb=teb)
    if nsym:
        M = wsp.randmat(h, "M", N, nsym if nsym > 0 else N * N)
        w.update_coupling_matrix(M)
    M = w.get_coupling_matrix()
    return w, M, [b1[l] * b2[l] for l in range(lmax + 1)], ells, ww, f, n


def bincl(cl, ells, ww, f, n):
    """-> [k][i]"""
    r = []
    for k, e in enumerate(ells):
        r.append([s(ww[k][a] * f[l] * cl[i][l] for a, l in enumerate(e)) for i in range(n)])
    return r


def s(it):
    t = 0.0
    for x in it:
        t = t + x
    return t


def inverse_maps(h, s1, s2, lmax, teb=False, which=0, symb=True, nsym=3):
    w, M, bb, ells, ww, f, n = make(h, s1, s2, lmax, teb, which, symb, nsym)
    nb = len(ells)
    nl = lmax + 1
    cl = h.reals("c", (n, nl))
    # coupling
    cc = w.couple_cell(cl)
    h.true("shape", np.shape(cc) == (n, nl))
    for i in range(n):
        for l in range(nl):
            h.close("coupled", cc[i][l], s(M[n * l + i][n * lp + j] * (bb[lp] * cl[j][lp]) for j in range(n) for lp in range(nl)), 1e-9)
    # binned matrix
    B = [[0.0] * (n * nb) for _ in range(n * nb)]
    for k in range(nb):
        for kk in range(nb):
            for i in range(n):
                for j in range(n):
                    B[n * k + i][n * kk + j] = s(ww[k][a] * f[l] / f[lp] * bb[lp] * M[n * l + i][n * lp + j]
                                                 for a, l in enumerate(ells[k]) for lp in ells[kk])
    I = h.inv(B)
    # decoupling of arbitrary spectra with noise and bias
    nz = h.reals("n", (n, nl)) if symb else np.array([[0.1 * l - 0.2 * i for l in range(nl)] for i in range(n)])
    bi = h.reals("bi", (n, nl)) if symb else np.array([[0.3 - 0.2 * l * i for l in range(nl)] for i in range(n)])
    d = w.decouple_cell(cl, cl_noise=nz, cl_bias=bi)
    h.true("shape", np.shape(d) == (n, nb))
    v = bincl([[cl[i][l] - nz[i][l] - bi[i][l] for l in range(nl)] for i in range(n)], ells, ww, f, n)
    for i in range(n):
        for k in range(nb):
            h.close("decoupled", d[i][k], s(I[n * k + i][n * q + j] * v[q][j] for q in range(nb) for j in range(n)), 1e-7)
    d1 = w.decouple_cell(cl, cl_noise=nz)
    d2 = w.decouple_cell(cl, cl_bias=nz)
    h.close("noise and bias enter alike", d1, d2, 1e-7)
    # band-constant spectra are recovered (unit bandpowers, then linearity)
    for q in range(nb):
        for j in range(n):
            u = h.zeros((n, nl))
            for l in ells[q]:
                u[j, l] = 1.0 / f[l]
            r = w.decouple_cell(w.couple_cell(u))
            e = np.zeros((n, nb))
            e[j, q] = 1.0
            h.close("band-constant spectra", r, e, 1e-6)
    # windows
    W = w.get_bandpower_windows()
    h.true("window shape", np.shape(W) == (n, nb, n, nl))
    dd = w.decouple_cell(cc)
    for i in range(n):
        for k in range(nb):
            h.close("windows", dd[i][k], s(W[i][k][j][l] * cl[j][l] for j in range(n) for l in range(nl)), 1e-6)


def fkp(h, s1, s2, lmax, same, which=0):
    f1, m1 = wsp.field(h, s1, lmax, seed=1, sym=[1, 20])
    f2, m2 = (f1, m1) if same else wsp.field(h, s2, lmax, seed=2, sym=[20, 40])
    if same:
        s2 = s1
    n = (2 if s1 else 1) * (2 if s2 else 1)
    bins, ells, ww, f = wsp.mkbins(h, "b", lmax, which)
    w = h.nmt.NmtWorkspace.from_fields(f1, f2, bins, normalization="FKP")
    w2 = s(m1[p] * m2[p] for p in range(48)) * (1. / 48)
    nl = lmax + 1
    cl = h.reals("c", (n, nl))
    nz = h.reals("n", (n, nl))
    d = w.decouple_cell(cl, cl_noise=nz)
    v = bincl([[cl[i][l] - nz[i][l] for l in range(nl)] for i in range(n)], ells, ww, f, n)
    iw = 1. / w2
    for i in range(n):
        for k in range(len(ells)):
            h.close("FKP", d[i][k], v[k][i] * iw, 1e-8)
    W = w.get_bandpower_windows()
    M = w.get_coupling_matrix()
    for i in range(n):
        for k in range(len(ells)):
            for j in range(n):
                for lp in range(nl):
                    h.close("FKP windows", W[i][k][j][lp], s(ww[k][a] * f[l] * M[n * l + i][n * lp + j] for a, l in enumerate(ells[k])) * iw, 1e-7)


def shapes(h):
    w, M, bb, ells, ww, f, n = make(h, 0, 2, 3, False, 0, True, 0)
    ok = h.reals("c", (2, 4))
    for nm, x in (("one spectrum", np.ones((1, 4))), ("four spectra", np.ones((4, 4))), ("short", np.ones((2, 3)))):
        h.raises("couple " + nm, w.couple_cell, x)
        h.raises("decouple " + nm, w.decouple_cell, x)
        h.raises("noise " + nm, w.decouple_cell, np.ones((2, 4)), cl_noise=x)
        h.raises("bias " + nm, w.decouple_cell, np.ones((2, 4)), cl_bias=x)
    # multipoles beyond lmax are not used
    lg = h.zeros((2, 6))
    for i in range(2):
        for l in range(6):
            lg[i, l] = ok[i, l] if l < 4 else h.real("x%d%d" % (i, l))
    h.close("long spectra coupled", w.couple_cell(lg), w.couple_cell(ok))
    h.close("long spectra decoupled", w.decouple_cell(lg), w.decouple_cell(ok))
    h.close("long noise", w.decouple_cell(ok, cl_noise=lg), w.decouple_cell(ok, cl_noise=ok))
    h.close("long bias", w.decouple_cell(lg, cl_bias=lg, cl_noise=lg), w.decouple_cell(ok, cl_bias=ok, cl_noise=ok))


def pure_python(h):
    """inputs given as the arrays are not modified"""
    w, M, bb, ells, ww, f, n = make(h, 0, 0, 4, False, 0, True, 2)
    a, b, c = h.reals("a", (1, 5)), h.reals("b", (1, 5)), h.reals("c", (1, 5))
    a0, b0, c0 = [list(x[0]) for x in (a, b, c)]
    w.couple_cell(a)
    r1 = w.decouple_cell(a, cl_noise=b, cl_bias=c)
    r2 = w.decouple_cell(a, cl_noise=b, cl_bias=c)
    h.close("repeatable", r1, r2)
    h.close("a", a[0], a0, 0)
    h.close("b", b[0], b0, 0)
    h.close("c", c[0], c0, 0)


def cases(tier):
    T = tier != "quick"
    c = []
    for wh in range(3):
        c.append(("00_l4_%d" % wh, inverse_maps, dict(s1=0, s2=0, lmax=4, which=wh, nsym=4), 4))
    c.append(("00_l5", inverse_maps, dict(s1=0, s2=0, lmax=5, which=1, nsym=0), 4))
    c.append(("02", inverse_maps, dict(s1=0, s2=2, lmax=3), 5))
    c.append(("20", inverse_maps, dict(s1=2, s2=0, lmax=3, which=2), 5))
    c.append(("02_mask", inverse_maps, dict(s1=0, s2=2, lmax=3, nsym=0), 5))
    c.append(("22", inverse_maps, dict(s1=2, s2=2, lmax=3, symb=False, nsym=6), 8))
    c.append(("teb", inverse_maps, dict(s1=0, s2=2, lmax=3, teb=True, symb=False, nsym=3), 10))
    for s1, s2, sm in ((0, 0, False), (0, 2, False), (2, 2, True), (0, 0, True)):
        c.append(("fkp_%d%d_%d" % (s1, s2, sm), fkp, dict(s1=s1, s2=s2, lmax=3, same=sm), 3))
    c.append(("shapes", shapes, {}, 3))
    c.append(("unmodified", pure_python, {}, 3))
    if T:
        c.append(("T_00_all", inverse_maps, dict(s1=0, s2=0, lmax=4, nsym=-1), 30))
        c.append(("T_02_more", inverse_maps, dict(s1=0, s2=1, lmax=3, nsym=12), 30))
        c.append(("T_22", inverse_maps, dict(s1=2, s2=2, lmax=3, symb=False, nsym=40, which=1), 30))
    return c
