"""P25: bad input is reported as an error, and objects survive it."""
import numpy as np
from . import flat, wsp, p09, p11, p12, p14

NOTE = ("every index, and every value stored in the arrays, within the bounds; array lengths enumerated by the solver within the bounds; "
        "every memory access of the library checked for bounds, liveness and initialisation on every path")
BOUNDS = {"quick": "indices from -3 to 2 past the end; array lengths 0 to 2 past the right one, one array at a time; 2-3 entry binning tables with multipoles -1..4 and bands -2..2; "
                   "patches of 3x3 pixels, HEALPix nside 2, lmax 3 and 4; every raise statement of bins, field, workspaces, covariance and every size check of the SWIG wrappers",
          "thorough": "3-entry binning tables with wider ranges, two wrong lengths at once"}
ASSUMPTIONS = ["failures inside NumPy, healpy, ducc0 and cfitsio are reported by them; allocation never fails"]


def use(h, lab, f, good, bads):
    """bad calls fail and do not disturb what good calls give"""
    ref = h.flat(f(*good))
    for k, b in bads:
        h.raises("%s: %s" % (lab, k), f, *b)
    h.close("%s: after errors" % lab, f(*good), ref, 0)


def but(args, i, *v):
    """copies of args with argument i replaced"""
    return [(str((i, k)), tuple(x if j == i else a for j, a in enumerate(args))) for k, x in enumerate(v)]


# ---- bins

def index(h, what, lmax=4, which=1):
    b, ells, ww, _ = wsp.mkbins(h, "b", lmax, which)
    n = len(ells)
    i = h.int("i", -3, n + 2)
    f = getattr(b, what)
    if (i >= 0) and (i < n):
        r = f(i)
        k = h.concrete(i)
        h.close("value", r, {"get_ell_list": ells, "get_weight_list": ww, "get_ell_min": [e[0] for e in ells], "get_ell_max": [e[-1] for e in ells]}[what][k], 1e-9)
    else:
        h.raises("index", f, i)


def sizes(h, k, d):
    """one of the arrays of a binning table is too short or too long (or missing)"""
    n = 5
    L = [n] * 4
    L[k] = h.concrete(h.int("n", 0, n + 2)) if not d else L[k]
    a = [np.minimum(np.arange(L[0]), 1), np.arange(L[1]), h.reals("w", L[2], 0.5, 1.), h.reals("f", L[3], 0.5, 1.)]
    if d:
        a[k] = a[k].reshape(1, n)
    f = lambda: h.nmt.NmtBin(bpws=a[0], ells=a[1], weights=a[2], f_ell=a[3], lmax=4)
    if d or L[k] != n:
        h.raises("lengths", f)
    else:
        h.true("bands", f().get_n_bands() == 2)


def table(h, n, lo, hi, blo, bhi, lmax=2, rw=False):
    """any multipoles and bands: refused, or a usable binning"""
    l = [h.int("l%d" % i, lo, hi) for i in range(n)]
    b = [h.int("b%d" % i, blo, bhi) for i in range(n)]
    w = h.reals("w", n, 0.5 if not rw else -1., 1.)
    f = h.reals("f", n, -0.5, 2.)
    al, ab = h.array(l), h.array(b)
    try:
        o = h.nmt.NmtBin(bpws=ab, ells=al, weights=w, f_ell=f, lmax=lmax)
    except (RuntimeError, ValueError):
        o = None
    l, b = [h.concrete(x) for x in l], [h.concrete(x) for x in b]
    used = [i for i in range(n) if l[i] <= lmax and b[i] >= 0]
    nb = max([b[i] for i in range(n) if l[i] <= lmax] + [0]) + 1
    T = [[i for i in used if b[i] == k] for k in range(nb)]
    neg = any(l[i] < 0 for i in used)
    tot = [0.0] * nb
    for k in range(nb):
        for i in T[k]:
            tot[k] = tot[k] + w[i]
    if o is None:
        if neg or any(not t for t in T):
            h.true("refused", True)
            return
        ok = False
        for t in tot:
            if t <= 0:
                ok = True
        h.true("refused without a reason", ok)
        return
    h.true("negative multipoles accepted", not neg)
    h.true("empty band accepted", all(T))
    h.true("bands", o.get_n_bands() == nb)
    if rw:
        return
    cl = h.reals("c", lmax + 1)
    r = o.bin_cell(cl)
    for k in range(nb):
        x = 0.0
        for i in T[k]:
            x = x + w[i] * cl[l[i]] * (f[i] if f[i] > 0 else 1.0)
        h.close("bandpower", r[k] * tot[k], x, 1e-8)
        h.true("multipoles", [int(v) for v in o.get_ell_list(k)] == [l[i] for i in T[k]])
    u = o.unbin_cell(r)
    h.true("size", len(u) == lmax + 1)


def bincalls(h, lmax=4):
    b, ells, _, _ = wsp.mkbins(h, "b", lmax, 1)
    n = h.concrete(h.int("n", 0, lmax + 3))
    for f, m in ((b.bin_cell, lmax + 1), (b.unbin_cell, len(ells))):
        for sh in ((n,), (1, n), (2, n)):
            if n == m:
                h.true("accepted", f(h.reals("c", sh)).ndim == len(sh))
            else:
                h.raises("size", f, h.reals("c", sh))
        h.raises("three dimensions", f, h.reals("c", (1, 2, m)))
        h.raises("no dimension", f, np.array(1.))
    B = h.nmt.NmtBinFlat(np.array([1., 3., 5.]), np.array([3., 5., 9.]))
    ls = np.array([0., 2., 6., 11.])
    for sh in ((n,), (1, n), (2, n)):
        if n == 4:
            h.true("accepted", B.bin_cell(ls, h.reals("c", sh)).ndim == len(sh))
        else:
            h.raises("size", B.bin_cell, ls, h.reals("c", sh))
        if n == 3:
            h.true("accepted", B.unbin_cell(h.reals("c", sh), ls).shape[-1] == 4)
        else:
            h.raises("size", B.unbin_cell, h.reals("c", sh), ls)
    h.raises("three dimensions", B.bin_cell, ls, np.ones((1, 2, 4)))
    h.raises("three dimensions", B.unbin_cell, np.ones((1, 2, 3)), ls)
    if n != 3:
        h.raises("edges", h.nmt.NmtBinFlat, np.array([1., 3., 5.]), np.arange(3., 3. + n))
        h.raises("edges", h.nmt.NmtBinFlat, np.arange(1., 1. + n), np.array([3., 5., 9.]))
    h.close("unchanged", B.get_effective_ells(), [2., 4., 7.], 1e-12)


def edges(h):
    E = h.nmt.NmtBin.from_edges
    n = h.concrete(h.int("n", 0, 4))
    lo, hi = np.array([0, 2, 4, 6])[:n], np.array([2, 4, 6])
    if n == 3:
        h.true("accepted", E(lo, hi).get_n_bands() == 3)
    else:
        h.raises("number of edges", E, lo, hi)
        h.raises("number of edges", E, hi, lo + 4)
    for z in (4, 3, 0):
        h.raises("empty band", E, np.array([0, 4]), np.array([4, z]))
        h.raises("empty band", E, np.array([4, 0]), np.array([z, 4]))
    for nlb in (0, -1):
        h.raises("band width", h.nmt.NmtBin.from_lmax_linear, 6, nlb)
        h.raises("band width", h.nmt.NmtBin.from_nside_linear, 2, nlb)
    h.raises("no band fits", h.nmt.NmtBin.from_lmax_linear, 3, 5)
    h.raises("f_ell", h.nmt.NmtBin.from_lmax_linear, 6, 2, f_ell=np.ones(3))
    h.raises("f_ell", E, np.array([0, 2]), np.array([2, 4]), f_ell=np.ones(3))


# ---- wrappers called with the wrong sizes

def wlen(h, f, args, i, right, mk, more=()):
    """argument i (made by mk(n)) of a wrapper has n elements"""
    n = h.concrete(h.int("n", 0, right + 2))
    a = list(args)
    a[i] = mk(n)
    if n == right:
        f(*a)
    else:
        h.raises("size %d" % i, f, *a)


def wrappers(h, k):
    L = h.lib
    b, ells, _, _ = wsp.mkbins(h, "b", 4, 1)
    B = h.nmt.NmtBinFlat(np.array([1., 3.]), np.array([3., 5.]))
    vec = lambda n: h.reals("v", n, 0.1, 1.)
    num = lambda n: n
    nb = len(ells)
    one = np.ones
    g = flat.geo("3x3")
    if k in ("getters", "fget"):
        for f, m in ((L.get_nell_list, nb), (L.get_ell_eff, nb)):
            wlen(h, f, [b.bin, None], 1, m, num)
        wlen(h, L.get_ell_eff_flat, [B.bin, None], 1, 2, num)
        wlen(h, L.get_ell_list, [b.bin, 1, None], 2, len(ells[1]), num)
        wlen(h, L.get_weight_list, [b.bin, 1, None], 2, len(ells[1]), num)
        i = h.int("i", -3, nb + 2)
        if not ((i >= 0) and (i < nb)):
            h.raises("band", L.get_nell, b.bin, i)
            h.raises("band", L.get_ell_list, b.bin, i, 1)
            h.raises("band", L.get_weight_list, b.bin, i, 1)
    if k == "bins":
        for i in range(4):
            I = lambda n: np.minimum(np.arange(n), 1).astype(np.int32)
            wlen(h, L.bins_create_py, [I(3), np.arange(3, dtype=np.int32), one(3), one(3), 2], i, 3, I if i < 2 else vec)
        wlen(h, L.bins_flat_create_py, [None, np.array([2., 3., 4.])], 0, 3, lambda n: np.arange(1., n + 1))
        wlen(h, L.bin_cl, [b.bin, one((2, 5)), None], 2, 2 * nb, num)
        wlen(h, L.bin_cl_flat, [B.bin, np.arange(4.), one((2, 4)), None], 3, 4, num)
        wlen(h, L.bin_cl_flat, [B.bin, None, one((2, 4)), 4], 1, 4, lambda n: np.arange(float(n)))
        wlen(h, L.unbin_cl_flat, [B.bin, one((2, 2)), np.arange(4.), None], 3, 8, num)
        wlen(h, L.unbin_cl_flat, [B.bin, None, np.arange(4.), 8], 1, 2, lambda n: one((2, n)))
        wlen(h, L.unbin_cl, [b.bin, None, 10], 1, nb, lambda n: one((2, n)))
        n = h.concrete(h.int("n", 0, 7))
        if n < 5:       # fewer multipoles than in the bins
            h.raises("bin_cl", L.bin_cl, b.bin, one((2, n)), 2 * nb)
            h.raises("unbin_cl", L.unbin_cl, b.bin, one((2, nb)), 2 * n)
    if k in ("field", "fget"):
        u = [1.0] * 3
        f = flat.field(h, g, [u] * 3, [[u] * 3] * 2, templates=h.array([[[u] * 3, [[0.5, 1., 2.]] * 3]]))
    if k == "field":
        beam = np.array([[0., 50.], [1., 1.]])
        E = L.field_alloc_empty_flat
        wlen(h, E, [3, 3, 1., 1., 0, None, beam, 0, 0], 5, 9, vec)
        wlen(h, E, [3, 3, 1., 1., 0, one(9), None, 0, 0], 6, 2, lambda n: np.array([[0., 10., 50.]] * n).reshape(n, 3))
        N = L.field_alloc_new_notemp_flat
        wlen(h, N, [3, 3, 1., 1., 0, one(9), None, beam, 0, 0, 0, 0], 6, 9, lambda n: one((1, n)))
        wlen(h, N, [3, 3, 1., 1., 0, None, one((1, 9)), beam, 0, 0, 0, 0], 5, 9, vec)
        n = h.concrete(h.int("n", 0, 7))
        if n not in (1, 2):
            h.raises("maps", N, 3, 3, 1., 1., 2, one(9), one((n, 9)), beam, 0, 0, 0, 0)
        T = L.field_alloc_new_flat
        wlen(h, T, [3, 3, 1., 1., 0, one(9), one((1, 9)), None, beam, 0, 0, 1e-5, 0, 0], 7, 9, lambda n: one((1, 1, n)))
        wlen(h, T, [3, 3, 1., 1., 0, one(9), one((1, 9)), None, beam, 0, 0, 1e-5, 0, 0], 7, 1, lambda n: one((1, n, 9)))
        for i in (2, 3):
            for v in (0., -1.):
                a = [3, 3, 1., 1.]
                a[i] = v
                h.raises("size", E, *a, 0, one(9), beam, 0, 0)
                h.raises("size", N, *a, 0, one(9), one((1, 9)), beam, 0, 0, 0, 0)
                h.raises("size", T, *a, 0, one(9), one((1, 9)), one((1, 1, 9)), beam, 0, 0, 1e-5, 0, 0)
    if k == "fget":
        wlen(h, L.get_mask_flat, [f.fl, None], 1, 9, num)
        wlen(h, L.get_map_flat, [f.fl, 1, None], 2, 9, num)
        wlen(h, L.get_temp_flat, [f.fl, 0, 1, None], 3, 9, num)
        wlen(h, L.get_ell_sampling_flat, [f.fl, None], 1, f.fl.fs.n_ell, num)
        j = h.int("j", -2, 4)
        if not ((j >= 0) and (j < 2)):
            h.raises("map", L.get_map_flat, f.fl, j, 9)
            h.raises("map", L.get_temp_flat, f.fl, 0, j, 9)
        t = h.int("t", -2, 3)
        if not (t == 0):
            h.raises("template", L.get_temp_flat, f.fl, t, 0, 9)
    if k == "apo":
        n = h.concrete(h.int("n", 0, 50))
        if n not in (12, 48):
            h.raises("pixels", L.apomask, one(n), n, 1., "C1")
        h.raises("output", L.apomask, one(48), 47, 1., "C1")
        h.raises("output", L.apomask, one(48), 49, 1., "C1")
        A = L.apomask_flat
        for a in ((3, 4, 1., 1., one(9), 9), (3, 3, 1., 1., one(9), 8), (3, 3, 1., 1., one(9), 10), (3, 3, 0., 1., one(9), 9), (3, 3, 1., -1., one(9), 9), (3, 2, 1., 1., one(9), 6)):
            h.raises("flat", A, *a, 1., "C1")
        for t in ("", "C3", "Smoothly", "c1"):
            h.raises("type", A, 3, 3, 1., 1., one(9), 9, 10., t)
            h.raises("type", L.apomask, one(48), 48, 10., t)
        for s in (-1.,):
            h.raises("scale", A, 3, 3, 1., 1., one(9), 9, s, "C1")
            h.raises("scale", L.apomask, one(48), 48, s, "C1")
    if k == "syn":
        S = L.synfast_new_flat
        good = [3, 3, 1., 1., np.array([0, 2], dtype=np.int32), 7, one((6, 5)), one((2, 5)), 27]
        wlen(h, S, good, 6, 6, lambda n: one((n, 5)))
        wlen(h, S, good, 7, 2, lambda n: one((n, 5)))
        wlen(h, S, good, 7, 5, lambda n: one((2, n)))
        h.raises("output", S, *good[:8], 26)
        h.raises("output", S, *good[:8], 9)
        for i in (2, 3):
            h.raises("size", S, *but(good, i, 0.)[0][1])


def wcurved(h, k):
    L = h.lib
    lmax, lm = 3, 4
    b, _, _, _ = wsp.mkbins(h, "b", lmax, 0, False)
    b4, _, _, _ = wsp.mkbins(h, "x", 4, 0, False)
    one = np.ones
    vec = lambda n: h.reals("v", n, 0.1, 1.)
    num = lambda n: n
    pk = np.array([1., .3, .2, .1, .05])
    C = [0, 0, lmax, lm, 0, 0, 0, 0, 0, 1., one(4), one(4), pk, b.bin, 0, -1, -1, -1]
    A = [2, 2, 1, 1, lmax, lm] + [0.1 * pk] * 9 + [one(4), one(4), b.bin, 0, 1.]
    if k == "mcm":
        wlen(h, L.comp_coupling_matrix, C, 10, 4, vec)
        wlen(h, L.comp_coupling_matrix, C, 11, 4, vec)
        wlen(h, L.comp_coupling_matrix, C, 12, 5, vec)
        h.raises("bins", L.comp_coupling_matrix, *C[:13], b4.bin, *C[14:])
        for s in ((0, 0), (2, 0), (2, 2)):
            h.raises("teb", L.comp_coupling_matrix, *s, *C[2:14], 1, -1, -1, -1)
    if k == "aniso":
        for i in range(6, 15):
            wlen(h, L.comp_coupling_matrix_anisotropic, A, i, 5, vec)
        for i in (15, 16):
            wlen(h, L.comp_coupling_matrix_anisotropic, A, i, 4, vec)
        h.raises("bins", L.comp_coupling_matrix_anisotropic, *A[:17], b4.bin, *A[18:])
    if k in ("use", "use2", "cov", "cov2"):
        w = p11.build(h, 0, 2 if k != "cov2" else 0, lmax, False, "MASTER", 0, False, 2)
        W = w.wsp
        nc, nb = W.ncls, W.bin.n_bands
    if k == "use":
        cl, nz = h.reals("c", (nc, 4)), h.reals("z", (nc, 4))
        ref = w.decouple_cell(cl, cl_noise=nz)
        D = L.decouple_cell_py
        good = [W, cl, nz, one((nc, 4)), nc * nb]
        for i in (1, 2, 3):
            wlen(h, D, good, i, nc, lambda n: one((n, 4)))
            n = h.concrete(h.int("n", 0, 4))
            if n != 4:
                h.raises("multipoles", D, *but(good, i, one((nc, n)))[0][1])
        wlen(h, D, good, 4, nc * nb, num)
        h.raises("short spectra", D, W, *[one((nc, 3))] * 3, nc * nb)
        Cc = L.couple_cell_py
        wlen(h, Cc, [W, cl, None], 2, nc * 4, num)
        wlen(h, Cc, [W, None, nc * 4], 1, nc, lambda n: one((n, 4)))
        h.raises("short spectra", Cc, W, one((nc, 3)), nc * 3)
        h.close("after errors", w.decouple_cell(cl, cl_noise=nz), ref, 0)
    if k == "use2":
        cl = h.reals("c", (nc, 4))
        ref = h.flat(w.decouple_cell(cl)) + h.flat(w.couple_cell(cl))
        n = h.concrete(h.int("n", 0, 6))
        if n != 8:
            h.raises("matrix", L.update_mcm, W, n, one(n * n))
        h.raises("matrix", L.update_mcm, W, 8, one(8 * n))
        h.raises("windows", L.get_bandpower_windows, W, nc * nb * nc * 4 - 1 - n)
        h.raises("windows", L.get_bandpower_windows, W, nc * nb * nc * 4 + 1 + n)
        h.raises("matrix size", L.get_mcm, W, 64 - 1 - n)
        if n < 4:
            h.raises("beam", L.wsp_update_beams, W, one(n), one(4))
            h.raises("beam", L.wsp_update_beams, W, one(4), one(n))
        h.raises("bins", L.wsp_update_bins, W, b4.bin)
        h.close("after errors", h.flat(w.decouple_cell(cl)) + h.flat(w.couple_cell(cl)), ref, 0)
    if k in ("cov", "cov2"):
        p = h.reals("p", 4, -.5, 1.)
        cw = p09.cwsp(h, p, p, lmax, lmax)
        sp = (0, 2, 0, 2) if k == "cov" else (0, 0, 0, 0)
        cl = p09.spectra(h, sp, 4)
        keep = p09.gc(h, cw, sp, cl, w, w)
        for F, N in ((L.comp_gaussian_covariance, (nc * nb) ** 2), (L.comp_gaussian_covariance_coupled, (nc * 4) ** 2)):
            x = [h.array(cl[i]) if not isinstance(cl, dict) else None for i in range(4)] if not isinstance(cl, dict) else None
            ns = [(2 if sp[i] else 1) * (2 if sp[j] else 1) for i, j in ((0, 2), (0, 3), (1, 2), (1, 3))]
            x = [one((m, 4)) for m in ns]
            good = [cw.wsp, *sp, W, W, *x, N]
            F(*good)
            for i in range(4):
                for n in range(6):
                    if n != 4:
                        h.raises("multipoles", F, *but(good, 7 + i, one((ns[i], n)))[0][1])
                    if n != ns[i]:
                        h.raises("spectra", F, *but(good, 7 + i, one((n, 4)))[0][1])
            for n in (0, N - 1, N + 1):
                h.raises("output", F, *good[:-1], n)
            for n in (0, 3):
                h.raises("short spectra", F, cw.wsp, *sp, W, W, *[one((m, n)) for m in ns], N)
        h.close("after errors", p09.gc(h, cw, sp, cl, w, w), keep, 0)
        I = L.covar_workspace_init_py
        wlen(h, I, [None, one(5), 3, 4, -1, -1, -1, 0], 0, 5, vec)
        wlen(h, I, [one(5), None, 3, 4, -1, -1, -1, 0], 1, 5, vec)


def wflat(h, k):
    L = h.lib
    g = flat.geo("3x3")
    one = np.ones
    vec = lambda n: h.reals("v", n, 0.1, 1.)
    num = lambda n: n
    l0, lf = p12.bands(g, 2)
    b = h.nmt.NmtBinFlat(np.array(l0), np.array(lf))
    r = np.random.RandomState(1)
    F = lambda s, **kw: h.nmt.NmtFieldFlat(g.lx, g.ly, np.round(.5 + .5 * r.rand(3, 3), 2), np.round(r.rand(2 if s else 1, 3, 3), 2), spin=s, **kw)
    f0, f2 = F(0), F(2)
    w = h.nmt.NmtWorkspaceFlat()
    w.compute_coupling_matrix(f0, f2, b)
    ls = np.array([0., 9., 22.])
    if k == "spectra":
        P = [f0.fl, f2.fl, b.bin, None, 1., -1., 1., -1.]
        wlen(h, L.comp_pspec_coupled_flat, P, 3, 4, num)
        D = L.comp_deproj_bias_flat
        G = [f0.fl, f2.fl, b.bin, 1., -1., 1., -1., ls, one((2, 3)), 4]
        wlen(h, D, G, 7, 3, lambda n: np.arange(float(n)))
        wlen(h, D, G, 8, 2, lambda n: one((n, 3)))
        wlen(h, D, G, 9, 4, num)
    if k == "master":
        M = L.comp_pspec_flat
        G = [f0.fl, f2.fl, b.bin, w.wsp, one((2, 2)), ls, one((2, 3)), 4, 1., -1., 1., -1.]
        wlen(h, M, G, 4, 2, lambda n: one((n, 2)))
        wlen(h, M, G, 4, 2, lambda n: one((2, n)))
        wlen(h, M, G, 5, 3, lambda n: np.arange(float(n)))
        wlen(h, M, G, 6, 2, lambda n: one((n, 3)))
        wlen(h, M, G, 7, 4, num)
        wo = h.nmt.NmtWorkspaceFlat()
        for a, c, t in ((f0, f0, False), (f2, f2, False), (f0, f2, True)):
            wo.compute_coupling_matrix(a, c, b, is_teb=t)
            h.raises("workspace", M, *but(G, 3, wo.wsp)[0][1])
    if k == "use":
        D = L.decouple_cell_py_flat
        G = [w.wsp, one((2, 2)), one((2, 2)), one((2, 2)), 4]
        for i in (1, 2, 3):
            wlen(h, D, G, i, 2, lambda n: one((n, 2)))
            wlen(h, D, G, i, 2, lambda n: one((2, n)))
        wlen(h, D, G, 4, 4, num)
        Cc = L.couple_cell_py_flat
        wlen(h, Cc, [w.wsp, None, one((2, 3)), 4], 1, 3, lambda n: np.arange(float(n)))
        wlen(h, Cc, [w.wsp, ls, None, 4], 2, 2, lambda n: one((n, 3)))
        wlen(h, Cc, [w.wsp, ls, one((2, 3)), None], 3, 4, num)
    if k == "cov":
        cw = h.nmt.NmtCovarianceWorkspaceFlat()
        cw.compute_coupling_coefficients(f0, f2, b)
        V = L.comp_gaussian_covariance_flat
        sp = (0, 2, 0, 2)
        ns = [1, 2, 2, 4]
        G = [cw.wsp, *sp, w.wsp, w.wsp, ls] + [one((m, 3)) for m in ns] + [16]
        V(*G)
        for i in range(4):
            for n in range(6):
                if n != 3:
                    h.raises("multipoles", V, *but(G, 8 + i, one((ns[i], n)))[0][1])
                if n != ns[i]:
                    h.raises("spectra", V, *but(G, 8 + i, one((n, 3)))[0][1])
        for n in (0, 15, 17):
            h.raises("output", V, *G[:-1], n)
        wlen(h, V, G, 7, 3, lambda n: np.arange(float(n)))


# ---- flat sky

def mk(h, g, s, w=None, seed=1, lx=None, ly=None, **kw):
    r = np.random.RandomState(seed)
    w = np.round(.5 + .5 * r.rand(g.ny, g.nx), 2) if w is None else w
    return h.nmt.NmtFieldFlat(lx or g.lx, ly or g.ly, w, np.round(r.rand(2 if s else 1, g.ny, g.nx), 2), spin=s, **kw)


def sampling(h, k):
    """functions of the multipole: at least two points, in strictly increasing order"""
    g = flat.geo("3x3")
    l0, lf = p12.bands(g, 2)
    b = h.nmt.NmtBinFlat(np.array(l0), np.array(lf))
    n = h.concrete(h.int("n", 0, 3))
    l = h.reals("l", n, 0., 40.)
    one = np.ones
    if k == "beam":
        f = lambda: h.nmt.NmtFieldFlat(g.lx, g.ly, one((3, 3)), None, spin=0, beam=h.array([list(l), [1.] * n]))
    if k == "bin":
        f = lambda: b.bin_cell(l, one(n))
    if k in ("couple", "bias", "cov"):
        a = mk(h, g, 0, templates=one((1, 1, 3, 3)) if k == "bias" else None)
        w = h.nmt.NmtWorkspaceFlat()
        w.compute_coupling_matrix(a, a, b)
    if k == "couple":
        f = lambda: w.couple_cell(l, one((1, n)))
    if k == "bias":
        f = lambda: h.nmt.deprojection_bias_flat(a, a, b, l, one((1, n)))
    if k == "cov":
        cw = h.nmt.NmtCovarianceWorkspaceFlat()
        cw.compute_coupling_coefficients(a, a, b)
        c = one((1, n))
        f = lambda: h.nmt.gaussian_covariance_flat(cw, 0, 0, 0, 0, l, c, c, c, c, w)
    ok = n > 1
    for i in range(n - 1):
        if l[i + 1] <= l[i]:
            ok = False
    if ok:
        f()
        h.true("accepted", True)
    else:
        h.raises("points", f)


def flatfield(h):
    g = flat.geo("3x3")
    F = h.nmt.NmtFieldFlat
    w, m = np.ones((3, 3)), np.ones((3, 3))
    for x in (0., -1.):
        h.raises("size", F, x, 1., w, [m])
        h.raises("size", F, 1., x, w, [m])
        h.raises("size, no maps", F, 1., x, w, None, spin=0)
        h.raises("size, templates", F, x, 1., w, [m], templates=[[m]])
    h.raises("no maps", F, 1., 1., w, [])
    h.raises("three maps", F, 1., 1., w, [m, m, m])
    h.raises("mask dimensions", F, 1., 1., np.ones(9), [m])
    for sh in ((3, 4), (4, 3), (9,), (1, 9), (2, 3), (3, 2), (9, 1)):
        h.raises("map shape", F, 1., 1., w, [np.ones(sh)])
        h.raises("map shape", F, 1., 1., w, [m, np.ones(sh)])
        h.raises("mask shape", F, 1., 1., np.ones(sh), [m])
        h.raises("template shape", F, 1., 1., w, [m], templates=[[np.ones(sh)]])
        h.raises("template shape", F, 1., 1., w, [m], templates=[[m], [np.ones(sh)]])
    h.raises("templates", F, 1., 1., w, [m], templates=[[m, m]])
    h.raises("templates", F, 1., 1., w, [m, m], templates=[[m]])
    h.raises("templates", F, 1., 1., w, [m], templates=5.)
    h.raises("beam", F, 1., 1., w, [m], beam=1.)
    for bm in (np.ones(4), np.ones((1, 4)), np.ones((3, 4)), np.ones((2, 0))):
        h.raises("beam shape", F, 1., 1., w, [m], beam=bm)
        h.raises("beam shape", F, 1., 1., w, None, spin=0, beam=bm)
    for s, n in ((0, 2), (1, 1), (2, 1)):
        h.raises("spin", F, 1., 1., w, [m] * n, spin=s)
    for s, n in ((0, 1), (1, 2), (3, 2)):
        for p in (dict(purify_e=True), dict(purify_b=True), dict(purify_e=True, purify_b=True)):
            h.raises("purification", F, 1., 1., w, [m] * n, spin=s, **p)
            h.raises("purification, no maps", F, 1., 1., w, None, spin=s, **p)
    h.raises("spin needed", F, 1., 1., w, None)
    for f in (F(1., 1., w, [m], lite=True), F(1., 1., w, None, spin=2)):
        h.raises("maps", f.get_maps)
        h.raises("templates", f.get_templates)
        h.close("mask", f.get_mask(), w, 0)


def flatwork(h):
    """workspaces: the old contents survive every refused operation"""
    g = flat.geo("3x3")
    l0, lf = p12.bands(g, 2)
    b = h.nmt.NmtBinFlat(np.array(l0), np.array(lf))
    f0, f2 = mk(h, g, 0), mk(h, g, 2, seed=2)
    W = h.nmt.NmtWorkspaceFlat
    u = W()
    ls, c = np.array([0., 9., 22.]), h.reals("c", (2, 3))
    h.raises("uninitialised", u.write_to, h.file("u"))
    h.raises("uninitialised", u.couple_cell, ls, c)
    h.raises("uninitialised", u.decouple_cell, c)
    w = W()
    w.compute_coupling_matrix(f0, f2, b)
    cw = h.nmt.NmtCovarianceWorkspaceFlat()
    cw.compute_coupling_coefficients(f0, f0, b)
    cw.write_to(h.file("c"))
    out = lambda: h.flat(w.couple_cell(ls, c)) + h.flat(w.decouple_cell(c[:, :2], cl_noise=c[:, 1:]))
    ref = out()
    others = [mk(h, flat.geo("3x5"), 2), mk(h, flat.geo("5x3"), 2), mk(h, g, 2, lx=2 * g.lx), mk(h, g, 2, ly=2 * g.ly)]
    for o in others:
        h.raises("patches", w.compute_coupling_matrix, f0, o, b)
        h.raises("patches", w.compute_coupling_matrix, o, f2, b)
    for a, d in ((f0, f0), (f2, f0), (f2, f2)):
        h.raises("teb", w.compute_coupling_matrix, a, d, b, is_teb=True)
    h.raises("no fields", w.compute_coupling_matrix, None, f2, b)
    h.raises("no bins", w.compute_coupling_matrix, f0, f2, None)
    h.raises("no file", w.read_from, h.file("none"))
    h.raises("another kind of file", w.read_from, h.file("c"))
    h.close("contents", out(), ref, 0)
    n = h.concrete(h.int("n", 0, 5))
    one = np.ones
    if n != 2:
        h.raises("spectra", w.couple_cell, ls, one((n, 3)))
        h.raises("spectra", w.decouple_cell, one((n, 2)))
        h.raises("bands", w.decouple_cell, one((2, n)))
        for kw in ("cl_bias", "cl_noise"):
            h.raises(kw, w.decouple_cell, one((2, 2)), **{kw: one((2, n))})
            h.raises(kw, w.decouple_cell, one((2, 2)), **{kw: one((n, 2))})
    if n != 3:
        h.raises("multipoles", w.couple_cell, ls, one((2, n)))
        h.raises("multipoles", w.couple_cell, np.arange(float(n)), one((2, 3)))
    h.close("contents", out(), ref, 0)


def flatmaster(h):
    g = flat.geo("3x3")
    l0, lf = p12.bands(g, 2)
    b = h.nmt.NmtBinFlat(np.array(l0), np.array(lf))
    b3 = h.nmt.NmtBinFlat(np.array([1., 5., 9.]), np.array([5., 9., 40.]))
    bx = h.nmt.NmtBinFlat(np.array(l0), np.array(lf) - 0.5)
    by = h.nmt.NmtBinFlat(np.array(l0) + 0.25, np.array(lf))
    f0, f2 = mk(h, g, 0), mk(h, g, 2, seed=2)
    w = h.nmt.NmtWorkspaceFlat()
    w.compute_coupling_matrix(f0, f2, b)
    ls, one = np.array([0., 9., 22.]), np.ones
    M = h.nmt.compute_full_master_flat
    c, z = h.reals("c", (2, 3)), h.reals("z", (2, 2))
    kw = dict(cl_noise=z, cl_guess=c, ells_guess=ls, workspace=w)
    ref = M(f0, f2, b, **kw)
    others = [mk(h, flat.geo("3x5"), 2), mk(h, flat.geo("5x3"), 2), mk(h, g, 2, lx=2 * g.lx), mk(h, g, 2, ly=2 * g.ly)]
    C, D = h.nmt.compute_coupled_cell_flat, h.nmt.deprojection_bias_flat
    for o in others:
        for ws in (w, None):
            h.raises("patches", M, f0, o, b, **dict(kw, workspace=ws))
            h.raises("patches", M, o, f2, b, **dict(kw, workspace=ws, cl_noise=None, cl_guess=None))
        h.raises("patches", C, f0, o, b)
        h.raises("patches", C, o, f2, b)
        h.raises("patches", D, f0, o, b, ls, c)
        h.raises("patches", D, o, f0, b, ls, c)
    o = mk(h, g, 0, seed=4, lx=2 * g.lx)
    h.raises("workspace of other patches", M, o, mk(h, g, 2, seed=5, lx=2 * g.lx), b, **kw)
    for bb, t in ((b3, "number"), (bx, "upper edges"), (by, "lower edges")):
        h.raises("workspace with other bands: " + t, M, f0, f2, bb, **dict(kw, cl_noise=None))
    wo = h.nmt.NmtWorkspaceFlat()
    for a, d, t in ((f0, f0, False), (f2, f2, False), (f0, f2, True)):
        wo.compute_coupling_matrix(a, d, b, is_teb=t)
        h.raises("workspace with other spectra", M, f0, f2, b, **dict(kw, workspace=wo))
    lite, mo = mk(h, g, 2, lite=True), h.nmt.NmtFieldFlat(g.lx, g.ly, one((3, 3)), None, spin=2)
    for x in (lite, mo):
        h.raises("lite", M, f0, x, b, **kw)
        h.raises("lite", D, f0, x, b, ls, c)
        h.raises("lite", D, x, x, b, ls, one((4, 3)))
    h.raises("no maps", C, f0, mo, b)
    h.raises("no maps", C, mo, f0, b)
    n = h.concrete(h.int("n", 0, 5))
    if n != 2:
        h.raises("noise", M, f0, f2, b, **dict(kw, cl_noise=one((n, 2))))
        h.raises("noise", M, f0, f2, b, **dict(kw, cl_noise=one((2, n))))
        h.raises("guess", M, f0, f2, b, **dict(kw, cl_guess=one((n, 3))))
        h.raises("spectra", D, f0, f2, b, ls, one((n, 3)))
    if n != 3:
        h.raises("guess", M, f0, f2, b, **dict(kw, cl_guess=one((2, n))))
        h.raises("guess", M, f0, f2, b, **dict(kw, ells_guess=np.arange(float(n))))
        h.raises("multipoles", D, f0, f2, b, ls, one((2, n)))
        h.raises("multipoles", D, f0, f2, b, np.arange(float(n)), c)
    h.raises("multipoles of the guess", M, f0, f2, b, **dict(kw, ells_guess=None))
    h.close("after errors", M(f0, f2, b, **kw), ref, 0)


def flatcov(h):
    g = flat.geo("3x3")
    l0, lf = p12.bands(g, 2)
    b = h.nmt.NmtBinFlat(np.array(l0), np.array(lf))
    b3 = h.nmt.NmtBinFlat(np.array([1., 5., 9.]), np.array([5., 9., 40.]))
    bx = h.nmt.NmtBinFlat(np.array(l0), np.array(lf) - 0.5)
    by = h.nmt.NmtBinFlat(np.array(l0) + 0.25, np.array(lf))
    f0, f2 = mk(h, g, 0), mk(h, g, 2, seed=2)
    w = h.nmt.NmtWorkspaceFlat()
    w.compute_coupling_matrix(f0, f0, b)
    w.write_to(h.file("w"))
    cw = h.nmt.NmtCovarianceWorkspaceFlat()
    G, ls, one = h.nmt.gaussian_covariance_flat, np.array([0., 9., 22.]), np.ones
    c = h.reals("c", (1, 3))
    h.raises("uninitialised", cw.write_to, h.file("x"))
    h.raises("uninitialised", G, cw, 0, 0, 0, 0, ls, c, c, c, c, w)
    cw.compute_coupling_coefficients(f0, f0, b)
    out = lambda: G(cw, 0, 0, 0, 0, ls, c, c, c, c, w)
    ref = out()
    K = cw.compute_coupling_coefficients
    others = [mk(h, flat.geo("3x5"), 0), mk(h, flat.geo("5x3"), 0), mk(h, g, 0, lx=2 * g.lx), mk(h, g, 0, ly=2 * g.ly)]
    for o in others:
        h.raises("patches", K, f0, o, b)
        h.raises("patches", K, o, f0, b)
        h.raises("patches", K, f0, f0, b, o, f0, b)
        h.raises("patches", K, f0, f0, b, f0, o, b)
    for bb, t in ((b3, "number"), (bx, "upper edges"), (by, "lower edges")):
        h.raises("bands: " + t, K, f0, f0, b, f0, f0, bb)
        h.raises("bands: " + t, K, f0, f0, bb, f0, f0, b)
        wo = h.nmt.NmtWorkspaceFlat()
        wo.compute_coupling_matrix(f0, f0, bb)
        h.raises("workspace bands: " + t, G, cw, 0, 0, 0, 0, ls, c, c, c, c, wo)
        h.raises("workspace bands: " + t, G, cw, 0, 0, 0, 0, ls, c, c, c, c, w, wo)
    h.raises("no file", cw.read_from, h.file("none"))
    h.raises("another kind of file", cw.read_from, h.file("w"))
    h.close("contents", out(), ref, 0)
    wt = h.nmt.NmtWorkspaceFlat()
    for s in ((0, 2), (2, 0), (2, 2)):
        h.raises("spins", G, cw, *s, 0, 0, ls, c, c, c, c, w)
        h.raises("spins", G, cw, 0, 0, *s, ls, c, c, c, c, w)
    wt.compute_coupling_matrix(f0, f2, b)
    h.raises("spins", G, cw, 0, 0, 0, 0, ls, c, c, c, c, wt)
    h.raises("spins", G, cw, 0, 0, 0, 0, ls, c, c, c, c, w, wt)
    n = h.concrete(h.int("n", 0, 5))
    for i in range(4):
        x = [c] * 4
        if n != 1:
            x[i] = one((n, 3))
            h.raises("spectra", G, cw, 0, 0, 0, 0, ls, *x, w)
        if n != 3:
            x[i] = one((1, n))
            h.raises("multipoles", G, cw, 0, 0, 0, 0, ls, *x, w)
    h.close("after errors", out(), ref, 0)


# ---- curved sky

def curvedwork(h):
    lmax = 3
    b, b4 = wsp.mkbins(h, "b", lmax, 0, False)[0], wsp.mkbins(h, "x", 4, 0, False)[0]
    F = lambda s, **kw: wsp.field(h, s, kw.pop("lmax", lmax), **kw)[0]
    f0, f2 = F(0), F(2, seed=2)
    W = h.nmt.NmtWorkspace
    one = np.ones
    u = W()
    c = h.reals("c", (2, 4))
    for nm, f, a in (("write", u.write_to, (h.file("u"),)), ("matrix", u.get_coupling_matrix, ()), ("update", u.update_coupling_matrix, (np.eye(8),)), ("bins", u.update_bins, (b,)), ("beams", u.update_beams, (one(4), one(4))),
                     ("couple", u.couple_cell, (c,)), ("decouple", u.decouple_cell, (c,)), ("windows", u.get_bandpower_windows, ())):
        h.raises("uninitialised: " + nm, f, *a)
    w = W.from_fields(f0, f2, b)
    cw = h.nmt.NmtCovarianceWorkspace.from_fields(f0, f0)
    cw.write_to(h.file("c"))
    wf = h.nmt.NmtWorkspaceFlat()
    g = flat.geo("3x3")
    wf.compute_coupling_matrix(mk(h, g, 0), mk(h, g, 0), h.nmt.NmtBinFlat(np.array([1., 9.]), np.array([9., 30.])))
    wf.write_to(h.file("f"))
    out = lambda: h.flat(w.couple_cell(c)) + h.flat(w.decouple_cell(c)) + h.flat(w.get_bandpower_windows())
    ref = out()
    K = w.compute_coupling_matrix
    for nm, a, kw in (("lmax", (f0, F(2, lmax=4), b), {}), ("lmax", (F(0, lmax=4), f2, b), {}), ("lmax_mask", (f0, F(2, lmask=4), b), {}), ("lmax_mask", (F(0, lmask=2), f2, b), {}),
                      ("bins", (f0, f2, b4), {}), ("teb", (f0, f0, b), dict(is_teb=True)), ("teb", (f2, f0, b), dict(is_teb=True)), ("teb", (f2, f2, b), dict(is_teb=True)),
                      ("normalization", (f0, f2, b), dict(normalization="fkp")), ("normalization", (f0, f2, b), dict(normalization=None)), ("no bins", (f0, f2, None), {}), ("no field", (f0, None, b), {}),
                      ("toeplitz", (f0, f2, b), dict(l_toeplitz=2, l_exact=3, dl_band=1)), ("toeplitz", (f0, f2, b), dict(l_toeplitz=2)), ("toeplitz", (f0, f2, b), dict(l_toeplitz=4, l_exact=2, dl_band=1)),
                      ("toeplitz", (f0, f2, b), dict(l_toeplitz=3, l_exact=2, dl_band=4))):
        h.raises(nm, K, *a, **kw)
    h.raises("no file", w.read_from, h.file("none"))
    for x in "cf":
        for un in (True, False):
            h.raises("another kind of file", w.read_from, h.file(x), un)
            h.raises("another kind of file", W.from_file, h.file(x), un)
    h.close("contents", out(), ref, 0)
    n = h.concrete(h.int("n", 0, 5))
    if n != 2:
        for f in (w.couple_cell, w.decouple_cell):
            h.raises("spectra", f, one((n, 4)))
        for kw in ("cl_bias", "cl_noise"):
            h.raises(kw, w.decouple_cell, c, **{kw: one((n, 4))})
    if n < 4:
        for f in (w.couple_cell, w.decouple_cell):
            h.raises("multipoles", f, one((2, n)))
        for kw in ("cl_bias", "cl_noise"):
            h.raises(kw, w.decouple_cell, c, **{kw: one((2, n))})
        h.raises("beams", w.update_beams, one(n), one(4))
        h.raises("beams", w.update_beams, one(4), one(n))
    h.raises("matrix", w.update_coupling_matrix, one((n, n)))
    h.raises("matrix", w.update_coupling_matrix, one((8, n)))
    h.raises("bins", w.update_bins, b4)
    h.raises("bins", w.update_bins, None)
    h.raises("beams", w.update_beams, 1., one(4))
    h.raises("beams", w.update_beams, one(4), None)
    h.close("contents", out(), ref, 0)


def curvedmaster(h):
    b, b4 = wsp.mkbins(h, "b", 3, 0, False)[0], wsp.mkbins(h, "x", 4, 0, False)[0]
    r = np.random.RandomState(1)
    W = dict(n_iter=0, n_iter_mask=0, lmax_mask=3)
    m = np.round(.3 + .7 * r.rand(48), 2)
    F = lambda s, lmax=3, **kw: h.nmt.NmtField(m, np.round(r.rand(2 if s else 1, 48), 2), spin=s, lmax=lmax, **dict(W, **kw))
    f0, f2 = F(0, templates=np.round(r.rand(1, 1, 48), 2)), F(2)
    mo, li = h.nmt.NmtField(m, None, spin=2, lmax=3, **W), F(2, lite=True)
    one = np.ones
    c, z = h.reals("c", (2, 4)), h.reals("z", (2, 4))
    M, C, D, U = h.nmt.compute_full_master, h.nmt.compute_coupled_cell, h.nmt.deprojection_bias, h.nmt.uncorr_noise_deprojection_bias
    w = h.nmt.NmtWorkspace.from_fields(f0, f2, b)
    kw = dict(cl_noise=z, cl_guess=c, workspace=w)
    D0 = lambda a, d, x: D(a, d, x, n_iter=0)
    h.raises("neither bins nor workspace", lambda: _syntax(M, f0, f2))
    o4 = F(2, lmax=4)
    om = F(2, lmax_mask=2)
    for o in (o4, om):
        h.raises("lmax", M, f0, o, b)
        h.raises("lmax", M, o, f0, b, workspace=w)
        h.raises("lmax", C, f0, o)
        h.raises("lmax", D0, f0, o, c)
    h.raises("bins", M, f0, f2, b4)
    wo = h.nmt.NmtWorkspace.from_fields(f0, f0, b)
    h.raises("workspace with other spectra", M, f0, f2, workspace=wo)
    h.raises("workspace with other spectra", M, f2, f2, workspace=w)
    h.raises("uninitialised workspace", M, f0, f2, workspace=h.nmt.NmtWorkspace())
    h.raises("no maps", C, f0, mo)
    h.raises("no maps", C, mo, f0)
    h.raises("lite", D0, f0, li, c)
    h.raises("lite", D0, li, f0, c)
    h.raises("lite", U, li, m)
    n = h.concrete(h.int("n", 0, 5))
    if n != 2:
        h.raises("noise", M, f0, f2, **dict(kw, cl_noise=one((n, 4))))
        h.raises("guess", M, f0, f2, **dict(kw, cl_guess=one((n, 4))))
        h.raises("guess", D0, f0, f2, one((n, 4)))
    if n != 4:
        h.raises("noise", M, f0, f2, **dict(kw, cl_noise=one((2, n))))
        h.raises("guess", M, f0, f2, **dict(kw, cl_guess=one((2, n))))
        h.raises("guess", D0, f0, f2, one((2, n)))
    h.raises("variance", U, f0, one(47 + 2 * (n % 2)))
    h.raises("variance", U, f0, one(192))


def _syntax(f, *a):
    try:
        f(*a)
    except SyntaxError:
        raise ValueError("syntax")


def curvedcov(h):
    b = wsp.mkbins(h, "b", 3, 0, False)[0]
    F = lambda s, **kw: wsp.field(h, s, kw.pop("lmax", 3), **kw)[0]
    f0, f2 = F(0), F(2, seed=2)
    K = h.nmt.NmtCovarianceWorkspace
    w = h.nmt.NmtWorkspace.from_fields(f0, f0, b)
    w2 = h.nmt.NmtWorkspace.from_fields(f0, f2, b)
    w4 = h.nmt.NmtWorkspace.from_fields(F(0, lmax=4), F(0, lmax=4), wsp.mkbins(h, "x", 4, 0, False)[0])
    w.write_to(h.file("w"))
    cw = K()
    G, one = h.nmt.gaussian_covariance, np.ones
    c = h.reals("c", (1, 4))
    h.raises("uninitialised", cw.write_to, h.file("x"))
    h.raises("uninitialised", G, cw, 0, 0, 0, 0, c, c, c, c, w)
    C = cw.compute_coupling_coefficients
    C(f0, f0)
    h.raises("uninitialised workspace", G, cw, 0, 0, 0, 0, c, c, c, c, h.nmt.NmtWorkspace())
    out = lambda: h.flat(G(cw, 0, 0, 0, 0, c, c, c, c, w)) + h.flat(G(cw, 0, 0, 0, 0, c, c, c, c, w, coupled=True))
    ref = out()
    other = h.nmt.NmtField(np.ones(192), None, spin=0, lmax=3, lmax_mask=5, n_iter_mask=0)
    an = h.nmt.NmtField(np.ones(48), None, spin=2, lmax=3, lmax_mask=5, n_iter_mask=0, mask_22=np.ones(48), mask_12=np.zeros(48))
    for i in range(4):
        for nm, o in (("pixels", other), ("lmax", F(0, lmax=4)), ("lmax_mask", F(0, lmask=4)), ("anisotropic mask", an)):
            h.raises("%s %d" % (nm, i), C, *[o if j == i else f0 for j in range(4)])
    for t in (dict(l_toeplitz=2, l_exact=3, dl_band=1), dict(l_toeplitz=2), dict(l_toeplitz=4, l_exact=2, dl_band=1), dict(l_toeplitz=3, l_exact=2, dl_band=4)):
        h.raises("toeplitz", C, f0, f0, **t)
    h.raises("no file", cw.read_from, h.file("none"))
    h.raises("another kind of file", cw.read_from, h.file("w"))
    h.raises("another kind of file", K.from_file, h.file("w"), True)
    h.close("contents", out(), ref, 0)
    n = h.concrete(h.int("n", 0, 5))
    for cp in (False, True):
        for s in ((0, 2), (2, 0), (2, 2)):
            h.raises("spins", G, cw, *s, 0, 0, c, c, c, c, w, coupled=cp)
            h.raises("spins", G, cw, 0, 0, *s, c, c, c, c, w, coupled=cp)
        h.raises("spins", G, cw, 0, 0, 0, 0, c, c, c, c, w2, coupled=cp)
        h.raises("spins", G, cw, 0, 0, 0, 0, c, c, c, c, w, w2, coupled=cp)
        e = one((1, 5))
        h.raises("lmax", G, cw, 0, 0, 0, 0, e, e, e, e, w4, coupled=cp)
        h.raises("lmax", G, cw, 0, 0, 0, 0, e, e, e, e, w, w4, coupled=cp)
        for i in range(4):
            x = [c] * 4
            if n != 1:
                x[i] = one((n, 4))
                h.raises("spectra", G, cw, 0, 0, 0, 0, *x, w, coupled=cp)
            if n < 4:
                x[i] = one((1, n))
                h.raises("multipoles", G, cw, 0, 0, 0, 0, *x, w, coupled=cp)
    h.close("after errors", out(), ref, 0)


def catalogs(h):
    S, Q = h.nmt.NmtFieldCatalog, h.nmt.NmtFieldCatalogClustering
    pos = np.array([[1.0, 2.0, 0.3], [0.5, 3.0, 6.0]])
    w, f = h.reals("w", 3, 0.5, 1.), h.reals("f", 3)
    one = np.ones
    n = h.concrete(h.int("n", 0, 5))
    if n != 3:
        h.raises("weights", S, pos, one(n), one(n), 3, spin=0)
        h.raises("positions", S, one((2, n)), w, f, 3)
        h.raises("values", S, pos, w, one(n), 3)
        h.raises("values", S, pos, w, one((2, n)), 3)
        h.raises("data weights", Q, pos, one(n), pos, w, 3)
        h.raises("random weights", Q, pos, w, pos, one(n), 3)
        h.raises("data", Q, one((2, n)), w, pos, w, 3)
        h.raises("randoms", Q, pos, w, one((2, n)), w, 3)
    if n != 2:
        h.raises("coordinates", S, one((n, 3)), w, f, 3)
        h.raises("coordinates", Q, pos, w, one((n, 3)), w, 3)
        h.raises("coordinates", Q, one((n, 3)), w, pos, w, 3)
        h.raises("components", S, pos, w, one((n, 3)), 3, spin=2)
    if n != 1:
        h.raises("components", S, pos, w, one((n, 3)), 3, spin=0)
    if n < 4:
        h.raises("beam", S, pos, w, f, 3, beam=one(n))
    h.raises("beam", S, pos, w, f, 3, beam=1.)
    h.raises("spin needed", S, pos, w, None, 3)
    x = h.real("x", -8., 8.)
    good = [np.array([1.0, 2.0, 0.3]), np.array([0.5, 3.0, 6.0])]
    deg = [np.array([30., 100., 300.]), np.array([0.5, 3.0, -60.])]
    for i, (lo, hi, dl, dh) in enumerate(((0., np.pi, 0., 360.), (0., 2 * np.pi, -90., 90.))):
        if (x < lo - 1e-9) or (x > hi + 1e-9):
            p = [h.array(list(v)) for v in good]
            p[i][1] = x
            h.raises("angle", S, h.array([list(v) for v in p]), w, f, 3)
            h.raises("angle", Q, h.array([list(v) for v in p]), w, pos, w, 3)
            h.raises("angle", Q, pos, w, h.array([list(v) for v in p]), w, 3)
        y = x * 60.
        if (y < dl - 1e-6) or (y > dh + 1e-6):
            p = [h.array(list(v)) for v in deg]
            p[i][1] = y
            h.raises("degrees", S, h.array([list(v) for v in p]), w, f, 3, lonlat=True)
            h.raises("degrees", Q, h.array([list(v) for v in p]), w, h.array([list(v) for v in deg]), w, 3, lonlat=True)


def settings(h):
    n = h.nmt
    keep = n.get_default_params()
    k = h.int("k", -3, 3)
    t = h.real("t", -1., 2.)
    for mask in (False, True):
        if k < 0:
            h.raises("iterations", n.set_n_iter_default, k, mask)
        else:
            n.set_n_iter_default(k, mask)
            h.true("iterations", n.get_default_params()["n_iter_mask_default" if mask else "n_iter_default"] == k)
            n.set_n_iter_default(3, mask)
    if (t < 0) or (t > 1):
        h.raises("tolerance", n.set_tol_pinv_default, t)
    else:
        n.set_tol_pinv_default(t)
        h.close("tolerance", n.get_default_params()["tol_pinv_default"], t, 0)
        n.set_tol_pinv_default(keep["tol_pinv_default"])
    for c in ("", "DUCC", "libsharp", None):
        h.raises("transforms", n.set_sht_calculator, c)
    h.true("kept", n.get_default_params() == keep)


def masks(h):
    A, B = h.nmt.mask_apodization, h.nmt.mask_apodization_flat
    k = h.concrete(h.int("n", 0, 50))
    one = np.ones
    if k not in (12, 48):
        h.raises("pixels", A, one(k), 10., "C1")
    h.raises("type", A, one(48), 10., "C3")
    h.raises("type", B, one((3, 3)), 1., 1., 10., "C3")
    h.raises("scale", A, one(48), -1., "C1")
    h.raises("scale", B, one((3, 3)), 1., 1., -1., "C1")
    h.raises("dimensions", B, one(9), 1., 1., 10., "C1")
    h.raises("dimensions", B, one((1, 3, 3)), 1., 1., 10., "C1")
    for x in (0., -1.):
        h.raises("size", B, one((3, 3)), x, 1., 10., "C1")
        h.raises("size", B, one((3, 3)), 1., x, 10., "C1")


def sims(h):
    S, P = h.nmt.synfast_flat, h.nmt.synfast_spherical
    one = np.ones
    n = h.concrete(h.int("n", 0, 8))
    sp = [0, 2]
    bm = one((2, 4))
    if n != 6:
        h.raises("spectra", S, 3, 3, 1., 1., one((n, 4)), sp)
        h.raises("spectra", P, 2, one((n, 4)), sp)
    if n != 2:
        h.raises("beams", S, 3, 3, 1., 1., one((6, 4)), sp, beam=one((n, 4)))
        h.raises("beams", P, 2, one((6, 4)), sp, beam=one((n, 4)))
    if n != 4:
        h.raises("beam size", S, 3, 3, 1., 1., one((6, 4)), sp, beam=one((2, n)))
    if n < 4:
        h.raises("beam size", P, 2, one((6, 4)), sp, beam=one((2, n)))
    for s in ([-1, 2], [0, -2]):
        h.raises("spins", S, 3, 3, 1., 1., one((6, 4)), s)
        h.raises("spins", P, 2, one((6, 4)), s)
    for x in (0., -1.):
        h.raises("size", S, 3, 3, x, 1., one((6, 4)), sp)
        h.raises("size", S, 3, 3, 1., x, one((6, 4)), sp)


def cases(tier):
    T = tier != "quick"
    c = [("i_" + k, index, dict(what=k, which=i % 3)) for i, k in enumerate(("get_ell_list", "get_weight_list", "get_ell_min", "get_ell_max"))]
    for k in range(4):
        c += [("size%d" % k, sizes, dict(k=k, d=False)), ("dims%d" % k, sizes, dict(k=k, d=True))]
    c += [("table2", table, dict(n=2, lo=-1, hi=3, blo=-1, bhi=1), 5), ("table1", table, dict(n=1, lo=-3, hi=5, blo=-3, bhi=2), 2), ("tablew", table, dict(n=2, lo=0, hi=1, blo=0, bhi=1, rw=True), 2),
          ("bincalls", bincalls, {}), ("edges", edges, {})]
    c += [("w_" + k, wrappers, dict(k=k), 2) for k in ("getters", "bins", "field", "fget", "apo", "syn")]
    c += [("c_" + k, wcurved, dict(k=k), 3) for k in ("mcm", "aniso", "use", "use2", "cov", "cov2")]
    c += [("f_" + k, wflat, dict(k=k), 3) for k in ("spectra", "master", "use", "cov")]
    c += [("samp_" + k, sampling, dict(k=k)) for k in ("beam", "bin", "couple", "bias", "cov")]
    c += [("flatfield", flatfield, {}), ("flatwork", flatwork, {}, 3), ("flatmaster", flatmaster, {}, 3), ("flatcov", flatcov, {}, 3), ("work", curvedwork, {}, 3), ("master", curvedmaster, {}, 3), ("cov", curvedcov, {}, 3),
          ("catalogs", catalogs, {}, 2), ("settings", settings, {}), ("masks", masks, {}), ("sims", sims, {})]
    if T:
        c += [("table3", table, dict(n=3, lo=-1, hi=2, blo=-1, bhi=1, lmax=1), 9), ("table2w", table, dict(n=2, lo=-2, hi=4, blo=-2, bhi=3), 9)]
    return c
