"""P11: workspaces survive a write/read round trip."""
import numpy as np
from . import wsp, p09, p14, flat
from .p12 import bands

NOTE = ("every value of the symbolic matrix entries, beams, mask pixels, weights, f_ell and spectra; cfitsio is an in-memory store with its documented semantics "
        "(HDUs by name, keywords by type, pixels and columns by position)")
BOUNDS = {"quick": "curved workspaces with 1, 2, 4 and 7 spectra, both normalisations, bins with gaps and with multipoles in two bands, lmax 3 and 4, followed by each update and every "
                   "output; files without unbinned matrix; covariance workspaces (all coefficients, spin-0 only written or read, lmax_mask above lmax); flat workspaces (all spins, TEB, purified, masked ranges; 2-3 bands) and flat covariance workspaces, each read over another object and written again",
          "thorough": "sequences of two updates after reading, second round trips for every kind, larger matrices"}
ASSUMPTIONS = ["the binned matrix is invertible"]


# mask for which the flat-sky coupling matrix in bands below has no dominant diagonal
PERM = [[1.25, -1.58, 0.51, -0.04, -1.24], [-0.89, 1.2, 0.65, -0.55, 1.95], [-0.87, -1.42, -2.62, -0.13, -2.96], [0.29, -0.91, 1.58, -1.25, 0.84], [0.21, 2.71, -0.12, 1.97, 1.42]]


def obins(h, name, lmax, symb=True):
    """bins with multipoles in two bands and in none"""
    ell = {4: [1, 2, 2, 3, 4], 3: [0, 1, 1, 2]}[lmax]
    bp = {4: [0, 0, 1, 1, 2], 3: [0, 0, 1, 1]}[lmax]
    n = len(ell)
    w = h.reals(name + "w", n, 0.5, 1.5) if symb else np.linspace(1., 1.5, n)
    f = h.reals(name + "f", n, 0.5, 2.0) if symb else np.linspace(1., 2., n)
    return h.nmt.NmtBin(ells=np.array(ell), bpws=np.array(bp), weights=w, f_ell=f, lmax=lmax)


def ncl(s1, s2, teb):
    return 7 if teb else (2 if s1 else 1) * (2 if s2 else 1)


def build(h, s1, s2, lmax, teb, norm, which, symb, nsym, lmask=None):
    b1 = h.reals("B1", lmax + 1, 0.5, 1.0) if symb else np.linspace(1., 0.7, lmax + 1)
    f1, _ = wsp.field(h, s1, lmax, beam=b1, seed=1, sym=[3] if norm == "FKP" else None, lmask=lmask)
    f2, _ = wsp.field(h, s2, lmax, beam=np.linspace(1., 0.8, lmax + 1), seed=2, lmask=lmask)
    bins = obins(h, "b", lmax, symb) if which == "o" else wsp.mkbins(h, "b", lmax, which, symb)[0]
    w = h.nmt.NmtWorkspace.from_fields(f1, f2, bins, is_teb=teb, normalization=norm)
    if nsym:
        w.update_coupling_matrix(wsp.randmat(h, "M", ncl(s1, s2, teb) * (lmax + 1), nsym))
    return w


def outputs(h, w, lmax, n, unb=True):
    cl, nz = h.reals("cl", (n, lmax + 1)), h.reals("nz", (n, lmax + 1))
    r = [("decoupled", w.decouple_cell(cl, cl_noise=nz), 1e-7)]
    if unb:
        r += [("coupled", w.couple_cell(cl), 1e-8), ("matrix", w.get_coupling_matrix(), 1e-9), ("windows", w.get_bandpower_windows(), 1e-7)]
    return r


def same(h, lab, A, B):
    for (l, a, t), (_, b, _) in zip(A, B):
        h.true(lab + l + " shape", np.shape(a) == np.shape(b))
        h.close(lab + l, a, b, t)


def update(h, w, op, k, lmax, n, symb):
    if op == "B":
        w.update_beams(h.reals("Bx%d" % k, lmax + 1, 0.2, 1.0), np.linspace(0.9, 0.5, lmax + 1))
    elif op == "b":
        w.update_bins(wsp.mkbins(h, "c%d" % k, lmax, (k + 1) % 3, symb)[0])
    elif op == "o":
        w.update_bins(obins(h, "o%d" % k, lmax, symb))
    elif op == "M":
        w.update_coupling_matrix(wsp.randmat(h, "N%d" % k, n * (lmax + 1), 2, seed=3 + k))


def curved(h, ops, s1, s2, lmax, teb=False, norm="MASTER", which=0, symb=True, nsym=2, lmask=None):
    n = ncl(s1, s2, teb)
    w = build(h, s1, s2, lmax, teb, norm, which, symb, nsym, lmask)
    before = outputs(h, w, lmax, n)
    fn = h.file("w.fits")
    w.write_to(fn)
    same(h, "writing: ", outputs(h, w, lmax, n), before)
    r = h.nmt.NmtWorkspace.from_file(fn)
    h.true("sizes", r.wsp.lmax == w.wsp.lmax and r.wsp.ncls == w.wsp.ncls and r.wsp.lmax_fields == w.wsp.lmax_fields
           and r.wsp.bin.n_bands == w.wsp.bin.n_bands and r.wsp.bin.ell_max == w.wsp.bin.ell_max)
    same(h, "read: ", outputs(h, r, lmax, n), before)
    for k, op in enumerate(ops):
        if op == "W":       # another round trip
            r.write_to(fn)
            r = h.nmt.NmtWorkspace()
            r.read_from(fn)
        else:
            update(h, r, op, k, lmax, n, symb)
            update(h, w, op, k, lmax, n, symb)
    if ops:
        same(h, "later: ", outputs(h, r, lmax, n), outputs(h, w, lmax, n))


def permuted(h, s1, s2, lmax=3):
    """matrices whose factorisation exchanges rows cyclically"""
    n = ncl(s1, s2, False)
    f1, _ = wsp.field(h, s1, lmax, seed=1)
    f2, _ = wsp.field(h, s2, lmax, seed=2)
    l = np.arange(lmax + 1)
    w = h.nmt.NmtWorkspace.from_fields(f1, f2, h.nmt.NmtBin(ells=l, bpws=l, weights=np.ones(lmax + 1), lmax=lmax))
    N = n * (lmax + 1)
    M = np.roll(np.eye(N), 1, axis=0) + np.round(0.2 * np.random.RandomState(4).rand(N, N), 3)
    w.update_coupling_matrix(M)
    before = outputs(h, w, lmax, n)
    h.close("decoupled", np.dot(M, before[0][1].reshape(n, -1).T.flatten()), np.dot(M, w.decouple_cell(h.reals("cl", (n, lmax + 1)) - h.reals("nz", (n, lmax + 1))).T.flatten()), 1e-7)
    fn = h.file("w.fits")
    w.write_to(fn)
    for unb in (True, False):
        r = h.nmt.NmtWorkspace.from_file(fn, read_unbinned_MCM=unb)
        same(h, "read: ", outputs(h, r, lmax, n, unb), before[:4 if unb else 1])
    r = h.nmt.NmtWorkspace.from_file(fn)
    gn = h.file("v.fits")
    r.write_to(gn)
    same(h, "second: ", outputs(h, h.nmt.NmtWorkspace.from_file(gn), lmax, n), before)


def reread(h, s1, s2, lmax):
    """overwriting a file, and reading into a workspace in use"""
    n = ncl(s1, s2, False)
    w = build(h, s1, s2, lmax, False, "MASTER", 0, True, 2)
    v = h.nmt.NmtWorkspace.from_fields(wsp.field(h, 0, 4, seed=5)[0], wsp.field(h, 0, 4, seed=6)[0], obins(h, "v", 4), normalization="FKP")
    fn, gn = h.file("w.fits"), h.file("v.fits")
    v.write_to(fn)
    v.write_to(gn)
    w.write_to(fn)
    r = h.nmt.NmtWorkspace.from_file(gn)
    same(h, "first: ", outputs(h, r, 4, 1), outputs(h, v, 4, 1))
    r.read_from(fn)
    same(h, "second: ", outputs(h, r, lmax, n), outputs(h, w, lmax, n))
    # the file does not change with the workspace
    update(h, w, "B", 0, lmax, n, True)
    q = h.nmt.NmtWorkspace(fname=fn)
    same(h, "file: ", outputs(h, q, lmax, n), outputs(h, r, lmax, n))


def nounb(h, s1, s2, lmax, norm, teb=False, symb=True):
    n = ncl(s1, s2, teb)
    w = build(h, s1, s2, lmax, teb, norm, 0, symb, 2)
    fn = h.file("w.fits")
    w.write_to(fn)
    for how in range(3):
        if how == 0:
            r = h.nmt.NmtWorkspace.from_file(fn, read_unbinned_MCM=False)
        elif how == 1:
            r = h.nmt.NmtWorkspace.from_file(fn)
            r.read_from(fn, read_unbinned_MCM=False)
        else:
            r = h.nmt.NmtWorkspace(fname=fn, read_unbinned_MCM=False)
        h.raises("couple_cell", r.couple_cell, np.ones((n, lmax + 1)))
        h.raises("get_coupling_matrix", r.get_coupling_matrix)
        h.raises("update_coupling_matrix", r.update_coupling_matrix, np.eye(n * (lmax + 1)))
        h.raises("get_bandpower_windows", r.get_bandpower_windows)
        h.raises("update_beams", r.update_beams, np.ones(lmax + 1), np.ones(lmax + 1))
        h.raises("update_bins", r.update_bins, wsp.mkbins(h, "c", lmax, 1, False)[0])
        h.raises("write_to", r.write_to, h.file("x.fits"))
        same(h, "", outputs(h, r, lmax, n, False), outputs(h, w, lmax, n, False))
    r.read_from(fn)
    same(h, "full: ", outputs(h, r, lmax, n), outputs(h, w, lmax, n))


def covuse(h, sp, lmax, mode):
    """covariances with workspaces read from file; mode: which of the files are restricted"""
    sp = tuple(int(x) for x in sp)
    wa = p09.work(h, sp[0], sp[1], lmax, 0, True, seed=1)[0]
    wb = p09.work(h, sp[2], sp[3], lmax, 1, True, seed=4, name="v")[0]
    p, q = h.reals("p", lmax + 3, -0.5, 1.0), h.reals("q", lmax + 3, -0.5, 1.0)
    cw = p09.cwsp(h, p, q, lmax, lmax + 2, mode == "s0w")
    cl = p09.spectra(h, sp, lmax + 1)
    C0 = p09.gc(h, cw, sp, cl, wa, wb, coupled=True)
    D0 = p09.gc(h, cw, sp, cl, wa, wb)
    if mode == "s0r":
        cw = p09.cwsp(h, p, q, lmax, lmax + 2)
    lm = (cw.wsp.lmax, cw.wsp.lmax_mask, cw.wsp.spin0_only)
    fn, an, bn = h.file("c.fits"), h.file("a.fits"), h.file("b.fits")
    cw.write_to(fn)
    wa.write_to(an)
    wb.write_to(bn)
    h.true("unchanged", lm == (cw.wsp.lmax, cw.wsp.lmax_mask, cw.wsp.spin0_only))
    h.close("writing", p09.gc(h, cw, sp, cl, wa, wb, coupled=True), C0, 1e-10)
    rw = h.nmt.NmtCovarianceWorkspace()
    if mode == "s0r":
        rw.read_from(fn, force_spin0_only=True)
    else:
        rw.read_from(fn)
    unb = mode != "nounb"
    ra = h.nmt.NmtWorkspace.from_file(an, read_unbinned_MCM=unb)
    rb = h.nmt.NmtWorkspace.from_file(bn, read_unbinned_MCM=unb)
    if unb:
        h.close("coupled", p09.gc(h, rw, sp, cl, ra, rb, coupled=True), C0, 1e-9)
    else:
        h.raises("coupled", p09.gc, h, rw, sp, cl, ra, rb, coupled=True)
    h.close("decoupled", p09.gc(h, rw, sp, cl, ra, rb), D0, 1e-7)
    h.true("lmax", rw.wsp.lmax == lm[0] and rw.wsp.lmax_mask == lm[1])
    if mode in ("s0w", "s0r"):
        for k in range(4):
            if not sp[k]:
                s = list(sp)
                s[k] = 2
                c2 = p09.spectra(h, [0, 0, 0, 0], lmax + 1)
                e = [p09.nm(s[x]) * p09.nm(s[y]) for x, y in ((0, 2), (0, 3), (1, 2), (1, 3))]
                h.raises("spin-2 covariance %d" % k, h.nmt.gaussian_covariance, rw, *s, *[np.ones((m, lmax + 1)) for m in e], ra, rb, coupled=True)
    # again
    rw.write_to(fn)
    r2 = h.nmt.NmtCovarianceWorkspace.from_file(fn)
    h.close("again", p09.gc(h, r2, sp, cl, wa, wb, coupled=True), C0, 1e-9)


def flatws(h, geom, s1, s2, teb=False, p2=(0, 0), nb=2, msym=(), cuts=None, mask=None, edges=None):
    """flat workspaces: the same coupled and decoupled spectra for every input, after each of several round trips"""
    g = flat.geo(geom)
    f1 = flat.field(h, g, flat.symmap(h, g, "m", msym, 0, 1, 1, True), None, s1)
    f2 = flat.field(h, g, flat.symmap(h, g, "n", (), 0, 1, 2, True), None, s2, purify_e=bool(p2[0]), purify_b=bool(p2[1]))
    l0, lf = bands(g, nb) if edges is None else (edges[:-1], edges[1:])
    if mask is not None:
        f1 = f2 = flat.field(h, g, mask, None, s1)
    w = h.nmt.NmtWorkspaceFlat()
    w.compute_coupling_matrix(f1, f2, h.nmt.NmtBinFlat(np.array(l0), np.array(lf)), is_teb=teb, **(cuts or {}))
    n = w.wsp.ncls
    ls = [0., 4., 11., 25.]
    cl, x, nz, bl = h.reals("cl", (n, 4)), h.reals("x", (n, nb)), h.reals("nz", (n, nb)), h.reals("bl", (n, nb))

    def out(w):
        return [("coupled", w.couple_cell(np.array(ls), cl), 1e-9), ("decoupled", w.decouple_cell(x, cl_noise=nz, cl_bias=bl), 1e-7)]
    before = out(w)
    fn = h.file("w.fits")
    w.write_to(fn)
    same(h, "writing: ", out(w), before)
    r = h.nmt.NmtWorkspaceFlat()
    r.read_from(fn)
    same(h, "read: ", out(r), before)
    h.true("sizes", r.wsp.ncls == n and r.wsp.bin.n_bands == nb and r.wsp.is_teb == w.wsp.is_teb and r.wsp.fs.n_ell == w.wsp.fs.n_ell)
    # another workspace over the same object, and back
    r.compute_coupling_matrix(f1, f1, h.nmt.NmtBinFlat(np.array([0.]), np.array([lf[-1]])))
    r.write_to(h.file("v.fits"))
    r.read_from(fn)
    same(h, "again: ", out(r), before)
    gn = h.file("u.fits")
    r.write_to(gn)
    q = h.nmt.NmtWorkspaceFlat()
    q.read_from(gn)
    same(h, "second: ", out(q), before)


def flatcov(h, geom, sp, nb=2, msym=()):
    """flat covariance workspaces, with workspaces read from file"""
    a, b, c, d = sp
    g = flat.geo(geom)
    l0, lf = bands(g, nb)
    bn = h.nmt.NmtBinFlat(np.array(l0), np.array(lf))
    fl = [flat.field(h, g, flat.symmap(h, g, "m%d" % i, msym if not i else (), 0, 1, 20 + i, True), None, s) for i, s in enumerate(sp)]
    cw = h.nmt.NmtCovarianceWorkspaceFlat()
    cw.compute_coupling_coefficients(fl[0], fl[1], bn, fl[2], fl[3], bn)
    wa, wb = (p14.work(h, g, s, t, l0, lf, bn, k)[0] for s, t, k in ((a, b, 31), (c, d, 41)))
    cl = p09.spectra(h, sp, 3)

    def cov(cw, wa, wb):
        return h.nmt.gaussian_covariance_flat(cw, a, b, c, d, np.array(p14.LS), cl["ac"], cl["ad"], cl["bc"], cl["bd"], wa, wb)
    C = cov(cw, wa, wb)
    cn, an, bnm = h.file("c.fits"), h.file("a.fits"), h.file("b.fits")
    cw.write_to(cn)
    wa.write_to(an)
    wb.write_to(bnm)
    h.close("writing", cov(cw, wa, wb), C, 1e-10)
    rw = h.nmt.NmtCovarianceWorkspaceFlat()
    rw.read_from(cn)
    h.close("coefficients", cov(rw, wa, wb), C, 1e-9)
    ra, rb = h.nmt.NmtWorkspaceFlat(), h.nmt.NmtWorkspaceFlat()
    ra.read_from(an)
    rb.read_from(bnm)
    h.close("workspaces", cov(rw, ra, rb), C, 1e-8)
    rw.write_to(h.file("d.fits"))
    rw.compute_coupling_coefficients(fl[0], fl[1], bn)
    rw.read_from(h.file("d.fits"))
    h.close("again", cov(rw, ra, rb), C, 1e-8)


def cases(tier):
    T = tier != "quick"
    c = []
    for wh in (0, 1, 2, "o"):
        c.append(("c00_%s" % wh, curved, dict(ops="", s1=0, s2=0, lmax=4, which=wh)))
    for ops in ("B", "b", "o", "M", "WB", "BW", "oW", "bWM"):
        c.append(("c00_ops_" + ops, curved, dict(ops=ops, s1=0, s2=0, lmax=4, which="o" if ops[0] == "B" else 0), 2))
        if len(ops) < 3:
            c.append(("fkp00_" + ops, curved, dict(ops=ops, s1=0, s2=0, lmax=4, norm="FKP"), 2))
    for ops in ("", "B", "b"):
        c.append(("c02_" + ops, curved, dict(ops=ops, s1=0, s2=2, lmax=3), 3))
        c.append(("c20_" + ops, curved, dict(ops=ops, s1=2, s2=0, lmax=3, which="o"), 3))
        c.append(("c22_" + ops, curved, dict(ops=ops, s1=2, s2=2, lmax=3, symb=False, nsym=3), 5))
        c.append(("teb_" + ops, curved, dict(ops=ops, s1=0, s2=2, lmax=3, teb=True, symb=False), 9))
        c.append(("fkp22_" + ops, curved, dict(ops=ops, s1=2, s2=2, lmax=3, norm="FKP"), 3))
    c.append(("lmask_B", curved, dict(ops="B", s1=0, s2=0, lmax=3, lmask=5), 1))
    c.append(("lmask_short", curved, dict(ops="b", s1=0, s2=0, lmax=4, lmask=2), 1))
    c.append(("reread_00", reread, dict(s1=0, s2=0, lmax=3), 2))
    c.append(("reread_02", reread, dict(s1=0, s2=2, lmax=3), 3))
    for nm in ("MASTER", "FKP"):
        c.append(("nounb00_" + nm, nounb, dict(s1=0, s2=0, lmax=4, norm=nm), 2))
        c.append(("nounb02_" + nm, nounb, dict(s1=0, s2=2, lmax=3, norm=nm), 4))
    c.append(("nounb_teb", nounb, dict(s1=0, s2=2, lmax=3, norm="MASTER", teb=True, symb=False), 9))
    for sp in ("0000", "0202", "2222", "0022", "2002"):
        c.append(("cov_" + sp, covuse, dict(sp=sp, lmax=3, mode="full"), 4 if sp != "2222" else 9))
    c.append(("cov_nounb", covuse, dict(sp="0002", lmax=3, mode="nounb"), 3))
    c.append(("cov_s0w", covuse, dict(sp="0000", lmax=3, mode="s0w"), 2))
    c.append(("cov_s0r", covuse, dict(sp="0000", lmax=3, mode="s0r"), 2))
    for nme, kw in (("00", dict(geom="3x5", s1=0, s2=0, nb=3)), ("00m", dict(geom="3x3", s1=0, s2=0, nb=2, msym=(1, 4))), ("02", dict(geom="4x4", s1=0, s2=2)), ("20", dict(geom="4x6", s1=2, s2=0)),
                    ("22", dict(geom="5x5", s1=2, s2=2)), ("t", dict(geom="5x5", s1=0, s2=2, teb=True)), ("tp", dict(geom="5x5", s1=0, s2=2, teb=True, p2=(1, 1))), ("02p", dict(geom="4x4", s1=0, s2=2, p2=(0, 1))),
                    ("00c", dict(geom="5x5", s1=0, s2=0, nb=3, cuts=dict(ell_cut_x=[-5., 5.], ell_cut_y=[-100., -9.])))):
        c.append(("flat_" + nme, flatws, kw, 2))
    c.append(("flat_perm", flatws, dict(geom="5x5", s1=0, s2=0, nb=4, mask=PERM, edges=[0., 7., 13., 19., 30.]), 2))
    c.append(("perm00", permuted, dict(s1=0, s2=0), 1))
    c.append(("perm02", permuted, dict(s1=0, s2=2), 2))
    for sp in ("0000", "0202", "2222", "0022"):
        c.append(("flatcov_" + sp, flatcov, dict(sp=tuple(int(x) for x in sp), geom="5x5" if "2222" == sp else "4x4", nb=2), 3))
    c.append(("flatcov_m", flatcov, dict(sp=(0, 0, 0, 0), geom="3x3", nb=2, msym=(1,)), 3))
    if T:
        for nme, kw in (("00m", dict(geom="3x3", s1=0, s2=0, nb=2, msym=None)), ("02m", dict(geom="4x4", s1=0, s2=2, msym=(1, 6))), ("22b", dict(geom="7x5", s1=2, s2=2, nb=3)), ("31", dict(geom="4x6", s1=3, s2=1))):
            c.append(("T_flat_" + nme, flatws, kw, 5))
        for sp in ("0002", "0222", "2020", "2002", "2022"):
            c.append(("T_flatcov_" + sp, flatcov, dict(sp=tuple(int(x) for x in sp), geom="5x5", nb=2), 5))
            c.append(("T_cov_" + sp, covuse, dict(sp=sp, lmax=3, mode="full"), 6))
        for ops in ("Bb", "bB", "oB", "MB", "Mb", "WoW", "BBb"):
            c.append(("T_c02_" + ops, curved, dict(ops=ops, s1=0, s2=2, lmax=3), 5))
            c.append(("T_c00_" + ops, curved, dict(ops=ops, s1=0, s2=0, lmax=4, which="o"), 3))
        for ops in ("Bb", "bB", "WBW"):
            c.append(("T_c22_" + ops, curved, dict(ops=ops, s1=2, s2=2, lmax=3, symb=False, nsym=4), 7))
            c.append(("T_fkp20_" + ops, curved, dict(ops=ops, s1=2, s2=0, lmax=3, norm="FKP"), 4))
        c.append(("T_teb_Bb", curved, dict(ops="Bb", s1=0, s2=2, lmax=3, teb=True, symb=False), 12))
    return c
