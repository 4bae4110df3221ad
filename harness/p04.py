"""P04: curved-sky mode-coupling matrix equals the Wigner-3j formula."""
import math
import numpy as np
from . import ref, curved

NOTE = "every mask pseudo-spectrum, beam, weight and f_ell within the stated bounds, for the spins and multipole ranges enumerated; GSL's LU is a contract"
BOUNDS = {"quick": "lmax 4..6, lmax_mask from lmax-3 to 2*lmax+2, spins 0..3 in pairs, all purification combinations, TEB; symbolic mask pseudo-C_l in [-1,1], "
                   "beams and binning weights; mask maps with 4 symbolic pixels of an nside-2 or 3x4-pixel CAR map",
          "thorough": "lmax up to 10, spins to 4"}
ASSUMPTIONS = ["the 3j recursion is executed on concrete multipoles"]


def onebins(h, lmax, f=None):
    """each multipole its own band (identity binning)"""
    n = lmax + 1
    return h.nmt.NmtBin(ells=np.arange(n), bpws=np.arange(n), weights=np.ones(n), lmax=lmax)


def getm(h, w):
    n = (w.lmax + 1) * w.ncls
    return [list(r) for r in np.asarray(h.lib.get_mcm(w, n * n)).reshape([n, n])]


def unbinned(h, s1, s2, lmax, lmask, p1=(0, 0), p2=(0, 0), teb=0):
    pcl = h.reals("pcl", lmask + 1)
    b = onebins(h, lmax)
    one = np.ones(lmax + 1)
    w = h.lib.comp_coupling_matrix(s1, s2, lmax, lmask, p1[0], p1[1], p2[0], p2[1], 0, 0., one, one, pcl, b.bin, teb, -1, -1, -1)
    K, n = ref.mcm(s1, s2, lmax, lmask, pcl, p1, p2, bool(teb))
    h.true("ncls", w.ncls == n)
    M = getm(h, w)
    h.close("mcm", M, ref.dense(K, n, n * (lmax + 1)), 1e-10)
    h.lib.workspace_free(w)


def binned(h, s1, s2, lmax, lmask, teb=0, p=(0, 0), beams=True):
    """binned matrix through coupling + decoupling of band-constant spectra (FKP-free)"""
    pcl = [0.9 + 0.05 * i * (-1) ** i for i in range(lmask + 1)]
    nl = lmax + 1
    K, n = ref.mcm(s1, s2, lmax, lmask, pcl, (0, 0) if teb else p, p if teb or s2 else (0, 0), bool(teb))
    bp = [-1, -1] + [(l - 2) // 2 for l in range(2, nl)]
    nb = max(bp) + 1
    ws = h.reals("w", nl, 0.5, 1.5)
    fl = h.reals("f", nl, 0.5, 2.0)
    b1 = h.reals("b1", nl, 0.5, 1.0)
    b2 = h.reals("b2", nl, 0.5, 1.0)
    b = h.nmt.NmtBin(ells=np.arange(nl), bpws=np.array(bp), weights=ws, f_ell=fl, lmax=lmax)
    w = h.lib.comp_coupling_matrix(s1, s2, lmax, lmask, *(tuple(p) if not teb else (0, 0)), *(p if s2 else (0, 0)), 0, 0., b1, b2, h.array(pcl), b.bin, teb, -1, -1, -1)
    ells = [[l for l in range(nl) if bp[l] == k] for k in range(nb)]
    tot = [sum_(ws[l] for l in e) for e in ells]
    # expected binned matrix
    B = [[0.0] * (n * nb) for _ in range(n * nb)]
    for ka in range(nb):
        for kb in range(nb):
            for i in range(n):
                for j in range(n):
                    t = 0.0
                    for la in ells[ka]:
                        for lb in ells[kb]:
                            m = K.get((n * la + i, n * lb + j), 0.0)
                            if m != 0.0:
                                t = t + (ws[la] / tot[ka]) * fl[la] / fl[lb] * b1[lb] * b2[lb] * m
                    B[n * ka + i][n * kb + j] = t
    # the only public observable of the binned matrix is what decoupling solves with: its inverse times any vector
    inv = h.inv(B)
    cl = h.reals("c", (n, nl))
    out = np.asarray(h.lib.decouple_cell_py(w, cl, np.zeros([n, nl]), np.zeros([n, nl]), n * nb)).reshape(n, nb)
    v = [0.0] * (n * nb)
    for i in range(n):
        for k in range(nb):
            t = 0.0
            for l in ells[k]:
                t = t + (ws[l] / tot[k]) * fl[l] * cl[i][l]
            v[n * k + i] = t
    for i in range(n):
        for k in range(nb):
            t = 0.0
            for q in range(n * nb):
                t = t + inv[n * k + i][q] * v[q]
            h.close("decoupled", out[i][k], t, 1e-7)


def fields(h, s1, s2, kind, lmax, lmask, p1=(0, 0), p2=(0, 0), teb=False, same=False, n_iter=0):
    """through NmtField and NmtWorkspace"""
    wcs, sh = curved.geom(h, kind)
    npx = int(np.prod(sh))
    m1 = curved.mask(h, "m1", sh, [1, npx // 2], seed=1)
    m2 = curved.mask(h, "m2", sh, [2, npx // 2 + 1], seed=2)
    nl = lmax + 1
    b1 = h.reals("b1", nl + 1, 0.5, 1.0)
    b2 = h.reals("b2", nl, 0.5, 1.0)
    f1 = h.nmt.NmtField(m1, None, spin=s1, beam=b1, lmax=lmax, lmax_mask=lmask, n_iter_mask=n_iter, wcs=wcs,
                        purify_e=bool(p1[0]), purify_b=bool(p1[1]))
    f2 = f1 if same else h.nmt.NmtField(m2, None, spin=s2, beam=b2, lmax=lmax, lmax_mask=lmask, n_iter_mask=n_iter, wcs=wcs,
                                        purify_e=bool(p2[0]), purify_b=bool(p2[1]))
    if same:
        s2, p2 = s1, p1
        b2 = b1
    b = onebins(h, lmax)
    w = h.nmt.NmtWorkspace.from_fields(f1, f2, b, is_teb=teb)
    ai = h.nmt.utils.NmtAlmInfo(lmask)
    a1 = h.nmt.utils.map2alm(h.array([flatmap(m1, kind)]), 0, f1.minfo, ai, n_iter=n_iter)[0]
    a2 = a1 if same else h.nmt.utils.map2alm(h.array([flatmap(m2, kind)]), 0, f1.minfo, ai, n_iter=n_iter)[0]
    pcl = curved.cross(a1, a2, lmask)
    K, n = ref.mcm(s1, s2, lmax, lmask, pcl, p1, p2, teb)
    M = w.get_coupling_matrix()
    h.close("mcm", M, ref.dense(K, n, n * nl), 1e-9)
    cl = np.array([[1.0 + 0.1 * i - 0.05 * l for l in range(nl)] for i in range(n)])
    out = w.couple_cell(cl)
    for l in range(nl):
        for i in range(n):
            t = 0.0
            for lp in range(nl):
                for j in range(n):
                    m = K.get((n * l + i, n * lp + j))
                    if m is not None:
                        t = t + m * (b1[lp] * b2[lp] * float(cl[j][lp]))
            h.close("beams", out[i][l], t, 1e-8)


def flatmap(m, kind):
    if kind == "carflip":   # both axes run backwards with respect to the internal orientation
        m = m[:, ::-1]
    elif kind.startswith("car"):   # declination grows with the row
        m = m[::-1, :]
    return m.reshape(-1)


def refused(h):
    sh = (48,)
    m = np.ones(sh)
    f5 = h.nmt.NmtField(m, None, spin=0, lmax=4, lmax_mask=5)
    f4 = h.nmt.NmtField(m, None, spin=0, lmax=3, lmax_mask=5)
    f5m = h.nmt.NmtField(m, None, spin=2, lmax=4, lmax_mask=4)
    b = onebins(h, 4)
    h.raises("lmax", h.nmt.NmtWorkspace.from_fields, f5, f4, b)
    h.raises("lmax_mask", h.nmt.NmtWorkspace.from_fields, f5, f5m, b)
    h.raises("bins", h.nmt.NmtWorkspace.from_fields, f5, f5, onebins(h, 3))
    h.raises("teb", h.nmt.NmtWorkspace.from_fields, f5, f5, b, is_teb=True)
    h.raises("norm", h.nmt.NmtWorkspace.from_fields, f5, f5, b, normalization="x")
    x = h.real("x")
    w = h.nmt.NmtWorkspace.from_fields(f5, f5, b)
    h.close("usable", w.couple_cell(h.array([[x] * 5]))[0][0], x * sum(np.asarray(w.get_coupling_matrix()[0])), 1e-9)


def sum_(it):
    t = 0.0
    for x in it:
        t = t + x
    return t


def cases(tier):
    T = tier != "quick"
    c = []
    L = 4
    sp = [(0, 0), (0, 1), (1, 0), (0, 2), (2, 0), (0, 3), (1, 1), (2, 2), (3, 3), (1, 2), (2, 1), (2, 3), (3, 1)]
    for s1, s2 in sp:
        for lm in (L - 3, L, 2 * L + 2):
            c.append(("mcm_%d_%d_lm%d" % (s1, s2, lm), unbinned, dict(s1=s1, s2=s2, lmax=L, lmask=lm), 2))
    for a in range(4):
        pa = (a & 1, a >> 1)
        if a:
            c.append(("pure_0_2_%d%d" % pa, unbinned, dict(s1=0, s2=2, lmax=L, lmask=2 * L, p2=pa), 2))
            c.append(("pure_2_0_%d%d" % pa, unbinned, dict(s1=2, s2=0, lmax=L, lmask=2 * L, p1=pa), 2))
            c.append(("pure_1_2_%d%d" % pa, unbinned, dict(s1=1, s2=2, lmax=L, lmask=2 * L, p2=pa), 3))
            c.append(("pure_2_3_%d%d" % pa, unbinned, dict(s1=2, s2=3, lmax=L, lmask=2 * L, p1=pa), 3))
        for b in range(4):
            pb = (b & 1, b >> 1)
            if a or b:
                c.append(("pure_2_2_%d%d%d%d" % (pa + pb), unbinned, dict(s1=2, s2=2, lmax=L, lmask=L + 3, p1=pa, p2=pb), 3))
    for s in (1, 2, 3):
        c.append(("teb_%d" % s, unbinned, dict(s1=0, s2=s, lmax=L, lmask=2 * L, teb=1), 3))
    for a in (1, 2, 3):
        c.append(("teb_pure_%d" % a, unbinned, dict(s1=0, s2=2, lmax=L, lmask=2 * L, teb=1, p2=(a & 1, a >> 1)), 3))
    c.append(("binned_00", binned, dict(s1=0, s2=0, lmax=7, lmask=7), 5))
    c.append(("binned_02", binned, dict(s1=0, s2=2, lmax=5, lmask=5), 5))
    for s1, s2, kind, kw in [(0, 0, "hp2", {}), (0, 2, "hp2", {}), (2, 0, "car", {}), (2, 2, "carflip", {}), (0, 2, "hp2", dict(teb=True)),
                             (2, 2, "hp2", dict(p1=(0, 1), p2=(1, 0))), (0, 2, "car", dict(p2=(0, 1))), (1, 2, "hp2", {}),
                             (2, 2, "hp2", dict(same=True, p1=(0, 1))), (0, 0, "carfull", dict(n_iter=1))]:
        c.append(("fields_%d_%d_%s_%s" % (s1, s2, kind, "".join(kw)), fields, dict(s1=s1, s2=s2, kind=kind, lmax=3, lmask=5, **kw), 6))
    c.append(("refused", refused, {}))
    for s1, s2 in ((0, 0), (0, 2), (2, 2)):
        c.append(("short_%d_%d" % (s1, s2), fields, dict(s1=s1, s2=s2, kind="hp2", lmax=4, lmask=2), 6))
    c.append(("short_pure", unbinned, dict(s1=2, s2=2, lmax=L, lmask=2, p1=(1, 0), p2=(0, 1)), 3))
    c.append(("short_teb", unbinned, dict(s1=0, s2=2, lmax=L, lmask=2, teb=1), 3))
    if T:
        for s1 in range(5):
            for s2 in range(5):
                for L, lm in ((6, 5), (8, 9), (8, 17)):
                    c.append(("T_mcm_%d_%d_%d_%d" % (s1, s2, L, lm), unbinned, dict(s1=s1, s2=s2, lmax=L, lmask=lm), 4))
        for a in range(16):
            pa, pb = (a & 1, a >> 1 & 1), (a >> 2 & 1, a >> 3)
            c.append(("T_pure_%d" % a, unbinned, dict(s1=2, s2=2, lmax=7, lmask=10, p1=pa, p2=pb), 8))
            if a < 4:
                c.append(("T_teb_pure_%d" % a, unbinned, dict(s1=0, s2=2, lmax=6, lmask=9, teb=1, p2=pa), 8))
                for s in (1, 3):
                    c.append(("T_pure_%d_2_%d" % (s, a), unbinned, dict(s1=s, s2=2, lmax=7, lmask=10, p2=pa), 8))
        c.append(("T_binned_22", binned, dict(s1=2, s2=2, lmax=3, lmask=5), 20))
    return c
