"""P05: updating a workspace equals computing it afresh."""
import itertools
import numpy as np
from . import wsp

NOTE = "every value of the symbolic beams, weights, f_ell, spectra and matrix entries; every sequence of up to 3 updates"
BOUNDS = {"quick": "all sequences of 1 to 3 updates of beams / bins / matrix (39), spins 0x0 with lmax 4; 0x2 with lmax 3 (sequences of up to 2); both normalisations; new bins with the same multipoles per band but other weights, f_ell or order; "
                   "each update with its own symbolic values; refused updates",
          "thorough": "sequences of up to 4 updates; spin 2x2 and T-E-B"}
ASSUMPTIONS = ["the binned matrix is invertible"]


def final(h, s1, s2, lmax, teb, norm, b1, b2, bins, M):
    f1, _ = wsp.field(h, s1, lmax, beam=b1, seed=1)
    f2, _ = wsp.field(h, s2, lmax, beam=b2, seed=2)
    w = h.nmt.NmtWorkspace.from_fields(f1, f2, bins, is_teb=teb, normalization=norm)
    if M is not None:
        w.update_coupling_matrix(M)
    return w


def same(h, lab, w, v, lmax, nb, n, fkp):
    h.true(lab + "n_bands", w.wsp.bin.n_bands == nb and v.wsp.bin.n_bands == nb)
    cl = h.reals("cl", (n, lmax + 1))
    h.close(lab + "coupled", w.couple_cell(cl), v.couple_cell(cl), 1e-8)
    h.close(lab + "decoupled", w.decouple_cell(cl), v.decouple_cell(cl), 1e-7)
    h.close(lab + "matrix", w.get_coupling_matrix(), v.get_coupling_matrix(), 1e-9)
    h.close(lab + "windows", w.get_bandpower_windows(), v.get_bandpower_windows(), 1e-7)


def seq(h, ops, s1, s2, lmax, teb=False, norm="MASTER", symb=True):
    n = 7 if teb else (2 if s1 else 1) * (2 if s2 else 1)
    N = n * (lmax + 1)
    b1 = h.reals("B1", lmax + 1, 0.5, 1.0)
    b2 = np.linspace(1., 0.8, lmax + 1)
    bins = wsp.mkbins(h, "b", lmax, 0, symb)[0]
    nb = max(wsp.BANDS[lmax][0]) + 1
    M = None
    w = final(h, s1, s2, lmax, teb, norm, b1, b2, bins, None)
    for k, o in enumerate(ops):
        if o == "B":
            b1 = h.reals("Bx%d" % k, lmax + 1, 0.0, 1.0)
            b2 = h.reals("By%d" % k, lmax + 1, -0.5, 1.0)
            w.update_beams(b1, b2)
        elif o == "b":
            z = (k + 1) % len(wsp.BANDS[lmax])
            bins = wsp.mkbins(h, "b%d" % k, lmax, z, symb)[0]
            nb = max(wsp.BANDS[lmax][z]) + 1
            w.update_bins(bins)
        else:
            M = wsp.randmat(h, "M%d" % k, N, 3, seed=k)
            w.update_coupling_matrix(M)
    v = final(h, s1, s2, lmax, teb, norm, b1, b2, bins, M)
    same(h, "", w, v, lmax, nb, n, norm == "FKP")
    if M is not None:
        h.close("matrix kept", w.get_coupling_matrix(), M, 1e-12)


def independent(h, norm):
    """the workspace keeps its own copy of bins, beams and matrix"""
    lmax = 4
    b1 = h.reals("B1", lmax + 1, 0.5, 1.0)
    bins = wsp.mkbins(h, "b", lmax, 0)[0]
    w = final(h, 0, 0, lmax, False, norm, b1, None, bins, None)
    v = final(h, 0, 0, lmax, False, norm, h.array(list(b1)), None, wsp.mkbins(h, "b", lmax, 0)[0], None)
    nb = wsp.mkbins(h, "c", lmax, 1)[0]
    bx = h.array(list(h.reals("Bx", lmax + 1, 0.0, 1.0)))
    M = wsp.randmat(h, "M", lmax + 1, 3)
    w.update_bins(nb)
    w.update_beams(bx, bx)
    w.update_coupling_matrix(M)
    v.update_bins(wsp.mkbins(h, "c", lmax, 1)[0])
    v.update_beams(h.reals("Bx", lmax + 1, 0.0, 1.0), h.reals("Bx", lmax + 1, 0.0, 1.0))
    v.update_coupling_matrix(wsp.randmat(h, "M", lmax + 1, 3))
    del bins, nb
    for i in range(lmax + 1):
        bx[i] = 7.0
        b1[i] = 7.0
        M[i, i] = 9.0
    same(h, "", w, v, lmax, 3, 1, norm == "FKP")


def layout(h, what, s2=0, norm="MASTER"):
    """new bins with the multipoles of the old ones, but other weights, other f_ell, or another order"""
    lmax = 3 if s2 else 4
    n, bp = lmax + 1, wsp.BANDS[lmax][0]
    f1, f2 = (wsp.field(h, s, lmax, seed=i)[0] for i, s in ((1, 0), (2, s2)))
    l = np.arange(n)

    def mk(k, order):
        w = h.reals("w%d" % k, n, 0.5, 1.5) if "w" in what else h.array(list(np.linspace(1., 1.5, n)))
        f = h.reals("f%d" % k, n, 0.5, 2.0) if "f" in what else h.array(list(np.linspace(1., 2., n)))
        return h.nmt.NmtBin(ells=l[order], bpws=np.array(bp)[order], weights=h.array([w[i] for i in order]), f_ell=h.array([f[i] for i in order]), lmax=lmax)
    a, b = mk(1, list(range(n))), mk(2, list(range(n))[::-1 if "o" in what else 1])
    w, v = (h.nmt.NmtWorkspace.from_fields(f1, f2, x, normalization=norm) for x in (a, b))
    w.update_bins(b)
    same(h, "", w, v, lmax, 2, 2 if s2 else 1, norm == "FKP")
    w.update_bins(a)
    same(h, "and back: ", w, h.nmt.NmtWorkspace.from_fields(f1, f2, a, normalization=norm), lmax, 2, 2 if s2 else 1, norm == "FKP")


def refused(h):
    lmax = 4
    b1 = h.reals("B1", lmax + 1, 0.5, 1.0)
    bins = wsp.mkbins(h, "b", lmax, 0)[0]
    w = final(h, 0, 0, lmax, False, "MASTER", b1, None, bins, None)
    other = h.nmt.NmtBin(ells=np.arange(4), bpws=np.array([0, 0, 1, 1]), weights=np.ones(4), lmax=3)
    larger = h.nmt.NmtBin(ells=np.arange(6), bpws=np.array([0, 0, 1, 1, 2, 2]), weights=np.ones(6), lmax=5)
    h.raises("bins with another lmax", w.update_bins, other)
    h.raises("bins with a larger lmax", w.update_bins, larger)
    h.raises("short beam 1", w.update_beams, np.ones(lmax), np.ones(lmax + 1))
    h.raises("short beam 2", w.update_beams, np.ones(lmax + 1), np.ones(lmax))
    h.raises("not arrays", w.update_beams, 1., 1.)
    h.raises("small matrix", w.update_coupling_matrix, np.eye(lmax))
    h.raises("large matrix", w.update_coupling_matrix, np.eye(lmax + 2))
    h.raises("short rows", w.update_coupling_matrix, np.ones((lmax + 1, lmax)))
    h.raises("long rows", w.update_coupling_matrix, np.ones((lmax + 1, lmax + 3)))
    same(h, "after refused updates: ", w, final(h, 0, 0, lmax, False, "MASTER", b1, None, bins, None), lmax, 2, 1, False)
    # longer beams are cut
    b2 = h.reals("B2", lmax + 3, 0.5, 1.0)
    w.update_beams(b2, list(b2))
    same(h, "long beams: ", w, final(h, 0, 0, lmax, False, "MASTER", b2[:lmax + 1], b2[:lmax + 1], bins, None), lmax, 2, 1, False)


def cases(tier):
    T = tier != "quick"
    c = []
    for n in (1, 2, 3):
        for ops in itertools.product("BbM", repeat=n):
            o = "".join(ops)
            c.append(("seq_00_" + o, seq, dict(ops=o, s1=0, s2=0, lmax=4), n))
            if n < 3:
                c.append(("seqfkp_00_" + o, seq, dict(ops=o, s1=0, s2=0, lmax=4, norm="FKP"), n))
                c.append(("seq_02_" + o, seq, dict(ops=o, s1=0, s2=2, lmax=3), n + 2))
    for o in ("BbM", "bBM", "MbB"):
        c.append(("seq_22_" + o, seq, dict(ops=o, s1=2, s2=2, lmax=3, symb=False), 9))
    for o in ("w", "f", "wf", "o", "of", "-"):
        c.append(("layout_" + o, layout, dict(what=o)))
        c.append(("layout2_" + o, layout, dict(what=o, s2=2, norm="FKP"), 2))
    for nm in ("MASTER", "FKP"):
        c.append(("independent_" + nm, independent, dict(norm=nm)))
    c.append(("refused", refused, {}))
    if T:
        for o in ("Bb", "bM", "MB", "BbM"):
            c.append(("seqT_teb_" + o, seq, dict(ops=o, s1=0, s2=2, lmax=3, teb=True, symb=False), 30))
            c.append(("seqT_20_" + o, seq, dict(ops=o, s1=2, s2=0, lmax=5), 9))
        for ops in itertools.product("BbM", repeat=4):
            o = "".join(ops)
            c.append(("seqT_00_" + o, seq, dict(ops=o, s1=0, s2=0, lmax=4), 5))
            c.append(("seqTfkp_02_" + o, seq, dict(ops=o, s1=0, s2=2, lmax=3, norm="FKP"), 5))
    return c
