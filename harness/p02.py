"""P02: binning averages, unbinning inverts it, effective multipoles follow the weights."""
import numpy as np

BOUNDS = {"quick": "5 partitions of up to 9 multipoles (unsorted, overlapping and unused multipoles included), arbitrary weights in [0.1,1] (also of either sign and zero, with band totals of at least 0.1), "
                   "f_ell in [0.2,3] or non-positive, 1 to 4 spectra with values in [-1,1]",
          "thorough": "as quick, 12 partitions up to 16 multipoles"}
ASSUMPTIONS = ["the total weight of a band is positive"]


def scheme(h, part, lmax, neg=False, wr=(0.1, 1.0)):
    ells = [l for b in part for l in b]
    bpws = [k for k, b in enumerate(part) for l in b]
    n = len(ells)
    w = h.reals("w", n, *wr)
    f = h.reals("f", n, -1.0 if neg else 0.2, 3.0)
    if wr[0] < 0:
        i = 0
        for bd in part:
            tot = 0.0
            for j in range(len(bd)):
                tot = tot + w[i + j]
            h.assume(tot >= 0.1)
            i += len(bd)
    b = h.nmt.NmtBin(bpws=np.array(bpws), ells=np.array(ells), weights=w, f_ell=f, lmax=lmax)
    fe = [(f[i] if f[i] > 0 else 1.0) for i in range(n)] if neg else f
    rows, i = [], 0
    for bd in part:
        tot = 0.0
        for j in range(len(bd)):
            tot = tot + w[i + j]
        rows.append([(l, w[i + j] / tot, fe[i + j]) for j, l in enumerate(bd)])
        i += len(bd)
    return b, rows


def binning(h, part, lmax, ncl, neg=False, wr=(0.1, 1.0)):
    b, rows = scheme(h, part, lmax, neg, wr)
    cl = h.reals("cl", (ncl, lmax + 1))
    out = b.bin_cell(cl)
    h.true("shape", out.shape == (ncl, len(part)))
    h.close("bin", out, [[sum([w * f * cl[c][l] for l, w, f in r], 0.0) for r in rows] for c in range(ncl)])
    h.close("bin 1D", b.bin_cell(cl[0]), out[0])
    h.close("effective", b.get_effective_ells(), [sum([w * l for l, w, f in r], 0.0) for r in rows])


def unbinning(h, part, lmax, ncl, neg=False, wr=(0.1, 1.0)):
    b, rows = scheme(h, part, lmax, neg, wr)
    bp = h.reals("bp", (ncl, len(part)))
    out = b.unbin_cell(bp)
    h.true("shape", out.shape == (ncl, lmax + 1))
    exp = []
    for c in range(ncl):
        e = [0.0] * (lmax + 1)
        for k, r in enumerate(rows):
            for l, w, f in r:
                e[l] = bp[c][k] / f
        exp.append(e)
    h.close("unbin", out, exp)
    h.close("unbin 1D", b.unbin_cell(bp[0]), out[0])
    h.close("bin of unbin", b.bin_cell(out), bp, 1e-7)


def project(h, part, lmax):
    """binning, unbinning and binning again changes nothing"""
    b, rows = scheme(h, part, lmax)
    cl = h.reals("cl", (2, lmax + 1))
    x = b.bin_cell(cl)
    h.close("project", b.bin_cell(b.unbin_cell(x)), x, 1e-6)


def dell(h, nside):
    """D_ell binning of unbinned D_ell bandpowers through the convenience constructor"""
    b = h.nmt.NmtBin.from_nside_linear(nside, 2, is_Dell=True)
    n = b.get_n_bands()
    bp = h.reals("bp", (2, n))
    h.close("roundtrip", b.bin_cell(b.unbin_cell(bp)), bp)


def constant(h, nlb, lmax, l2):
    """C-level constructor for constant bandpowers"""
    b = h.C.nmt_bins_constant(nlb, lmax, l2)
    nb = (lmax - 1) // nlb
    h.true("n_bands", b.n_bands == nb)
    h.true("ell_max", b.ell_max == lmax)
    cl = h.reals("cl", lmax + 1)
    out = h.dbuf([0.0] * nb)
    h.C.nmt_bin_cls(b, h.pbuf([h.dbuf(list(cl))]), h.pbuf([out]), 1)
    h.close("bin", out.read(nb), [sum([(l * (l + 1) / (2 * np.pi) if l2 else 1.0) * cl[l] for l in range(2 + k * nlb, 2 + (k + 1) * nlb)], 0.0) / nlb
                                  for k in range(nb)])
    eff = h.dbuf([0.0] * nb)
    h.C.nmt_ell_eff(b, eff)
    h.close("eff", eff.read(nb), [2 + k * nlb + 0.5 * (nlb - 1) for k in range(nb)])
    h.C.nmt_bins_free(b)


P = [([[2, 3], [4, 5, 6]], 6), ([[5, 2], [3], [0, 6]], 7), ([[0], [1], [2], [3]], 4), ([[2, 3, 4, 5]], 8), ([[7, 6], [1, 3], [2]], 8)]
PT = P + [([[2 + 3 * k, 3 + 3 * k, 4 + 3 * k] for k in range(4)], 15), ([[9, 1, 4], [2, 8], [3, 0, 11]], 12), ([[2, 3, 4, 5, 6, 7]], 9)]
OV = [([[2, 3], [3, 4]], 5)]


def cases(tier):
    c = []
    for i, (p, lm) in enumerate(P if tier == "quick" else PT):
        c.append(("bin%d" % i, binning, dict(part=p, lmax=lm, ncl=1 + i % 4)))
        c.append(("unbin%d" % i, unbinning, dict(part=p, lmax=lm, ncl=1 + (i + 2) % 4)))
    c.append(("bin_neg", binning, dict(part=P[1][0], lmax=7, ncl=2, neg=True)))
    c.append(("unbin_neg", unbinning, dict(part=P[0][0], lmax=6, ncl=2, neg=True)))
    c.append(("bin_overlap", binning, dict(part=OV[0][0], lmax=5, ncl=2)))
    c.append(("bin_signed", binning, dict(part=P[1][0], lmax=7, ncl=2, wr=(-0.4, 1.0))))
    c.append(("unbin_signed", unbinning, dict(part=P[1][0], lmax=7, ncl=2, wr=(-0.4, 1.0))))
    c.append(("project", project, dict(part=[[2, 3], [4, 5]], lmax=6)))
    c.append(("dell", dell, dict(nside=3)))
    for nlb, lm, l2 in ((1, 4, 0), (3, 10, 1), (4, 11, 0)):
        c.append(("constant_%d_%d" % (nlb, lm), constant, dict(nlb=nlb, lmax=lm, l2=l2)))
    return c
