"""P03: flat-sky bandpowers: a wavenumber belongs to the band that contains it."""
import numpy as np

BOUNDS = {"quick": "up to 4 bands with arbitrary ordered edges in [0,10] (gaps and zero gaps included), arbitrary wavenumber in [-1,11], "
                   "any index hint in [-2, n-1]; histories of 3 arbitrary wavenumbers; binning of up to 5 samples at arbitrary increasing wavenumbers",
          "thorough": "up to 6 bands, histories of 4 wavenumbers, 7 samples"}
ASSUMPTIONS = ["bands are increasing and do not overlap"]


def edges(h, nb, gaps=True):
    l0, lf = [], []
    prev = None
    for k in range(nb):
        a = h.real("lo%d" % k, 0.0, 10.0) if (gaps or k == 0) else prev
        z = h.real("hi%d" % k, 0.0, 10.0)
        h.assume(a < z)
        if prev is not None and gaps:
            h.assume(prev <= a)
        l0.append(a)
        lf.append(z)
        prev = z
    return l0, lf


def where(h, l0, lf, l):
    for k in range(len(l0)):
        if l >= l0[k]:
            if l < lf[k]:
                return k
    return -1


def search(h, nb, gaps=True):
    l0, lf = edges(h, nb, gaps)
    b = h.C.nmt_bins_flat_create(nb, h.dbuf(l0), h.dbuf(lf))
    l = h.real("l", -1.0, 11.0)
    hint = h.concrete(h.int("hint", -2, nb - 1))
    r = h.C.nmt_bins_flat_search_fast(b, l, hint)
    h.close("band", r, where(h, l0, lf, l))
    h.C.nmt_bins_flat_free(b)


def history(h, nb, n, gaps=True):
    """lookups in sequence, as done by unbinning; wavenumbers in any order"""
    l0, lf = edges(h, nb, gaps)
    b = h.nmt.NmtBinFlat(h.array(l0), h.array(lf))
    ls = h.reals("l", n, -1.0, 11.0)
    bp = h.array([[1.0 + k + 10 * c for k in range(nb)] for c in range(2)])
    out = b.unbin_cell(bp, ls)
    h.true("shape", out.shape == (2, n))
    for i in range(n):
        k = where(h, l0, lf, ls[i])
        if k >= 0:
            h.close("value %d" % i, [out[0][i], out[1][i]], [bp[0][k], bp[1][k]])
        else:
            # outside of all bands: the fill value, whatever the bandpowers
            h.true("outside %d" % i, h_or(h, out[0][i], bp[0]))
            h.close("outside value", out[0][i], out[1][i])


def h_or(h, v, bps):
    return all(bool(v != x) for x in bps)


def values(h, nb, n):
    """unbinned values are the bandpowers, arbitrary bandpowers"""
    l0 = [2.0 + 3 * k for k in range(nb)]
    lf = [5.0 + 3 * k for k in range(nb)]
    b = h.nmt.NmtBinFlat(np.array(l0), np.array(lf))
    bp = h.reals("bp", (3, nb))
    ls = [2.0, 10.9, 4.999, 5.0, 7.5, 3.3][:n]
    out = b.unbin_cell(bp, np.array(ls))
    h.close("values", out, [[bp[c][int((l - 2) // 3)] for l in ls] for c in range(3)])
    h.close("1D", b.unbin_cell(bp[0], np.array(ls)), out[0])
    h.true("n_bands", b.get_n_bands() == nb)


def centre(h, nb):
    l0, lf = edges(h, nb)
    b = h.nmt.NmtBinFlat(h.array(l0), h.array(lf))
    h.close("centres", b.get_effective_ells(), [0.5 * (a + z) for a, z in zip(l0, lf)])


def binning(h, ls, l0, lf, ncl):
    """interpolated input spectrum at the band centres, edge values outside the sampled range"""
    b = h.nmt.NmtBinFlat(np.array(l0), np.array(lf))
    cl = h.reals("cl", (ncl, len(ls)))
    out = b.bin_cell(np.array(ls), cl)
    exp = []
    for c in range(ncl):
        e = []
        for a, z in zip(l0, lf):
            x = 0.5 * (a + z)
            if x <= ls[0]:
                e.append(cl[c][0])
            elif x >= ls[-1]:
                e.append(cl[c][len(ls) - 1])
            else:
                for i in range(len(ls) - 1):
                    if ls[i] <= x < ls[i + 1]:
                        t = (x - ls[i]) / (ls[i + 1] - ls[i])
                        e.append(cl[c][i] * (1 - t) + cl[c][i + 1] * t)
        exp.append(e)
    h.close("bin", out, exp)
    h.close("bin 1D", b.bin_cell(np.array(ls), cl[0]), out[0])
    # band-constant spectra
    bp = h.reals("bp", (1, len(l0)))


def roundtrip(h):
    """finely sampled band-constant spectra come back"""
    l0, lf = [2.0, 6.0, 10.0], [6.0, 10.0, 14.0]
    b = h.nmt.NmtBinFlat(np.array(l0), np.array(lf))
    bp = h.reals("bp", (2, 3))
    ls = np.arange(2.0, 14.0)
    h.close("roundtrip", b.bin_cell(ls, b.unbin_cell(bp, ls)), bp)


def constant(h, nlb, lmax):
    b = h.C.nmt_bins_flat_constant(nlb, lmax)
    nb = int((lmax - 1) // nlb)
    h.true("n", b.n_bands == nb)
    e = h.dbuf([0.0] * nb)
    h.C.nmt_ell_eff_flat(b, e)
    h.close("eff", e.read(nb), [2 + nlb * (k + 0.5) for k in range(nb)])
    l = h.real("l", -1.0, lmax + 5)
    r = h.C.nmt_bins_flat_search_fast(b, l, h.concrete(h.int("hint", -1, nb - 1)))
    h.close("band", r, where(h, [2.0 + nlb * k for k in range(nb)], [2.0 + nlb * (k + 1) for k in range(nb)], l))
    h.C.nmt_bins_flat_free(b)


def cases(tier):
    T = tier != "quick"
    c = []
    for nb in range(1, 7 if T else 5):
        c.append(("search%d" % nb, search, dict(nb=nb), nb))
        if nb > 1:
            c.append(("search%d_contiguous" % nb, search, dict(nb=nb, gaps=False), nb))
    c += [("history1", history, dict(nb=1, n=3)), ("history2", history, dict(nb=2, n=3), 5), ("history3", history, dict(nb=3, n=2), 5),
          ("history3c", history, dict(nb=3, n=3, gaps=False), 8),
          ("values", values, dict(nb=3, n=6)), ("centre", centre, dict(nb=4)),
          ("bin1", binning, dict(ls=[1.0, 2.0, 4.0, 8.0], l0=[0.0, 2.0, 4.0, 9.0], lf=[1.0, 4.0, 7.0, 10.0], ncl=2)),
          ("bin2", binning, dict(ls=[2.0, 3.0, 5.0], l0=[2.0, 2.5], lf=[2.5, 9.0], ncl=3)),
          ("roundtrip", roundtrip, {}),
          ("constant", constant, dict(nlb=2, lmax=9.0))]
    if T:
        c += [("history4", history, dict(nb=4, n=3), 9), ("history3T", history, dict(nb=3, n=4, gaps=False), 9)]
    return c
