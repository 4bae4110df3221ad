"""P01: curved-sky bandpowers contain exactly the requested multipoles."""
import numpy as np

BOUNDS = {
    "quick": "symbolic schemes: up to 4 entries with arbitrary band in [-1,2], multipole in [0,lmax+2], lmax in 2..4, weights in [0.1,1], "
             "f_ell in [-1,2]; linear bands: lmax in 3..14, width 1..6; edges: up to 3 bands with edges in [0,8]",
    "thorough": "as quick, with 5 entries and bands in [-2,3]; lmax in 3..24, width 1..9; edges up to 4 bands in [0,10]",
}
ASSUMPTIONS = ["weights of every band have a positive sum", "multipoles are not negative"]


def expected(h, bpws, ells, lmax):
    bands = {}
    n = len(bpws)
    for i in range(n):
        b = h.concrete(bpws[i])
        if b < 0:
            continue
        if ells[i] <= lmax:
            bands.setdefault(b, []).append(i)
    return bands


def observe(h, b, bands, ells, w, label=""):
    nb = max(bands) + 1
    h.true(label + "n_bands", b.get_n_bands() == nb)
    nl = b.get_nell_list()
    h.close(label + "nell_list", list(nl), [len(bands.get(k, [])) for k in range(nb)])
    eff = b.get_effective_ells()
    for k in range(nb):
        idx = bands[k]
        h.close(label + "ells of band %d" % k, list(b.get_ell_list(k)), [ells[i] for i in idx])
        tot = 0.0
        for i in idx:
            tot = tot + w[i]
        ws = list(b.get_weight_list(k))
        h.close(label + "weights of band %d" % k, ws, [w[i] / tot for i in idx])
        e = 0.0
        for i in idx:
            e = e + w[i] / tot * ells[i]
        h.close(label + "effective multipole %d" % k, eff[k], e)
        h.close(label + "min of band", b.get_ell_min(k), ells[idx[0]])
        h.close(label + "max of band", b.get_ell_max(k), ells[idx[-1]])


def arbitrary(h, n, bmin, bmax, lmax, with_lmax=True):
    bpws = h.array([h.int("b%d" % i, bmin, bmax) for i in range(n)])
    ells = h.array([h.int("l%d" % i, 0, lmax + 2) for i in range(n)])
    w = h.reals("w", n, 0.1, 1.0)
    f = h.reals("f", n, 0.5, 2.0)
    bands = expected(h, bpws, ells, lmax)
    nb = max(list(bands) + [0]) + 1
    if any(k not in bands for k in range(nb)):
        h.raises("empty band refused", lambda: h.nmt.NmtBin(bpws=bpws, ells=ells, weights=w, f_ell=f, lmax=lmax))
        return
    b = h.nmt.NmtBin(bpws=bpws, ells=ells, weights=w, f_ell=f, lmax=lmax)
    h.true("lmax", b.lmax == lmax)
    observe(h, b, bands, ells, w)


def prefactor(h, ells, bpws, lmax):
    """f_ell of every sign, seen through binning"""
    n = len(ells)
    w = h.reals("w", n, 0.1, 1.0)
    f = h.reals("f", n, -1.0, 2.0)
    b = h.nmt.NmtBin(bpws=np.array(bpws), ells=np.array(ells), weights=w, f_ell=f, lmax=lmax)
    cl = h.reals("cl", lmax + 1, -1, 1)
    feff = [f[i] if f[i] > 0 else 1.0 for i in range(n)]
    nb = b.get_n_bands()
    exp = []
    for k in range(nb):
        idx = [i for i in range(n) if bpws[i] == k and ells[i] <= lmax]
        tot = 0.0
        for i in idx:
            tot = tot + w[i]
        v = 0.0
        for i in idx:
            v = v + w[i] / tot * feff[i] * cl[ells[i]]
        exp.append(v)
    h.close("binned", b.bin_cell(cl), exp)


def defaults(h, n, lmax):
    """no weights, f_ell or lmax given"""
    bpws = np.array([i // 2 for i in range(n)])
    ells = h.array([h.int("l%d" % i, 0, lmax) for i in range(n)])
    b = h.nmt.NmtBin(bpws=bpws, ells=ells)
    L = h.concrete(ells[0])
    for i in range(1, n):
        e = h.concrete(ells[i])
        if e > L:
            L = e
    h.true("lmax is the largest multipole", b.lmax == L)
    observe(h, b, {k: [i for i in range(n) if i // 2 == k] for k in range((n + 1) // 2)}, ells, [1.0] * n)
    cl = h.reals("cl", L + 1)
    h.close("no prefactor", b.bin_cell(cl), [sum([cl[h.concrete(ells[i])] for i in range(n) if i // 2 == k], 0.0) / len([i for i in range(n) if i // 2 == k])
                                             for k in range((n + 1) // 2)])


def linear(h, lmax0, lmax1, nlb1, via):
    nlb = h.concrete(h.int("nlb", 1, nlb1))
    if via == "nside":
        nside = h.concrete(h.int("nside", 1, 4))
        lmax = 3 * nside - 1
    else:
        lmax = h.concrete(h.int("lmax", lmax0, lmax1))
    nb = (lmax - 1) // nlb
    h.assume(nb > 0)
    dell = h.concrete(h.int("is_Dell", 0, 1))
    if via == "nside":
        b = h.nmt.NmtBin.from_nside_linear(nside, nlb, is_Dell=bool(dell))
    else:
        b = h.nmt.NmtBin.from_lmax_linear(lmax, nlb, is_Dell=bool(dell))
    h.true("lmax", b.lmax == lmax)
    ells = list(range(lmax + 1))
    bands = {k: [2 + k * nlb + j for j in range(nlb)] for k in range(nb)}
    observe(h, b, bands, ells, [1.0] * (lmax + 1))
    cl = h.reals("cl", lmax + 1)
    pref = [l * (l + 1) / (2 * np.pi) if dell else 1.0 for l in ells]
    h.close("prefactor", b.bin_cell(cl), [sum([pref[l] * cl[l] for l in bands[k]], 0.0) / nlb for k in range(nb)])


def edges(h, nb, emax, dell):
    lo, hi = [], []
    for k in range(nb):
        a = h.concrete(h.int("lo%d" % k, 0, emax))
        z = h.concrete(h.int("hi%d" % k, 1, emax))
        h.assume(a < z)
        if k:
            h.assume(a >= hi[-1])
        lo.append(a)
        hi.append(z)
    b = h.nmt.NmtBin.from_edges(lo, hi, is_Dell=dell)
    lmax = max(hi) - 1
    h.true("lmax", b.lmax == lmax)
    ells = list(range(lmax + 1))
    bands = {k: list(range(lo[k], hi[k])) for k in range(nb)}
    observe(h, b, bands, ells, [1.0] * (lmax + 1))
    cl = h.reals("cl", lmax + 1)
    pref = [(l * (l + 1) / (2 * np.pi) if (dell and l > 0) else 1.0) for l in ells]
    h.close("prefactor", b.bin_cell(cl), [sum([pref[l] * cl[l] for l in bands[k]], 0.0) / len(bands[k]) for k in range(nb)])


def fedges(h):
    lo, hi = [2, 5, 7], [5, 7, 8]
    f = h.reals("f", 6, 0.2, 3.0)
    b = h.nmt.NmtBin.from_edges(lo, hi, f_ell=f)
    cl = h.reals("cl", 8)
    h.close("prefactor", b.bin_cell(cl), [sum([f[l - 2] * cl[l] for l in range(lo[k], hi[k])], 0.0) / (hi[k] - lo[k]) for k in range(3)])
    b = h.nmt.NmtBin.from_edges(lo, hi, f_ell=f, is_Dell=True)
    h.close("f_ell overrides is_Dell, edges", b.bin_cell(cl), [sum([f[l - 2] * cl[l] for l in range(lo[k], hi[k])], 0.0) / (hi[k] - lo[k]) for k in range(3)])
    b = h.nmt.NmtBin.from_nside_linear(2, 2, f_ell=h.array([1.0, 1.0] + list(f[:4])), is_Dell=True)
    h.close("f_ell overrides is_Dell, nside", b.bin_cell(cl[:6]), [sum([f[l - 2] * cl[l] for l in range(2 + 2 * k, 4 + 2 * k)], 0.0) / 2 for k in range(2)])
    b = h.nmt.NmtBin.from_lmax_linear(5, 2, f_ell=h.array([1.0, 1.0] + list(f[:4])), is_Dell=True)
    h.close("f_ell overrides is_Dell", b.bin_cell(cl[:6]), [sum([f[l - 2] * cl[l] for l in range(2 + 2 * k, 4 + 2 * k)], 0.0) / 2 for k in range(2)])


def badweights(h):
    """bands with a non-positive total weight are refused"""
    w = h.reals("w", 3, -1.0, 1.0)

    def mk():
        return h.nmt.NmtBin(bpws=np.array([0, 0, 1]), ells=np.array([2, 3, 4]), weights=w, lmax=5)
    if w[0] + w[1] <= 0:
        h.raises("refused", mk)
    elif w[2] <= 0:
        h.raises("refused", mk)
    else:
        b = mk()
        h.close("weights", list(b.get_weight_list(0)), [w[0] / (w[0] + w[1]), w[1] / (w[0] + w[1])], 1e-7)
        h.close("weights", list(b.get_weight_list(1)), [1.0])


def cases(tier):
    T = tier != "quick"
    c = [("arbitrary3", arbitrary, dict(n=3, bmin=-1, bmax=2, lmax=3)),
         ("arbitrary4", arbitrary, dict(n=4, bmin=-1, bmax=1, lmax=2), 3),
         ("prefactor", prefactor, dict(ells=[4, 2, 3, 6, 5], bpws=[0, 0, 1, 1, 1], lmax=5)),
         ("prefactor2", prefactor, dict(ells=[0, 3, 2, 2, 7], bpws=[1, 0, -1, 0, 1], lmax=7)),
         ("defaults", defaults, dict(n=3, lmax=4)),
         ("linear", linear, dict(lmax0=3, lmax1=14, nlb1=6, via="lmax"), 2),
         ("linear_nside", linear, dict(lmax0=3, lmax1=14, nlb1=6, via="nside")),
         ("edges1", edges, dict(nb=1, emax=6, dell=True)),
         ("edges2", edges, dict(nb=2, emax=7, dell=False), 2),
         ("edges3", edges, dict(nb=3, emax=6, dell=True), 4),
         ("fedges", fedges, {}),
         ("badweights", badweights, {})]
    if T:
        c += [("arbitrary4T", arbitrary, dict(n=4, bmin=-2, bmax=3, lmax=4), 8),
              ("arbitrary5T", arbitrary, dict(n=5, bmin=-1, bmax=1, lmax=3), 8),
              ("linearT", linear, dict(lmax0=3, lmax1=24, nlb1=9, via="lmax"), 5),
              ("edges4T", edges, dict(nb=4, emax=10, dell=True), 5)]
    return c
