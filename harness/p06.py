"""P06: coupling matrix for anisotropic masks."""
import numpy as np
from . import ref, curved
from .p04 import onebins, getm

NOTE = "every value of the nine mask pseudo-spectra for the enumerated spins; the reference formula was itself checked against brute-force mode coupling"
BOUNDS = {"quick": "spins 0..2 in all pairs with each admissible anisotropy; lmax 3, lmax_mask 3 and 6; symbolic mask pseudo-C_l in [-1,1]; mask maps with "
                   "4 symbolic pixels of an nside-2 or CAR map; symbolic beams",
          "thorough": "lmax up to 6, spins up to 3"}
ASSUMPTIONS = ["lmax_mask >= lmax"]
NAMES = ("00", "0e", "0b", "e0", "b0", "ee", "eb", "be", "bb")


def lib(h, s1, s2, an1, an2, lmax, lmask):
    p = {k: h.reals("p" + k, lmask + 1) for k in NAMES}
    one = np.ones(lmax + 1)
    b = onebins(h, lmax)
    w = h.lib.comp_coupling_matrix_anisotropic(s1, s2, an1, an2, lmax, lmask, *[p[k] for k in NAMES], one, one, b.bin, 0, 0.)
    K, n = ref.mcm_aniso(s1, s2, lmax, lmask, p, an1, an2)
    h.close("mcm", getm(h, w), ref.dense(K, n, n * (lmax + 1)), 1e-10)
    h.lib.workspace_free(w)


def limit(h, s1, s2, lmax, lmask):
    """vanishing anisotropic spectra: the isotropic matrix"""
    p = h.reals("p", lmask + 1)
    z = np.zeros(lmask + 1)
    one = np.ones(lmax + 1)
    b = onebins(h, lmax)
    w = h.lib.comp_coupling_matrix_anisotropic(s1, s2, int(s1 > 0), int(s2 > 0), lmax, lmask, p, z, z, z, z, z, z, z, z, one, one, b.bin, 0, 0.)
    w2 = h.lib.comp_coupling_matrix(s1, s2, lmax, lmask, 0, 0, 0, 0, 0, 0., one, one, p, b.bin, 0, -1, -1, -1)
    h.close("isotropic limit", getm(h, w), getm(h, w2), 1e-10)


def exchange(h, s1, s2, lmax, lmask):
    p = {k: h.reals("p" + k, lmask + 1) for k in NAMES}
    one = np.ones(lmax + 1)
    b = onebins(h, lmax)
    a1, a2 = int(s1 > 0), int(s2 > 0)
    w = h.lib.comp_coupling_matrix_anisotropic(s1, s2, a1, a2, lmax, lmask, *[p[k] for k in NAMES], one, one, b.bin, 0, 0.)
    w2 = h.lib.comp_coupling_matrix_anisotropic(s2, s1, a2, a1, lmax, lmask, *[p[k[::-1]] for k in NAMES], one, one, b.bin, 0, 0.)
    M, M2 = getm(h, w), getm(h, w2)
    n1, n2 = (2 if s1 else 1), (2 if s2 else 1)
    n = n1 * n2

    def sw(i):
        l, c = divmod(i, n)
        a, bb = divmod(c, n2)
        return n * l + bb * n1 + a
    for i in range(len(M)):
        for j in range(len(M)):
            h.close("exchange", M[i][j], M2[sw(i)][sw(j)], 1e-10)


def fields(h, s1, s2, kind, lmax, lmask, an1, an2, same=False):
    wcs, sh = curved.geom(h, kind)
    npx = int(np.prod(sh))

    def mk(nm, an, s, seed, beam):
        m = curved.mask(h, nm, sh, [1, npx // 2], seed=seed, zeros=False, lo=0.5)
        kw = {}
        ms = [m]
        if an:
            m22 = curved.mask(h, nm + "22", sh, [3], seed=seed + 10, zeros=False, lo=0.5)
            m12 = curved.mask(h, nm + "12", sh, [2], seed=seed + 20, zeros=False, lo=-0.1, hi=0.1) * 0.1
            kw = dict(mask_22=m22, mask_12=m12)
            ms = [0.5 * (m + m22), 0.5 * (m - m22), m12]
        f = h.nmt.NmtField(m, None, spin=s, lmax=lmax, lmax_mask=lmask, n_iter_mask=0, wcs=wcs, beam=beam, **kw)
        return f, ms
    b1 = h.reals("b1", lmax + 1, 0.5, 1.0)
    f1, m1 = mk("m1", an1, s1, 1, b1)
    if same:
        f2, m2, s2, an2 = f1, m1, s1, an1
    else:
        f2, m2 = mk("m2", an2, s2, 2, None)
    w = h.nmt.NmtWorkspace.from_fields(f1, f2, onebins(h, lmax))
    ai = h.nmt.utils.NmtAlmInfo(lmask)

    def alms(ms, s, an):
        o = {"0": h.nmt.utils.map2alm(h.array([flat(ms[0], kind)]), 0, f1.minfo, ai, n_iter=0)[0]}
        if an:
            e = h.nmt.utils.map2alm(h.array([flat(ms[1], kind), flat(ms[2], kind)]), 2 * s, f1.minfo, ai, n_iter=0)
            o["e"], o["b"] = e[0], e[1]
        return o
    A1, A2 = alms(m1, s1, an1), alms(m2, s2, an2)
    p = {x + y: curved.cross(A1[x], A2[y], lmask) for x in A1 for y in A2}
    K, n = ref.mcm_aniso(s1, s2, lmax, lmask, p, an1, an2)
    h.close("mcm", w.get_coupling_matrix(), ref.dense(K, n, n * (lmax + 1)), 1e-9)
    x = np.array([[1. - 0.2 * i + 0.1 * l for l in range(lmax + 1)] for i in range(n)])
    out = w.couple_cell(x)
    for l in range(lmax + 1):
        for i in range(n):
            t = 0.0
            for lp in range(lmax + 1):
                bb = b1[lp] * (b1[lp] if same else 1.0)
                for j in range(n):
                    if (n * l + i, n * lp + j) in K:
                        t = t + K[n * l + i, n * lp + j] * bb * x[j][lp]
            h.close("coupled", out[i][l], t, 1e-8)


def flat(m, kind):
    from .p04 import flatmap
    return flatmap(m, kind)


def refused(h):
    m = np.ones(48)
    k = dict(mask_22=np.ones(48), mask_12=np.zeros(48), lmax=4, lmax_mask=4)
    h.raises("spin 0", lambda: h.nmt.NmtField(m, None, spin=0, **k))
    h.raises("one component", lambda: h.nmt.NmtField(m, None, spin=2, lmax=4, mask_22=np.ones(48)))
    h.raises("not positive", lambda: h.nmt.NmtField(m, None, spin=2, lmax=4, mask_22=np.ones(48), mask_12=2 * np.ones(48)))
    x = h.real("x", 0.5, 1.)
    f = h.nmt.NmtField(m, None, spin=2, mask_22=h.array([x] * 48), mask_12=np.zeros(48), lmax=4)
    b = onebins(h, 4)
    h.raises("toeplitz", lambda: h.nmt.NmtWorkspace.from_fields(f, f, b, l_toeplitz=2, l_exact=1, dl_band=1))
    h.close("mask", f.get_mask()[0], 0.5 * (1 + x))


def cases(tier):
    T = tier != "quick"
    c = []
    L = 3
    prs = [(0, 1), (0, 2), (1, 0), (2, 0), (1, 1), (1, 2), (2, 1), (2, 2)]
    for s1, s2 in prs:
        for a1 in (0, 1):
            for a2 in (0, 1):
                if (a1 and not s1) or (a2 and not s2):
                    continue
                c.append(("lib_%d_%d_%d%d" % (s1, s2, a1, a2), lib, dict(s1=s1, s2=s2, an1=a1, an2=a2, lmax=L, lmask=2 * L), 3))
        c.append(("limit_%d_%d" % (s1, s2), limit, dict(s1=s1, s2=s2, lmax=L, lmask=L + 1), 2))
        c.append(("exchange_%d_%d" % (s1, s2), exchange, dict(s1=s1, s2=s2, lmax=L, lmask=L), 2))
    for s1, s2, kind, a1, a2, kw in [(0, 2, "hp2", 0, 1, {}), (2, 0, "car", 1, 0, {}), (2, 2, "hp2", 1, 1, {}), (2, 2, "carflip", 0, 1, {}),
                                     (1, 2, "hp2", 1, 1, {}), (2, 2, "hp2", 1, 1, dict(same=True)), (1, 0, "hp2", 1, 0, {})]:
        c.append(("fields_%d_%d_%d%d_%s_%s" % (s1, s2, a1, a2, kind, "".join(kw)), fields,
                  dict(s1=s1, s2=s2, kind=kind, lmax=3, lmask=4, an1=a1, an2=a2, **kw), 8))
        if s1 and s2:
            c.append(("short_%d_%d" % (s1, s2), lib, dict(s1=s1, s2=s2, an1=1, an2=1, lmax=L, lmask=1), 3))
    c.append(("refused", refused, {}))
    if T:
        for s1, s2 in [(1, 3), (3, 1), (3, 3), (2, 3), (2, 2), (1, 2)]:
            c.append(("libT_%d_%d" % (s1, s2), lib, dict(s1=s1, s2=s2, an1=1, an2=1, lmax=6, lmask=12), 9))
    return c
