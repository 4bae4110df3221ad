"""P14: flat-sky Gaussian covariance follows Wick's theorem."""
import math
import numpy as np
from . import flat, p09
from .p12 import bands

NOTE = "every value of the symbolic spectra and mask pixels within the bounds; all 16 spin-0/2 combinations; patches and bands as enumerated"
BOUNDS = {"quick": "all 16 spin-0/2 combinations, patches of 3x3 to 5x5 pixels, 1-3 bands (one of them with a single mode), all spectra symbolic at 3 sampled wavenumbers (interpolated); mask products of symbolic masks "
                   "for the spin combinations 0000, 0022, 2020, 2222; workspaces of concrete masks",
          "thorough": "symbolic masks for all spin combinations, 5x5 and 4x6 pixels throughout"}
ASSUMPTIONS = []


def bincl(ls, c, l0, lf):
    """spectra interpolated at band centres, edge values outside the sampled range"""
    r = []
    for a, z in zip(l0, lf):
        x = 0.5 * (a + z)
        r.append(c[0] if x <= ls[0] else c[len(ls) - 1] if x >= ls[-1] else flat.interp(ls, c, x))
    return r


def coeffs(g, m1, m2, l0, lf):
    """covariance coefficients of a pair of mask products"""
    P = flat.wcross(g, m1, m2)
    bd = flat.inband(g, l0, lf, (1., -1.), (1., -1.))
    n = len(l0)
    cnt = [sum(1 for v in bd.values() if v == i) for i in range(n)]
    X = {x: [[0.0] * n for _ in range(n)] for x in ("00", "0p", "pp", "mm")}
    f = 4 * math.pi ** 2 / (g.lx * g.ly) ** 2
    for k1, i in bd.items():
        if i < 0:
            continue
        for k2, j in bd.items():
            if j < 0:
                continue
            p = P[(k1[0] - k2[0]) % g.ny, (k1[1] - k2[1]) % g.nx] * (f / (cnt[i] * cnt[j]))
            d = 2 * (g.phi(*k1) - g.phi(*k2))
            c, s = math.cos(d), math.sin(d)
            for x, w in (("00", 1.), ("0p", c), ("pp", c * c), ("mm", s * s)):
                X[x][i][j] = X[x][i][j] + p * w
    return X


def prod(a, b):
    return [[x * y for x, y in zip(p, q)] for p, q in zip(a, b)]


def work(h, g, s1, s2, l0, lf, b, seed):
    m1, m2 = flat.symmap(h, g, "u", (), 0, 1, seed, True), flat.symmap(h, g, "v", (), 0, 1, seed + 1, True)
    w = h.nmt.NmtWorkspaceFlat()
    w.compute_coupling_matrix(flat.field(h, g, m1, None, s1), flat.field(h, g, m2, None, s2), b)
    grp = {m: flat.band(l0, lf, g.k(*m)) for m in g.modes()}
    return w, flat.mcm(g, m1, m2, s1, s2, (0, 0), (0, 0), l0, lf, (grp, len(l0)))[0]


LS = [0.0, 9.0, 22.0]


def covar(h, geom, sp, nb=2, msym=(), auto=False, same=False, symcl=None, flip=False, zero=False, single=False, form=None):
    a, b, c, d = sp
    form = form or ("abab" if auto else "abcd")        # equal letters: the same field
    g = flat.geo(geom)
    l0, lf = bands(g, nb, zero)
    if single:      # the first band only contains the mode with k=0
        e = min(2 * math.pi / g.lx, 2 * math.pi / g.ly) * 0.9
        l0, lf = [0.] + [max(e, x) for x in l0], [e] + lf
        nb += 1
    bn = h.nmt.NmtBinFlat(np.array(l0), np.array(lf))
    ms, fl = [], []
    for i, s in enumerate(form):
        j = form.index(s)
        ms.append(ms[j] if j < i else flat.symmap(h, g, "m%d" % j, msym, 0, 1, 20 + j, True))
        fl.append(fl[j] if j < i else flat.field(h, g, ms[i], None, sp[i]))
    cw = h.nmt.NmtCovarianceWorkspaceFlat()
    if auto:
        cw.compute_coupling_coefficients(fl[0], fl[1], bn)
    else:
        cw.compute_coupling_coefficients(fl[0], fl[1], bn, fl[2], fl[3], bn)
    cl = p09.spectra(h, sp, 3, symcl)
    wa, Ma = work(h, g, a, b, l0, lf, bn, 31)
    wb, Mb = (wa, Ma) if same else work(h, g, c, d, l0, lf, bn, 41)
    C = h.nmt.gaussian_covariance_flat(cw, a, b, c, d, np.array(LS), cl["ac"], cl["ad"], cl["bc"], cl["bd"], wa, *(() if same else (wb,)))
    na, nb_ = p09.nm(a) * p09.nm(b), p09.nm(c) * p09.nm(d)
    h.true("shape", np.shape(C) == (na * nb, nb_ * nb))
    X1 = coeffs(g, prod(ms[0], ms[2]), prod(ms[1], ms[3]), l0, lf)
    X2 = coeffs(g, prod(ms[0], ms[3]), prod(ms[1], ms[2]), l0, lf)
    bc = {k: [bincl(LS, list(r), l0, lf) for r in v] for k, v in cl.items()}
    R = p09.wick(sp, bc, X1, X2, nb - 1)
    # C = Ma^-1 R Mb^-T
    for i in range(na * nb):
        t = [p09.sm(C[k][j] * Ma[i][k] for k in range(na * nb)) for j in range(nb_ * nb)]
        for j in range(nb_ * nb):
            v = p09.sm(t[k] * Mb[j][k] for k in range(nb_ * nb))
            h.close("covariance %d" % i, v, R[i // na, i % na, j // nb_, j % nb_], 1e-8)
    if flip:
        cw2 = h.nmt.NmtCovarianceWorkspaceFlat()
        cw2.compute_coupling_coefficients(fl[2], fl[3], bn, fl[0], fl[1], bn)
        t = {"ac": p09.tr(h, cl["ac"], a, c), "bd": p09.tr(h, cl["bd"], b, d), "ad": p09.tr(h, cl["bc"], b, c), "bc": p09.tr(h, cl["ad"], a, d)}
        C2 = h.nmt.gaussian_covariance_flat(cw2, c, d, a, b, np.array(LS), t["ac"], t["ad"], t["bc"], t["bd"], wb, wa)
        for i in range(na * nb):
            for j in range(nb_ * nb):
                h.close("symmetry", C2[j][i], C[i][j], 1e-8)


def errors(h):
    g, g2 = flat.geo("3x3"), flat.geo("3x5")
    l0, lf = bands(g, 2)
    bn, b3 = h.nmt.NmtBinFlat(np.array(l0), np.array(lf)), h.nmt.NmtBinFlat(np.array([1., 5., 9.]), np.array([5., 9., 12.]))
    one = lambda g: [[1.0] * g.nx for _ in range(g.ny)]
    f, f2 = flat.field(h, g, one(g), None, 0), flat.field(h, g2, one(g2), None, 0)
    cw = h.nmt.NmtCovarianceWorkspaceFlat()
    h.raises("resolution", cw.compute_coupling_coefficients, f, f2, bn)
    h.raises("resolution b", cw.compute_coupling_coefficients, f, f, bn, f, f2, bn)
    h.raises("bands", cw.compute_coupling_coefficients, f, f, bn, f, f, b3)
    h.raises("uninitialised", cw.write_to, h.file("x"))
    cw.compute_coupling_coefficients(f, f, bn)
    w = work(h, g, 0, 0, l0, lf, bn, 1)[0]
    w2 = work(h, g, 0, 2, l0, lf, bn, 1)[0]
    G, o = h.nmt.gaussian_covariance_flat, np.ones((1, 3))
    ls = np.array(LS)
    h.true("accepted", np.shape(G(cw, 0, 0, 0, 0, ls, o, o, o, o, w)) == (2, 2))
    h.raises("workspace", G, cw, 0, 0, 0, 0, ls, o, o, o, o, w2)
    h.raises("workspace b", G, cw, 0, 0, 0, 0, ls, o, o, o, o, w, w2)
    for i in range(4):
        x = [o, o, o, o]
        x[i] = np.ones((2, 3))
        h.raises("number of spectra %d" % i, G, cw, 0, 0, 0, 0, ls, *x, w)
        x[i] = np.ones((1, 4))
        h.raises("length %d" % i, G, cw, 0, 0, 0, 0, ls, *x, w)
    w3 = h.nmt.NmtWorkspaceFlat()
    w3.compute_coupling_matrix(f, f, b3)
    h.raises("binning", G, cw, 0, 0, 0, 0, ls, o, o, o, o, w3)


def many(h, sp=(0, 0, 0, 0), n=216):
    """bands with so many modes that the number of pairs of modes does not fit in 32 bits: symbolically a small patch, with the
    number of modes the code has counted increased by a symbolic amount (as if the others fell on wavenumbers without mask power)"""
    L = 0.3
    top = 1e6
    bn = h.nmt.NmtBinFlat(np.array([0.]), np.array([top]))
    ls = np.array([0., 0.5 * top, top])
    cl = h.array([[h.real("c", 0.5, 1.5)] * 3])

    def run(N, hook=None):
        one = np.ones((N, N))
        f = h.nmt.NmtFieldFlat(L, L, one, [np.zeros((N, N))])
        cw = h.nmt.NmtCovarianceWorkspaceFlat()
        if hook:
            h.ctx.calloc_hook = hook
        try:
            cw.compute_coupling_coefficients(f, f, bn)
        finally:
            if hook:
                h.ctx.calloc_hook = None
        f0 = h.nmt.NmtFieldFlat(L, L, np.ones((3, 3)), [np.zeros((3, 3))])
        w = h.nmt.NmtWorkspaceFlat()
        w.compute_coupling_matrix(f0, f0, bn)
        return h.nmt.gaussian_covariance_flat(cw, *sp, ls, cl, cl, cl, cl, w)[0][0]
    a = run(3)
    if not h.sym:
        b = run(n)
        h.close("covariance", b * (n * n), a * 9)
        return
    B = h.int("more", 0, 1 << 20)
    hit = []

    def hook(o, k, size):
        if (k, size) == (1, 4):
            h.count_store((o, 0), B)
            hit.append(o)
    b = run(3, hook)
    m = 9 + len(hit) * B
    h.close("covariance", b * m * m, a * 81)


def leak(h):
    """the covariance of |E|^2 and |B|^2 of a field is non-negative"""
    g = flat.geo("5x5")
    l0, lf = bands(g, 2)
    bn = h.nmt.NmtBinFlat(np.array(l0), np.array(lf))
    f = flat.field(h, g, flat.symmap(h, g, "m", (), 0, 1, 3, True), None, 2)
    one = [[1.0] * g.nx for _ in range(g.ny)]
    fu = flat.field(h, g, one, None, 2)
    cw = h.nmt.NmtCovarianceWorkspaceFlat()
    cw.compute_coupling_coefficients(f, f, bn)
    w = h.nmt.NmtWorkspaceFlat()
    w.compute_coupling_matrix(fu, fu, bn)       # no mask: decoupling is a positive factor
    x = h.zeros((4, 3))
    for l in range(3):
        x[0, l] = h.real("e%d" % l, 0.1, 1.0)
    C = h.nmt.gaussian_covariance_flat(cw, 2, 2, 2, 2, np.array(LS), x, x, x, x, w)
    for l in range(2):
        for k in range(2):
            h.true("EE-BB covariance of an E-only field", C[4 * l][4 * k + 3] >= -1e-9)


def cases(tier):
    T = tier != "quick"
    c = []
    for s in np.ndindex(2, 2, 2, 2):
        sp = tuple(2 * int(x) for x in s)
        n = sum(s)
        c.append(("w_%d%d%d%d" % sp, covar, dict(sp=sp, geom=("4x4", "5x5", "3x5", "5x5", "5x5")[n], nb=2, flip=n < 4, zero=n % 2 == 0), 1 + n * n))
    for sp in ((0, 0, 0, 0), (0, 0, 2, 2), (2, 0, 2, 0), (2, 2, 2, 2)):
        c.append(("m_%d%d%d%d" % sp, covar, dict(sp=sp, geom="5x5" if sum(sp) == 8 else "3x3", nb=2 if sum(sp) in (0, 8) else 1, msym=(1, 4), symcl=()), 2 + sum(sp)))
    for n, f in enumerate(("abca", "abbc", "aabc", "abcc", "aaaa", "abba", "abac", "abcb", "aabb")):
        c.append(("share_" + f, covar, dict(sp=(0, 0, 0, 0), geom="4x4" if n % 2 else "3x5", nb=2, form=f), 1))
        if n < 4 or tier != "quick":
            sp = [2 * (ord(x) % 2) for x in f]
            c.append(("share2_" + f, covar, dict(sp=tuple(sp), geom="3x3", nb=1, form=f), 3))
    c += [("auto_02", covar, dict(sp=(0, 2, 0, 2), geom="5x5", auto=True, same=True), 3), ("auto_22", covar, dict(sp=(2, 2, 2, 2), geom="5x5", nb=1, auto=True, same=True), 6),
          ("w3", covar, dict(sp=(0, 0, 0, 0), geom="5x5", nb=3)), ("one_0000", covar, dict(sp=(0, 0, 0, 0), geom="4x4", nb=1, single=True)), ("one_0022", covar, dict(sp=(0, 0, 2, 2), geom="4x4", nb=1, single=True)), ("one_0202", covar, dict(sp=(0, 2, 0, 2), geom="5x5", nb=1, single=True)),
          ("errors", errors, {}), ("leak", leak, {}), ("many", many, {}, 5)]
    if T:
        for s in np.ndindex(2, 2, 2, 2):
            sp = tuple(2 * int(x) for x in s)
            c.append(("M_%d%d%d%d" % sp, covar, dict(sp=sp, geom="5x5", nb=2, msym=(1, 7, 12), symcl=("ac",) if sum(s) < 3 else ()), 9))
            c.append(("W_%d%d%d%d" % sp, covar, dict(sp=sp, geom="4x6", nb=3 if sum(s) < 3 else 2), 9))
    return c
