"""P07: the Toeplitz approximation."""
import math
import numpy as np
from . import ref, curved, wsp
from .p04 import onebins, getm

NOTE = "every mask pseudo-spectrum near a smooth positive one, for all admissible parameter triples within the lmax enumerated; the 3j recursion is executed on concrete multipoles"
BOUNDS = {"quick": "all (l_toeplitz, l_exact, dl_band) for lmax 4, 5 (spin 0) and a sample of them for spins 0x2, 1x0, 2x2, 1x2, T-E-B and covariance coefficients with lmax 5 and 6; 3 symbolic pseudo-C_l",
          "thorough": "all triples for all spins up to lmax 6, sample at lmax 8"}
ASSUMPTIONS = ["values in the Toeplitz-approximated regions are only constrained when l_exact is at least the largest spin"]


def mkpcl(h, lmask, name="p", odd=True, signs=False):
    """smooth pseudo-spectrum. odd: those of odd multipoles symbolic (diagonals of 00, 0s, ++ do not depend on them),
    otherwise those of even multipoles (diagonals of -- do not depend on them)"""
    p = h.zeros((lmask + 1,))
    n = 0
    for L in range(lmask + 1):
        v = 1.0 / (1 + L * L)
        if signs and L:
            v *= (-1) ** (L // 2)
        if L % 2 == odd and n < 3:
            n += 1
            p[L] = h.real("%s%d" % (name, L), v / 2, 1.5 * v) if v > 0 else h.real("%s%d" % (name, L), 1.5 * v, v / 2)
        else:
            p[L] = v
    return p


def blocks(s1, s2, lmax, lmask, pcl, kind):
    """exact coefficient table of one kind, without the 2l'+1 factor"""
    a, b = (max(s1, s2), 0) if not (s1 and s2) else (s1, s2)
    X = [[0.0] * (lmax + 1) for _ in range(lmax + 1)]
    for l in range(lmax + 1):
        for lp in range(lmax + 1):
            t = 0.0
            for L in range(abs(l - lp), min(l + lp, lmask) + 1):
                odd = (l + lp + L) & 1
                if kind == "pp" and odd or kind == "mm" and not odd:
                    continue
                w = {"00": lambda: ref.wig(L, l, lp, 0, 0, 0) ** 2,
                     "0s": lambda: ref.wig(L, l, lp, 0, a, -a) * ref.wig(L, l, lp, 0, 0, 0),
                     "pp": lambda: ref.wig(L, l, lp, 0, s1, -s1) * ref.wig(L, l, lp, 0, s2, -s2),
                     "mm": lambda: ref.wig(L, l, lp, 0, s1, -s1) * ref.wig(L, l, lp, 0, s2, -s2)}[kind]()
                if w:
                    t = t + pcl[L] * (w * (2 * L + 1) / ref.FOURPI)
            X[l][lp] = t
    return X


def where(l, lp, lmax, lt, le, dl):
    a, b = min(l, lp), max(l, lp)
    if a == b or a <= le or (a <= lt and b - a <= dl):
        return "exact"
    if b - a >= lmax - lt and a >= le:
        return "corner"
    return "column"


def approx(h, X, l, lp, lmax, lt, le, dl):
    a, b = min(l, lp), max(l, lp)
    r = where(l, lp, lmax, lt, le, dl)
    if r == "exact":
        return X[l][lp]
    if r == "corner":
        lx = le + b - a
        q = le
    else:
        lx = lt + b - a
        if lx > lmax:
            return None
        q = lt
    # correlation coefficient of the reference column, scaled with the diagonal
    dd = [X[i][i] for i in (lx, q, a, b)]
    return X[lx][q], dd


def check(h, M, X, n, bl, lmax, lt, le, dl, smax, tag):
    """bl: function (l, lp) -> entry of the matrix proportional to the coefficient (already divided by 2l'+1)"""
    for l in range(lmax + 1):
        for lp in range(l + 1):
            g, g2 = bl(l, lp), bl(lp, l)
            h.close(tag + " symmetric %d %d" % (l, lp), g, g2, 1e-12)
            r = approx(h, X, l, lp, lmax, lt, le, dl)
            if isinstance(r, tuple):
                v, (dx, dq, da, db) = r
                if le >= smax and abs(dx * dq) > 1e-12:
                    h.close(tag + " approximated %d %d" % (l, lp), g, v * math.sqrt(abs(da * db / (dx * dq))), 1e-10)
            elif r is not None:
                h.close(tag + " exact %d %d" % (l, lp), g, r, 1e-10)


def matrix(h, s1, s2, lmax, triples, lmask=None, teb=0, signs=False, odd=True):
    lmask = lmask or lmax + 1
    b = onebins(h, lmax)
    one = np.ones(lmax + 1)
    pcl = mkpcl(h, lmask, odd=odd, signs=signs)
    kinds = ["mm"] if not odd else ["00", "0s", "pp"] if teb else ["00"] if not (s1 or s2) else ["pp"] if s1 and s2 else ["0s"]
    ss = max(s1, s2)
    T = {k: blocks(ss if teb else s1, ss if teb else s2, lmax, lmask, pcl, k) for k in kinds}
    for lt, le, dl in triples:
        w = h.lib.comp_coupling_matrix(s1, s2, lmax, lmask, 0, 0, 0, 0, 0, 0., one, one, pcl, b.bin, teb, lt, le, dl)
        n = w.ncls
        M = getm(h, w)
        h.lib.workspace_free(w)
        for k in kinds:
            sg = 1.0 if k in ("pp", "mm") and s1 % 2 == s2 % 2 or k == "00" else (-1.0) ** (s1 + s2)
            if teb:
                sg = 1.0
                i, j = {"00": (0, 0), "0s": (1, 1), "pp": (3, 3), "mm": (3, 6)}[k]
            else:
                i, j = (0, 3) if k == "mm" else (0, 0)
            check(h, M, T[k], n, lambda l, lp: M[n * l + i][n * lp + j] * (sg / (2 * lp + 1)), lmax, lt, le, dl, ss, "%s %s" % (k, (lt, le, dl)))
        # the other components follow from the same coefficients
        if odd and not teb and (s1 or s2):
            for l in range(lmax + 1):
                for lp in range(lmax + 1):
                    for a in range(n):
                        for c in range(n):
                            e = M[n * l][n * lp] if a == c else 0.0
                            if n == 4 and a + c == 3:
                                e = M[n * l][n * lp + 3] * (1.0 if a in (0, 3) else -1.0)
                            h.close("components", M[n * l + a][n * lp + c], e, 1e-12)


def full(h, s1, s2, lmax, dl=0, odd=True):
    """approximation covering the whole range: the exact matrix"""
    lmask = lmax + 2
    b = onebins(h, lmax)
    one = np.ones(lmax + 1)
    pcl = mkpcl(h, lmask, odd=odd)
    r = []
    for t in ((-1, -1, -1), (lmax - 1, lmax - 1, dl)):
        w = h.lib.comp_coupling_matrix(s1, s2, lmax, lmask, 0, 0, 0, 0, 0, 0., one, one, pcl, b.bin, 0, *t)
        r.append(getm(h, w))
        h.lib.workspace_free(w)
    h.close("whole range", r[0], r[1], 1e-10)


def covar(h, lmax, triples, spins=(0, 2)):
    """covariance coefficients, through the coupled covariance"""
    lmask = lmax + 1
    p1, p2 = mkpcl(h, lmask, "p"), mkpcl(h, lmask, "q")
    one = np.ones(lmax + 1)
    b = onebins(h, lmax)
    u = np.ones(lmask + 1)
    X1 = {k: blocks(2 if k in ("pp", "mm") else 0, 2 if k != "00" else 0, lmax, lmask, p1, k) for k in ("00", "0s", "pp")}
    W = {}
    for s in ((0, 0), (0, 2), (2, 2)):
        W[s] = h.lib.comp_coupling_matrix(s[0], s[1], lmax, lmask, 0, 0, 0, 0, 0, 0., one, one, u, b.bin, 0, -1, -1, -1)
    for lt, le, dl in triples:
        cw = h.lib.covar_workspace_init_py(p1, p2, lmax, lmask, lt, le, dl, 0)
        # only the first contraction: C_ad = C_bc = 0
        for k, sp in (("00", (0, 0, 0, 0)), ("pp", (2, 2, 2, 2))):
            nm = [2 if s else 1 for s in sp]
            n = nm[0] * nm[1]

            def cl(i, j, on):
                x = np.zeros((nm[i] * nm[j], lmax + 1))
                if on:
                    x[0] = 1.0
                return x
            w = W[sp[:2]]
            C = np.asarray(h.lib.comp_gaussian_covariance_coupled(cw, *sp, w, w, cl(0, 2, 1), cl(0, 3, 0), cl(1, 2, 0), cl(1, 3, 1),
                                                                  (n * (lmax + 1)) ** 2)).reshape(lmax + 1, n, lmax + 1, n)
            check(h, None, X1[k], n, lambda l, lp: C[l, 0, lp, 0], lmax, lt, le, dl, max(sp), "covar %s %s" % (k, (lt, le, dl)))
        h.lib.covar_workspace_free(cw)


def sanity(h):
    """refused by the public interface"""
    lmax = 5
    f, _ = wsp.field(h, 0, lmax)
    f2, _ = wsp.field(h, 2, lmax, seed=2)
    mp = h.nmt.NmtField(np.ones(48), None, spin=2, lmax=lmax, purify_b=True, n_iter_mask=0)
    b = onebins(h, lmax)
    W = h.nmt.NmtWorkspace.from_fields
    for lt, le, dl in ((3, 0, 1), (3, -1, 1), (3, 2, -1), (2, 3, 1), (5, 2, 1), (7, 2, 1), (4, 2, 5), (4, 2, 9), (6, 6, 1)):
        h.raises("workspace %s" % ((lt, le, dl),), W, f, f2, b, l_toeplitz=lt, l_exact=le, dl_band=dl)
        h.raises("covariance %s" % ((lt, le, dl),), h.nmt.NmtCovarianceWorkspace.from_fields, f, f2, l_toeplitz=lt, l_exact=le, dl_band=dl)
    h.raises("purified", W, f, mp, b, l_toeplitz=3, l_exact=2, dl_band=1)
    h.raises("purified", W, mp, f, b, l_toeplitz=3, l_exact=2, dl_band=1)
    for lt, le, dl in ((4, 4, 4), (1, 1, 0), (4, 2, 1)):
        w = W(f, f2, b, l_toeplitz=lt, l_exact=le, dl_band=dl)
        h.true("accepted", w.wsp is not None)


def through_fields(h, s1, s2, t):
    """the parameters reach the computation in the right places"""
    lmax = 5
    rng = np.random.RandomState(3)
    m = h.zeros((48,))
    for i in range(48):
        m[i] = float(np.round(0.8 + 0.2 * rng.rand(), 3))
    f1 = h.nmt.NmtField(m, None, spin=s1, lmax=lmax, n_iter_mask=0)
    f2 = h.nmt.NmtField(m, None, spin=s2, lmax=lmax, n_iter_mask=0)
    b = onebins(h, lmax)
    w = h.nmt.NmtWorkspace.from_fields(f1, f2, b, l_toeplitz=t[0], l_exact=t[1], dl_band=t[2])
    a = f1.get_mask_alms()
    pcl = curved.cross(a, a, lmax)
    one = np.ones(lmax + 1)
    w2 = h.lib.comp_coupling_matrix(s1, s2, lmax, lmax, 0, 0, 0, 0, 0, 0., one, one, h.array(pcl), b.bin, 0, *t)
    h.close("same", getm(h, w.wsp), getm(h, w2), 1e-9)


def alltriples(lmax):
    return [(lt, le, dl) for lt in range(1, lmax) for le in range(1, lt + 1) for dl in range(lmax)]


def cases(tier):
    T = tier != "quick"
    c = []
    for lmax in (4, 5):
        t = alltriples(lmax)
        for i in range(0, len(t), 10):
            c.append(("00_l%d_%d" % (lmax, i), matrix, dict(s1=0, s2=0, lmax=lmax, triples=t[i:i + 10]), 3))
    smp = {5: [(4, 4, 0), (3, 2, 1), (4, 2, 2), (2, 2, 0), (3, 3, 4), (4, 3, 1), (1, 1, 0), (4, 1, 1)],
           6: [(5, 2, 1), (3, 2, 1), (4, 3, 2), (5, 5, 5), (2, 2, 5), (4, 2, 0), (5, 3, 3)]}
    for s1, s2 in ((2, 2), (1, 1), (1, 2)):
        for q in range(2):
            c.append(("mm_%d%d_%d" % (s1, s2, q), matrix, dict(s1=s1, s2=s2, lmax=5, triples=smp[5][q::2], odd=False), 4))
    for lmax in (5, 6):
        for s1, s2 in ((0, 2), (1, 0), (2, 2), (1, 2), (2, 1), (1, 1), (3, 0), (0, 1)):
            if lmax == 6 and (s1, s2) not in ((0, 2), (2, 2)):
                continue
            for q in range(2):
                c.append(("%d%d_l%d_%d" % (s1, s2, lmax, q), matrix, dict(s1=s1, s2=s2, lmax=lmax, triples=smp[lmax][q::2]), 4))
        c.append(("teb_l%d" % lmax, matrix, dict(s1=0, s2=2, lmax=lmax, triples=smp[lmax][:4], teb=1), 8))
        c.append(("cov_l%d" % lmax, covar, dict(lmax=lmax, triples=smp[lmax][:4]), 8))
        c.append(("cov2_l%d" % lmax, covar, dict(lmax=lmax, triples=smp[lmax][4:]), 8))
    c.append(("signs_0", matrix, dict(s1=0, s2=0, lmax=5, triples=smp[5][:3], signs=True), 4))
    c.append(("signs_02", matrix, dict(s1=0, s2=2, lmax=5, triples=smp[5][:3], signs=True), 4))
    c.append(("short_mask", matrix, dict(s1=2, s2=2, lmax=6, lmask=6, triples=smp[6][:3]), 4))
    c.append(("long_mask", matrix, dict(s1=0, s2=0, lmax=4, lmask=10, triples=[(3, 2, 1), (2, 1, 0)]), 4))
    for s1, s2, lm in ((0, 0, 5), (0, 2, 5), (2, 2, 5), (1, 2, 4), (2, 2, 3)):
        c.append(("full_%d%d_%d" % (s1, s2, lm), full, dict(s1=s1, s2=s2, lmax=lm), 4))
    c.append(("sanity", sanity, {}, 3))
    for i, (s1, s2, t) in enumerate(((0, 0, (4, 2, 1)), (0, 2, (4, 3, 0)), (2, 2, (3, 2, 0)))):
        c.append(("fields_%d" % i, through_fields, dict(s1=s1, s2=s2, t=t), 4))
    if T:
        for s1, s2 in ((0, 2), (2, 2), (1, 2), (0, 1)):
            for lmax in (5, 6):
                t = alltriples(lmax)
                for i in range(0, len(t), 8):
                    c.append(("T_%d%d_l%d_%d" % (s1, s2, lmax, i), matrix, dict(s1=s1, s2=s2, lmax=lmax, triples=t[i:i + 8]), 8))
        for s in (0, 2):
            c.append(("T_l8_%d" % s, matrix, dict(s1=s, s2=2, lmax=8, triples=[(7, 4, 2), (6, 3, 1), (5, 2, 0), (4, 4, 4)]), 10))
    return c
