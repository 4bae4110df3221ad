"""P09: Gaussian covariance on the curved sky."""
import numpy as np
from . import ref, wsp

NOTE = "every value of the input spectra, the spectra of the mask products, the bin weights, f_ell and the symbolic matrix entries within the bounds"
BOUNDS = {"quick": "coupled: all 16 spin-0/2 combinations, lmax 4 (3 for four spin-2 fields), all spectra and mask spectra symbolic; decoupled: all 16 combinations, lmax 3, two bands, symbolic "
                   "bin weights and f_ell; two different workspaces",
          "thorough": "lmax 5 and 6 for up to two spin-2 fields, symbolic matrix entries, more binnings"}
ASSUMPTIONS = ["the binned coupling matrices are invertible, with entries of the inverse below 1e3"]


def xis(lmax, lmask, pcl):
    """the four covariance coefficients from the spectrum of the mask products"""
    r = {k: [[0.0] * (lmax + 1) for _ in range(lmax + 1)] for k in ("00", "0p", "pp", "mm")}
    for l in range(lmax + 1):
        for k in range(lmax + 1):
            t = dict.fromkeys(r, 0.0)
            for L in range(abs(l - k), min(l + k, lmask) + 1):
                q = pcl[L] * ((2 * L + 1) / ref.FOURPI)
                a, b = ref.wig(l, k, L, 0, 0, 0), ref.wig(l, k, L, 2, -2, 0)
                t["00"] = t["00"] + q * (a * a)
                t["0p"] = t["0p"] + q * (a * b)
                e = "mm" if (l + k + L) & 1 else "pp"
                t[e] = t[e] + q * (b * b)
            for x in r:
                r[x][l][k] = t[x]
    return r


def factor(x, y, s, t):
    """pair of fields of spins s, t, components x = (out, in) and y: (kind, sign) with kind 0: scalar (at least one of them),
    P: both spin 2, no change of parity, M: one of them changes parity; sign: E from B is +, B from E is -, opposite for the
    second field of the pair"""
    if not (s and t):
        return ("0", 1) if x[0] == x[1] and y[0] == y[1] else None
    fx, fy = x[0] != x[1], y[0] != y[1]
    if fx and fy:
        return None
    if fx:
        return ("M", 1 if x[0] == 0 else -1)
    if fy:
        return ("M", -1 if y[0] == 0 else 1)
    return ("P", 1)


def coupling(f, g, X, l, k):
    if f is None or g is None:
        return None
    a, b = sorted((f[0], g[0]))
    if (a, b) == ("0", "0"):
        return X["00"][l][k]
    if (a, b) == ("0", "P"):
        return X["0p"][l][k]
    if (a, b) == ("P", "P"):
        return X["pp"][l][k]
    if (a, b) == ("M", "M"):
        return X["mm"][l][k] * (-1.0 * f[1] * g[1])
    return None


def nm(s):
    return 2 if s else 1


def wick(sp, cl, X1, X2, lmax, lo=0):
    """covariance of the coupled spectra of fields (a,b) with those of (c,d): {(l, i, k, j): value}; cl[xy][component pair][l]"""
    a, b, c, d = sp
    R = {}
    for l in range(lmax + 1):
        for k in range(lmax + 1):
            for ia, ib, ic, id_ in np.ndindex(nm(a), nm(b), nm(c), nm(d)):
                t = 0.0
                for ja, jb, jc, jd in np.ndindex(nm(a), nm(b), nm(c), nm(d)):
                    x = coupling(factor((ia, ja), (ic, jc), a, c), factor((ib, jb), (id_, jd), b, d), X1, l, k)
                    if x is not None:
                        p, q = cl["ac"][jc + nm(c) * ja], cl["bd"][jd + nm(d) * jb]
                        t = t + x * (0.5 * (p[l] * q[k] + p[k] * q[l]))
                    x = coupling(factor((ia, ja), (id_, jd), a, d), factor((ib, jb), (ic, jc), b, c), X2, l, k)
                    if x is not None:
                        p, q = cl["ad"][jd + nm(d) * ja], cl["bc"][jc + nm(c) * jb]
                        t = t + x * (0.5 * (p[l] * q[k] + p[k] * q[l]))
                R[l, ib + nm(b) * ia, k, id_ + nm(d) * ic] = t
    return R


def cwsp(h, p1, p2, lmax, lmask, s0=False):
    cw = h.nmt.NmtCovarianceWorkspace()
    cw.wsp = h.lib.covar_workspace_init_py(p1, p2, lmax, lmask, -1, -1, -1, int(s0))
    return cw


def spectra(h, sp, nl, sym=None):
    a, b, c, d = sp
    r = {}
    for nme, x, y in (("ac", a, c), ("ad", a, d), ("bc", b, c), ("bd", b, d)):
        if sym is None or nme in sym:
            r[nme] = h.reals(nme, (nm(x) * nm(y), nl))
        else:
            rng = np.random.RandomState(ord(nme[0]) * 7 + ord(nme[1]))
            r[nme] = h.array(np.round(rng.rand(nm(x) * nm(y), nl), 2).tolist())
    return r


def gc(h, cw, sp, cl, wa, *wb, **kw):
    return h.nmt.gaussian_covariance(cw, *sp, cl["ac"], cl["ad"], cl["bc"], cl["bd"], wa, *wb, **kw)


def work(h, s1, s2, lmax, which=0, symb=False, seed=1, nsym=0, name="w"):
    f1, _ = wsp.field(h, s1, lmax, seed=seed)
    f2, _ = wsp.field(h, s2, lmax, seed=seed + 1)
    b, ells, ww, f = wsp.mkbins(h, name + "b", lmax, which, symb)
    w = h.nmt.NmtWorkspace.from_fields(f1, f2, b)
    if nsym:
        w.update_coupling_matrix(wsp.randmat(h, name + "M", nm(s1) * nm(s2) * (lmax + 1), nsym, seed))
    return w, ells, ww, f


def coupled(h, sp, lmax, lmask, s0=False, sympcl=False, same=False, flip=False):
    a, b, c, d = sp
    if sympcl:
        p1, p2 = h.reals("p", lmask + 1), h.reals("q", lmask + 1)
    else:
        p1, p2 = np.round(1.0 / (1 + np.arange(lmask + 1.)), 3), np.round(1.0 / (1.5 + np.arange(lmask + 1.)) ** 2 - 0.02, 3)
    cw = cwsp(h, p1, p2, lmax, lmask, s0)
    cl = spectra(h, sp, lmax + 1 + (1 if flip else 0))
    wa = work(h, a, b, lmax, symb=True)[0]
    wb = () if same else (work(h, c, d, lmax, which=1, seed=5)[0],)
    C = gc(h, cw, sp, cl, wa, *wb, coupled=True)
    na, nb = nm(a) * nm(b), nm(c) * nm(d)
    h.true("shape", np.shape(C) == (na * (lmax + 1), nb * (lmax + 1)))
    R = wick(sp, cl, xis(lmax, lmask, p1), xis(lmax, lmask, p2), lmax)
    for (l, i, k, j), v in R.items():
        h.close("Wick", C[na * l + i][nb * k + j], v, 1e-10)
    # exchanging the two sets of spectra
    if flip:
        t = {"ac": tr(h, cl["ac"], a, c), "bd": tr(h, cl["bd"], b, d), "ad": tr(h, cl["bc"], b, c), "bc": tr(h, cl["ad"], a, d)}
        C2 = gc(h, cw, (c, d, a, b), t, wb[0] if wb else wa, wa, coupled=True)
        for i in range(na * (lmax + 1)):
            for j in range(nb * (lmax + 1)):
                h.close("symmetry", C2[j][i], C[i][j], 1e-10)


def tr(h, x, s, t):
    """spectra of (x,y) as spectra of (y,x)"""
    n, m = nm(s), nm(t)
    r = h.zeros((n * m, np.shape(x)[1]))
    for i in range(n):
        for j in range(m):
            r[i + n * j] = x[j + m * i]
    return r


def sm(it):
    t = 0.0
    for x in it:
        t = t + x
    return t


def decoupled(h, sp, lmax=3, which=(0, 1), same=False, symb=True, nsym=0, s0=False, symcl=("ac", "bd")):
    a, b, c, d = sp
    lmask = lmax + 1
    p1, p2 = np.round(1.0 / (1 + np.arange(lmask + 1.)), 3), np.round(1.0 / (1.5 + np.arange(lmask + 1.)) ** 2 - 0.02, 3)
    h.inv_bound(1e3)
    cw = cwsp(h, p1, p2, lmax, lmask, s0)
    cl = spectra(h, sp, lmax + 1, symcl)
    A = work(h, a, b, lmax, which[0], symb, 1, nsym, "a")
    B = A if same else work(h, c, d, lmax, which[1], symb, 5, nsym, "b")
    C = gc(h, cw, sp, cl, A[0], *(() if same else (B[0],)))
    na, nb = nm(a) * nm(b), nm(c) * nm(d)
    R = wick(sp, cl, xis(lmax, lmask, p1), xis(lmax, lmask, p2), lmax)
    Ka, Kb = len(A[1]), len(B[1])
    h.true("shape", np.shape(C) == (na * Ka, nb * Kb))
    Ia, Ib = inv(h, A, na), inv(h, B, nb)
    b_ = [[0.0] * (nb * Kb) for _ in range(na * Ka)]
    for q in range(Ka):
        for r in range(Kb):
            for i in range(na):
                for j in range(nb):
                    b_[na * q + i][nb * r + j] = sm(A[2][q][u] * A[3][l] * B[2][r][v] * B[3][k] * R[l, i, k, j]
                                                    for u, l in enumerate(A[1][q]) for v, k in enumerate(B[1][r]))
    t = [[sm(b_[i][k] * Ib[j][k] for k in range(nb * Kb)) for j in range(nb * Kb)] for i in range(na * Ka)]
    for i in range(na * Ka):
        for j in range(nb * Kb):
            h.close("decoupled", C[i][j], sm(Ia[i][k] * t[k][j] for k in range(na * Ka)), 1e-6)


def inv(h, W, n):
    w, ells, ww, f = W
    M = w.get_coupling_matrix()
    K = len(ells)
    B = [[0.0] * (n * K) for _ in range(n * K)]
    for k in range(K):
        for q in range(K):
            for i in range(n):
                for j in range(n):
                    B[n * k + i][n * q + j] = sm(ww[k][a] * f[l] / f[lp] * M[n * l + i][n * lp + j] for a, l in enumerate(ells[k]) for lp in ells[q])
    return h.inv(B)


def flipd(h, sp, lmax=3):
    """exchanging the sets of decoupled spectra transposes the matrix"""
    a, b, c, d = sp
    h.inv_bound(1e3)
    p = np.array([1.0, 0.4, 0.3, 0.2, 0.1])
    q = np.array([0.8, 0.5, 0.1, 0.2, 0.1])
    cw = cwsp(h, p, q, lmax, lmax + 1)
    cl = spectra(h, sp, lmax + 1)
    wa, wb = work(h, a, b, lmax, 0)[0], work(h, c, d, lmax, 1, seed=5)[0]
    C = gc(h, cw, sp, cl, wa, wb)
    t = {"ac": tr(h, cl["ac"], a, c), "bd": tr(h, cl["bd"], b, d), "ad": tr(h, cl["bc"], b, c), "bc": tr(h, cl["ad"], a, d)}
    C2 = gc(h, cw, (c, d, a, b), t, wb, wa)
    for i in range(np.shape(C)[0]):
        for j in range(np.shape(C)[1]):
            h.close("symmetry", C2[j][i], C[i][j], 1e-9)


def only0(h, lmax):
    """spin-0-only workspaces give the same scalar covariance, and refuse anything else"""
    lmask = lmax
    p, q = h.reals("p", lmask + 1), h.reals("q", lmask + 1)
    c1, c0 = cwsp(h, p, q, lmax, lmask), cwsp(h, p, q, lmax, lmask, True)
    cl = spectra(h, (0, 0, 0, 0), lmax + 1)
    wa = work(h, 0, 0, lmax, 0)[0]
    for cp in (False, True):
        h.close("same", gc(h, c1, (0, 0, 0, 0), cl, wa, coupled=cp), gc(h, c0, (0, 0, 0, 0), cl, wa, coupled=cp), 1e-9)
    for sp in ((0, 2, 0, 0), (0, 0, 2, 0), (2, 0, 0, 2), (2, 2, 2, 2), (0, 2, 0, 2)):
        w1, w2 = work(h, sp[0], sp[1], lmax)[0], work(h, sp[2], sp[3], lmax)[0]
        x = spectra(h, sp, lmax + 1, ())
        for cp in (False, True):
            h.raises("spin %s" % (sp,), gc, h, c0, sp, x, w1, w2, coupled=cp)


def leak(h, lmax=3):
    """the covariance of |E|^2 and |B|^2 of a field is non-negative"""
    p = np.array([1.0, 0.4, 0.3, 0.2])
    cw = cwsp(h, p, p, lmax, lmax)
    w = work(h, 2, 2, lmax)[0]
    e = h.reals("e", lmax + 1, 0.1, 1.0)
    x = h.zeros((4, lmax + 1))
    for l in range(lmax + 1):
        x[0, l] = e[l]
    C = gc(h, cw, (2, 2, 2, 2), dict.fromkeys(("ac", "ad", "bc", "bd"), x), w, coupled=True)
    for l in range(2, lmax + 1):
        for k in range(2, lmax + 1):
            h.true("EE-BB covariance of an E-only field", C[4 * l][4 * k + 3] >= -1e-9)


def whole(h, sp, form="abcd", lmax=3, lmask=4, nsym=1, kind="hp2", dec=True):
    """from four masks to the covariance"""
    from . import p10
    names = sorted(set(form))
    G = p10.mkfields(h, kind, lmax, lmask, nsym, [sp[form.index(x)] for x in names], 0, nf=len(names))
    F = [G[names.index(x)] for x in form]
    f = [x[0] for x in F]
    X = [xis(lmax, lmask, p) for p in p10.products(h, F, lmask, 0)]
    new = h.nmt.NmtCovarianceWorkspace.from_fields
    cw = new(*f) if form[:2] != form[2:] else new(*f[:2])
    cl = spectra(h, sp, lmax + 1, ())
    a, b, c, d = sp
    na, nb = nm(a) * nm(b), nm(c) * nm(d)
    rng = np.random.RandomState(4)
    b0, _, _, _ = wsp.mkbins(h, "b", lmax, 0, False)
    wa = h.nmt.NmtWorkspace.from_fields(f[0], f[1], b0)
    wb = h.nmt.NmtWorkspace.from_fields(f[2], f[3], b0)
    C = gc(h, cw, sp, cl, wa, wb, coupled=True)
    for (l, i, k, j), v in wick(sp, cl, *X, lmax).items():
        h.close("Wick", C[na * l + i][nb * k + j], v, 1e-8)
    # exchanging the two pairs, or (scalars) the fields of one pair
    cw2 = new(f[2], f[3], f[0], f[1])
    t = {"ac": tr(h, cl["ac"], a, c), "bd": tr(h, cl["bd"], b, d), "ad": tr(h, cl["bc"], b, c), "bc": tr(h, cl["ad"], a, d)}
    D = gc(h, cw2, (c, d, a, b), t, wb, wa, coupled=True)
    for i in range(na * (lmax + 1)):
        for j in range(nb * (lmax + 1)):
            h.close("exchange", D[j][i], C[i][j], 1e-8)
    if not any(sp):
        cw3 = new(f[1], f[0], f[2], f[3])
        D = gc(h, cw3, sp, {"ac": cl["bc"], "bd": cl["ad"], "ad": cl["bd"], "bc": cl["ac"]}, wa, wb, coupled=True)
        h.close("exchange within a pair", h.flat(D), h.flat(C), 1e-8)


def errors(h, lmax=3):
    p = np.array([1.0, 0.4, 0.3, 0.2])
    cw = cwsp(h, p, p, lmax, lmax)
    w00, w02, w22 = work(h, 0, 0, lmax)[0], work(h, 0, 2, lmax)[0], work(h, 2, 2, lmax)[0]
    one = lambda n, l=lmax + 1: np.ones((n, l))
    G = h.nmt.gaussian_covariance
    for cp in (False, True):
        ok = G(cw, 0, 0, 0, 0, one(1), one(1), one(1), one(1), w00, coupled=cp)
        h.true("accepted", np.shape(ok)[0] > 0)
        h.raises("workspace", G, cw, 0, 0, 0, 0, one(1), one(1), one(1), one(1), w02, coupled=cp)
        h.raises("workspace b", G, cw, 0, 0, 0, 0, one(1), one(1), one(1), one(1), w00, w22, coupled=cp)
        for i in range(4):
            c = [one(1) for _ in range(4)]
            c[i] = one(2)
            h.raises("number of spectra", G, cw, 0, 0, 0, 0, *c, w00, coupled=cp)
            c[i] = one(1, lmax)
            h.raises("short spectra", G, cw, 0, 0, 0, 0, *c, w00, coupled=cp)
        # bins reaching higher than the coefficients
        wl = work(h, 0, 0, 4)[0]
        h.raises("lmax", G, cw, 0, 0, 0, 0, one(1, 5), one(1, 5), one(1, 5), one(1, 5), wl, coupled=cp)
        h.raises("lmax b", G, cw, 0, 0, 0, 0, one(1, 5), one(1, 5), one(1, 5), one(1, 5), w00, wl, coupled=cp)


def cases(tier):
    T = tier != "quick"
    c = []
    sps = [s for s in np.ndindex(2, 2, 2, 2)]
    for s in sps:
        sp = tuple(2 * int(x) for x in s)
        n = sum(s)
        nme = "%d%d%d%d" % sp
        c.append(("cpl_" + nme, coupled, dict(sp=sp, lmax=4 if n < 4 else 3, lmask=4 + n % 2, flip=n < 4, sympcl=n < 3), 1 + 2 ** (2 * n) // 16))
        c.append(("dec_" + nme, decoupled, dict(sp=sp, which=(n % 3, 1), symb=n < 3, symcl=None), 1 + 2 ** (2 * n) // 8))
    c.append(("cpl_sym", coupled, dict(sp=(0, 0, 0, 0), lmax=5, lmask=5, sympcl=True, flip=True), 3))
    c.append(("cpl_sym2", coupled, dict(sp=(0, 2, 0, 2), lmax=3, lmask=3, sympcl=True), 6))
    c.append(("cpl_same", coupled, dict(sp=(0, 2, 0, 2), lmax=3, lmask=5, same=True), 3))
    c.append(("cpl_spin1", coupled, dict(sp=(2, 1, 0, 2), lmax=3, lmask=3), 6))
    c.append(("dec_same", decoupled, dict(sp=(0, 2, 2, 0), same=True), 3))
    c.append(("dec_mat", decoupled, dict(sp=(0, 0, 0, 2), nsym=3), 6))
    c.append(("dec_long", decoupled, dict(sp=(0, 0, 0, 0), lmax=5, which=(0, 2), symcl=None), 6))
    for sp in ((0, 0, 0, 0), (0, 2, 0, 0), (0, 2, 2, 2), (0, 2, 2, 0)):
        c.append(("flip_%d%d%d%d" % sp, flipd, dict(sp=sp), 3))
    for form, sp in (("abcd", (0, 0, 0, 0)), ("abcd", (0, 2, 0, 2)), ("abac", (0, 0, 0, 0)), ("abcb", (2, 0, 0, 0)), ("abab", (0, 2, 0, 2)), ("aabb", (0, 0, 2, 2))):
        c.append(("whole_%s_%d%d%d%d" % ((form,) + sp), whole, dict(sp=sp, form=form), 4))
    c.append(("only0", only0, dict(lmax=4), 4))
    c.append(("leak", leak, {}, 2))
    c.append(("errors", errors, {}, 3))
    if T:
        for s in sps:
            sp = tuple(2 * int(x) for x in s)
            for lm in (5, 6):
                if sum(s) < 4 - (lm - 5):
                    c.append(("T_cpl%d_%d%d%d%d" % ((lm,) + sp), coupled, dict(sp=sp, lmax=lm, lmask=lm, sympcl=True, flip=True), 8))
            c.append(("T_dec_%d%d%d%d" % sp, decoupled, dict(sp=sp, lmax=4 if sum(s) < 3 else 3, which=(2, 1), nsym=2, symcl=None, symb=sum(s) < 4), 10))
            if sum(s):
                o = tuple(1 if x and i % 2 else x for i, x in enumerate(sp))
                c.append(("T_spin_%d%d%d%d" % sp, coupled, dict(sp=o, lmax=3, lmask=4, sympcl=sum(s) < 3, flip=sum(s) < 4), 6))
    return c
