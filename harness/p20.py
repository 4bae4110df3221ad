"""P20: curved-sky deprojection and noise biases are the exact expectations of template removal."""
import math
import numpy as np
from . import ylm
from .p19 import G, smap, field, tempset, factors

NOTE = "every value of the symbolic spectra, variances (and, where symbolic, template pixels) within the bounds; geometries, spins, template sets, masks, iterations and purification flags as enumerated"
BOUNDS = {"quick": "HEALPix nside 2, CAR patches of 3x4 pixels (both orientations) and the full sphere 5x8, spins 0, 1, 2, lmax 2-4, 0-3 templates in each field (also linearly dependent, or vanishing within the mask), purification; "
                   "all guess spectra symbolic; noise variance symbolic at 4-6 pixels; symbolic templates (one template, 1-2 pixels) with concrete spectra",
          "thorough": "lmax 5, all combinations of spins and geometries, all variances symbolic, more symbolic template pixels"}
ASSUMPTIONS = ["symbolic templates: squared norm within the mask at least 1e-2",
               "with iterated transforms the integrals over the sky of the expectation are taken with the iterated transform; without iterations they are the pixel sums of the definition"]


def pcl(lmax, x, y):
    """pseudo-spectra bilinear in numeric coefficient matrices (comps*lms*2, K)"""
    ls = ylm.lms(lmax)
    k = len(ls)
    x, y = x.reshape(-1, k, 2, x.shape[-1]), y.reshape(-1, k, 2, y.shape[-1])
    out = np.zeros((x.shape[0], y.shape[0], lmax + 1))
    p = np.einsum("akri,bkri->abk", x, y)
    for i, (l, m) in enumerate(ls):
        out[:, :, l] += p[:, :, i] * (2 if m else 1) / (2 * l + 1)
    return out


def purify_op(g, w, flags, lmax, lmask, n_iter, n_iter_mask):
    """matrix from the unmasked map (internal pixels) to its purified coefficients"""
    N = len(g.pos)
    sel = [c * N + i for c in (0, 1) for i in g.idx]
    n, K, L = g.n, ylm.lms(lmask), ylm.lms(lmax)
    mw = ylm.analysis(g.pos, g.w, 0, lmask, n_iter_mask)[:, g.idx] @ w
    ll = np.repeat([l for l, m in K], 2)
    z = np.zeros(2 * len(K))
    d1 = (ylm.synth(g.pos, 1, lmask)[sel] @ np.concatenate([-np.sqrt(ll * (ll + 1.)) * mw, z])).reshape(2, n)
    q = np.sqrt(np.maximum((ll + 2.) * (ll + 1) * ll * (ll - 1), 0.))
    d2 = (ylm.synth(g.pos, 2, lmask)[sel] @ np.concatenate([q * mw, z])).reshape(2, n)

    def conj(d):
        a, b = np.diag(d[0]), np.diag(d[1])
        return np.block([[a, b], [-b, a]])
    W = np.diag(np.tile(w, 2))
    out = ylm.analysis(g.pos, g.w, 2, lmax, n_iter)[:, sel] @ W
    a1 = ylm.analysis(g.pos, g.w, 1, lmax, n_iter)[:, sel] @ conj(d1)
    s0 = ylm.analysis(g.pos, g.w, 0, lmax, n_iter)[:, g.idx]
    c2 = conj(d2)
    a0 = np.concatenate([s0 @ c2[:n], s0 @ c2[n:]])
    f1, f2 = factors(lmax)
    e = [np.repeat([f[l] for l, m in L], 2)[:, None] for f in (f1, f2)]
    k = 2 * len(L)
    for c in (0, 1):
        if flags[c]:
            out[c * k:(c + 1) * k] += e[0] * a1[c * k:(c + 1) * k] + e[1] * a0[c * k:(c + 1) * k]
    return out


class Op:
    """linear maps of a field: R pixels -> coefficients, without removal; F template coefficients; Z (Z0: without iterations) coefficients of the doubly-masked templates"""

    def __init__(self, g, spin, w, ts, flags, lmax, lmask, n_iter, n_iter_mask):
        self.n = 2 if spin else 1
        N = len(g.pos)
        sel = [c * N + i for c in range(self.n) for i in g.idx]
        self.w = w = np.array(w, dtype=float)
        W = np.tile(w, self.n)
        A = ylm.analysis(g.pos, g.w, spin, lmax, n_iter)[:, sel]
        self.S = ylm.synth(g.pos, spin, lmax)[sel]
        self.R = purify_op(g, w, flags, lmax, lmask, n_iter, n_iter_mask) if any(flags) else A @ np.diag(W)
        T = np.array([np.array(t).reshape(-1) for t in ts]) if ts else np.zeros((0, self.n * g.n))
        self.T, self.A, self.W = T, A, W
        self.q = np.tile(g.pw(), self.n)
        M = (T * W) @ np.diag(self.q) @ (T * W).T if len(ts) else np.zeros((0, 0))
        self.M = M
        u, s, v = np.linalg.svd(M) if len(ts) else (M, np.zeros(0), M)
        self.P = u @ np.diag([1 / x if x > 1e-8 else 0. for x in s]) @ u.T
        self.F = self.R @ T.T                                    # (coefs, nt)
        self.Z = A @ (T * W * W).T
        self.Z0 = ylm.analysis(g.pos, g.w, spin, lmax, 0)[:, sel] @ (T * W * W).T


def gmetric(lmax, n):
    """weights of (re, im) of half the coefficients in the product of two real maps"""
    return np.tile(np.repeat([2. if m else 1. for l, m in ylm.lms(lmax)], 2), n)


def skycov(lmax, n1, n2, X, Y, l):
    """factor of the covariance of sky coefficients for unit C_l^{XY}: list of (index1, index2, weight)"""
    L = ylm.lms(lmax)
    return [((X * len(L) + i) * 2 + r, (Y * len(L) + i) * 2 + r, 1.0 if not m else 0.5) for i, (k, m) in enumerate(L) if k == l for r in range(2 if m else 1)]


def bias(o1, o2, lmax):
    """matrix from guess spectra to the bias"""
    G1, G2 = gmetric(lmax, o1.n), gmetric(lmax, o2.n)
    R1, R2 = o1.R @ o1.S, o2.R @ o2.S
    D1, D2 = R1 - o1.F @ o1.P @ (o1.Z.T * G1), R2 - o2.F @ o2.P @ (o2.Z.T * G2)
    # the projections of both fields together: one transform, one pixel sum
    E1 = R1 - o1.F @ o1.P @ (o1.Z0.T * G1)
    out = np.zeros((o1.n * o2.n, lmax + 1, o1.n * o2.n, lmax + 1))
    for X in range(o1.n):
        for Y in range(o2.n):
            for l in range(lmax + 1):
                c = skycov(lmax, o1.n, o2.n, X, Y, l)
                i, j, v = [list(x) for x in zip(*c)]
                # (R1 - p1)(R2 - p2) - R1 R2 = (R1 - p1)(-p2) - p1 R2
                v = np.array(v)
                d = pcl(lmax, E1[:, i] * v, D2[:, j] - R2[:, j]) + pcl(lmax, (D1[:, i] - R1[:, i]) * v, R2[:, j])
                out[:, :, X * o2.n + Y, l] = d.reshape(o1.n * o2.n, -1)
    return out


def noise(o, g, lmax):
    """matrix from the variance (internal order, n components share it) to the bias"""
    n = g.n
    cov = 1.0 / np.array(g.pw())
    # <p_j n> with p_j the integral of the masked template and the masked noise
    D = o.R - o.F @ o.P @ ((o.T * o.W * o.W) * o.q)
    out = np.zeros((o.n ** 2, lmax + 1, n))
    for x in range(n):
        i = [c * n + x for c in range(o.n)]
        out[:, :, x] = ((pcl(lmax, D[:, i], D[:, i]) - pcl(lmax, o.R[:, i], o.R[:, i])) * cov[x]).reshape(o.n ** 2, -1)
    return out


def tol_ok(*ms):
    return 1e-7 * max([1.0] + [float(np.abs(m).max()) for m in ms if m.size])


def spectra(h, name, n, lmax, sym=True, seed=5):
    r = np.random.RandomState(seed)
    return [[h.real("%s%d_%d" % (name, i, l), -1., 1.) if sym else round(2 * r.rand() - 1, 2) for l in range(lmax + 1)] for i in range(n)]


def make(h, g, spin, tk, flags, lmax, lmask, n_iter, seed=1, masked=False, holes=True, **k):
    n = 2 if spin else 1
    w = smap(h, g, "w", (), seed, 0.1, 1.)
    if holes:
        w[0] = w[6] = 0.
    ts = tempset(g, tk, n, w) if tk else []
    if seed > 1 and tk not in ("gone", "mixed"):
        ts = [[np.roll(m, seed).tolist() for m in t] for t in ts]
    a = [smap(h, g, "a", (), 3 + seed + 2 * i) for i in range(n)]
    kw = dict(k, purify_e=bool(flags[0]), purify_b=bool(flags[1])) if any(flags) else dict(k)
    if masked:
        a = [[x * y for x, y in zip(w, m)] for m in a]
        mt = [[[x * y for x, y in zip(w, m)] for m in t] for t in ts]
    f = field(h, g, w, a, spin, templates=(mt if masked else ts) or None, lmax=lmax, lmax_mask=lmask, n_iter=n_iter, n_iter_mask=1, masked_on_input=masked, **kw)
    iw = g.flat(w)
    if masked and any(flags):
        keep = [1.0 if x > 0 else 0. for x in w]
        ts = [[[x * y for x, y in zip(keep, m)] for m in t] for t in ts]
    o = Op(g, spin, iw, [[g.flat(m) for m in t] for t in ts], flags, lmax, lmask, n_iter, 1)
    return f, o


def deproj(h, kind, s1, s2, t1, t2, p1=(0, 0), p2=(0, 0), lmax=2, lmask=3, n_iter=0, same=False, masked=False, default=False, built=None):
    g = G(h, kind)
    b = n_iter if built is None else built
    f1, o1 = make(h, g, s1, t1, p1, lmax, lmask, b, 1, masked)
    f2, o2 = (f1, o1) if same else make(h, g, s2, t2, p2, lmax, lmask, b, 2, masked)
    if b != n_iter:
        # only the coefficients of the templates are those of the fields
        F1, F2 = o1.F, o2.F
        o1 = make(h, g, s1, t1, p1, lmax, lmask, n_iter, 1, masked)[1]
        o2 = o1 if same else make(h, g, s2, t2, p2, lmax, lmask, n_iter, 2, masked)[1]
        o1.F, o2.F = F1, F2
    N = o1.n * o2.n
    cl = spectra(h, "c", N, lmax)
    if default:
        h.nmt.set_n_iter_default(n_iter)
    b = h.nmt.deprojection_bias(f1, f2, h.array(cl), **({} if default else dict(n_iter=n_iter)))
    if default:
        h.nmt.set_n_iter_default(3)
    M = bias(o1, o2, lmax).reshape(N * (lmax + 1), -1)
    h.true("shape", b.shape == (N, lmax + 1))
    h.close("expectation", h.flat(b), h.mat(M, [v for x in cl for v in x]), tol_ok(M))
    h.close("spectra kept", h.flat(h.array(cl)), [v for x in cl for v in x], 0)
    if not t1 and not t2:
        h.close("no templates, no bias", h.flat(b), [0.] * (N * (lmax + 1)), 0)


def uncorr(h, kind, spin, tk, flags=(0, 0), lmax=2, lmask=3, n_iter=0, sym=(0, 1, 5, 9), masked=False, default=False, built=None):
    g = G(h, kind)
    f, o = make(h, g, spin, tk, flags, lmax, lmask, n_iter if built is None else built, 1, masked)
    if built is not None:
        F = o.F
        o = make(h, g, spin, tk, flags, lmax, lmask, n_iter, 1, masked)[1]
        o.F = F
    v = smap(h, g, "v", sym, 7, 0.1, 2.)
    vm = g.shaped(h, v)
    if default:
        h.nmt.set_n_iter_default(n_iter)
    b = h.nmt.uncorr_noise_deprojection_bias(f, vm, **({} if default else dict(n_iter=n_iter)))
    if default:
        h.nmt.set_n_iter_default(3)
    N = o.n ** 2
    h.true("shape", b.shape == (N, lmax + 1))
    if not tk:
        h.close("no templates, no bias", h.flat(b), [0.] * (N * (lmax + 1)), 0)
        return
    M = noise(o, g, lmax).reshape(N * (lmax + 1), -1)
    h.close("expectation", h.flat(b), h.mat(M, g.flat(v)), tol_ok(M))
    h.close("variances kept", h.flat(vm), v, 0)


def symtemp(h, kind, spin, tsym, which, lmax=2, flags=(0, 0), other=None):
    """one symbolic template; spectra or variances concrete"""
    g = G(h, kind)
    n = 2 if spin else 1
    w = smap(h, g, "w", (), 1, 0.3, 1.)
    a = [smap(h, g, "a%d" % i, (), 3 + i) for i in range(n)]
    t = [smap(h, g, "t%d" % i, tsym, 13 + i) for i in range(n)]
    kw = dict(purify_e=bool(flags[0]), purify_b=bool(flags[1])) if any(flags) else {}
    iw = g.flat(w)
    o = Op(g, spin, iw, [], flags, lmax, 3, 0, 0)
    it = [v for m in t for v in g.flat(m)]
    nn = 0.0
    for x, q, u in zip(it, o.q, o.W):
        nn = nn + x * x * float(q * u * u)
    h.assume(nn >= 1e-2)
    f = field(h, g, w, a, spin, templates=[t], n_iter=0, n_iter_mask=0, lmax=lmax, lmax_mask=3, **kw)
    L = ylm.lms(lmax)
    K = len(L)

    def p(x, y, i, j, l):
        s = 0.0
        for k, (q, m) in enumerate(L):
            if q == l:
                for r in (0, 1):
                    s = s + x[(i * K + k) * 2 + r] * y[(j * K + k) * 2 + r] * ((2. if m else 1.) / (2 * l + 1))
        return s
    F = h.mat(o.R, it)
    if which == "noise":
        v = smap(h, g, "v", (), 7, 0.1, 2.)
        iv = np.tile(g.flat(v), n)
        b = h.nmt.uncorr_noise_deprojection_bias(f, g.shaped(h, v), n_iter=0)
        z = h.mat(o.R @ np.diag(o.W ** 2 * iv), it)
        e = 0.0
        for x, q, u in zip(it, o.q * o.W ** 4 * iv, o.W):
            e = e + x * x * float(q)
        m2 = n
        X2, Y2 = z, z
        G2 = F
    else:
        oo = Op(g, 2 if other else 0, iw, [], (0, 0), lmax, 3, 0, 0) if other is not None else o
        m2 = oo.n
        c = np.array(spectra(h, "c", n * m2, lmax, False)).reshape(n, m2, lmax + 1)
        C = np.zeros((m2 * K * 2, n * K * 2))
        for X in range(n):
            for Y in range(m2):
                for k, (l, m) in enumerate(L):
                    for r in (0, 1):
                        C[(Y * K + k) * 2 + r, (X * K + k) * 2 + r] = c[X, Y, l]
        Z = o.A @ np.diag(o.W ** 2)
        z = h.mat(oo.R @ oo.S @ C @ Z, it)          # 2nd field's coefficients
        if other is None:
            x = h.mat(o.R @ o.S @ C.T @ Z, it)
            GZ = Z.T @ np.diag(gmetric(lmax, n)) @ C @ Z
            q = h.mat(GZ, it)
            e = 0.0
            for s, u in zip(it, q):
                e = e + s * u
            b = h.nmt.deprojection_bias(f, f, h.array(c.reshape(n * n, -1).tolist()), n_iter=0)
            X2, Y2, G2 = x, z, F
        else:
            f2 = field(h, g, w, [smap(h, g, "b%d" % i, (), 8 + i) for i in range(m2)], 2 if other else 0, n_iter=0, n_iter_mask=0, lmax=lmax, lmax_mask=3)
            b = h.nmt.deprojection_bias(f, f2, h.array(c.reshape(n * m2, -1).tolist()), n_iter=0)
    # times the squared norm, to stay polynomial
    for i in range(n):
        for j in range(m2):
            for l in range(lmax + 1):
                got = b[i * m2 + j, l]
                if other is not None:
                    h.close("%d %d %d" % (i, j, l), got * nn, -p(F, z, i, j, l), 1e-7)
                    continue
                ref = (p(F, Y2, i, j, l) + p(X2, G2, i, j, l)) * (-1.0) * nn + p(F, F, i, j, l) * e
                h.close("%d %d %d" % (i, j, l), got * nn * nn, ref, 1e-7)


def refused(h, kind):
    g = G(h, kind)
    D, U = h.nmt.deprojection_bias, h.nmt.uncorr_noise_deprojection_bias
    f0, _ = make(h, g, 0, "one", (0, 0), 2, 3, 0)
    f2, _ = make(h, g, 2, "one", (0, 0), 2, 3, 0)
    l0, _ = make(h, g, 0, "one", (0, 0), 2, 3, 0, lite=True)
    x0, _ = make(h, g, 0, "one", (0, 0), 3, 3, 0)
    c = np.ones
    h.raises("lite", D, f0, l0, c((1, 3)), n_iter=0)
    h.raises("lite", D, l0, f0, c((1, 3)), n_iter=0)
    h.raises("lite", U, l0, g.shaped(h, [1.0] * g.n), n_iter=0)
    h.raises("lmax", D, f0, x0, c((1, 3)), n_iter=0)
    h.raises("lmax", D, x0, f0, c((1, 4)), n_iter=0)
    for f, e, s in ((f0, f0, (1, 4)), (f0, f0, (1, 2)), (f0, f0, (2, 3)), (f0, f2, (1, 3)), (f2, f2, (2, 3)), (f2, f2, (3, 3)), (f2, f0, (4, 3))):
        h.raises("spectra %s" % (s,), D, f, e, c(s), n_iter=0)
    if g.wcs is None:
        h.raises("variance", U, f0, np.ones(g.n + 1), n_iter=0)
        h.raises("variance", U, f0, np.ones(12), n_iter=0)
    else:
        h.raises("variance", U, f0, np.ones((g.shape[0], g.shape[1] + 1)), n_iter=0)
        h.raises("variance", U, f0, np.ones((g.shape[0] - 1, g.shape[1])), n_iter=0)
    if kind != "hp2":
        p = G(h, "hp2")
        o, _ = make(h, p, 0, "one", (0, 0), 2, 3, 0)
        h.raises("pixels", D, f0, o, c((1, 3)), n_iter=0)


def cases(tier):
    T = tier != "quick"
    c = []
    ks = ("hp2", "car", "carflip", "carfull")
    TS = ("one", "two", "three", "dup", "dep", "zero", "gone", "mixed")
    i = 0
    for s1, s2 in ((0, 0), (0, 2), (2, 0), (2, 2), (1, 2)):
        for t1, t2 in (("one", "two"), ("two", None), (None, "one"), ("dep", "dup")):
            k = ks[i % 4]
            i += 1
            c.append(("e%d%d_%s_%s" % (s1, s2, t1, t2), deproj, dict(kind=k, s1=s1, s2=s2, t1=t1, t2=t2)))
    for j, t in enumerate(TS):
        for s in (0, 2):
            c.append(("s%d_%s" % (s, t), deproj, dict(kind=ks[(j + s) % 4], s1=s, s2=s, t1=t, t2=t, same=True, masked=bool(j % 3 == 1))))
            c.append(("u%d_%s" % (s, t), uncorr, dict(kind=ks[(j + s + 1) % 4], spin=s, tk=t, masked=bool(j % 3 == 2))))
    for k in ks:
        c.append(("u1_" + k, uncorr, dict(kind=k, spin=1, tk="two", lmax=3)))
        c.append(("u2_" + k, uncorr, dict(kind=k, spin=2, tk="two", lmax=3, sym=(0, 1, 2, 6, 10, 11))))
        c.append(("u0_" + k, uncorr, dict(kind=k, spin=0, tk="three", lmax=4, lmask=2, n_iter=2)))
        c.append(("e_it_" + k, deproj, dict(kind=k, s1=0, s2=2, t1="one", t2="two", n_iter=1, lmax=3)))
        c.append(("refused_" + k, refused, dict(kind=k)))
    for fl in ((1, 0), (0, 1), (1, 1)):
        t = "%d%d" % fl
        k = ks[(fl[0] + 2 * fl[1]) % 4]
        c += [("b22_" + t, deproj, dict(kind=k, s1=2, s2=2, t1="one", t2="one", p1=fl, lmax=3)), ("bs_" + t, deproj, dict(kind=k, s1=2, s2=2, t1="two", t2="two", p1=fl, lmax=3, same=True)),
              ("b02_" + t, deproj, dict(kind=k, s1=0, s2=2, t1="one", t2="two", p2=fl, lmask=4, n_iter=1)), ("b20_" + t, deproj, dict(kind=k, s1=2, s2=0, t1="two", t2=None, p1=fl, masked=True)),
              ("ub_" + t, uncorr, dict(kind=k, spin=2, tk="two", flags=fl, lmax=3, lmask=4)), ("ubm_" + t, uncorr, dict(kind=ks[fl[0]], spin=2, tk="one", flags=fl, masked=True))]
    c += [("none00", deproj, dict(kind="car", s1=0, s2=0, t1=None, t2=None)), ("none22", deproj, dict(kind="hp2", s1=2, s2=2, t1=None, t2=None, p1=(0, 1))), ("unone", uncorr, dict(kind="car", spin=2, tk=None)),
          ("edef", deproj, dict(kind="car", s1=0, s2=0, t1="one", t2="two", n_iter=2, default=True)), ("udef", uncorr, dict(kind="hp2", spin=0, tk="one", n_iter=2, default=True))]
    # fields built with another number of iterations
    for j, (n, b) in enumerate(((0, 2), (2, 0), (1, 3))):
        k = ks[j]
        c += [("it02_%d%d" % (n, b), deproj, dict(kind=k, s1=0, s2=2, t1="one", t2="two", n_iter=n, built=b)),
              ("itB_%d%d" % (n, b), deproj, dict(kind=k, s1=2, s2=2, t1="one", t2="two", p1=(j == 0, j < 2), p2=(0, j > 0), n_iter=n, built=b)),
              ("itu0_%d%d" % (n, b), uncorr, dict(kind=k, spin=0, tk="two", n_iter=n, built=b)),
              ("ituB_%d%d" % (n, b), uncorr, dict(kind=k, spin=2, tk="one", flags=(j > 0, j < 2), n_iter=n, built=b))]
    c += [("t0", symtemp, dict(kind="car", spin=0, tsym=(0, 4), which="sky")), ("t2", symtemp, dict(kind="car", spin=2, tsym=(4,), which="sky")), ("t02", symtemp, dict(kind="carflip", spin=0, tsym=(0, 4), which="sky", other=2)),
          ("t20", symtemp, dict(kind="hp2", spin=2, tsym=(4,), which="sky", other=0)),
          ("n0", symtemp, dict(kind="car", spin=0, tsym=(0, 4), which="noise")), ("n2", symtemp, dict(kind="carfull", spin=2, tsym=(4,), which="noise")), ("n0f", symtemp, dict(kind="carflip", spin=0, tsym=(0, 4), which="noise"))]
    if T:
        for k in ks:
            for s1 in (0, 1, 2):
                for s2 in (0, 1, 2):
                    c.append(("E%d%d_%s" % (s1, s2, k), deproj, dict(kind=k, s1=s1, s2=s2, t1="three", t2="two", lmax=5, lmask=5, n_iter=(s1 + s2) % 3), 3))
                c += [("U%d_%s_%d" % (s1, k, n), uncorr, dict(kind=k, spin=s1, tk="three", lmax=5, n_iter=n, sym=None), 3) for n in (0, 3)]
            for fl in ((1, 0), (0, 1), (1, 1)):
                c += [("B%d%d_%s" % (fl + (k,)), deproj, dict(kind=k, s1=2, s2=2, t1="three", t2="two", p1=fl, p2=(0, 1), lmax=4, lmask=4, n_iter=1), 3), ("UB%d%d_%s" % (fl + (k,)), uncorr, dict(kind=k, spin=2, tk="three", flags=fl, lmax=4, lmask=5, n_iter=1, sym=None), 3)]
            c += [("T0_" + k, symtemp, dict(kind=k, spin=0, tsym=(0, 4, 5), which="sky", lmax=3), 3), ("T2_" + k, symtemp, dict(kind=k, spin=2, tsym=(0, 4), which="sky"), 5), ("N2_" + k, symtemp, dict(kind=k, spin=2, tsym=(0, 4), which="noise"), 5)]
    return c
