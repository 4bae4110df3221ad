"""P16: flat-sky deprojection bias is the exact expectation of template removal."""
import math
import numpy as np
from . import flat
from .p15 import purified, tempset
from .p12 import bands

NOTE = "every value of the symbolic spectra (and, where symbolic, template and mask pixels) within the bounds; patches, spins, template sets, masks and purification flags as enumerated"
BOUNDS = {"quick": "3x3 to 5x3 pixels (spin 0 also on even grids), spins 0, 1, 2, 0-3 templates in each field (also linearly dependent, or vanishing within the mask), purification, masked ranges, 2-3 bands; all guess "
                   "spectra symbolic at 3 sampled wavenumbers; one symbolic template or mask (3 pixels) with concrete spectra on 3x3 pixels",
          "thorough": "5x5 pixels, more symbolic template pixels"}
ASSUMPTIONS = ["symbolic templates: squared norm within the mask at least 1e-2"]


def patterns(g, spin):
    """map of each E/B mode: A[X][k] = complex array (nmaps, ny, nx)"""
    y, x = np.mgrid[0:g.ny, 0:g.nx]
    n = 2 * math.pi / (g.lx * g.ly)
    out = [{} for _ in range(2 if spin else 1)]
    for k in g.modes():
        e = n * np.exp(2j * math.pi * (k[0] * y / g.ny + k[1] * x / g.nx))
        if spin == 0:
            out[0][k] = np.array([e])
            continue
        # half plane: (q, u) = rotation of (e, b); negative kx: conjugates of the partner
        neg = 2 * k[1] > g.nx
        kk = ((-k[0]) % g.ny, g.nx - k[1]) if neg else k
        p = spin * g.phi(*kk)
        s = -(1j ** spin)
        # (e, b) = s R(p) (q, u), with s a complex factor
        Ri = np.array([[math.cos(p), math.sin(p)], [-math.sin(p), math.cos(p)]]) * (s if neg else s.conjugate())
        for X in (0, 1):
            out[X][k] = np.array([Ri[0, X] * e, Ri[1, X] * e])
    return out


def hat(ls, n, k):
    return flat.interp(ls, [1.0 if i == n else 0.0 for i in range(len(ls))], k)


def linear(g, spin, w, ts, flags):
    """matrices from pixels to coefficients with and without template removal, shape (comps, modes, nmaps*npix)"""
    n = 2 if spin else 1
    w = np.array(w)
    npx = n * g.npix
    wt = [np.array([np.array(m) * w for m in t]).reshape(-1) for t in ts]
    T = np.array(wt) if wt else np.zeros((0, npx))
    raw = np.array([np.array(t).reshape(-1) for t in ts]) if ts else np.zeros((0, npx))
    U, s, V = np.linalg.svd(T @ T.T) if len(ts) else (np.zeros((0, 0)),) * 3
    P = U @ np.diag([1 / x if x > 1e-8 else 0. for x in s]) @ U.T if len(ts) else np.zeros((0, 0))
    W = np.tile(w.reshape(-1), n)
    D = np.eye(npx) - raw.T @ P @ T @ np.diag(W)  # unmasked map -> unmasked map minus templates
    out = []
    ks = g.modes()
    if spin == 2 and any(flags):
        B = []
        for i in range(npx):
            u = np.zeros(npx)
            u[i] = 1.
            a = purified(g, w.tolist(), u.reshape(n, g.ny, g.nx).tolist(), flags)
            B.append([[complex(*a[c][k]) for k in ks] for c in range(n)])
    else:
        B = []
        for i in range(npx):
            u = np.zeros(npx)
            u[i] = 1.
            a = flat.map2alm(g, spin, (u * W).reshape(n, g.ny, g.nx).tolist())
            B.append([[complex(*a[c][k]) for k in ks] for c in range(n)])
    B = np.moveaxis(np.array(B), 0, -1)
    return B @ D, B


def bias(g, f1, f2, ls, l0, lf, cx, cy):
    """coefficients of the guess spectra: array (ncl_out, nb, ncl_in, nodes)"""
    (s1, w1, t1, p1), (s2, w2, t2, p2) = f1, f2
    L1, R1 = linear(g, s1, w1, t1, p1)
    L2, R2 = linear(g, s2, w2, t2, p2)
    A1, A2 = patterns(g, s1), patterns(g, s2)
    bd = flat.inband(g, l0, lf, cx, cy)
    ks = g.modes()
    nb = len(l0)
    cnt = [max(1, sum(1 for v in bd.values() if v == i)) for i in range(nb)]
    n1, n2 = len(A1), len(A2)
    out = np.zeros((n1 * n2, nb, n1 * n2, len(ls)))
    for X in range(n1):
        for Y in range(n2):
            for k in ks:
                a, b = A1[X][k].reshape(-1), A2[Y][k].reshape(-1)
                v = [M @ a for M in (L1, R1)], [M @ b for M in (L2, R2)]
                d = np.einsum("im,jm->ijm", v[0][0], v[1][0].conj()) - np.einsum("im,jm->ijm", v[0][1], v[1][1].conj())
                # <|a|^2> = C lx ly/(4 pi^2) and the estimator's inverse factor cancel
                for m, q in enumerate(ks):
                    i = bd[q]
                    if i >= 0:
                        for n in range(len(ls)):
                            h = hat(ls, n, g.k(*k))
                            if h:
                                out[:, i, X * n2 + Y, n] += (d[:, :, m].real * h / cnt[i]).reshape(-1)
    return out


def symcl(h, geom, s1, s2, t1, t2, p1=(0, 0), p2=(0, 0), cx=(1., -1.), cy=(1., -1.), nb=2, same=False, zero=True, holes=True, masked=False):
    g = flat.geo(geom)
    n = [2 if s else 1 for s in (s1, s2)]
    F, R = [], []
    for i, (s, t, p) in enumerate(((s1, t1, p1), (s2, t2, p2))):
        if i and same:
            F.append(F[0])
            R.append(R[0])
            break
        w = np.array(flat.symmap(h, g, "w", (), 0, 1, 1 + i, True))
        if holes:
            w[0, 0] = w[1, 1] = 0.
        ts = tempset(g, t, n[i], w.tolist()) if t else []
        if i:
            ts = [[np.roll(m, 1, axis=1) * 1.0 for m in x] for x in ts] if t != "gone" else ts
        m = [flat.symmap(h, g, "a", (), seed=3 + i + 2 * j) for j in range(n[i])]
        kw = dict(purify_e=bool(p[0]), purify_b=bool(p[1])) if any(p) else {}
        if masked:
            m = (np.array(m) * w).tolist()
        F.append(flat.field(h, g, w.tolist(), m, s, templates=h.array([[(np.array(z) * (w if masked else 1.)).tolist() for z in x] for x in ts]) if ts else None, masked_on_input=masked, **kw))
        if masked and any(p):
            ts = [[np.array(z) * (w > 0) for z in x] for x in ts]
        R.append((s, w.tolist(), ts, p))
    l0, lf = bands(g, nb, zero)
    b = h.nmt.NmtBinFlat(np.array(l0), np.array(lf))
    ls = [3.0, 0.6 * max(g.k(*k) for k in g.modes()), 0.9 * max(g.k(*k) for k in g.modes())]
    nc = n[0] * n[1]
    cl = h.reals("c", (nc, 3), -1.0, 1.0)
    if (s1 + s2) % 2:
        # at k=0 an odd-spin coefficient is imaginary, a correlation with an even-spin one has no meaning
        ls[0] = 0.0
        ls.insert(1, 0.9 * min(g.k(*k) for k in g.modes() if k != (0, 0)))
        cl = h.array([[0.0] + list(c) for c in cl])
    nn = len(ls)
    out = h.nmt.deprojection_bias_flat(F[0], F[1], b, np.array(ls), cl, ell_cut_x=list(cx), ell_cut_y=list(cy))
    C = bias(g, R[0], R[1], ls, l0, lf, cx, cy)
    h.true("shape", out.shape == (nc, nb))
    for i in range(nc):
        for k in range(nb):
            t = 0.0
            for j in range(nc):
                for q in range(nn):
                    t = t + cl[j][q] * float(C[i, k, j, q])
            h.close("bias %d %d" % (i, k), out[i][k], t, 1e-8)
    if (t1 or t2) and not (t1 in (None, "gone") and t2 in (None, "gone")):
        h.true("reference not zero", bool(np.abs(C).max() > 1e-4))


def symtemp(h, geom, tsym, msym=(), same=True, second=None):
    """spin 0: symbolic template or mask pixels"""
    g = flat.geo(geom)
    fs, data = [], []
    for i in range(1 if same else 2):
        w = flat.symmap(h, g, "w%d" % i, msym if i == 0 else (), 0.2, 1.0, 1 + i, True)
        t = flat.symmap(h, g, "t%d" % i, tsym if i == 0 else (), seed=13 + i)
        use = i == 0 or second
        fs.append(flat.field(h, g, w, [flat.symmap(h, g, "a", (), seed=3)], 0, templates=h.array([[t]]) if use else None))
        wv = [v for r in w for v in r]
        tv = [a * b for a, b in zip(wv, [v for r in t for v in r])] if use else None
        data.append((wv, tv))
    if same:
        fs, data = fs * 2, data * 2
    l0, lf = bands(g, 2, True)
    b = h.nmt.NmtBinFlat(np.array(l0), np.array(lf))
    km = max(g.k(*k) for k in g.modes())
    ls, cl = [0., 0.5 * km, 1.2 * km], [2., 1., 0.3]
    nn = []
    for w, t in data:
        x = 1.0
        if t is not None:
            x = 0.0
            for v in t:
                x = x + v * v
            h.assume(x >= 1e-2)
        nn.append(x)
    out = h.nmt.deprojection_bias_flat(fs[0], fs[1], b, np.array(ls), np.array([cl]))
    # pixel covariance
    A = patterns(g, 0)[0]
    N = g.lx * g.ly / (4 * math.pi ** 2)
    S = np.zeros((g.npix, g.npix))
    for k in g.modes():
        a = A[k].reshape(-1)
        S += (np.outer(a, a.conj()) * flat.interp(ls, cl, g.k(*k)) * N).real
    (w1, v1), (w2, v2) = data

    def mv(M, v):
        r = []
        for row in M:
            t = 0.0
            for a, x in zip(row, v):
                t = t + x * float(a)
            r.append(t)
        return r

    def dt(a, b):
        t = 0.0
        for x, y in zip(a, b):
            t = t + x * y
        return t
    P = {}
    r1 = [x * y for x, y in zip(mv(S, [a * b for a, b in zip(w1, v1)]), w2)] if v1 is not None else None  # E[(t1.m1) m2(y)]
    r2 = [x * y for x, y in zip(mv(S, [a * b for a, b in zip(w2, v2)]), w1)] if v2 is not None else None
    bd = flat.inband(g, l0, lf, (1., -1.), (1., -1.))
    nf = g.lx * g.ly / (2 * math.pi * g.npix)
    for i in range(2):
        K = np.zeros((g.npix, g.npix))
        c = 0
        for k, j in bd.items():
            if j == i:
                c += 1
                a = A[k].reshape(-1) * (g.lx * g.ly / (2 * math.pi)) * nf
                K += (np.outer(a.conj(), a)).real
        K *= 4 * math.pi ** 2 / (g.lx * g.ly) / c
        # sum_xy K(x,y) B(x,y), times the squared norms
        t = 0.0
        if v1 is not None:
            t = t - dt(v1, mv(K, r1)) * nn[1]
        if v2 is not None:
            t = t - dt(r2, mv(K, v2)) * nn[0]
        if v1 is not None and v2 is not None:
            t = t + dt(v1, mv(K, v2)) * dt(r1, v2)
        h.close("bias %d" % i, out[0][i] * nn[0] * nn[1], t, 1e-6)


def refused(h):
    g = flat.geo("3x3")
    w = np.ones((3, 3))
    m = np.arange(9.).reshape(3, 3)
    F = h.nmt.NmtFieldFlat
    b = h.nmt.NmtBinFlat(np.array([1., 10.]), np.array([10., 20.]))
    f0, f2 = F(g.lx, g.ly, w, [m], templates=[[m * m]]), F(g.lx, g.ly, w, [m, m * m])
    fl = F(g.lx, g.ly, w, [m], templates=[[m * m]], lite=True)
    fo = F(g.lx, g.ly, np.ones((3, 4)), [np.ones((3, 4))])
    ls = np.array([0., 10., 30.])
    c = np.ones((1, 3))
    D = h.nmt.deprojection_bias_flat
    h.raises("lite", D, fl, f0, b, ls, c)
    h.raises("lite", D, f0, fl, b, ls, c)
    h.raises("spectra", D, f0, f2, b, ls, c)
    h.raises("spectra", D, f0, f0, b, ls, np.ones((2, 3)))
    h.raises("multipoles", D, f0, f0, b, ls, np.ones((1, 4)))
    h.raises("patches", D, f0, fo, b, ls, c)
    h.close("no templates", D(f2, f2, b, ls, np.ones((4, 3))), np.zeros((4, 2)), 1e-12)


def cases(tier):
    T = tier != "quick"
    c = []
    for a, (s1, s2) in enumerate(((0, 0), (0, 2), (2, 0), (2, 2), (1, 1), (0, 1), (2, 1))):
        for i, (t1, t2) in enumerate((("one", None), (None, "one"), ("one", "one"), ("two", "one"), ("dup", "two"))):
            c.append(("b%d%d_%d" % (s1, s2, i), symcl, dict(geom="3x3" if (i + a) % 2 else "3x5" if not (s1 and s2) else "5x3", s1=s1, s2=s2, t1=t1, t2=t2, masked=i == 3)))
    c += [("b00_none", symcl, dict(geom="3x3", s1=0, s2=0, t1=None, t2=None)), ("b00_gone", symcl, dict(geom="3x3", s1=0, s2=0, t1="gone", t2="gone")),
          ("b02_mixed", symcl, dict(geom="3x5", s1=0, s2=2, t1="mixed", t2="dep")),
          ("b22_same", symcl, dict(geom="3x3", s1=2, s2=2, t1="two", t2="two", same=True)), ("b00_same", symcl, dict(geom="4x4", s1=0, s2=0, t1="three", t2="three", same=True)), ("b00_even", symcl, dict(geom="3x4", s1=0, s2=0, t1="two", t2="one", nb=3)),
          ("b00_even2", symcl, dict(geom="4x3", s1=0, s2=0, t1="one", t2="two", zero=False)), ("b00_cut", symcl, dict(geom="5x3", s1=0, s2=0, t1="two", t2="one", cx=(-1., 1.))), ("b02_cut", symcl, dict(geom="3x5", s1=0, s2=2, t1="one", t2="one", cy=(-1., 1.))),
          ("b22_cut", symcl, dict(geom="5x3", s1=2, s2=2, t1="one", t2="one", cx=(1., 100.)))]
    for s1, s2, p1, p2 in ((0, 2, (0, 0), (0, 1)), (0, 2, (0, 0), (1, 0)), (2, 0, (0, 1), (0, 0)), (2, 2, (0, 1), (0, 1)), (2, 2, (1, 1), (0, 0)), (2, 2, (1, 0), (0, 1))):
        for i, (t1, t2) in enumerate((("one", None), (None, "one"), ("one", "two"))):
            c.append(("p%d%d_%d%d%d%d_%d" % (s1, s2, *p1, *p2, i), symcl, dict(geom="3x3" if i % 2 else "3x5", s1=s1, s2=s2, t1=t1, t2=t2, p1=p1, p2=p2, masked=i == 2 and s1 == 0), 2))
    c.append(("p22_same", symcl, dict(geom="3x3", s1=2, s2=2, t1="two", t2="two", p1=(0, 1), p2=(0, 1), same=True), 2))
    c += [("s_auto", symtemp, dict(geom="3x3", tsym=(0, 4, 7))), ("s_one", symtemp, dict(geom="3x3", tsym=(0, 4, 7), same=False)), ("s_two", symtemp, dict(geom="3x3", tsym=(0, 4), same=False, second=True)),
          ("s_mask", symtemp, dict(geom="3x3", tsym=(), msym=(2, 5))), ("s_maskt", symtemp, dict(geom="3x3", tsym=(3,), msym=(2,), same=False, second=True))]
    c.append(("refused", refused, {}))
    if T:
        c += [("B22_55", symcl, dict(geom="5x5", s1=2, s2=2, t1="two", t2="two"), 6), ("P22_55", symcl, dict(geom="5x5", s1=2, s2=2, t1="two", t2="one", p1=(0, 1), p2=(1, 1)), 9), ("B00_46", symcl, dict(geom="4x6", s1=0, s2=0, t1="three", t2="two"), 4),
              ("S_auto", symtemp, dict(geom="3x3", tsym=(0, 1, 2, 4, 7)), 9), ("S_34", symtemp, dict(geom="3x4", tsym=(0, 4, 7), msym=(5,)), 9)]
    return c
