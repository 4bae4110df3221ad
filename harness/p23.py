"""P23: the template covariance inverse is the Moore-Penrose pseudo-inverse with a relative tolerance."""
import math
import numpy as np

NOTE = "every eigenvalue, tolerance and (2x2) eigenvector angle within the bounds; eigenvectors of larger matrices enumerated or rotated by symbolic angles"
BOUNDS = {"quick": "symmetric positive semi-definite matrices of size 1-4: all eigenvalues in [0,4] (0 or at least 0.05 apart from the threshold by 1e-4), tolerances in [1e-4,0.99] or none; 2x2 eigenvectors at every angle, "
                   "3x3 at every angle about an axis, 4x4 enumerated; both implementations, and fields with one or two templates of symbolic norms",
          "thorough": "3x3 with two symbolic angles, more tolerances"}
ASSUMPTIONS = ["numpy.linalg.eigh and gsl_eigen_symmv return an orthonormal eigen-decomposition (ascending order for numpy, no order for GSL)"]


def rot(h, n, kind, seed=2):
    """orthogonal matrix"""
    if kind == "id":
        return np.eye(n).tolist()
    if kind == "perm":
        return np.roll(np.eye(n), 1, axis=0).tolist()
    if kind == "mixed":
        q, _ = np.linalg.qr(np.random.RandomState(seed + n).randn(n, n))
        return q.tolist()
    R = np.eye(n).tolist()
    if kind == "angle2":
        R = np.linalg.qr(np.random.RandomState(seed + n).randn(n, n))[0].tolist()
    for k in range(2 if kind == "angle2" else 1):
        a = h.real("angle%d" % k, 0.01, 3.1)
        c, s = h.cos(a), h.sin(a)
        i, j = (0, 1) if not k else (1, 2)
        for r in R:
            r[i], r[j] = r[i] * c + r[j] * s, r[j] * c - r[i] * s
    return R


def compose(R, w):
    n = len(w)
    out = [[0.0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i + 1):
            t = 0.0
            for k in range(n):
                t = t + w[k] * (R[i][k] * R[j][k])
            out[i][j] = out[j][i] = t
    return out


def biggest(w):
    m = w[0]
    for x in w[1:]:
        if x > m:
            m = x
    return m


def inv(h, which, n, kind, pattern, tol=None):
    """pattern: per eigenvalue 's' symbolic, 'm' negative (always below the tolerance), '0' zero, or a number"""
    R = rot(h, n, kind)
    w = [0.0 if p == "0" else h.real("w%d" % i, 0.05, 4.) if p == "s" else h.real("w%d" % i, -3., -0.05) if p == "m" else float(p) for i, p in enumerate(pattern)]
    t = h.real("tol", 1e-4, 0.99) if tol is None else tol
    M = compose(R, w)
    if h.sym:
        h.ctx.memo["eigs"] = [(M, list(w), R)]
    big = biggest(w)
    g = []
    for x in w:
        if isinstance(x, float) and x == 0.0 and h.sym or x == 0:
            g.append(0.0)
            continue
        d = x - t * big
        # away from the threshold, where rounding decides
        if d >= 0:
            h.assume(d >= 1e-4)
            g.append(1.0 / x)
        else:
            h.assume(d <= -1e-4)
            g.append(0.0)
    ref = compose(R, g)
    if which == "py":
        A = h.array(M)
        P = h.nmt.moore_penrose_pinvh(A, t)
        h.true("shape", P.shape == (n, n))
        got = [[P[i, j] for j in range(n)] for i in range(n)]
        h.close("matrix kept", h.flat(A), [v for r in M for v in r], 0)
    else:
        m = h.gmat(M)
        h.C.moore_penrose_pinv(m, t)
        got = m.values()
    h.close("pseudo-inverse", got, ref, 1e-8)


def plain(h, which, n, kind, tol):
    """no tolerance: the inverse"""
    R = rot(h, n, kind)
    w = [h.real("w%d" % i, 0.2, 3.) for i in range(n)]
    M = compose(R, w)
    if h.sym:
        h.ctx.memo["eigs"] = [(M, list(w), R)]
    if which == "py":
        P = h.nmt.moore_penrose_pinvh(h.array(M), tol)
        P = [[P[i, j] for j in range(n)] for i in range(n)]
    else:
        m = h.gmat(M)
        h.C.moore_penrose_pinv(m, tol)
        P = m.values()
    for i in range(n):
        for j in range(n):
            t = 0.0
            for k in range(n):
                t = t + M[i][k] * P[k][j]
            h.close("identity %d %d" % (i, j), t, 1.0 if i == j else 0.0, 1e-8)


def field(h, flat, nt, tol, scale):
    """fields discard templates whose norm is small compared to the largest one"""
    # templates on disjoint pixels: the covariance is diagonal
    a = [[0.3 if i % nt == k else 0.0 for i in range(16 if flat else 48)] for k in range(nt)]
    s = [1.0] + [h.real("s%d" % k, *scale) for k in range(1, nt)]
    w = [1.0] * len(a[0])
    m = [round(math.sin(i + 1), 3) for i in range(len(w))]
    keep = [True] + [None] * (nt - 1)
    for k in range(1, nt):
        keep[k] = bool(scale[0] ** 2 > tol)
    if flat:
        sh = lambda v: h.array(v).reshape((4, 4))
        f = h.nmt.NmtFieldFlat(0.1, 0.1, sh(w), [sh(m)], spin=0, templates=[[sh([x * s[k] for x in t])] for k, t in enumerate(a)], tol_pinv=tol)
    else:
        f = h.nmt.NmtField(h.array(w), h.array([m]), spin=0, templates=h.array([[[x * s[k] for x in t]] for k, t in enumerate(a)]), tol_pinv=tol, n_iter=0, lmax=1, lmax_mask=1)
    out = h.flat(f.get_maps())
    for k in range(nt):
        # mean of the map over the template's pixels
        idx = [i for i in range(len(w)) if i % nt == k]
        mean = sum(m[i] for i in idx) / len(idx)
        for i in idx:
            h.close("map %d" % i, out[i], m[i] - (mean if keep[k] else 0.0), 1e-7)


def cases(tier):
    T = tier != "quick"
    c = []
    for w in ("py", "c"):
        c += [("%s1" % w, inv, dict(which=w, n=1, kind="id", pattern="s")), ("%s1z" % w, inv, dict(which=w, n=1, kind="id", pattern="0")),
              ("%s2" % w, inv, dict(which=w, n=2, kind="angle", pattern="ss")), ("%s2z" % w, inv, dict(which=w, n=2, kind="angle", pattern="s0")), ("%s2zz" % w, inv, dict(which=w, n=2, kind="id", pattern="00")),
              ("%s2n" % w, inv, dict(which=w, n=2, kind="mixed", pattern="0s"))]
        for k in ("id", "perm", "mixed"):
            c += [("%s3%s" % (w, k), inv, dict(which=w, n=3, kind=k, pattern="sss")), ("%s3%sz" % (w, k), inv, dict(which=w, n=3, kind=k, pattern="s0s"))]
        c += [("%s3a" % w, inv, dict(which=w, n=3, kind="angle", pattern="sss")), ("%s3az" % w, inv, dict(which=w, n=3, kind="angle", pattern="0ss")), ("%s4" % w, inv, dict(which=w, n=4, kind="mixed", pattern="s0ss")),
              ("%s3t" % w, inv, dict(which=w, n=3, kind="mixed", pattern="sss", tol=1e-4)), ("%s3T" % w, inv, dict(which=w, n=3, kind="mixed", pattern="sss", tol=0.5)), ("%s2one" % w, inv, dict(which=w, n=2, kind="mixed", pattern="ss", tol=0.9999)),
              ("%s2m" % w, inv, dict(which=w, n=2, kind="angle", pattern="sm")), ("%s3m" % w, inv, dict(which=w, n=3, kind="mixed", pattern="sms", tol=0.01))]
        c += [("%splain%d" % (w, n), plain, dict(which=w, n=n, kind=k, tol=0.)) for n, k in ((1, "id"), (2, "mixed"), (3, "mixed"))]
    c += [("pyneg%d" % n, plain, dict(which="py", n=n, kind="mixed" if n > 1 else "id", tol=-1.)) for n in (1, 2)] + [("pynone", plain, dict(which="py", n=2, kind="mixed", tol=None))]
    for f in (0, 1):
        c += [("f%dk%d" % (f, n), field, dict(flat=bool(f), nt=n, tol=0.01, scale=(0.12, 0.9))) for n in (2,)]
        c += [("f%dd%d" % (f, n), field, dict(flat=bool(f), nt=n, tol=0.01, scale=(0.02, 0.09))) for n in (2,)]
        c += [("f%ds%d" % (f, n), field, dict(flat=bool(f), nt=n, tol=0.5, scale=(0.1, 0.7))) for n in (2,)]
    if T:
        for w in ("py", "c"):
            c += [("%s3b" % w, inv, dict(which=w, n=3, kind="angle2", pattern="sss"), 4), ("%s3bz" % w, inv, dict(which=w, n=3, kind="angle2", pattern="s0s"), 4), ("%s4s" % w, inv, dict(which=w, n=4, kind="mixed", pattern="ssss"), 4),
                  ("%s4p" % w, inv, dict(which=w, n=4, kind="perm", pattern="ssss"), 4)]
            c += [("%s3t%d" % (w, i), inv, dict(which=w, n=3, kind="mixed", pattern="sss", tol=t)) for i, t in enumerate((1e-3, 0.01, 0.1, 0.9))]
        c += [("f%d%d" % (f, n), field, dict(flat=bool(f), nt=3, tol=0.01, scale=((0.12, 0.9), (0.02, 0.09))[n]), 3) for f in (0, 1) for n in (0, 1)]
    return c
