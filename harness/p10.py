"""P10: coefficients of the curved-sky covariance come from the right products of masks."""
import numpy as np
from . import curved, p09, wsp
from .p04 import flatmap

NOTE = "every value of the symbolic mask pixels and mask-product spectra within the bounds; spherical harmonic transforms are exact linear maps computed from the geometry"
BOUNDS = {"quick": "mask-product spectra symbolic, lmax 3..5, lmax_mask below, equal and above; four different masks with up to 3 symbolic pixels each (nside 2 and 3x4-pixel CAR), n_iter_mask 0 and 1",
          "thorough": "lmax 6; more symbolic pixels"}
ASSUMPTIONS = ["transforms of ducc0/healpy are the linear maps of their definition"]


def observe(h, cw, lmax, lmask, p1, p2, only0=False, tol=1e-9):
    """compare all coefficients, through the coupled covariance"""
    for sp in ((0, 0, 0, 0), (0, 2, 0, 2), (2, 0, 0, 2), (2, 2, 2, 2)):
        if only0 and any(sp):
            continue
        w = {s: p09.work(h, s[0], s[1], lmax)[0] for s in {sp[:2], sp[2:]}}
        X1, X2 = p09.xis(lmax, lmask, p1), p09.xis(lmax, lmask, p2)
        rng = np.random.RandomState(3)
        a, b, c, d = sp
        full = {}
        for k, x, y in (("ac", a, c), ("ad", a, d), ("bc", b, c), ("bd", b, d)):
            full[k] = np.round(0.2 + rng.rand(p09.nm(x) * p09.nm(y), lmax + 1), 2)
        for on in (("ac", "bd"), ("ad", "bc")):
            cl = {k: v if k in on else 0 * v for k, v in full.items()}
            C = p09.gc(h, cw, sp, cl, w[sp[:2]], w[sp[2:]], coupled=True)
            R = p09.wick(sp, cl, X1, X2, lmax)
            na, nb = p09.nm(a) * p09.nm(b), p09.nm(c) * p09.nm(d)
            for (l, i, k, j), v in R.items():
                h.close("coefficients", C[na * l + i][nb * k + j], v, tol)


def direct(h, lmax, lmask):
    p1, p2 = h.reals("p", lmask + 1), h.reals("q", lmask + 1)
    observe(h, p09.cwsp(h, p1, p2, lmax, lmask), lmax, lmask, p1, p2)
    observe(h, p09.cwsp(h, p1, p2, lmax, lmask, True), lmax, lmask, p1, p2, True)


def mkfields(h, kind, lmax, lmask, nsym, spins, n_iter, masked=False, nf=4):
    wcs, sh = curved.geom(h, kind)
    n = int(np.prod(sh))
    r = []
    for i in range(nf):
        sy = [(3 * i + 5 + (n // 2) * k) % n for k in range(nsym)]
        m = curved.mask(h, "m%d" % i, sh, sy, seed=i + 1, zeros=i % 2 == 0)
        f = h.nmt.NmtField(m, None, spin=spins[i], lmax=lmax, lmax_mask=lmask, n_iter_mask=n_iter, wcs=wcs)
        r.append((f, flatmap(m, kind)))
    return r


def products(h, F, lmask, n_iter):
    """spectra of the two pairings of products"""
    ai = h.nmt.utils.NmtAlmInfo(lmask)
    (a1, m1), (a2, m2), (b1, n1), (b2, n2) = F

    def alm(x, y):
        x, y = list(x), list(y)
        return h.nmt.utils.map2alm(h.array([[u * v for u, v in zip(x, y)]]), 0, a1.minfo, ai, n_iter=n_iter)[0]
    return curved.cross(alm(m1, n1), alm(m2, n2), lmask), curved.cross(alm(m1, n2), alm(m2, n1), lmask)


def fields(h, kind="hp2", lmax=3, lmask=4, nsym=1, spins=(0, 0, 0, 0), n_iter=0, form="abcd", only0=False, again=False):
    nf = len(set(form))
    G = mkfields(h, kind, lmax, lmask, nsym, spins, n_iter, nf=nf)
    F = [G[sorted(set(form)).index(ch)] for ch in form]
    f = [x[0] for x in F]
    kw = dict(spin0_only=True) if only0 else {}
    if form[:2] == form[2:]:
        args, opt = f[:2], {}
    else:
        args, opt = f[:2], dict(flb1=f[2], flb2=f[3])
    if again:
        # a workspace computed before for something else
        cw = h.nmt.NmtCovarianceWorkspace.from_fields(f[3], f[2], spin0_only=not only0)
        cw.compute_coupling_coefficients(*args, **opt, **kw)
    else:
        cw = h.nmt.NmtCovarianceWorkspace.from_fields(*args, **opt, **kw)
    p1, p2 = products(h, F, lmask, n_iter)
    observe(h, cw, lmax, lmask, p1, p2, only0, 1e-8)


def refused(h):
    one = np.ones(48)
    f = h.nmt.NmtField(one, None, spin=0, lmax=3, lmax_mask=4)
    g = h.nmt.NmtField(one, None, spin=0, lmax=4, lmax_mask=4)
    gm = h.nmt.NmtField(one, None, spin=2, lmax=3, lmax_mask=3)
    an = h.nmt.NmtField(one, None, spin=2, lmax=3, lmax_mask=4, mask_22=np.ones(48), mask_12=np.zeros(48))
    wcs, sh = curved.geom(h, "carfull")
    car = h.nmt.NmtField(np.ones(sh), None, spin=0, lmax=3, lmax_mask=4, wcs=wcs)
    C = h.nmt.NmtCovarianceWorkspace.from_fields
    for nme, o, exc in (("lmax", g, None), ("lmax_mask", gm, None), ("pixelization", car, None), ("anisotropic", an, None)):
        for i in range(4):
            a = [f] * 4
            a[i] = o
            h.raises("%s %d" % (nme, i), C, *a)
    x = h.real("x", 0.1, 1.)
    F = h.nmt.NmtField(h.array([x] * 48), None, spin=0, lmax=3, lmax_mask=4)
    cw = C(F, F)
    w = h.nmt.NmtCovarianceWorkspace()
    h.raises("write", w.write_to, "nothing.fits")
    one1 = np.ones((1, 4))
    wk = p09.work(h, 0, 0, 3)[0]
    r = p09.gc(h, cw, (0, 0, 0, 0), dict.fromkeys(("ac", "ad", "bc", "bd"), one1), wk, coupled=True)
    p = products(h, [(F, [x] * 48)] * 4, 4, F.n_iter_mask)[0]
    h.close("usable", r[0][0], p[0] * (2 / (4 * np.pi)), 1e-8)


def cases(tier):
    T = tier != "quick"
    c = []
    for lmax, lmask in ((3, 2), (3, 3), (3, 5), (4, 4), (4, 8), (5, 3)):
        c.append(("direct_%d_%d" % (lmax, lmask), direct, dict(lmax=lmax, lmask=lmask), 3))
    i = 0
    for kind in ("hp2", "car", "carflip"):
        for form in ("abcd", "abab", "aabb", "abac", "abba"):
            if kind != "hp2" and form in ("aabb", "abac"):
                continue
            sp = ((0, 0, 0, 0), (0, 2, 0, 2), (2, 2, 2, 2), (1, 0, 2, 0))[i % 4]
            i += 1
            c.append(("fields_%s_%s" % (kind, form), fields, dict(kind=kind, form=form, spins=sp, lmask=4 + i % 2), 5))
    c.append(("iter", fields, dict(form="abcd", n_iter=1), 5))
    c.append(("iter3", fields, dict(form="abac", n_iter=3, kind="carfull"), 5))
    c.append(("short", fields, dict(form="abcd", lmask=2), 5))
    c.append(("only0", fields, dict(form="abcd", only0=True), 5))
    c.append(("again", fields, dict(form="abcd", again=True), 5))
    c.append(("again0", fields, dict(form="abca", again=True, only0=True), 5))
    c.append(("two", fields, dict(form="abab", nsym=2, lmax=3, lmask=3), 8))
    c.append(("refused", refused, {}, 2))
    if T:
        for lmax, lmask in ((6, 4), (6, 6), (6, 12)):
            c.append(("T_direct_%d_%d" % (lmax, lmask), direct, dict(lmax=lmax, lmask=lmask), 9))
        for form in ("abcd", "abac", "abcb", "abca", "aaaa", "aabc"):
            for kind in ("hp2", "carfull"):
                c.append(("T_fields_%s_%s" % (kind, form), fields, dict(kind=kind, form=form, nsym=2, lmax=4, lmask=5), 12))
    return c
