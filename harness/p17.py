"""P17: apodization tapers only near masked pixels, by the documented profile."""
import math
import numpy as np
from . import flat, hpx

NOTE = "every value, negative, zero or positive, of the symbolic mask pixels, and every symbolic scale within the bounds; the other pixels, sizes and scales as enumerated"
BOUNDS = {"quick": "sphere: nside 1, 2 and 4, up to 6 pixels that may be masked (zero; in separate cases any value in [-1,0]) or take any value in (0,1], scales of 12 to 100 degrees; flat: up to 5x7 non-square pixels, up to 6 such pixels, "
                   "any scale between given bounds (up to larger than the patch); C1, C2, Smooth",
          "thorough": "8 such pixels, more scales, nside 4 throughout"}
CTX = {"eager_int": 64}
ASSUMPTIONS = ["symbolic scales differ from all pixel separations by 1e-9 rad (the profiles are continuous there)"]


def profile(h, typ, x):
    return x - h.sin(x * (2 * math.pi)) / (2 * math.pi) if typ == "C1" else 0.5 * (1 - h.cos(x * math.pi))


def base(n, seed, frac):
    r = np.random.RandomState(seed)
    v = np.round(0.2 + 0.8 * r.rand(n), 3)
    v[r.permutation(n)[:int(round(frac * n))]] = 0.
    return [float(x) for x in v]


def mask(h, n, sym, seed, frac, neg=False):
    v = base(n, seed, frac)
    for i in sym:
        v[i] = h.real("w%d" % i, -1.0 if neg else 0.0, 1.0)
    return v


def sphere(h, nside, typ, scale, sym, seed=1, frac=0.1, neg=False):
    n = 12 * nside ** 2
    w = mask(h, n, sym, seed, frac, neg)
    arr = h.array(w)
    out = h.nmt.mask_apodization(arr, scale, apotype=typ)
    h.close("input kept", list(arr), w)
    h.true("shape", out.shape == (n,))
    v = hpx.vecs(nside)
    th = 1 - math.cos(math.radians(scale))
    zero = [i for i in range(n) if w[i] <= 0]
    zs = set(zero)
    for i in range(n):
        if i in zs:
            h.close("masked", out[i], w[i] if neg else 0.0, 0)
            continue
        d = min([1 - hpx.dot(v[i], v[j]) for j in zero] + [10.])
        f = 1.0
        if d < th:
            f = profile(h, typ, math.sqrt(d / th))
        h.close("pixel %d" % i, out[i], w[i] * f, 1e-9)


def smooth(h, nside, scale, sym, seed=1, frac=0.03, neg=False):
    n = 12 * nside ** 2
    w = mask(h, n, sym, seed, frac, neg)
    arr = h.array(w)
    st = h.nmt.utils.lib.apomask(arr, n, scale, "Smooth")
    v = hpx.vecs(nside)
    r = math.radians(2.5 * scale)
    far = r + 1.7 / nside
    zero = [i for i in range(n) if w[i] <= 0]
    b = []
    for i in range(n):
        d = [math.acos(max(-1., min(1., hpx.dot(v[i], v[j])))) for j in zero]
        dm = min(d + [10.])
        if dm <= r:
            h.close("within 2.5 scales", st[i], 0.0, 0)
        elif dm > far:
            h.close("beyond the disc", st[i], w[i], 0)
        else:
            # pixels the discs may touch: kept or masked
            h.true("kept or masked", (st[i] == 0.0) | (st[i] == w[i]) if h.sym and not isinstance(st[i] == 0.0, bool) else bool(st[i] == 0.0 or st[i] == w[i]))
        b.append(st[i])
    out = h.nmt.mask_apodization(arr, scale, apotype="Smooth")
    h.close("input kept", list(arr), w)
    U = h.nmt.utils
    mi = U.NmtMapInfo(None, (n,))
    lmax = 3 * nside - 1
    ai = U.NmtAlmInfo(lmax)
    alm = U.map2alm(h.array([b]), 0, mi, ai, n_iter=3)[0]
    s2 = math.radians(scale) ** 2
    res, k = [], 0
    for m in range(lmax + 1):
        for l in range(m, lmax + 1):
            res.append(alm[k] * math.exp(-0.5 * l * (l + 1) * s2))
            k += 1
    sm = U.alm2map(h.array([res]), 0, mi, ai)[0]
    for i in range(n):
        h.close("smoothed %d" % i, out[i], w[i] * sm[i], 1e-6)


def flatmask(h, g, sym, seed, frac, neg=False):
    v = mask(h, g.npix, sym, seed, frac, neg)
    return [v[y * g.nx:(y + 1) * g.nx] for y in range(g.ny)]


def flatcx(h, nx, ny, typ, sym, lo, hi, seed=1, frac=0.1, lx=0.3, ly=0.5, neg=False):
    """any scale in [lo,hi] degrees"""
    g = flat.Geo(nx, ny, lx, ly)
    w = flatmask(h, g, sym, seed, frac, neg)
    a = h.real("scale", lo, hi)
    arr = h.array(w)
    out = h.nmt.mask_apodization_flat(arr, g.lx, g.ly, a, apotype=typ)
    h.close("input kept", arr, w)
    h.true("shape", out.shape == (ny, nx))
    ap = a * (math.pi / 180)
    dx, dy = lx / nx, ly / ny
    for d in sorted(set(math.hypot(y * dy, x * dx) for x in range(nx) for y in range(ny))):
        # the profile is continuous; both sides of each threshold
        if not (ap < d - 1e-9):
            h.assume(ap > d + 1e-9)
    zero = [(y, x) for y in range(ny) for x in range(nx) if w[y][x] <= 0]
    for y in range(ny):
        for x in range(nx):
            if (y, x) in zero:
                h.close("masked", out[y, x], w[y][x] if neg else 0.0, 0)
                continue
            d = min([math.hypot((y - p) * dy, (x - q) * dx) for p, q in zero] + [1e4])
            f = 1.0
            if d < ap:
                f = profile(h, typ, d / ap)
            h.close("pixel %d %d" % (y, x), out[y, x], w[y][x] * f, 1e-9)


def flatsmooth(h, nx, ny, sym, scale, seed=1, frac=0.05, lx=0.3, ly=0.5, neg=False):
    g = flat.Geo(nx, ny, lx, ly)
    w = flatmask(h, g, sym, seed, frac, neg)
    arr = h.array(w)
    out = h.nmt.mask_apodization_flat(arr, g.lx, g.ly, scale, apotype="Smooth")
    h.close("input kept", arr, w)
    s = math.radians(scale)
    dx, dy = lx / nx, ly / ny
    zero = [(y, x) for y in range(ny) for x in range(nx) if w[y][x] <= 0]
    b = [[0.0 if any(math.hypot((y - p) * dy, (x - q) * dx) <= 2.5 * s for p, q in zero) else w[y][x] for x in range(nx)] for y in range(ny)]
    a = flat.dft(g, b)
    half = {k: (r * math.exp(-0.5 * (g.k(*k) * s) ** 2), i * math.exp(-0.5 * (g.k(*k) * s) ** 2)) for k, (r, i) in a.items()}
    sm = flat.idft(g, half)
    for y in range(ny):
        for x in range(nx):
            h.close("smoothed %d %d" % (y, x), out[y, x], w[y][x] * sm[y][x], 1e-3)


def trivial(h):
    """scale 0, refusals"""
    w = h.array([h.real("w%d" % i, 0., 1.) for i in range(12)])
    for t in ("C1", "C2"):
        h.close("zero scale", h.nmt.mask_apodization(w, 0., apotype=t), list(w), 0)
    f = h.array([[w[3 * i + j] for j in range(3)] for i in range(4)])
    for t in ("C1", "C2", "Smooth"):
        h.close("zero scale", h.nmt.mask_apodization_flat(f, 1., 1., 0., apotype=t), f, 0)
        h.raises("negative scale", h.nmt.mask_apodization, w, -1., apotype=t)
        h.raises("negative scale", h.nmt.mask_apodization_flat, f, 1., 1., -1., apotype=t)
    for t in ("C3", "c1", "smooth", "C", "C12", "", "none"):
        h.raises("unknown type", h.nmt.mask_apodization, w, 60., apotype=t)
        h.raises("unknown type", h.nmt.mask_apodization_flat, f, 1., 1., 10., apotype=t)
    h.raises("not 2D", h.nmt.mask_apodization_flat, w, 1., 1., 10., apotype="C1")
    h.raises("tiny scale", h.nmt.mask_apodization, w, 0.01, apotype="C1")
    h.raises("tiny scale", h.nmt.mask_apodization, w, 0.01, apotype="Smooth")


def cases(tier):
    T = tier != "quick"
    c = []
    for t in ("C1", "C2"):
        c += [("s1_60_" + t, sphere, dict(nside=1, typ=t, scale=60., sym=(0, 3, 5, 8, 10), frac=0.)), ("s1_90_" + t, sphere, dict(nside=1, typ=t, scale=90., sym=(1, 4, 7, 9), frac=0.1)),
              ("s1_100_" + t, sphere, dict(nside=1, typ=t, scale=100., sym=(2, 6, 11), frac=0.)), ("s2_30_" + t, sphere, dict(nside=2, typ=t, scale=33., sym=(0, 2, 5, 17, 30), frac=0.)),
              ("s2_45_" + t, sphere, dict(nside=2, typ=t, scale=45., sym=(1, 11, 23, 40, 47), frac=0.05)), ("s2_75_" + t, sphere, dict(nside=2, typ=t, scale=75., sym=(3, 20, 45), frac=0.)),
              ("s4_22_" + t, sphere, dict(nside=4, typ=t, scale=22., sym=(0, 5, 33, 100), frac=0.1), 2), ("s4_40_" + t, sphere, dict(nside=4, typ=t, scale=40., sym=(2, 60), frac=0.01), 2)]
        for i, (lo, hi) in enumerate(((1., 4.), (4., 9.), (8., 20.), (20., 50.))):
            c += [("f34_%d_%s" % (i, t), flatcx, dict(nx=3, ny=4, typ=t, sym=(1, 6, 11), lo=lo, hi=hi, frac=0.), 2), ("f53_%d_%s" % (i, t), flatcx, dict(nx=5, ny=3, typ=t, sym=(7, 9), lo=lo, hi=hi, frac=0.1, seed=2), 2)]
        c += [("f57_" + t, flatcx, dict(nx=5, ny=7, typ=t, sym=(0, 12, 24, 34), lo=10., hi=10., frac=0.05)), ("f77_" + t, flatcx, dict(nx=7, ny=7, typ=t, sym=(24,), lo=2., hi=6., frac=0.0), 2),
              ("fall_" + t, flatcx, dict(nx=3, ny=3, typ=t, sym=tuple(range(9)), lo=7., hi=7., frac=0.), 3), ("fpt_" + t, flatcx, dict(nx=4, ny=3, typ=t, sym=(5,), lo=3., hi=40., frac=0., lx=0.8, ly=0.2), 2)]
    c += [("sm2", smooth, dict(nside=2, scale=14., sym=(0, 2, 20, 45), frac=0.)), ("sm2b", smooth, dict(nside=2, scale=20., sym=(5, 13), frac=0.03)),
          ("sm4", smooth, dict(nside=4, scale=9., sym=(0, 77), frac=0.01), 3)]
    for i, s in enumerate((1.5, 3., 5., 9.)):
        c += [("fs33_%d" % i, flatsmooth, dict(nx=3, ny=3, sym=(0, 4, 5), scale=s, frac=0.)), ("fs45_%d" % i, flatsmooth, dict(nx=4, ny=5, sym=(2, 9), scale=s)), ("fs53_%d" % i, flatsmooth, dict(nx=5, ny=3, sym=(2, 9), scale=s, lx=0.6, ly=0.15))]
    c += [("fs55", flatsmooth, dict(nx=5, ny=5, sym=(12, 20), scale=2.7, frac=0.)), ("fs77", flatsmooth, dict(nx=7, ny=7, sym=(24,), scale=1.3, frac=0.)), ("trivial", trivial, {})]
    for t in ("C1", "C2"):
        c += [("neg_s2_" + t, sphere, dict(nside=2, typ=t, scale=45., sym=(1, 11, 23, 40), frac=0.03, neg=True)), ("neg_f34_" + t, flatcx, dict(nx=3, ny=4, typ=t, sym=(1, 6, 11), lo=9., hi=9., frac=0.1, neg=True))]
    c += [("neg_sm2", smooth, dict(nside=2, scale=14., sym=(0, 2, 20), frac=0., neg=True)), ("neg_fs45", flatsmooth, dict(nx=4, ny=5, sym=(2, 9), scale=3., neg=True))]
    if T:
        for t in ("C1", "C2"):
            c += [("S2_%d_%s" % (s, t), sphere, dict(nside=2, typ=t, scale=float(s), sym=(0, 2, 3, 5, 17, 30, 44, 46), frac=0.), 6) for s in (35, 50, 62, 100)]
            c += [("S4_%d_%s" % (s, t), sphere, dict(nside=4, typ=t, scale=float(s), sym=(0, 1, 60, 150, 191), frac=0.), 6) for s in (20, 25, 55, 80)]
            c += [("F44_%s" % t, flatcx, dict(nx=4, ny=4, typ=t, sym=(0, 5, 10, 12), lo=2., hi=30., frac=0.), 9), ("F75_%s" % t, flatcx, dict(nx=7, ny=5, typ=t, sym=(0, 17), lo=2., hi=30., frac=0.), 9)]
        c += [("SM4_%d" % s, smooth, dict(nside=4, scale=float(s), sym=(0, 77, 150), frac=0.01), 6) for s in (10, 12, 15)]
    return c
