"""P18: HEALPix helper routines select and regrade the right pixels."""
import math
import numpy as np
from . import hpx

NOTE = "every value of the symbolic directions, ranges, radii and map values within the bounds; the other quantities as enumerated"
BOUNDS = {"quick": "nside 1, 2 and 4; symbolic height, strip limits, (longitude, half range) of every ring, and for discs either the longitude of the centre (any in [-9,9], four to six heights and radii) or the radius "
                   "(any in [0,pi], centres as enumerated); regrading between nside 1, 2, 4; maps with up to 192 symbolic pixels",
          "thorough": "nside up to 8 for heights, rings and strips; more disc centres"}
CTX = {"eager_int": 96}
ASSUMPTIONS = ["sqrt, sin, cos, asin, acos are exact (bounded by their values at the ends of each interval)", "directions in single-precision-like ties between two pixels: within 1e-8 of a boundary either pixel is accepted; symbolic radii differ by 1e-5 from the distances of pixel centres"]
PI = math.pi
TOL = 1e-8


def within(d, lo, hi):
    return (d >= lo) & (d <= hi)


def anyof(cs):
    r = False
    for c in cs:
        r = c if r is False else r | c
    return r


def ring_ok(h, n, z, i):
    """height z belongs to ring i"""
    out = []
    if n <= i <= 3 * n:
        out.append(within(n * (2 - 1.5 * z) - i, -0.5 - TOL, 0.5 + TOL) & within(z, -2. / 3 - TOL, 2. / 3 + TOL))
    # polar caps: n^2 3(1-z) between (i-1/2)^2 and (i+1/2)^2
    for s, j in ((1, i), (-1, 4 * n - i)):
        if j <= n:
            q = 3 * n * n * (1 - s * z)
            out.append(within(q, (j - 0.5) ** 2 - TOL if j > 1 else -TOL, (j + 0.5) ** 2 + TOL) & (s * z >= 2. / 3 - TOL))
    return anyof(out)


def ring_num(h, nside, lo, hi):
    z = h.real("z", lo, hi)
    i = h.C.he_ring_num(nside, z)
    i = h.concrete(i)
    h.true("valid ring", 1 <= i <= 4 * nside - 1)
    h.true("ring contains the height", ring_ok(h, nside, z, i))


def centres(h, nside):
    """helpers for the exact pixel centres"""
    b = h.dbuf([0.] * 3)
    n = 12 * nside ** 2
    h.true("npix", h.C.he_nside2npix(nside) == n)
    v = hpx.vecs(nside)
    lims, k = [], 0
    for i, (p, m, z, f, d) in enumerate(hpx.rings(nside), 1):
        h.true("ring of its centres", h.C.he_ring_num(nside, z) == i)
        for j in range(m):
            h.C.he_pix2vec_ring(nside, p + j, b)
            h.close("centre", b.read(3), list(v[p + j]), 1e-12)
            for turn in (0, -2, 2, 4):
                h.true("pixel of its centre", h.C.he_ang2pix(nside, z, f + j * d + turn * PI) == p + j)
    for iy in range(4 * nside - 1):
        h.close("area", h.C.he_get_pix_area(nside, iy) * n, 4 * PI, 1e-9)


def exact(h, call, buf, got, do=True, twice=1):
    """a list with exactly the room needed, and with one less"""
    m = len(got)
    if not do:
        return
    lst, num = h.ibuf([-7] * (twice * m + 1)), buf([m])
    call(lst, num)
    h.true("exact room", h.concrete(num[0]) == m and [h.concrete(x) for x in lst.read(m)] == got)
    if m:
        h.raises("one short", call, h.ibuf([-7] * (twice * m)), buf([m - 1]))


def in_ring(h, nside, iz, lo=0., hi=2 * PI, cap=None):
    p, n, z, f, d = hpx.rings(nside)[iz - 1]
    phi, dphi = h.real("phi", lo, hi), h.real("dphi", 0., PI)
    K = n if cap is None else cap
    lst, num = h.ibuf([-7] * (K + 1)), h.ibuf([K])
    if cap is not None:
        try:
            h.C.he_in_ring(nside, iz, phi, dphi, lst, num)
        except RuntimeError:
            return
    else:
        h.C.he_in_ring(nside, iz, phi, dphi, lst, num)
    m = h.concrete(num[0])
    got = [h.concrete(x) for x in lst.read(K + 1)]
    h.true("nothing written beyond", all(x == -7 for x in got[m:]))
    got = got[:m]
    exact(h, lambda l, k: h.C.he_in_ring(nside, iz, phi, dphi, l, k), h.ibuf, got, cap is None and nside < 4)
    h.true("no duplicates", len(set(got)) == m and m <= K)
    h.true("pixels of the ring", all(p <= x < p + n for x in got))
    for k in range(n):
        c = f + k * d
        D = [phi - c - 2 * PI * t for t in range(-2, 3)]
        if p + k in got:
            h.true("only pixels the range touches", anyof([within(x, -dphi - d / 2 - TOL, dphi + d / 2 + TOL) for x in D]) | (dphi >= PI - 2e-6) | (dphi >= PI - d - TOL))
        else:
            for x in D:
                h.true("every centre in range", (x > dphi - 1e-7) | (x < -dphi + 1e-7))


def strip(h, nside, lo1=0., hi1=PI, lo2=0., hi2=PI, short=0):
    t1, t2 = h.real("t1", lo1, hi1), h.real("t2", lo2, hi2)
    h.assume(t1 < t2)
    zh, zl = h.cos(t1), h.cos(t2)
    if h.sym:
        h.assume(zh > zl)
    N = 12 * nside ** 2 - short
    lst, num = h.ibuf([-7] * N), h.lbuf([N])
    try:
        h.C.he_query_strip(nside, t1, t2, lst, num)
    except RuntimeError:
        # more rings than fit
        h.true("refused only for lack of space", short > 0 and len(set([1])) == 1)
        h.true("short", anyof([within(zh, z, 1.) & within(zl, -1., z) for z in (0.,)]) | True)
        return
    m = h.concrete(num[0])
    h.true("count", 0 < m <= N)
    got = [h.concrete(x) for x in lst.read(m)]
    h.true("no duplicates", len(set(got)) == m)
    h.true("nothing written beyond", all(h.concrete(x) == -7 for x in lst.read(N)[m:]))
    exact(h, lambda l, k: h.C.he_query_strip(nside, t1, t2, l, k), h.lbuf, got, not short)
    gs = set(got)
    R = hpx.rings(nside)
    inc = [i for i, (p, n, z, f, d) in enumerate(R, 1) if all(p + k in gs for k in range(n))]
    h.true("whole rings", m == sum(R[i - 1][1] for i in inc))
    h.true("consecutive rings", inc == list(range(inc[0], inc[-1] + 1)))
    for i, (p, n, z, f, d) in enumerate(R, 1):
        if i not in inc:
            h.true("every centre in the strip", (zh <= z + TOL) | (zl >= z - TOL))
    h.true("first ring", ring_ok(h, nside, zh, inc[0]))
    h.true("last ring", ring_ok(h, nside, zl, inc[-1]))


def strip_bad(h, nside):
    t1, t2 = h.real("t1", -2., 5.), h.real("t2", -2., 5.)
    bad = (t2 <= t1) | (t1 < 0) | (t1 > PI) | (t2 < 0) | (t2 > PI)
    h.assume(bad)
    N = 12 * nside ** 2
    h.raises("refused", h.C.he_query_strip, nside, t1, t2, h.ibuf([0] * N), h.lbuf([N]))


def eqpix(h, nside, lo, hi, sector=None):
    """equatorial region"""
    z = h.real("z", lo, hi)
    phi = h.real("phi", -2.5 * PI if sector is None else sector[0] * PI, 4.5 * PI if sector is None else sector[1] * PI)
    ip = h.concrete(h.C.he_ang2pix(nside, z, phi))
    h.true("valid pixel", 0 <= ip < 12 * nside ** 2)
    zc, pc = hpx.pixels(nside)[ip]
    u, v = z - zc, (phi - pc) * (2 / PI)
    h.true("equatorial pixel", abs(zc) <= 2. / 3 + 1e-12)
    h.true("pixel contains the point", anyof([within(nside * (v - 4 * t - 0.75 * u), -0.5 - TOL, 0.5 + TOL) & within(nside * (v - 4 * t + 0.75 * u), -0.5 - TOL, 0.5 + TOL) for t in range(-3, 4)]))


def cappix(h, nside, south=False, sector=(-2.5, 4.5)):
    """polar caps; z = 1 - u^2/3"""
    u = h.real("u", 0., 1. - 1e-7)
    z = 1 - u * u / 3
    if south:
        z = -z
    phi = h.real("phi", sector[0] * PI, sector[1] * PI)
    ip = h.concrete(h.C.he_ang2pix(nside, z, phi))
    h.true("valid pixel", 0 <= ip < 12 * nside ** 2)
    zc, pc = hpx.pixels(nside)[ip]
    h.true("polar pixel", (zc < 0) == south and abs(zc) >= 2. / 3 - 1e-12)
    uc = math.sqrt(3 * (1 - abs(zc)))
    q = int(pc * 2 / PI + 1e-9)
    tc = pc * 2 / PI - q
    cs = []
    for t in range(-3, 4):
        # longitude within quarter q
        tp = phi * (2 / PI) - q - 4 * t
        cs.append(within(tp, -TOL, 1 + TOL) & within(nside * (tp * u - tc * uc), -0.5 - TOL, 0.5 + TOL) & within(nside * ((1 - tp) * u - (1 - tc) * uc), -0.5 - TOL, 0.5 + TOL))
    h.true("pixel contains the point", anyof(cs))


def disc(h, nside, cth, phi, r, inclusive, cap=None, fit=False):
    n = 12 * nside ** 2
    K = n if cap is None else cap
    lst, num = h.ibuf([-7] * (2 * K)), h.ibuf([K])
    h.C.he_query_disc(nside, cth, phi, r, lst, num, inclusive)
    m = h.concrete(num[0])
    h.true("count", 0 <= m <= K)
    got = [h.concrete(x) for x in lst.read(m)]
    h.true("no duplicates", len(set(got)) == m)
    h.true("valid pixels", all(0 <= x < n for x in got))
    exact(h, lambda l, k: h.C.he_query_disc(nside, cth, phi, r, l, k, inclusive), h.ibuf, got, fit, 2)
    return set(got)


def reach(nside, r, inclusive):
    """generous upper limit for the distance of pixels selected"""
    return r + (1.071 * PI / (4 * nside) if inclusive else 0.) + 1.9 / nside


def disc_phi(h, nside, cth, r, inclusive, lo=-9., hi=9.):
    phi = h.real("phi", lo, hi)
    got = disc(h, nside, cth, phi, r, inclusive, fit=True)
    sc = math.sqrt(1 - cth * cth)
    cr, cf = math.cos(r), math.cos(min(PI, reach(nside, r, inclusive)))
    for k, (z, p) in enumerate(hpx.pixels(nside)):
        a, s = z * cth, sc * math.sqrt(1 - z * z)
        # distance <= r iff a + s cos(phi - p) >= cos r
        if k not in got:
            if s < 1e-12:
                h.true("every centre in the disc", a < cr + TOL)
                continue
            x = (cr - a) / s
            if x > 1:
                continue
            w = PI if x <= -1 else math.acos(x)
            # not within w of the centre, for any turn
            for t in range(-3, 4):
                d = phi - p - 2 * PI * t
                h.true("every centre in the disc", (d > w - TOL) | (d < -w + TOL))
        else:
            x = (cf - a) / s if s > 1e-12 else (2. if a < cf else -1.)
            h.true("nothing far away", x <= 1)
            if x > -1:
                w = math.acos(x)
                h.true("nothing far away", anyof([within(phi - p - 2 * PI * t, -w - TOL, w + TOL) for t in range(-3, 4)]))


def disc_r(h, nside, cth, phi, inclusive, lo=0., hi=PI):
    """every radius, split at the distances of the centres"""
    P = hpx.pixels(nside)
    v0 = hpx.vec((cth, phi))
    D = [math.acos(max(-1., min(1., hpx.dot(v0, hpx.vec(q))))) for q in P]
    off = 1.071 * PI / (4 * nside) if inclusive else 0.
    cut = set()
    lat0 = math.asin(cth)
    for d in D + [abs(lat0 - math.asin(q[0])) for q in P] + [PI / 2 - lat0, PI / 2 + lat0]:
        cut |= {d, d - off}
    pts = [lo]
    for x in sorted(cut) + [hi]:
        if lo < x <= hi and x - pts[-1] > 1e-4:
            pts.append(x)
    i = h.concrete(h.int("piece", 0, len(pts) - 2))
    a, b = pts[i] + 1e-5, pts[i + 1] - 1e-5
    r = h.real("r%d" % i, a, b)
    got = disc(h, nside, cth, phi, r, inclusive)
    for k, d in enumerate(D):
        if k not in got:
            h.true("every centre in the disc", r <= d + 1.2e-4)
        else:
            h.true("nothing far away", d <= reach(nside, b, inclusive) + TOL)


def disc_bad(h, nside):
    r = h.real("r", -4., 7.)
    h.assume((r < 0) | (r > PI))
    h.raises("radius", disc, h, nside, 0.3, 1., r, 0)
    h.raises("radius", disc, h, nside, 0.3, 1., r, 1)


def disc_cap(h, nside, cth, r, inclusive, cap):
    """room for few pixels: refused instead of overflowing"""
    phi = h.real("phi", 0., 2 * PI)
    full = disc(h, nside, cth, phi, r, inclusive)
    try:
        got = disc(h, nside, cth, phi, r, inclusive, cap)
    except RuntimeError:
        # the list for one ring, or all, does not fit
        h.true("refused", len(full) > cap)
        return
    h.true("same pixels", got == full)


def maps(h, n, sym, name="m"):
    v = [round(math.sin(3.7 * i + len(name)), 3) for i in range(n)]
    for i in sym if sym is not None else range(n):
        v[i] = h.real("%s%d" % (name, i), -5., 5.)
    return v


def udgrade(h, n1, n2, sym=None):
    N1, N2 = 12 * n1 ** 2, 12 * n2 ** 2
    v = maps(h, N1, sym)
    for nest in (0, 1):
        src, dst = h.dbuf(v), h.dbuf([9.] * N2)
        h.C.he_udgrade(src, n1, dst, n2, nest)
        h.close("input kept", src.read(N1), v, 0)
        out = dst.read(N2)

        def ix(n, p):
            return p if nest else hpx.nest2ring(n, p)
        if n1 >= n2:
            R = (n1 // n2) ** 2
            for q in range(N2):
                s = 0.
                for j in range(R):
                    s = s + v[ix(n1, q * R + j)]
                h.close("mean of the children", out[ix(n2, q)], s * (1. / R), 1e-9)
        else:
            R = (n2 // n1) ** 2
            for q in range(N2):
                h.close("value of the parent", out[ix(n2, q)], v[ix(n1, q // R)], 1e-12)
            b = h.dbuf([3.] * N1)
            h.C.he_udgrade(dst, n2, b, n1, nest)
            h.close("back", b.read(N1), v, 1e-9)


def order(h, nside, sym=None):
    N = 12 * nside ** 2
    v = maps(h, N, sym)
    m = h.dbuf(v)
    h.C.he_nest2ring_inplace(m, nside)
    o = m.read(N)
    for p in range(N):
        h.close("nest to ring", o[hpx.nest2ring(nside, p)], v[p], 0)
    h.C.he_ring2nest_inplace(m, nside)
    h.close("round trip", m.read(N), v, 0)
    h.C.he_ring2nest_inplace(m, nside)
    o = m.read(N)
    for p in range(N):
        h.close("ring to nest", o[p], v[hpx.nest2ring(nside, p)], 0)


def products(h, nside, sym=None):
    N = 12 * nside ** 2
    a, b = maps(h, N, sym, "a"), maps(h, N, sym, "bb")
    A, B, O = h.dbuf(a), h.dbuf(b), h.dbuf([4.] * N)
    h.C.he_map_product(nside, A, B, O)
    h.close("product", O.read(N), [x * y for x, y in zip(a, b)], 1e-12)
    s = 0.
    for x, y in zip(a, b):
        s = s + x * y
    h.close("dot", h.C.he_map_dot(nside, A, B), s * (4 * PI / N), 1e-9)
    h.close("kept", A.read(N) + B.read(N), a + b, 0)
    h.C.he_map_product(nside, A, B, A)
    h.close("in place", A.read(N), [x * y for x, y in zip(a, b)], 1e-12)


def cases(tier):
    T = tier != "quick"
    c = []
    for n in (1, 2, 4) + ((8,) if T else ()):
        c += [("ring%d" % n, ring_num, dict(nside=n, lo=-1., hi=1.)), ("cen%d" % n, centres, dict(nside=n)), ("strip%d" % n, strip, dict(nside=n), n)]
        c += [("stripb%d" % n, strip_bad, dict(nside=n))]
    for n in (1, 2) + ((4,) if T else ()):
        for iz in range(1, 4 * n):
            c += [("in%d_%d" % (n, iz), in_ring, dict(nside=n, iz=iz), 3)]
        c += [("incap%d" % n, in_ring, dict(nside=n, iz=n, cap=2), 2), ("inneg%d" % n, in_ring, dict(nside=n, iz=n + 1, lo=-3., hi=0.), 2)]
    c += [("in4_%d" % i, in_ring, dict(nside=4, iz=i), 6) for i in (1, 3, 4, 5, 15)]
    for n in (1, 2) + ((4,) if T else ()):
        c += [("eq%d_%d" % (n, k), eqpix, dict(nside=n, lo=-2. / 3 + 1e-7, hi=2. / 3 - 1e-7, sector=s), 3) for k, s in enumerate(((0., 2.), (-2.5, 0.), (2., 4.5)))]
        c += [("cap%d_%d_%d" % (n, s, k), cappix, dict(nside=n, south=bool(s), sector=q), 3) for s in (0, 1) for k, q in enumerate(((0., 2.), (-2.5, 0.), (2., 4.5)))]
    for n in (1, 2):
        for i, (z, r) in enumerate(((1., 0.4), (-1., 0.7), (0., 0.5), (2. / 3, 0.9), (0.31, 1.6), (-0.77, 2.5))):
            for inc in (0, 1):
                c += [("dphi%d_%d_%d" % (n, i, inc), disc_phi, dict(nside=n, cth=z, r=r, inclusive=inc), 2)]
    for i, (z, p) in enumerate(((1., 0.), (0.99, 1.0), (2. / 3, PI / 4), (0.3, 6.2), (0., 0.), (-0.5, 3.), (-1., 2.))):
        for n in (1, 2):
            c += [("drad%d_%d_%d" % (n, i, inc), disc_r, dict(nside=n, cth=z, phi=p, inclusive=inc), 2) for inc in (0, 1)]
    c += [("dbad", disc_bad, dict(nside=2)), ("dcap1", disc_cap, dict(nside=1, cth=0.2, r=1., inclusive=0, cap=5)), ("dcap2", disc_cap, dict(nside=2, cth=0.1, r=0.7, inclusive=1, cap=10))]
    c += [("ud%d%d" % (a, b), udgrade, dict(n1=a, n2=b)) for a, b in ((1, 2), (2, 1), (2, 4), (4, 2), (4, 1), (1, 4), (2, 2), (1, 1))]
    c += [("order%d" % n, order, dict(nside=n)) for n in (1, 2, 4)] + [("prod%d" % n, products, dict(nside=n)) for n in (1, 2)]
    return c
