"""Flat-sky references: full-plane Fourier coefficients, band averages, mode coupling."""
import math
import numpy as np


class Geo:
    def __init__(self, nx, ny, lx, ly):
        self.nx, self.ny, self.lx, self.ly = nx, ny, lx, ly
        self.npix = nx * ny
        self.kx = [2 * math.pi / lx * (i if 2 * i <= nx else i - nx) for i in range(nx)]
        self.ky = [2 * math.pi / ly * (i if 2 * i <= ny else i - ny) for i in range(ny)]

    def k(self, iy, ix):
        return math.sqrt(self.kx[ix] ** 2 + self.ky[iy] ** 2)

    def phi(self, iy, ix):
        return math.atan2(self.ky[iy], self.kx[ix]) if (iy or ix) else 0.0

    def modes(self):
        return [(iy, ix) for iy in range(self.ny) for ix in range(self.nx)]


def geo(kind):
    """(nx, ny, lx, ly): pixels are never square"""
    return Geo(*{"3x3": (3, 3, 0.5, 0.8), "3x5": (5, 3, 0.9, 0.4), "5x3": (3, 5, 0.4, 1.1), "4x4": (4, 4, 0.6, 0.9), "4x6": (6, 4, 0.7, 0.5),
                 "5x5": (5, 5, 0.7, 0.6), "2x3": (3, 2, 0.5, 0.4), "4x3": (3, 4, 0.5, 0.8), "3x4": (4, 3, 0.9, 0.5), "7x5": (5, 7, 0.6, 0.9), "6x6": (6, 6, 0.6, 0.9)}[kind])


def dft(g, m):
    """full plane of coefficients (re, im), continuum normalization"""
    n = g.lx * g.ly / (2 * math.pi * g.npix)
    out = {}
    for iy, ix in g.modes():
        re = im = 0.0
        for y in range(g.ny):
            for x in range(g.nx):
                p = 2 * math.pi * (((iy * y) % g.ny) / g.ny + ((ix * x) % g.nx) / g.nx)
                c, s = _snap(math.cos(p)), _snap(math.sin(p))
                v = m[y][x]
                re = re + v * (c * n)
                im = im - v * (s * n)
        out[iy, ix] = (re, im)
    return out


def idft(g, a):
    n = 2 * math.pi / (g.lx * g.ly)
    out = [[0.0] * g.nx for _ in range(g.ny)]
    for y in range(g.ny):
        for x in range(g.nx):
            t = 0.0
            for (iy, ix), (re, im) in a.items():
                p = 2 * math.pi * (((iy * y) % g.ny) / g.ny + ((ix * x) % g.nx) / g.nx)
                t = t + (re * _snap(math.cos(p)) - im * _snap(math.sin(p))) * n
            out[y][x] = t
    return out


def _snap(v):
    return 0.0 if abs(v) < 1e-14 else v


def full(g, half):
    """all modes from those with kx >= 0 (Nyquist positive)"""
    out = {}
    for iy, ix in g.modes():
        if 2 * ix <= g.nx:
            out[iy, ix] = half[iy, ix]
        else:
            r, i = half[(-iy) % g.ny, g.nx - ix]
            out[iy, ix] = (r, -1.0 * i)
    return out


def rot(g, spin, q, u, back=False):
    """E/B from Q/U coefficients: e + i b = sigma (q + i u) e^{i s phi} mode by mode, sigma = -(i)^s"""
    e, b = {}, {}
    sg = -(1j ** spin) if not back else -((-1j) ** spin)
    sr, si = round(sg.real), round(sg.imag)
    for k in q:
        p = spin * g.phi(*k)
        c, s = _snap(math.cos(p)), _snap(math.sin(p))
        if back:
            s = -s
        (qr, qi), (ur, ui) = q[k], u[k]
        er, ei = qr * c - ur * s, qi * c - ui * s
        br, bi = qr * s + ur * c, qi * s + ui * c
        e[k] = (er * sr - ei * si, ei * sr + er * si)
        b[k] = (br * sr - bi * si, bi * sr + br * si)
    return e, b


def map2alm(g, spin, maps):
    c = [dft(g, m) for m in maps]
    if spin:
        h = [{k: v for k, v in x.items() if 2 * k[1] <= g.nx} for x in c]
        c = [full(g, x) for x in rot(g, spin, *h)]
    return c


def alm2map(g, spin, alms):
    """inverse transform (coefficients of the half plane are used)"""
    c = alms
    if spin:
        h = [{k: v for k, v in x.items() if 2 * k[1] <= g.nx} for x in c]
        c = [full(g, x) for x in rot(g, spin, *h, back=True)]
    return [idft(g, x) for x in c]


def band(l0, lf, k):
    for i in range(len(l0)):
        if l0[i] <= k < lf[i]:
            return i
    return -1


def inband(g, l0, lf, cx, cy):
    """band of every mode, -1 for modes outside all bands or in the masked ranges"""
    r = {}
    for iy, ix in g.modes():
        kx, ky = g.kx[ix], g.ky[iy]
        r[iy, ix] = -1 if (cx[0] <= kx <= cx[1] or cy[0] <= ky <= cy[1]) else band(l0, lf, g.k(iy, ix))
    return r


def cross(g, a, b, l0, lf, cx=(1., -1.), cy=(1., -1.)):
    """band averages of Re(a b*)"""
    bd = inband(g, l0, lf, cx, cy)
    out, n = [0.0] * len(l0), [0] * len(l0)
    for k, i in bd.items():
        if i >= 0:
            n[i] += 1
            out[i] = out[i] + a[k][0] * b[k][0] + a[k][1] * b[k][1]
    f = 4 * math.pi ** 2 / (g.lx * g.ly)
    return [o * (f / c) if c else 0.0 for o, c in zip(out, n)]


def spectra(g, A, B, l0, lf, cx=(1., -1.), cy=(1., -1.)):
    return [cross(g, a, b, l0, lf, cx, cy) for a in A for b in B]


def interp(x, y, k):
    """linear interpolation, first value below the range, 0 from the end on"""
    if k <= x[0]:
        return y[0]
    if k >= x[-1]:
        return 0.0
    for i in range(len(x) - 1):
        if x[i] <= k < x[i + 1]:
            t = (k - x[i]) / (x[i + 1] - x[i])
            return y[i] * (1 - t) + y[i + 1] * t


def wcross(g, w1, w2):
    """Re(w1 w2*) on the full plane"""
    a, b = dft(g, w1), dft(g, w2)
    return {k: a[k][0] * b[k][0] + a[k][1] * b[k][1] for k in a}


def R(g, spin, pure, k1, k2):
    """response of the masked field's components at k1 to those at k2"""
    if spin == 0:
        return [[1.0]]
    d = spin * (g.phi(*k1) - g.phi(*k2))
    c, s = _snap(math.cos(d)), _snap(math.sin(d))
    m = [[c, -s], [s, c]]
    for i in (0, 1):
        if pure[i]:
            r = (g.k(*k2) / g.k(*k1)) ** 2 if k1 != (0, 0) else (1.0 if k2 == (0, 0) else 0.0)
            m[i] = [r if j == i else 0.0 for j in (0, 1)]
    return m


def comps(s1, s2, teb):
    if teb:
        return [(0, 0, "T", "T")] + [(0, j, "T", "P") for j in (0, 1)] + [(i, j, "P", "P") for i in (0, 1) for j in (0, 1)]
    a, b = "P" if s1 else "T", "P" if s2 else "T"
    return [(i, j, a, b) for i in range(2 if s1 else 1) for j in range(2 if s2 else 1)]


def mcm(g, w1, w2, s1, s2, p1, p2, l0, lf, out_of, cx=(1., -1.), cy=(1., -1.), teb=False, beam=None):
    """matrix from column groups (out_of: mode -> group or -1, with ngroups) to bands"""
    grp, ng = out_of
    P = wcross(g, w1, w2)
    bd = inband(g, l0, lf, cx, cy)
    nb = len(l0)
    cm = comps(s1, s2, teb)
    n = len(cm)
    M = [[0.0] * (n * ng) for _ in range(n * nb)]
    cells = [sum(1 for v in bd.values() if v == i) for i in range(nb)]
    f = 4 * math.pi ** 2 / (g.lx * g.ly) ** 2
    for k1, i1 in bd.items():
        if i1 < 0:
            continue
        for k2 in g.modes():
            i2 = grp[k2]
            if i2 < 0:
                continue
            p = P[(k1[0] - k2[0]) % g.ny, (k1[1] - k2[1]) % g.nx] * (f / cells[i1])
            if beam is not None:
                p = p * beam[k2]
            r1 = {"T": [[1.0]], "P": R(g, s2 if teb else s1, p2 if teb else p1, k1, k2)}
            r2 = {"T": [[1.0]], "P": R(g, s2, p2, k1, k2)}
            for a, (i, j, x, y) in enumerate(cm):
                for b, (k, l, z, t) in enumerate(cm):
                    if (x, y) != (z, t):
                        continue
                    c = r1[x][i][k] * r2[y][j][l]
                    if c != 0.0:
                        M[n * i1 + a][n * i2 + b] = M[n * i1 + a][n * i2 + b] + p * c
    return M, n


def rings(g):
    """rings of the unbinned matrix, as returned by get_ell_sampling"""
    dk = min(2 * math.pi / g.lx, 2 * math.pi / g.ly)
    kmax = math.hypot(2 * math.pi / g.lx * (g.nx // 2), 2 * math.pi / g.ly * (g.ny // 2))
    n = 0
    while (n + 1) * dk <= kmax:
        n += 1
    r = {}
    for m in g.modes():
        i = int(g.k(*m) * (1. / dk))
        r[m] = i if i < n else -1
    return r, n


def field(h, g, mask, maps, spin=None, **kw):
    return h.nmt.NmtFieldFlat(g.lx, g.ly, h.array(mask), None if maps is None else h.array(maps), spin=spin, **kw)


def symmap(h, g, name, sym=None, lo=-1.0, hi=1.0, seed=1, pos=False):
    """map; the pixels in sym (all if None) are symbolic"""
    rng = np.random.RandomState(seed)
    c = rng.rand(g.npix) if pos else rng.rand(g.npix) * 2 - 1
    c = np.round(c, 3)
    v = [h.real("%s_%d" % (name, i), lo, hi) if sym is None or i in sym else float(c[i]) for i in range(g.npix)]
    return [v[y * g.nx:(y + 1) * g.nx] for y in range(g.ny)]
