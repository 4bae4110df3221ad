"""Reference formulas shared by the harnesses (written from the documentation, independent of the code)."""
import math
from fractions import Fraction
from functools import lru_cache
import numpy as np

FOURPI = 4 * math.pi


@lru_cache(None)
def wig(l1, l2, l3, m1, m2, m3):
    """Wigner 3j symbol, Racah formula in exact rational arithmetic"""
    if m1 + m2 + m3 != 0 or l3 < abs(l1 - l2) or l3 > l1 + l2 or abs(m1) > l1 or abs(m2) > l2 or abs(m3) > l3:
        return 0.0
    f = math.factorial
    s = Fraction(0)
    for t in range(max(0, l2 - l3 - m1, l1 - l3 + m2), min(l1 + l2 - l3, l1 - m1, l2 + m2) + 1):
        s += Fraction((-1) ** t, f(t) * f(l3 - l2 + t + m1) * f(l3 - l1 + t - m2) * f(l1 + l2 - l3 - t) * f(l1 - t - m1) * f(l2 - t + m2))
    p = Fraction(f(l1 + l2 - l3) * f(l1 - l2 + l3) * f(-l1 + l2 + l3), f(l1 + l2 + l3 + 1))
    p *= f(l1 + m1) * f(l1 - m1) * f(l2 + m2) * f(l2 - m2) * f(l3 + m3) * f(l3 - m3)
    v = s * s * p
    r = math.sqrt(v)
    return (-1) ** (l1 - l2 - m3) * (r if s >= 0 else -r)


@lru_cache(None)
def wpure(l, lp, L):
    """3j factor of a purified spin-2 component at l, from l' and mask multipole L"""
    if l < 2:
        return 0.0
    r = wig(L, l, lp, 0, 2, -2)
    if L >= 1:
        r += 2 * math.sqrt((L + 1.0) * L / ((l + 2.0) * (l - 1.0))) * wig(L, l, lp, 1, 1, -2)
    if L >= 2:
        r += math.sqrt((L + 2.0) * (L + 1) * L * (L - 1) / ((l + 2.0) * (l + 1) * l * (l - 1))) * wig(L, l, lp, 2, 0, -2)
    return r


def amp(l, lp, L, s, pure):
    if pure:
        return wpure(l, lp, L)
    return wig(L, l, lp, 0, s, -s)


def combos(s1, s2, teb=False):
    """list of component pairs (a, b); component: (spin, parity) parity 0 for T/E, 1 for B"""
    if teb:
        T, E, B = (0, 0), (s2, 0), (s2, 1)
        return [(T, T), (T, E), (T, B), (E, E), (E, B), (B, E), (B, B)]
    A = [(s1, 0)] if s1 == 0 else [(s1, 0), (s1, 1)]
    C = [(s2, 0)] if s2 == 0 else [(s2, 0), (s2, 1)]
    return [(a, b) for a in A for b in C]


def mcm(s1, s2, lmax, lmask, pcl, pure1=(0, 0), pure2=(0, 0), teb=False, acc=None):
    """unbinned coupling matrix {(row, col): value}, row = ncls*l + component pair.

    A component of parity p at l receives parity p' at l' with a factor that is even (p==p') or odd (p!=p') in
    l+l'+L; E<-B and B<-E enter with opposite signs."""
    cb = combos(s1, s2, teb)
    n = len(cb)
    K = {}
    for l in range(lmax + 1):
        for lp in range(lmax + 1):
            for i, (a, b) in enumerate(cb):
                for j, (a2, b2) in enumerate(cb):
                    if a[0] != a2[0] or b[0] != b2[0]:
                        continue
                    # T has no B partner
                    pa, pb = a[1] != a2[1], b[1] != b2[1]
                    sg = 1.0
                    if pa and pb:
                        # (E from B) = +, (B from E) = -
                        sg = (1 if a[1] == 0 else -1) * (1 if b[1] == 0 else -1)
                    elif pa or pb:
                        continue   # cancels after summing over m
                    t = 0.0
                    for L in range(abs(l - lp), min(l + lp, lmask) + 1):
                        odd = (l + lp + L) & 1
                        if a[0] != 0 and b[0] != 0:
                            if odd != (1 if pa else 0):
                                continue
                        p1 = pure1[a[1]] if a[0] == s1 and not teb else pure2[a[1]] if teb and a[0] else 0
                        p2 = pure2[b[1]] if b[0] else 0
                        w = amp(l, lp, L, a[0], p1) * amp(l, lp, L, b[0], p2)
                        if w:
                            t = t + pcl[L] * (w * (2 * L + 1) / FOURPI)
                    t = t * ((2 * lp + 1.0) * sg * (-1) ** (a[0] + b[0]))
                    if not (isinstance(t, float) and t == 0.0):
                        K[n * l + i, n * lp + j] = t
    return K, n


def dense(K, n, nrows):
    r = [[0.0] * nrows for _ in range(nrows)]
    for (i, j), v in K.items():
        r[i][j] = v
    return r


def mcm_aniso(s1, s2, lmax, lmask, p, an1, an2):
    """coupling matrix with anisotropic weights; p: dict of the mask spectra 00, 0e, 0b, e0, b0, ee, eb, be, bb.

    One field maps (E', B') into (E, B) with weights w (even l+l'+L) and i*w (odd); for the isotropic weight
    even: E<-E, B<-B; odd: E<-B (+i), B<-E (-i); anisotropic e: even E<-E (-), B<-B (+), odd E<-B (+i), B<-E (+i);
    b: even E<-B (-), B<-E (-), odd: E<-E (-i), B<-B (+i).
    The product takes the complex conjugate of the second field."""
    C1 = [(s1, 0)] if s1 == 0 else [(s1, 0), (s1, 1)]
    C2 = [(s2, 0)] if s2 == 0 else [(s2, 0), (s2, 1)]
    n = len(C1) * len(C2)
    # field response: (kind, odd, out, in) -> complex sign
    R = {}
    for a in (0, 1):
        R["0", 0, a, a] = 1
    R["0", 1, 0, 1], R["0", 1, 1, 0] = 1j, -1j
    R["e", 0, 0, 0], R["e", 0, 1, 1] = -1, 1
    R["e", 1, 0, 1], R["e", 1, 1, 0] = 1j, 1j
    R["b", 0, 0, 1], R["b", 0, 1, 0] = -1, -1
    R["b", 1, 0, 0], R["b", 1, 1, 1] = -1j, 1j
    K = {}
    for l in range(lmax + 1):
        for lp in range(lmax + 1):
            for i1, i2, o1, o2 in ((a, b, c, d) for a in range(len(C1)) for b in range(len(C2)) for c in range(len(C1)) for d in range(len(C2))):
                t = 0.0
                for L in range(abs(l - lp), min(l + lp, lmask) + 1):
                    odd = (l + lp + L) & 1
                    for x in "0eb":
                        if x != "0" and not an1:
                            continue
                        r1 = R.get((x, odd, o1, i1), 0) if s1 else (1 if x == "0" else 0)
                        if not r1:
                            continue
                        w1 = wig(L, l, lp, 0, s1, -s1) * (-1) ** s1 if x == "0" else wig(L, l, lp, -2 * s1, s1, s1)
                        if not w1:
                            continue
                        for y in "0eb":
                            if y != "0" and not an2:
                                continue
                            r2 = R.get((y, odd, o2, i2), 0) if s2 else (1 if y == "0" else 0)
                            if not r2:
                                continue
                            w2 = wig(L, l, lp, 0, s2, -s2) * (-1) ** s2 if y == "0" else wig(L, l, lp, -2 * s2, s2, s2)
                            if not w2:
                                continue
                            z = complex(r1 * complex(r2).conjugate())
                            if abs(z.imag) > 1e-12:
                                continue    # odd in m, cancels in the sum
                            t = t + p[x + y][L] * (z.real * w1 * w2 * (2 * L + 1) / FOURPI * (2 * lp + 1))
                if not (isinstance(t, float) and t == 0.0):
                    K[n * l + len(C2) * o1 + o2, n * lp + len(C2) * i1 + i2] = t
    return K, n
