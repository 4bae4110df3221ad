"""Spin-weighted spherical harmonics and the transforms of NaMaster's conventions, from their definitions."""
import math
import functools
import numpy as np


def wigner_small(l, m, s, th):
    """d^l_{m,s}(th)"""
    f = math.factorial
    c, n = math.cos(th / 2), math.sin(th / 2)
    pre = math.sqrt(f(l + m) * f(l - m) * f(l + s) * f(l - s))
    t = 0.0
    for k in range(max(0, s - m), min(l + s, l - m) + 1):
        t += (-1) ** (m - s + k) / (f(l + s - k) * f(k) * f(m - s + k) * f(l - m - k)) * c ** (2 * l + s - m - 2 * k) * n ** (m - s + 2 * k)
    return pre * t


def sY(s, l, m, th, ph):
    if l < max(abs(s), abs(m)):
        return 0j
    return (-1) ** m * math.sqrt((2 * l + 1) / (4 * math.pi)) * wigner_small(l, -m, s, th) * complex(math.cos(m * ph), math.sin(m * ph))


def lms(lmax):
    return [(l, m) for m in range(lmax + 1) for l in range(m, lmax + 1)]


@functools.lru_cache(maxsize=None)
def synth(pos, spin, lmax):
    """real matrix from (re, im) of the coefficients of all components to the maps"""
    n, K = len(pos), lms(lmax)
    nc = 2 if spin else 1
    M = np.zeros((nc, n, nc, len(K), 2))
    for p, (th, ph) in enumerate(pos):
        for k, (l, m) in enumerate(K):
            if not spin:
                y = sY(0, l, m, th, ph) * (2 if m else 1)
                M[0, p, 0, k] = y.real, -y.imag
                continue
            # Q + iU = -sum (E + iB) sY over all m, with E_{l,-m} = (-1)^m conj(E_lm)
            y, z = sY(spin, l, m, th, ph), sY(spin, l, -m, th, ph) * (-1) ** m
            for c in (0, 1):
                for r in (0, 1):
                    if m == 0 and r:
                        continue
                    e = (1, 1j)[r]
                    v = -(1, 1j)[c] * (e * y + (np.conj(e) * z if m else 0))
                    M[0, p, c, k, r], M[1, p, c, k, r] = v.real, v.imag
    return M.reshape(nc * n, nc * len(K) * 2)


@functools.lru_cache(maxsize=None)
def analysis(pos, w, spin, lmax, n_iter):
    """real matrix from maps to coefficients: quadrature with weights w, n_iter Jacobi iterations"""
    n, K = len(pos), lms(lmax)
    nc = 2 if spin else 1
    A = np.zeros((nc, len(K), 2, nc, n))
    for p, (th, ph) in enumerate(pos):
        for k, (l, m) in enumerate(K):
            if not spin:
                y = np.conj(sY(0, l, m, th, ph)) * w[p]
                A[0, k, :, 0, p] = y.real, y.imag
                continue
            for c in (0, 1):
                P = (1, 1j)[c]
                a = -w[p] * P * np.conj(sY(spin, l, m, th, ph))                                  # E + iB
                b = -w[p] * np.conj(P) * np.conj(sY(-spin, l, m, th, ph)) * (-1) ** spin          # E - iB
                E, B = (a + b) / 2, (a - b) / 2j
                A[0, k, :, c, p] = E.real, E.imag
                A[1, k, :, c, p] = B.real, B.imag
    A = A.reshape(nc * len(K) * 2, nc * n)
    S = synth(pos, spin, lmax)
    T = A
    for _ in range(n_iter):
        T = T + A - A @ (S @ T)
    return T


def cc_weights(n):
    """Clenshaw-Curtis weights for the integral over z, n+1 rings from pole to pole"""
    th = np.arange(n + 1) * math.pi / n
    V = np.array([np.cos(k * th) for k in range(n + 1)])
    b = [2. / (1 - k * k) if k % 2 == 0 else 0. for k in range(n + 1)]
    return np.linalg.solve(V, b)
