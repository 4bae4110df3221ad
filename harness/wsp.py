"""Small curved-sky workspaces with symbolic contents."""
import numpy as np
from . import curved

BANDS = {4: [[-1, 0, 0, 1, 1], [-1, -1, 0, 1, 2], [0, 0, 0, 1, 1]], 3: [[-1, 0, 0, 1], [0, 0, 0, 1], [-1, -1, 0, 1]],
         6: [[-1, -1, 0, 0, 1, 1, 2], [0, 0, 0, 1, 1, 1, 1], [-1, 0, 0, 1, 1, 1, -1]],
         5: [[-1, -1, 0, 0, 1, 1], [-1, 0, 1, 1, 2, 2], [0, 0, 0, 1, 1, 1]]}


def mkbins(h, name, lmax, which=0, symb=True):
    bp = BANDS[lmax][which]
    n = lmax + 1
    w = h.reals(name + "w", n, 0.5, 1.5) if symb else np.linspace(1., 1.5, n)
    f = h.reals(name + "f", n, 0.5, 2.0) if symb else np.linspace(1., 2., n)
    b = h.nmt.NmtBin(ells=np.arange(n), bpws=np.array(bp), weights=w, f_ell=f, lmax=lmax)
    ells = [[l for l in range(n) if bp[l] == k] for k in range(max(bp) + 1)]
    ww = [[w[l] / tot(w, e) for l in e] for e in ells]
    return b, ells, ww, f


def tot(w, e):
    t = 0.0
    for l in e:
        t = t + w[l]
    return t


def field(h, spin, lmax, beam=None, seed=1, sym=None, lmask=None):
    rng = np.random.RandomState(seed)
    m = np.round(0.3 + 0.7 * rng.rand(48), 3)
    if sym:
        mm = h.zeros((48,))
        for i in range(48):
            mm[i] = float(m[i])
        for i in sym:
            mm[i] = h.real("m%d_%d" % (seed, i), 0.3, 1.0)
        m = mm
    f = h.nmt.NmtField(m, None, spin=spin, lmax=lmax, beam=beam, n_iter_mask=0, lmax_mask=lmask)
    return f, m


def randmat(h, name, N, nsym, seed=0):
    """concrete matrix with a dominant diagonal and nsym symbolic entries"""
    rng = np.random.RandomState(seed)
    M = h.zeros((N, N))
    A = np.round(np.eye(N) + 0.3 * (rng.rand(N, N) - 0.5), 3)
    for i in range(N):
        for j in range(N):
            M[i, j] = float(A[i, j])
    pos = rng.permutation(N * N)[:nsym]
    for k in pos:
        i, j = divmod(int(k), N)
        M[i, j] = float(A[i, j]) + h.real("%s_%d_%d" % (name, i, j), -0.1, 0.1)
    return M
