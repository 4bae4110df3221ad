"""P15: flat-sky fields: masking, deprojection, purification, coefficients."""
import math
import numpy as np
from . import flat

NOTE = "every value of the symbolic map, mask and template pixels within the bounds; patches, spins, template sets and flags as enumerated"
BOUNDS = {"quick": "3x3 to 5x5 pixels (non-square pixels); maps and masks fully symbolic on 3x3, partly on larger grids; purification against the derivative definition on odd grids, all flag "
                   "combinations; templates: one symbolic, two symbolic with disjoint support, sets of concrete ones (also linearly dependent, or vanishing within the mask); "
                   "masked_on_input, lite and mask-only",
          "thorough": "5x5 purification with all pixels symbolic, more template sets"}
ASSUMPTIONS = ["symbolic templates: squared norm within the mask at least 1e-2 or exactly zero"]


def probes(g):
    """one band per distinct |k|, and fields (mask one) whose cross-spectra fix every coefficient"""
    ks = sorted(set(round(g.k(*m), 7) for m in g.modes()))
    l0 = [k - 1e-3 for k in ks]
    lf = [k + 1e-3 for k in ks]
    r = np.random.RandomState(7)
    return l0, lf, [np.round(r.rand(g.ny, g.nx) - 0.4, 2) for _ in range(2)]


def observe(h, g, fl, alms, lab, tol=1e-8):
    """coefficients, seen through cross-spectra with probe fields"""
    l0, lf, pr = probes(g)
    b = h.nmt.NmtBinFlat(np.array(l0), np.array(lf))
    for i, p in enumerate(pr):
        o = h.nmt.NmtFieldFlat(g.lx, g.ly, np.ones((g.ny, g.nx)), [p])
        B = [flat.dft(g, p)]
        h.close("%s coefficients %d" % (lab, i), h.nmt.compute_coupled_cell_flat(fl, o, b), flat.spectra(g, alms, B, l0, lf), tol)


def times(w, m):
    return [[w[y][x] * m[y][x] for x in range(len(m[0]))] for y in range(len(m))]


def dot(a, b):
    t = 0.0
    for p, q in zip(a, b):
        for u, v in zip(p, q):
            for s, z in zip(u, v):
                t = t + s * z
    return t


def cmul(a, b):
    return (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])


def purified(g, w, maps, pure):
    """E/B coefficients: sum over mask modes q and map modes k2=k1-q, with (K1-Q)^2/|k1|^2 instead of e^{2i phi1} for pure ones"""
    W = flat.dft(g, w)
    q, u = flat.dft(g, maps[0]), flat.dft(g, maps[1])
    P = {k: (q[k][0] - u[k][1], q[k][1] + u[k][0]) for k in q}
    n = 2 * math.pi / (g.lx * g.ly)
    Z = [{}, {}]
    for k1 in g.modes():
        K1 = complex(g.kx[k1[1]], g.ky[k1[0]])
        a = [(0.0, 0.0), (0.0, 0.0)]
        for k in g.modes():
            Q = complex(g.kx[k[1]], g.ky[k[0]])
            k2 = (k1[0] - k[0]) % g.ny, (k1[1] - k[1]) % g.nx
            t = cmul(W[k], P[k2])
            for i, f in enumerate((K1 * K1, (K1 - Q) ** 2)):
                f = -f / abs(K1) ** 2 if K1 != 0 else -1.0
                f = -f  # sigma = -(i)^2
                z = cmul(t, (f.real * n, f.imag * n))
                a[i] = (a[i][0] + z[0], a[i][1] + z[1])
        Z[0][k1], Z[1][k1] = a
    out = [{}, {}]
    for c in (0, 1):
        z = Z[1 if pure[c] else 0]
        for k in g.modes():
            m = ((-k[0]) % g.ny, (-k[1]) % g.nx)
            (a, b), (c1, d) = z[k], z[m]
            if k == (0, 0):
                # real-space convention at k=0: sigma applied to real maps
                out[c][k] = ((a, 0.0), (b, 0.0))[c]
            elif c == 0:
                out[c][k] = (0.5 * (a + c1), 0.5 * (b - d))
            else:
                out[c][k] = (0.5 * (b + d), 0.5 * (c1 - a))
    return out


def plain(h, geom, spin, sym=None, msym=None, masked=False, lite=False):
    g = flat.geo(geom)
    n = 2 if spin else 1
    w = flat.symmap(h, g, "w", msym, 0.0, 1.0, 1, True)
    a = [flat.symmap(h, g, "a%d" % i, sym, seed=3 + i) for i in range(n)]
    ref = [times(w, m) for m in a]
    fl = flat.field(h, g, w, ref if masked else a, spin, masked_on_input=masked, lite=lite)
    if lite:
        h.raises("maps of a lite field", fl.get_maps)
    else:
        h.close("maps", fl.get_maps(), ref)
        h.true("shape", fl.get_maps().shape == (n, g.ny, g.nx))
    h.close("mask", fl.get_mask(), w)
    h.true("mask shape", fl.get_mask().shape == (g.ny, g.nx))
    observe(h, g, fl, flat.map2alm(g, spin, ref), "plain")
    h.raises("no templates" , fl.get_templates) if lite else None


def inputs_kept(h, spin):
    """arguments are not modified"""
    g = flat.geo("3x3")
    n = 2 if spin else 1
    w = h.array(flat.symmap(h, g, "w", (0, 3), 0.0, 1.0, 1, True))
    a = h.array([flat.symmap(h, g, "a%d" % i, (1, 3), seed=3 + i) for i in range(n)])
    t = h.array([[flat.symmap(h, g, "t%d" % i, (), seed=8 + i) for i in range(n)]])
    for kw in ({}, dict(purify_b=True)) if spin == 2 else ({},):
        w0, a0, t0 = h.flat(w)[:], h.flat(a)[:], h.flat(t)[:]
        ww = h.array(flat.symmap(h, g, "w", (), 0.0, 1.0, 1, True))
        h.nmt.NmtFieldFlat(g.lx, g.ly, ww, a, spin=spin, templates=t, **kw)
        h.nmt.NmtFieldFlat(g.lx, g.ly, w, a, spin=spin, **kw)
        h.close("mask kept", h.flat(w), w0)
        h.close("maps kept", h.flat(a), a0)
        h.close("templates kept", h.flat(t), t0)


def pure(h, geom, flags, sym=None, msym=None, masked=False, lite=False, same=True):
    g = flat.geo(geom)
    w = flat.symmap(h, g, "w", msym, 0.0 if masked else -1.0, 1.0, 1, True)
    a = [flat.symmap(h, g, "a%d" % i, sym, seed=3 + i) for i in range(2)]
    inp = [times(w, m) for m in a] if masked else a
    eff = a
    if masked:
        # where the mask vanishes the map is lost
        eff = [[[m[y][x] if w[y][x] > 0 else 0.0 for x in range(g.nx)] for y in range(g.ny)] for m in a]
    fl = flat.field(h, g, w, inp, 2, purify_e=bool(flags[0]), purify_b=bool(flags[1]), masked_on_input=masked, lite=lite)
    ref = purified(g, w, eff, flags)
    observe(h, g, fl, ref, "pure")
    if not lite:
        h.close("purified maps", fl.get_maps(), flat.alm2map(g, 2, ref), 1e-8)
    h.close("mask", fl.get_mask(), w)


def unit(h, geom):
    """no mask: purification and the transforms change nothing, on even grids too"""
    g = flat.geo(geom)
    w = np.ones((g.ny, g.nx))
    a = [flat.symmap(h, g, "a%d" % i, None, seed=3 + i) for i in range(2)]
    for fl in ((1, 0), (0, 1), (1, 1)):
        f = h.nmt.NmtFieldFlat(g.lx, g.ly, w, h.array(a), purify_e=bool(fl[0]), purify_b=bool(fl[1]))
        h.close("maps %d%d" % fl, f.get_maps(), a, 1e-9)
        observe(h, g, f, flat.map2alm(g, 2, a), "unit %d%d" % fl)


TSETS = {"one": 1, "two": 2, "three": 3}


def tempset(g, kind, n, w):
    r = np.random.RandomState(21)
    t = [[np.round(r.rand(g.ny, g.nx) - 0.4, 2) for _ in range(n)] for _ in range(3)]
    wz = np.array([[1.0 if v == 0 else 0.0 for v in x] for x in w])
    return {"one": t[:1], "two": t[:2], "three": t, "dup": [t[0], [2 * x for x in t[0]]], "dep": [t[0], t[1], [x - 2 * y for x, y in zip(t[0], t[1])]],
            "zero": [[0.0 * x for x in t[0]]], "gone": [[x * wz for x in t[0]]], "mixed": [t[0], [x * wz for x in t[1]]]}[kind]


def deproj(h, geom, spin, kind, flags=(0, 0), sym=None, masked=False, lite=False, tol=None):
    """concrete templates and mask, symbolic map"""
    g = flat.geo(geom)
    n = 2 if spin else 1
    w = np.array(flat.symmap(h, g, "w", (), 0.0, 1.0, 1, True))
    w[0, 0] = w[1, 1] = 0.0
    w = w.tolist()
    a = [flat.symmap(h, g, "a%d" % i, sym, seed=3 + i) for i in range(n)]
    t = tempset(g, kind, n, w)
    wt = [np.array([times(w, m.tolist()) for m in x]) for x in t]
    wa = [times(w, m) for m in a]
    # least squares: orthonormal basis of the span of the masked templates
    U, s, V = np.linalg.svd(np.array([x.reshape(-1) for x in wt]), full_matrices=False)
    alpha = [0.0] * len(t)
    for q in range(len(s)):
        if s[q] > 1e-6:
            p = dot([[list(r) for r in m] for m in V[q].reshape(n, g.ny, g.nx)], wa) * (1 / s[q])
            alpha = [z + p * float(U[i][q]) for i, z in enumerate(alpha)]

    def minus(m, ts):
        return [[[m[i][y][x] - sum((alpha[j] * float(ts[j][i][y][x]) for j in range(len(t))), 0.0) for x in range(g.nx)] for y in range(g.ny)] for i in range(n)]
    inm, int_ = (wa, [x.tolist() for x in wt]) if masked else (a, [[m.tolist() for m in x] for x in t])
    kw = dict(purify_e=bool(flags[0]), purify_b=bool(flags[1])) if any(flags) else {}
    if tol:
        kw["tol_pinv"] = tol
    fl = flat.field(h, g, w, inm, spin, templates=h.array(int_), masked_on_input=masked, lite=lite, **kw)
    T = 1e-7
    if any(flags):
        keep = [[[m[y][x] if w[y][x] > 0 or not masked else 0.0 for x in range(g.nx)] for y in range(g.ny)] for m in a]
        kt = [[(m * (np.array(w) > 0) if masked else m) for m in x] for x in t]
        ref = purified(g, w, minus(keep, kt), flags)
        mp = None if lite else flat.alm2map(g, 2, ref)
    else:
        res = minus(wa, wt)
        ref = flat.map2alm(g, spin, res)
        mp = res
    observe(h, g, fl, ref, "deprojected", T)
    if lite:
        h.raises("templates of a lite field", fl.get_templates)
        return
    out = fl.get_maps()
    h.close("maps", out, mp, T)
    h.close("templates", fl.get_templates(), [x.tolist() for x in wt])
    if not any(flags):
        for j in range(len(t)):
            h.close("orthogonal to template %d" % j, dot(wt[j].tolist(), [[list(r) for r in m] for m in out]), 0.0, T)


def symtemp(h, geom, spin, tsym, sym, msym=(), two=False, masked=False):
    """one symbolic template, or two with disjoint support"""
    g = flat.geo(geom)
    n = 2 if spin else 1
    w = flat.symmap(h, g, "w", msym, 0.3, 1.0, 1, True)
    a = [flat.symmap(h, g, "a%d" % i, sym, seed=3 + i) for i in range(n)]
    ts = []
    for j in range(2 if two else 1):
        t = [flat.symmap(h, g, "t%d_%d" % (j, i), tsym, seed=10 * j + 13 + i) for i in range(n)]
        if two:
            t = [[[v if (y * g.nx + x) % 2 == j else 0.0 for x, v in enumerate(r)] for y, r in enumerate(m)] for m in t]
        ts.append(t)
    wa = [times(w, m) for m in a]
    wt = [[times(w, m) for m in t] for t in ts]
    px = g.lx * g.ly / g.npix
    nn = [dot(t, t) for t in wt]
    for x in nn:
        h.assume(x >= 1e-2)
    if h.sym and two:
        if nn[0] < nn[1]:
            pass
        h.ctx.memo["eigs"] = [([[nn[0] * px, 0.0], [0.0, nn[1] * px]], [x * px for x in nn], np.eye(2).tolist())]
    inm, int_ = (wa, wt) if masked else (a, ts)
    fl = flat.field(h, g, w, inm, spin, templates=h.array(int_), masked_on_input=masked)
    out = fl.get_maps()
    pr = [dot(t, wa) for t in wt]
    for i in range(n):
        for y in range(g.ny):
            for x in range(g.nx):
                c = nn[0] if not two else nn[0] * nn[1]
                k = [pr[0]] if not two else [pr[0] * nn[1], pr[1] * nn[0]]
                e = wa[i][y][x] * c
                for q, t in zip(k, wt):
                    e = e - q * t[i][y][x]
                h.close("map %d %d %d" % (i, y, x), out[i, y, x] * c, e, 1e-7)
    h.close("templates", fl.get_templates(), wt)


def maskonly(h, geom, s1, s2, p2=(0, 0), teb=False):
    """mask-only fields: same coupling matrix, same mask; no maps"""
    g = flat.geo(geom)
    w1, w2 = (flat.symmap(h, g, n, (0, 2, 5), 0, 1, s, True) for n, s in (("w", 1), ("v", 2)))
    a1 = [flat.symmap(h, g, "a%d" % i, (1,), seed=3 + i) for i in range(2 if s1 else 1)]
    a2 = [flat.symmap(h, g, "b%d" % i, (1,), seed=5 + i) for i in range(2 if s2 else 1)]
    kw = dict(purify_e=bool(p2[0]), purify_b=bool(p2[1])) if any(p2) else {}
    F = [(flat.field(h, g, w1, m1, s1, lite=lt), flat.field(h, g, w2, m2, s2, lite=lt, **kw)) for m1, m2, lt in ((a1, a2, False), (a1, a2, True), (None, None, False))]
    from .p12 import bands
    l0, lf = bands(g, 2)
    b = h.nmt.NmtBinFlat(np.array(l0), np.array(lf))
    ls = np.array([0., 10., 40.])
    res = []
    for f1, f2 in F:
        h.close("mask", f1.get_mask(), w1)
        h.true("sizes", len(f2.get_ell_sampling()) == len(F[0][1].get_ell_sampling()))
        wk = h.nmt.NmtWorkspaceFlat()
        wk.compute_coupling_matrix(f1, f2, b, is_teb=teb)
        n = len(flat.comps(s1, s2, teb))
        res.append(wk.couple_cell(ls, np.arange(3 * n).reshape(n, 3) + 1.0))
    h.close("lite", res[1], res[0], 1e-10)
    h.close("mask only", res[2], res[0], 1e-10)
    h.close("spectra lite", h.nmt.compute_coupled_cell_flat(*F[1], b), h.nmt.compute_coupled_cell_flat(*F[0], b), 1e-10)
    h.raises("maps of a mask-only field", F[2][0].get_maps)
    h.raises("spectra of mask-only fields", h.nmt.compute_coupled_cell_flat, F[2][0], F[2][1], b)
    h.raises("spectra with a mask-only field", h.nmt.compute_coupled_cell_flat, F[0][0], F[2][1], b)


def refused(h):
    g = flat.geo("3x3")
    w = np.ones((3, 3))
    F = h.nmt.NmtFieldFlat
    m = np.ones((3, 3))
    h.raises("negative size x", F, -1., 1., w, [m])
    h.raises("negative size y", F, 1., -1., w, [m])
    h.raises("three maps", F, 1., 1., w, [m, m, m])
    h.raises("spin 0 with two maps", F, 1., 1., w, [m, m], spin=0)
    h.raises("spin 1 with one map", F, 1., 1., w, [m], spin=1)
    h.raises("spin-1 purification", F, 1., 1., w, [m, m], spin=1, purify_b=True)
    h.raises("map shape", F, 1., 1., w, [np.ones((3, 4))])
    h.raises("map shape", F, 1., 1., w, [np.ones((4, 3))])
    h.raises("template shape", F, 1., 1., w, [m], templates=[[np.ones((3, 4))]])
    h.raises("template count", F, 1., 1., w, [m], templates=[[m, m]])
    h.raises("template type", F, 1., 1., w, [m], templates=1.)
    h.raises("beam type", F, 1., 1., w, [m], beam=1.)
    h.raises("no spin", F, 1., 1., w, None)
    f0, f2 = F(1., 1., w, [m]), F(1., 1., w, [m, m])
    h.true("default spin 0", f0.fl.spin == 0)
    h.true("default spin 2", f2.fl.spin == 2)


def cases(tier):
    T = tier != "quick"
    c = []
    for s in (0, 1, 2, 3):
        c += [("p%d_33" % s, plain, dict(geom="3x3", spin=s)), ("p%d_34" % s, plain, dict(geom="3x4", spin=s, msym=(0, 3, 5))), ("p%d_m" % s, plain, dict(geom="4x3", spin=s, msym=(0, 3, 5), masked=True)),
              ("p%d_l" % s, plain, dict(geom="3x3", spin=s, msym=(0, 3, 5), lite=True)), ("p%d_45" % s, plain, dict(geom="4x6", spin=s, msym=(2,)))]
    for s in (0, 1, 2):
        c.append(("kept%d" % s, inputs_kept, dict(spin=s)))
    for f in ((1, 0), (0, 1), (1, 1)):
        t = "%d%d" % f
        c += [("b33_" + t, pure, dict(geom="3x3", flags=f), 2), ("b35_" + t, pure, dict(geom="3x5", flags=f, sym=(0, 4, 7, 11), msym=(1, 6, 9, 13)), 2), ("b53_" + t, pure, dict(geom="5x3", flags=f, sym=(0, 4, 7), msym=(1, 6))),
              ("b35m_" + t, pure, dict(geom="3x5", flags=f, sym=None, msym=()), 2), ("b33l_" + t, pure, dict(geom="3x3", flags=f, lite=True, msym=(0, 1, 5))),
              ("b33u_" + t, pure, dict(geom="3x3", flags=f, masked=True, msym=(0, 5)), 2)]
    c += [("u33", unit, dict(geom="3x3")), ("u34", unit, dict(geom="3x4")), ("u43", unit, dict(geom="4x3")), ("u44", unit, dict(geom="4x4"))]
    for k in ("one", "two", "three", "dup", "dep", "zero", "gone", "mixed"):
        for s in (0, 1, 2):
            c.append(("d%d_%s" % (s, k), deproj, dict(geom=("3x3", "3x4", "3x3")[s], spin=s, kind=k, masked=k in ("dup", "three"))))
        c.append(("db_%s" % k, deproj, dict(geom="3x3", spin=2, kind=k, flags=(0, 1), masked=k in ("two", "mixed", "one")), 2))
    c += [("de_two", deproj, dict(geom="3x3", spin=2, kind="two", flags=(1, 0))), ("dl_two", deproj, dict(geom="3x3", spin=2, kind="two", lite=True)), ("dl_three", deproj, dict(geom="4x4", spin=0, kind="three", lite=True, masked=True)),
          ("dlb_two", deproj, dict(geom="3x3", spin=2, kind="two", lite=True, flags=(1, 1))), ("dt_two", deproj, dict(geom="3x3", spin=0, kind="two", tol=1e-3))]
    for f in ((1, 1), (0, 1), (1, 0)):
        t = "%d%d" % f
        c += [("dlbm_" + t, deproj, dict(geom="3x3", spin=2, kind="two", lite=True, masked=True, flags=f)), ("dbm_" + t, deproj, dict(geom="3x5", spin=2, kind="one", masked=True, flags=f))]
    c += [("s0", symtemp, dict(geom="3x3", spin=0, tsym=(0, 4), sym=(1, 4))), ("s2", symtemp, dict(geom="3x3", spin=2, tsym=(4,), sym=(1, 4))), ("s0m", symtemp, dict(geom="3x3", spin=0, tsym=(0, 4), sym=(4,), masked=True)),
          ("s0w", symtemp, dict(geom="3x3", spin=0, tsym=(4,), sym=(4,), msym=(4,))), ("ss0", symtemp, dict(geom="3x3", spin=0, tsym=(3, 4), sym=(3, 4), two=True))]
    for s1, s2, kw in ((0, 0, {}), (0, 2, {}), (2, 2, {}), (1, 1, {}), (0, 2, dict(p2=(0, 1))), (2, 2, dict(p2=(1, 1))), (0, 2, dict(teb=True))):
        c.append(("o%d%d%s" % (s1, s2, "".join(k[0] for k in kw)), maskonly, dict(geom="3x5" if kw else "3x4", s1=s1, s2=s2, **kw)))
    c.append(("refused", refused, {}))
    if T:
        for f in ((1, 0), (0, 1), (1, 1)):
            c += [("B35_%d%d" % f, pure, dict(geom="3x5", flags=f), 6), ("B55_%d%d" % f, pure, dict(geom="5x5", flags=f, msym=(0, 7, 12)), 8), ("B33u_%d%d" % f, pure, dict(geom="3x3", flags=f, masked=True, msym=(0, 2, 5, 7)), 9)]
        c += [("S0", symtemp, dict(geom="3x3", spin=0, tsym=None, sym=(1, 4)), 9), ("S2", symtemp, dict(geom="3x3", spin=2, tsym=(0, 4, 5), sym=(0, 1, 4)), 9), ("D55", deproj, dict(geom="5x5", spin=2, kind="dep", flags=(1, 1)), 5),
              ("D45", deproj, dict(geom="4x6", spin=2, kind="three"), 5)]
    return c
