"""P30: objects own their data: later changes to, or deletion of, what they were built from does not affect them; what they return can be changed; calls leave their inputs alone."""
import gc
import math
import os
import numpy as np
from . import curved, flat, p09, wsp
from .p12 import bands
from .p19 import G, smap

NOTE = "every value of the symbolic contents within the bounds; kinds of objects, and the order of construction, modification, deletion and use, as enumerated"
BOUNDS = {"quick": "bins, fields (isotropic, anisotropic, purified, deprojected, lite, mask-only, catalogue, flat-sky), workspaces and covariance workspaces of both geometries, built from arrays with symbolic entries at lmax 3-4, 3x3 flat "
                   "pixels, HEALPix nside 2 and CAR 3x4; every input array overwritten, every input object deleted, every returned array of bins, workspaces, covariances and flat fields overwritten",
          "thorough": "more spins"}
ASSUMPTIONS = ["accuracy 2e-4 for catalogue coefficients, which ducc0 computes to 1e-5"]


class In:
    """input arrays, remembered so that they can be checked and overwritten"""

    def __init__(self, h):
        self.h, self.a = h, []

    def __call__(self, x):
        a = self.h.array(x) if not isinstance(x, np.ndarray) else x
        self.a.append((a, self.h.flat(a)))
        return a

    def kept(self, lab):
        for i, (a, v) in enumerate(self.a):
            self.h.close("%s: input %d kept" % (lab, i), self.h.flat(a), v, 0)

    def spoil(self):
        for a, v in self.a:
            spoil(a)
        self.a = []
        gc.collect()


def spoil(a):
    if isinstance(a, (list, tuple)):
        for x in a:
            spoil(x)
        return
    a[...] = a * 0 - 7


def same(h, lab, a, b, tol=1e-9):
    """two lists of observations"""
    h.true(lab + ": as many", len(a) == len(b))
    for i, (x, y) in enumerate(zip(a, b)):
        h.true("%s %d: shape" % (lab, i), np.shape(x) == np.shape(y))
        p, q = [], []
        for u, v in zip(h.flat(x), h.flat(y)):
            p += list(curved.re_im(u))
            q += list(curved.re_im(v))
        h.close("%s %d" % (lab, i), p, q, tol)


def own(h, build, obs, ret=True, tol=1e-9):
    """build(inputs) -> object; obs(object) -> list of arrays"""
    i1, i2 = In(h), In(h)
    x = build(i1)
    i1.kept("constructor")
    i1.spoil()
    ref = build(i2)
    o = obs(x)
    r = obs(ref)
    same(h, "inputs overwritten", o, r, tol)
    keep = [h.flat(v) for v in r]
    if ret:
        for v in o:
            spoil(v)
        same(h, "outputs overwritten", obs(x), r, tol)
    # the other object is unaffected
    for v, k in zip(r, keep):
        p, q = [], []
        for s, t in zip(h.flat(v), k):
            p += list(curved.re_im(s))
            q += list(curved.re_im(t))
        h.close("independent", p, q, 0)
    del x
    gc.collect()
    same(h, "other object deleted", obs(ref), r, tol)
    i2.kept("use")


def bins_obs(h):
    c = h.array([[0.3 * (l + 1) * (-1) ** l for l in range(5)]])

    def f(b):
        n = b.get_n_bands()
        return [b.get_effective_ells(), b.get_nell_list()] + [b.get_ell_list(k) for k in range(n)] + [b.get_weight_list(k) for k in range(n)] + [b.bin_cell(c), b.unbin_cell(h.array([[0.5 + k for k in range(n)]]))]
    return f


def bins(h):
    def build(i):
        return h.nmt.NmtBin(ells=i(np.arange(5)), bpws=i(np.array([-1, 0, 0, 1, 1])), weights=i(h.reals("w", 5, 0.5, 1.5)), f_ell=i(h.reals("f", 5, 0.5, 2.)), lmax=4)
    own(h, build, bins_obs(h))


def edges(h):
    own(h, lambda i: h.nmt.NmtBin.from_edges(i(np.array([1, 2])), i(np.array([2, 5])), f_ell=i(h.reals("f", 4, 0.5, 2.))), bins_obs(h))


def binflat(h):
    def build(i):
        a = [h.real("e%d" % k, 1. + 3 * k, 2. + 3 * k) for k in range(4)]
        return h.nmt.NmtBinFlat(i(h.array(a[:-1])), i(h.array(a[1:])))
    ls = np.array([0., 4., 7., 12.])

    def obs(b):
        return [b.get_effective_ells(), b.bin_cell(ls, h.array([[0.2, 1.1, -0.4, 0.9]])), b.unbin_cell(h.array([[0.3, 0.5, 0.9]]), np.array([2.5, 5.5, 8.5, 30.]))]
    own(h, build, obs)


def cfield(h, kind, spin, pure=(0, 0), nt=0, aniso=False, lite=False, mask_only=False, masked=False):
    g = G(h, kind)
    n = 2 if spin else 1
    r = np.random.RandomState(4)
    t = np.round(2 * r.rand(max(nt, 1), n, g.n) - 1, 2)

    def build(i):
        kw = {}
        w = i(g.shaped(h, smap(h, g, "w", () if nt or any(pure) else (1, 5), 1, 0.3, 1.)))
        a = None if mask_only else i(h.array([list(g.shaped(h, smap(h, g, "a%d" % k, (0, 7), 3 + k))) for k in range(n)]) if g.wcs is not None else h.array([smap(h, g, "a%d" % k, (0, 7), 3 + k) for k in range(n)]))
        if nt:
            kw["templates"] = i(h.array([[g.shaped(h, [float(v) for v in m]) for m in x] for x in t]))
        if aniso:
            kw.update(mask_22=i(g.shaped(h, smap(h, g, "v", (2,), 2, 0.3, 1.))), mask_12=i(g.shaped(h, smap(h, g, "x", (), 3, 0., 0.2))))
        f = h.nmt.NmtField(w, a, spin=spin, beam=i(h.reals("b", 4, 0.5, 1.)), lmax=3, lmax_mask=4, n_iter=1, n_iter_mask=0, wcs=g.wcs, purify_e=bool(pure[0]), purify_b=bool(pure[1]), lite=lite, masked_on_input=masked, **kw)
        return f

    def obs(f):
        o = [f.get_mask(), f.beam, f.get_mask_alms()]
        if not mask_only:
            o += [f.get_alms()] + ([] if lite else [f.get_maps()])
        if nt and not lite:
            o += [f.get_templates()]
        if aniso:
            o += [f.get_anisotropic_mask(), f.get_anisotropic_mask_alms()]
        return o
    own(h, build, obs, False)


def catalog(h, spin, lonlat=False, clustering=False):
    r = np.random.RandomState(3)

    def pos(i, n):
        th, ph = 0.3 + 2.5 * r2.rand(n), 6 * r2.rand(n)
        return i(np.array([np.degrees(ph), 90 - np.degrees(th)]) if lonlat else np.array([th, ph]))

    def build(i):
        nonlocal r2
        r2 = np.random.RandomState(3)
        if clustering:
            return h.nmt.NmtFieldCatalogClustering(pos(i, 2), i(h.reals("w", 2, 0.5, 1.5)), pos(i, 3), i(h.reals("q", 3, 0.5, 1.5)), 3, lonlat=lonlat)
        return h.nmt.NmtFieldCatalog(pos(i, 2), i(h.reals("w", 2, 0.5, 1.5)), i(h.reals("v", (2 if spin else 1, 2))), 3, spin=spin, beam=i(h.reals("b", 4, 0.5, 1.)), lonlat=lonlat)
    r2 = r
    own(h, build, lambda f: [f.get_alms(), f.get_mask_alms(), f.beam, h.array([f.Nw, f.Nf])], False, 2e-4)


def ffield(h, spin, pure=(0, 0), nt=0, lite=False, mask_only=False):
    g = flat.geo("3x3")
    l0, lf = bands(g, 2)
    n = 2 if spin else 1
    bn = h.nmt.NmtBinFlat(np.array(l0), np.array(lf))

    def build(i):
        kw = dict(templates=i(h.array([[flat.symmap(h, g, "t", (), seed=20 + q * n + k) for k in range(n)] for q in range(nt)]))) if nt else {}
        return h.nmt.NmtFieldFlat(g.lx, g.ly, i(h.array(flat.symmap(h, g, "m", () if nt else (1, 5), 0.2, 1., 2))), None if mask_only else i(h.array([flat.symmap(h, g, "a%d" % k, (0, 4), seed=5 + k) for k in range(n)])), spin=spin,
                                  beam=i(h.array([[0., 10., 60.], [h.real("b0", 0.8, 1.), h.real("b1", 0.6, 0.8), 0.2]])), purify_e=bool(pure[0]), purify_b=bool(pure[1]), lite=lite, **kw)

    def obs(f):
        o = [f.get_mask(), f.get_ell_sampling()]
        if not mask_only:
            o += [h.nmt.compute_coupled_cell_flat(f, f, bn)] + ([] if lite else [f.get_maps()])
        if nt and not lite:
            o += [f.get_templates()]
        w = h.nmt.NmtWorkspaceFlat()
        if not any(pure):
            w.compute_coupling_matrix(f, f, bn)
            o.append(w.couple_cell(np.array([0., 10., 40.]), h.array([[1., 0.5, 0.2]] + [[0.1, 0.2, 0.3]] * (n * n - 1))))
        return o
    own(h, build, obs)


def wobs(h, n, read=False):
    c = h.array([[0.2 + 0.1 * ((3 * i + 5 * l) % 7) for l in range(4)] for i in range(n)])

    def f(w):
        o = [w.decouple_cell(c), w.decouple_cell(c, cl_bias=0.1 * c, cl_noise=0.2 * c)]
        if not read:
            o += [w.get_coupling_matrix(), w.couple_cell(c), w.get_bandpower_windows()]
        h.close("spectra kept", h.flat(c), [0.2 + 0.1 * ((3 * i + 5 * l) % 7) for i in range(n) for l in range(4)], 0)
        return o
    return f


def work(h, s1, s2, how, norm="MASTER"):
    """workspace of fields and bins that go away"""
    n = (2 if s1 else 1) * (2 if s2 else 1)
    h.inv_bound(1e3)
    done = []

    def fb(i):
        f1 = h.nmt.NmtField(i(wsp_mask(h, 1, (3,))), None, spin=s1, lmax=3, lmax_mask=3, n_iter_mask=0, beam=i(h.reals("b", 4, 0.7, 1.)))
        f2 = h.nmt.NmtField(i(wsp_mask(h, 2, ())), None, spin=s2, lmax=3, lmax_mask=3, n_iter_mask=0)
        b = h.nmt.NmtBin(ells=i(np.arange(4)), bpws=i(np.array([0, 0, 0, 1])), weights=i(np.array([1., 1.2, 1.3, 0.8])), f_ell=i(np.array([1., 1.5, 2., 0.5])), lmax=3)
        return f1, f2, b

    def build(i):
        f1, f2, b = fb(i)
        w = h.nmt.NmtWorkspace.from_fields(f1, f2, b, normalization=norm)
        if how == "beams":
            w.update_beams(i(np.array([1., 0.9, 0.8, 0.7])), i(np.array([1., 0.95, 0.9, 0.6])))
        elif how == "bins":
            b2 = h.nmt.NmtBin(ells=i(np.arange(4)), bpws=i(np.array([-1, 0, 0, 1])), weights=i(np.array([1., 1.1, 1.2, 1.3])), lmax=3)
            w.update_bins(b2)
            del b2
        elif how == "matrix":
            w.update_coupling_matrix(i(wsp.randmat(h, "M", 4 * n, 0, 3)))
        elif how in ("file", "binned"):
            p = h.file("w%d.fits" % len(done))
            done.append(p)
            w.write_to(p)
            v = h.nmt.NmtWorkspace.from_file(p, read_unbinned_MCM=how == "file")
            w = v
            # a different workspace in the same file
            h.nmt.NmtWorkspace.from_fields(f1, f1, b).write_to(p)
        elif how == "again":
            # computed twice: the first contents go away
            w.compute_coupling_matrix(f2, f1, b)
            w.compute_coupling_matrix(f1, f2, b, normalization=norm)
        del f1, f2, b
        gc.collect()
        return w
    own(h, build, wobs(h, n, how == "binned"), tol=1e-8)


def wsp_mask(h, seed, sym):
    r = np.random.RandomState(seed)
    v = [float(x) for x in np.round(0.3 + 0.7 * r.rand(48), 3)]
    for k in sym:
        v[k] = h.real("m%d_%d" % (seed, k), 0.5, 1.)
    return h.array(v)


def workflat(h, s1, s2, how):
    g = flat.geo("3x3")
    l0, lf = bands(g, 2)
    n = (2 if s1 else 1) * (2 if s2 else 1)
    h.inv_bound(1e3)
    done = []

    def build(i):
        f1 = h.nmt.NmtFieldFlat(g.lx, g.ly, i(h.array(flat.symmap(h, g, "m", (1,), 0.2, 1., 2))), None, spin=s1)
        f2 = h.nmt.NmtFieldFlat(g.lx, g.ly, i(h.array(flat.symmap(h, g, "n", (), 0.2, 1., 3))), None, spin=s2)
        b = h.nmt.NmtBinFlat(i(np.array(l0)), i(np.array(lf)))
        w = h.nmt.NmtWorkspaceFlat()
        w.compute_coupling_matrix(f1, f2, b)
        if how == "file":
            p = h.file("f%d.fits" % len(done))
            done.append(p)
            w.write_to(p)
            w.compute_coupling_matrix(f1, f1, b)
            w.read_from(p)
        elif how == "again":
            w.compute_coupling_matrix(f2, f1, b)
            w.compute_coupling_matrix(f1, f2, b)
        del f1, f2, b
        gc.collect()
        return w
    c = h.array([[0.3 + 0.2 * ((k + q) % 3) for k in range(2)] for q in range(n)])
    t = h.array([[1., 0.5, 0.2]] + [[0.1, 0.2, 0.3]] * (n - 1))
    ls = np.array([0., 10., 40.])
    own(h, build, lambda w: [w.couple_cell(ls, t), w.decouple_cell(c), w.decouple_cell(c, cl_bias=0.1 * c, cl_noise=0.3 * c)], tol=1e-8)


def cov(h, sp, coupled, how):
    """covariance workspaces outlive their fields; the covariance leaves workspaces and spectra alone"""
    h.inv_bound(1e3)
    cl = p09.spectra(h, sp, 4, ("ac",))
    wa, wb = (p09.work(h, a, b, 3, 0, False, s)[0] for a, b, s in ((sp[0], sp[1], 1), (sp[2], sp[3], 5)))
    na, nb = p09.nm(sp[0]) * p09.nm(sp[1]), p09.nm(sp[2]) * p09.nm(sp[3])
    before = wobs(h, na)(wa), wobs(h, nb)(wb)
    done = []

    def build(i):
        fl = [h.nmt.NmtField(i(wsp_mask(h, k + 1, (3,) if k == 2 else ())), None, spin=s, lmax=3, lmax_mask=3, n_iter_mask=0) for k, s in enumerate(sp)]
        cw = h.nmt.NmtCovarianceWorkspace.from_fields(*fl)
        if how == "file":
            p = h.file("c%d.fits" % len(done))
            done.append(p)
            cw.write_to(p)
            cw = h.nmt.NmtCovarianceWorkspace.from_file(p)
        elif how == "again":
            cw.compute_coupling_coefficients(fl[1], fl[0])
            cw.compute_coupling_coefficients(*fl)
        del fl
        gc.collect()
        return cw
    own(h, build, lambda cw: [p09.gc(h, cw, sp, cl, wa, wb, coupled=coupled)], tol=1e-8)
    same(h, "workspace", wobs(h, na)(wa), before[0])
    same(h, "workspace", wobs(h, nb)(wb), before[1])
    again = p09.spectra(h, sp, 4, ("ac",))
    for k in cl:
        h.close("spectra kept", h.flat(cl[k]), h.flat(again[k]), 0)


def covflat(h, sp, how):
    g = flat.geo("3x3")
    l0, lf = bands(g, 2)
    h.inv_bound(1e3)
    cl = p09.spectra(h, sp, 3, ("ac",))
    ls = np.array([0., 9., 22.])
    done = []

    def one(s, k):
        return h.nmt.NmtFieldFlat(g.lx, g.ly, h.array(flat.symmap(h, g, "m%d" % k, (), 0.2, 1., 2 + k)), None, spin=s)

    def workspace(a, b, k):
        w = h.nmt.NmtWorkspaceFlat()
        w.compute_coupling_matrix(one(a, k), one(b, k + 1), h.nmt.NmtBinFlat(np.array(l0), np.array(lf)))
        return w
    wa, wb = workspace(sp[0], sp[1], 4), workspace(sp[2], sp[3], 6)

    def build(i):
        b = h.nmt.NmtBinFlat(i(np.array(l0)), i(np.array(lf)))
        fl = [h.nmt.NmtFieldFlat(g.lx, g.ly, i(h.array(flat.symmap(h, g, "m%d" % k, (1,) if k == 1 else (), 0.2, 1., 2 + k))), None, spin=s) for k, s in enumerate(sp)]
        cw = h.nmt.NmtCovarianceWorkspaceFlat()
        cw.compute_coupling_coefficients(fl[0], fl[1], b, fl[2], fl[3], b)
        if how == "file":
            p = h.file("d%d.fits" % len(done))
            done.append(p)
            cw.write_to(p)
            cw = h.nmt.NmtCovarianceWorkspaceFlat()
            cw.read_from(p)
        del fl, b
        gc.collect()
        return cw
    own(h, build, lambda cw: [h.nmt.gaussian_covariance_flat(cw, *sp, ls, cl["ac"], cl["ad"], cl["bc"], cl["bd"], wa, wb)], tol=1e-8)


def calls(h, kind):
    """functions that take arrays and return new ones"""
    g = G(h, kind)
    i = In(h)
    mi, ai = h.nmt.NmtMapInfo(g.wcs, g.shape), h.nmt.NmtAlmInfo(3)
    m = i(h.array([smap(h, g, "m", (0, 3, 7), 2)]))
    a = h.nmt.map2alm(m, 0, mi, ai, n_iter=2)
    i.kept("map2alm")
    b = h.nmt.alm2map(a, 0, mi, ai)
    keep = [v for z in h.flat(a) for v in curved.re_im(z)]
    spoil(b)
    h.close("coefficients kept", [v for z in h.flat(a) for v in curved.re_im(z)], keep, 0)
    spoil(a)
    i.kept("map2alm output")
    q = i(g.shaped(h, smap(h, g, "q", (1, 4), 3)))
    r = mi.reform_map(q)
    h.close("reformed", h.flat(r), [h.flat(q)[k] for k in g.order], 0)
    i.kept("reform_map")
    if g.wcs is None:
        k = i(h.array([0. if x in (3, 9) else 1. for x in range(48)]))
        for t in ("C1", "C2", "Smooth"):
            o = h.nmt.mask_apodization(k, 40., t)
            i.kept("apodization " + t)
            spoil(o)
            i.kept("apodization output " + t)
    M = i(h.array([[2., 0.5], [0.5, h.real("d", 1., 2.)]]))
    P = h.nmt.moore_penrose_pinvh(M, None)
    spoil(P)
    i.kept("pseudo-inverse")


def fcalls(h):
    g = flat.geo("3x4")
    i = In(h)
    m = i(h.array([[0. if (x, y) == (1, 2) else 1. for x in range(g.nx)] for y in range(g.ny)]))
    for t in ("C1", "C2", "Smooth"):
        o = h.nmt.mask_apodization_flat(m, g.lx, g.ly, 20., t)
        i.kept("apodization " + t)
        spoil(o)
        i.kept("apodization output " + t)


def cases(tier):
    T = tier != "quick"
    c = [("bins", bins, {}), ("edges", edges, {}), ("binflat", binflat, {})]
    for k in ("hp2", "car", "carflip"):
        for s in (0, 2):
            c += [("field_%s%d" % (k, s), cfield, dict(kind=k, spin=s)), ("ftemp_%s%d" % (k, s), cfield, dict(kind=k, spin=s, nt=2)), ("fmask_%s%d" % (k, s), cfield, dict(kind=k, spin=s, mask_only=True))]
        c += [("faniso_%s" % k, cfield, dict(kind=k, spin=2, aniso=True)), ("fpure_%s" % k, cfield, dict(kind=k, spin=2, pure=(0, 1), nt=1)), ("flite_%s" % k, cfield, dict(kind=k, spin=2, lite=True, nt=1)),
              ("fmasked_%s" % k, cfield, dict(kind=k, spin=2, masked=True, nt=1)), ("fpurem_%s" % k, cfield, dict(kind=k, spin=2, pure=(1, 1), nt=1, masked=True)), ("fanisom_%s" % k, cfield, dict(kind=k, spin=1, aniso=True, masked=True))]
    for s in (0, 1, 2):
        c += [("cat%d_%d" % (s, l), catalog, dict(spin=s, lonlat=bool(l))) for l in (0, 1)]
    c += [("catc_%d" % l, catalog, dict(spin=0, lonlat=bool(l), clustering=True)) for l in (0, 1)]
    for s in (0, 2):
        c += [("flat%d" % s, ffield, dict(spin=s)), ("flatt%d" % s, ffield, dict(spin=s, nt=2)), ("flatl%d" % s, ffield, dict(spin=s, lite=True, nt=1)), ("flatm%d" % s, ffield, dict(spin=s, mask_only=True))]
    c += [("flatp", ffield, dict(spin=2, pure=(0, 1), nt=1)), ("flatp2", ffield, dict(spin=2, pure=(1, 1)))]
    for how in ("fields", "beams", "bins", "matrix", "file", "binned", "again"):
        c += [("work_%s00" % how, work, dict(s1=0, s2=0, how=how)), ("work_%s02" % how, work, dict(s1=0, s2=2, how=how))]
    c += [("work_22", work, dict(s1=2, s2=2, how="fields"), 2), ("work_fkp", work, dict(s1=0, s2=0, how="again", norm="FKP"))]
    for how in ("fields", "file", "again"):
        c += [("workflat_%s%d%d" % (how, a, b), workflat, dict(s1=a, s2=b, how=how)) for a, b in ((0, 0), (0, 2))]
    for how in ("fields", "file", "again"):
        c += [("cov_%s%d" % (how, k), cov, dict(sp=(0, 0, 0, 0) if not k else (0, 2, 0, 0), coupled=bool(k), how=how)) for k in (0, 1)]
    c += [("covflat_%s" % how, covflat, dict(sp=(0, 0, 0, 0), how=how)) for how in ("fields", "file")] + [("covflat2", covflat, dict(sp=(0, 2, 0, 0), how="fields"))]
    c += [("calls_%s" % k, calls, dict(kind=k)) for k in ("hp2", "car", "carflip")] + [("fcalls", fcalls, {})]
    if T:
        c += [("T_field_%s%d" % (k, s), cfield, dict(kind=k, spin=s, nt=1)) for k in ("hp2", "car", "carfull") for s in (1, 3)]
        c += [("T_work_%s%d%d" % (how, a, b), work, dict(s1=a, s2=b, how=how), 3) for how in ("beams", "bins", "file", "binned") for a, b in ((2, 0), (2, 2), (1, 2))]
        c += [("T_cov_%s" % how, cov, dict(sp=(2, 2, 0, 0), coupled=False, how=how), 3) for how in ("fields", "file")]
        c += [("T_covflat_%s" % how, covflat, dict(sp=(2, 2, 0, 2), how=how), 3) for how in ("fields", "file")]
    return c
