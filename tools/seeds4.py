F = "pymaster/field.py"
W = "pymaster/workspaces.py"
U = "pymaster/utils.py"
SEEDS = [
("p27_norm", "P27", [(W, "            l_exact=l_exact, dl_band=dl_band,\n            normalization=normalization)\n    else:\n        w = workspace", "            l_exact=l_exact, dl_band=dl_band)\n    else:\n        w = workspace")],
 "compute_full_master without a workspace and with normalization='FKP'", "the FKP normalisation asked for is silently replaced by MASTER",
 '''
r = np.random.RandomState(1)
m = 0.2 + 0.8 * r.rand(48)
f = nmt.NmtField(m, [r.randn(48)])
b = nmt.NmtBin.from_nside_linear(2, 2)
w = nmt.NmtWorkspace.from_fields(f, f, b, normalization="FKP")
sys.exit(0 if np.allclose(nmt.compute_full_master(f, f, b, normalization="FKP"), w.decouple_cell(nmt.compute_coupled_cell(f, f)), rtol=1e-8) else 1)
'''),
("p27_bias", "P27", [(W, "    pclb = deprojection_bias(f1, f2, clg)\n\n    if workspace is None:", "    pclb = deprojection_bias(f1, f2, clg) if f1.n_temp > 0 else 0 * pcln\n\n    if workspace is None:")],
 "compute_full_master with a guess spectrum where only the second field has templates", "the deprojection bias of the second field's templates is not subtracted",
 '''
r = np.random.RandomState(1)
m = 0.2 + 0.8 * r.rand(48)
f = nmt.NmtField(m, [r.randn(48)])
g = nmt.NmtField(m, [r.randn(48)], templates=[[r.randn(48)]])
b = nmt.NmtBin.from_nside_linear(2, 2)
w = nmt.NmtWorkspace.from_fields(f, g, b)
c = np.ones([1, 6])
ref = w.decouple_cell(nmt.compute_coupled_cell(f, g) - nmt.deprojection_bias(f, g, c))
sys.exit(0 if np.allclose(nmt.compute_full_master(f, g, b, cl_guess=c), ref, rtol=1e-8) else 1)
'''),
("p27_sym", "P27", [(W, "                     for a2 in alm2] for a1 in alm1])\n    if Nf != 0:", "                     for a2 in alm2] for a1 in alm1])\n    if f1.spin == f2.spin and ncl > 1:\n        cls = 0.5*(cls+np.transpose(cls, (1, 0, 2)))\n    if Nf != 0:")],
 "two different fields of the same non-zero spin", "EB and BE of different fields are averaged",
 '''
r = np.random.RandomState(1)
m = np.ones(48)
f, g = (nmt.NmtField(m, r.randn(2, 48)) for _ in range(2))
import healpy as hp
c = nmt.compute_coupled_cell(f, g)
a, b = f.get_alms(), g.get_alms()
sys.exit(0 if np.allclose(c[1], hp.alm2cl(a[0], b[1])) and np.allclose(c[2], hp.alm2cl(a[1], b[0])) else 1)
'''),
("p28_theta", "P28", [(U, "        i_theta_0 = int(theta_min/d_theta+0.5)", "        i_theta_0 = int(theta_min/d_theta)")],
 "a rectangular map whose first ring is at a colatitude that divides by the pixel size to slightly less than an integer", "the quadrature weights are shifted by one ring",
 '''
from astropy.wcs import WCS
bad = 0


def info(d, n, i, ny):
    w = WCS(naxis=2)
    w.wcs.cdelt = [d, -d]
    w.wcs.crval = [0., 0.]
    w.wcs.crpix = [1, 1 + n / 2 - i]
    w.wcs.ctype = ["RA---CAR", "DEC--CAR"]
    return nmt.NmtMapInfo(w, (ny, 4))


for d in (1., 1.5, 3., 7.2, 10., 12., 0.6):
    n = int(round(180 / d))
    ref = info(d, n, 0, n + 1).si.weight
    for i in range(1, n - 3):
        bad += not np.allclose(info(d, n, i, 3).si.weight, ref[i:i + 3], rtol=1e-6)
sys.exit(1 if bad else 0)
'''),
("p28_spin", "P28", [(U, "        alm = hp.map2alm_spin(map, spin, **kwargs)\n", "        alm = [hp.map2alm_spin(map, abs(spin), **kwargs)[i] * (-1.)**max(spin - 2, 0) for i in (0, 1)]\n")],
 "the healpy back end and maps of spin 3", "spin-3 analysis with healpy has the opposite sign",
 '''
r = np.random.RandomState(1)
q = r.randn(2, 48)
mi, ai = nmt.NmtMapInfo(None, [48]), nmt.NmtAlmInfo(4)
a = nmt.map2alm(q, 3, mi, ai, n_iter=0)
nmt.set_sht_calculator("healpy")
b = nmt.map2alm(q, 3, mi, ai, n_iter=0)
sys.exit(0 if np.allclose(a, b, atol=1e-9) else 1)
'''),
("p28_iter", "P28", [(U, "        dmap = a2m(alm, spin, map_info.si, alm_info)-map\n", "        dmap = map_info.si.pad_map(map_info.si.unpad_map(\n            a2m(alm, spin, map_info.si, alm_info)-map))\n")],
 "a rectangular map that covers part of each ring, and at least one iteration", "the residual outside the map is dropped, so iterated coefficients are not those of the map padded with zeros",
 '''
from astropy.wcs import WCS
w = WCS(naxis=2)
w.wcs.cdelt = [30., -30.]
w.wcs.crval = [0., 0.]
w.wcs.crpix = [1, 2]
w.wcs.ctype = ["RA---CAR", "DEC--CAR"]
v = WCS(naxis=2)
v.wcs.cdelt = [30., -30.]
v.wcs.crval = [0., 0.]
v.wcs.crpix = [1, 2]
v.wcs.ctype = ["RA---CAR", "DEC--CAR"]
r = np.random.RandomState(1)
m = r.randn(3, 12)
m[:, 5:] = 0
A, B = nmt.NmtMapInfo(w, (3, 5)), nmt.NmtMapInfo(v, (3, 12))
ai = nmt.NmtAlmInfo(3)
a = nmt.map2alm(np.array([m[:, :5].reshape(-1)]), 0, A, ai, n_iter=2)
b = nmt.map2alm(np.array([m.reshape(-1)]), 0, B, ai, n_iter=2)
sys.exit(0 if np.allclose(a, b, atol=1e-9) else 1)
'''),
("p29_zero", "P29", [(F, "        if tol_pinv is None:\n            tol_pinv = ut.nmt_params.tol_pinv_default\n\n        # 0. Preliminary", "        if not tol_pinv:\n            tol_pinv = ut.nmt_params.tol_pinv_default\n\n        # 0. Preliminary")],
 "an explicit tol_pinv=0 (exact inverse) after a larger default was set", "an explicit zero tolerance is replaced by the default, and a weak template is not removed",
 '''
t = np.zeros([2, 1, 48])
t[0, 0, ::2] = 1.
t[1, 0, 1::2] = 1e-2
m = np.arange(48.)
nmt.set_tol_pinv_default(1e-2)
f = nmt.NmtField(np.ones(48), [m], templates=t, tol_pinv=0.)
sys.exit(0 if abs(np.sum(f.get_maps()[0, 1::2])) < 1e-6 else 1)
'''),
("p29_lazy", "P29", [(F, "            amask = ut.map2alm(np.array([self.mask]), 0,\n                               self.minfo, self.ainfo_mask,\n                               n_iter=self.n_iter_mask)[0]", "            amask = ut.map2alm(np.array([self.mask]), 0,\n                               self.minfo, self.ainfo_mask,\n                               n_iter=max(self.n_iter_mask, self.n_iter if self.lite else 0))[0]")],
 "a lightweight field with more map iterations than mask iterations", "the mask coefficients of lightweight fields use the map's number of iterations",
 '''
r = np.random.RandomState(1)
m = r.rand(48)
f, g = (nmt.NmtField(m, [m], n_iter=3, n_iter_mask=0, lite=x) for x in (False, True))
sys.exit(0 if np.allclose(f.get_mask_alms(), g.get_mask_alms(), atol=1e-12) else 1)
'''),
("p29_bias", "P29", [(W, "    if f1.lite:\n        raise ValueError(\"Can't compute deprojection bias for \"\n                         \"lightweight fields\")\n    if n_iter is None:\n        n_iter = ut.nmt_params.n_iter_default", "    if f1.lite:\n        raise ValueError(\"Can't compute deprojection bias for \"\n                         \"lightweight fields\")\n    if n_iter is None:\n        n_iter = f1.n_iter")],
 "uncorr_noise_deprojection_bias without n_iter for a field built with another number of iterations than the default", "the default number of iterations is ignored",
 '''
r = np.random.RandomState(1)
m = 0.2 + 0.8 * r.rand(48)
f = nmt.NmtField(m, [r.randn(48)], templates=[[r.randn(48)]], n_iter=0)
v = r.rand(48)
nmt.set_n_iter_default(2)
sys.exit(0 if np.allclose(nmt.uncorr_noise_deprojection_bias(f, v), nmt.uncorr_noise_deprojection_bias(f, v, n_iter=2), rtol=1e-10, atol=0) else 1)
'''),
]
B = "pymaster/bins.py"
SEEDS += [
("p30_mask", "P30", [(F, "            mask = mask.astype(np.float64)\n\n        # 1.2", "            mask = mask.astype(np.float64, copy=False)\n\n        # 1.2")],
 "a HEALPix mask array that is changed after building the field and before its mask coefficients are first needed", "the field shares the caller's mask array",
 '''
r = np.random.RandomState(1)
m = 0.2 + r.rand(48)
f, g = nmt.NmtField(m, [r.randn(48)]), nmt.NmtField(m.copy(), [r.randn(48)])
m[:] = 0
sys.exit(0 if np.allclose(f.get_mask_alms(), g.get_mask_alms()) else 1)
'''),
("p30_maps", "P30", [(F, "        maps = np.array(maps, dtype=np.float64)\n        if (len(maps) != 1)", "        maps = np.asarray(maps, dtype=np.float64)\n        if not masked_on_input:\n            maps = maps.copy()\n        if (len(maps) != 1)"),
                    (F, "            self.maps = maps.copy()\n            if w_temp:", "            self.maps = maps\n            if w_temp:")],
 "maps given already masked as one float64 array, without templates or purification, and changed afterwards", "the field shares the caller's map array",
 '''
r = np.random.RandomState(1)
q = r.randn(2, 48)
f = nmt.NmtField(np.ones(48), q, masked_on_input=True)
k = q.copy()
q[:] = 0
sys.exit(0 if np.allclose(f.get_maps(), k) else 1)
'''),
("p30_ells", "P30", [(B, "        return lib.get_ell_eff(self.bin, self.bin.n_bands)", "        if getattr(self, '_leff', None) is None:\n            self._leff = lib.get_ell_eff(self.bin, self.bin.n_bands)\n        return self._leff")],
 "effective multipoles that the caller rescales in place and then asks for again", "the effective multipoles are cached and handed out without a copy",
 '''
b = nmt.NmtBin.from_lmax_linear(11, 2)
l = b.get_effective_ells()
k = l.copy()
l *= 2
sys.exit(0 if np.allclose(b.get_effective_ells(), k) else 1)
'''),
]
