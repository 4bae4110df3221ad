MF = "src/nmt_master_flat.c"
FF = "src/nmt_field_flat.c"
FS = "src/flatsky_utils.c"
FP = "pymaster/field.py"
UP = "pymaster/utils.py"
CP = "pymaster/covariance.py"
SEEDS = [
("p10_mask", "P10", [(CP, "        pcl_mask_12_21 = get_mask_prod_cl(fla1, flb2, fla2, flb1)", "        pcl_mask_12_21 = get_mask_prod_cl(fla1, flb2, flb1, flb2)")],
 "four fields with different masks (those of fla2 and flb2 must differ)", "the second Wick contraction uses the wrong product of masks",
 '''
r = np.random.RandomState(1)
m = [0.2 + 0.8 * r.rand(48) for i in range(4)]
f = [nmt.NmtField(x, None, spin=0, lmax=5) for x in m]
b = nmt.NmtBin(ells=np.arange(6), bpws=np.arange(6) // 2, weights=np.ones(6), lmax=5)
cl = np.ones((1, 6))
def cov(a, c, d, e):
    wa, wb = nmt.NmtWorkspace.from_fields(f[a], f[c], b), nmt.NmtWorkspace.from_fields(f[d], f[e], b)
    cw = nmt.NmtCovarianceWorkspace.from_fields(f[a], f[c], f[d], f[e])
    return nmt.gaussian_covariance(cw, 0, 0, 0, 0, cl, cl, cl, cl, wa, wb=wb)
# exchanging the two spectra transposes the matrix, exchanging the fields of one changes nothing
sys.exit(0 if np.allclose(cov(0, 1, 2, 3), cov(2, 3, 0, 1).T, rtol=1e-8, atol=0) and np.allclose(cov(0, 1, 2, 3), cov(1, 0, 2, 3), rtol=1e-8, atol=0) else 1)
'''),
("p09_fell", "P09", [("src/nmt_covar.c", "wb->bin->w_list[band_b][ilb]*wb->bin->f_ell[band_b][ilb];", "wb->bin->w_list[band_b][ilb]*wa->bin->f_ell[band_a][ila];")],
 "bandpowers with a multipole-dependent prefactor f_ell (e.g. is_Dell)", "covariance elements carry f_ell of the row twice instead of that of row and column",
 '''
r = np.random.RandomState(1)
m = 0.2 + 0.8 * r.rand(48)
f = nmt.NmtField(m, None, spin=0, lmax=5)
l = np.arange(6)
b = nmt.NmtBin(ells=l, bpws=l // 2, weights=np.ones(6), f_ell=1. + l, lmax=5)
w = nmt.NmtWorkspace.from_fields(f, f, b)
cw = nmt.NmtCovarianceWorkspace.from_fields(f, f)
cl = np.array([1. + r.rand(6)])
w2 = nmt.NmtWorkspace.from_fields(f, f, nmt.NmtBin(ells=l, bpws=l // 2, weights=1. + l, lmax=5))
C = nmt.gaussian_covariance(cw, 0, 0, 0, 0, cl, cl, cl, cl, w)
# the inverse binned matrices turn the bandpower covariance back into the binned pseudo-spectrum covariance, which is symmetric
B = w.get_bandpower_windows().reshape(3, 6)
sys.exit(0 if np.allclose(C, C.T, rtol=1e-8, atol=1e-14) else 1)
'''),
("p10_norm", "P10", [("src/nmt_covar.c", "    cl_masks[1][ii]=cl_masks_12_21[ii]*(ii+0.5)/(2*M_PI);", "    cl_masks[1][ii]=cl_masks_12_21[ii]*((ii<=lmax) ? (ii+0.5) : (lmax+0.5))/(2*M_PI);")],
 "masks sampled to a higher multipole than the fields (lmax_mask>lmax)", "the second set of coupling coefficients mis-weights the mask multipoles above lmax",
 '''
r = np.random.RandomState(1)
m = 0.2 + 0.8 * r.rand(48)
l = np.arange(4)
b = nmt.NmtBin(ells=l, bpws=l, weights=np.ones(4), lmax=3)
f = nmt.NmtField(m, None, spin=0, lmax=3, lmax_mask=5)
w = nmt.NmtWorkspace.from_fields(f, f, b)
cw = nmt.NmtCovarianceWorkspace.from_fields(f, f)
one, zero = np.ones((1, 4)), np.zeros((1, 4))
a = nmt.gaussian_covariance(cw, 0, 0, 0, 0, one, zero, zero, one, w)
c = nmt.gaussian_covariance(cw, 0, 0, 0, 0, zero, one, one, zero, w)
sys.exit(0 if np.allclose(a, c, rtol=1e-8) else 1)
'''),
("p11_perm", "P11", [("src/nmt_io.c", "  //Permutation to vector\n  int *perm=my_malloc(n_el*sizeof(int));\n  for(ii=0;ii<n_el;ii++)\n    perm[ii]=(int)(w->coupling_matrix_perm->data[ii]);", "  //Permutation to vector\n  int *perm=my_malloc(n_el*sizeof(int));\n  for(ii=0;ii<n_el;ii++)\n    perm[w->coupling_matrix_perm->data[ii]]=(int)ii;")],
 "a coupling matrix whose LU decomposition exchanges three or more rows cyclically", "workspaces read back from a file decouple with the inverse permutation",
 '''
import os, tempfile
l = np.arange(3)
b = nmt.NmtBin(ells=l, bpws=l, weights=np.ones(3), lmax=2)
f = nmt.NmtField(np.ones(48), None, spin=0, lmax=2)
w = nmt.NmtWorkspace.from_fields(f, f, b)
w.update_coupling_matrix(np.array([[0., 1, 0.2], [0.1, 0.2, 1], [1, 0.3, 0.4]]))
fn = os.path.join(tempfile.mkdtemp(), "w.fits")
w.write_to(fn)
v = nmt.NmtWorkspace.from_file(fn)
c = np.array([[1., 2, 3]])
sys.exit(0 if np.allclose(w.decouple_cell(c), v.decouple_cell(c)) else 1)
'''),
("p12_pure", "P12", [(MF, "		  coup_binned_thr[ik1+4][ik2+6]-=fs1[pe2]*fc2[pb2]*mp; //EB,BB", "		  coup_binned_thr[ik1+4][ik2+6]-=fs1[pb2]*fc2[pb2]*mp; //EB,BB")],
 "a TEB flat workspace of a field with only B-mode purification", "the B->EB leakage of E-mode/B-purified spectra is lost in the binned matrix",
 '''
r = np.random.RandomState(1)
m = 0.2 + 0.8 * r.rand(4, 4)
b = nmt.NmtBinFlat(np.array([0., 10.]), np.array([10., 20.]))
f0 = nmt.NmtFieldFlat(1., 1., m, r.rand(1, 4, 4))
f2 = nmt.NmtFieldFlat(1., 1., m, r.rand(2, 4, 4), purify_b=True)
w7 = nmt.NmtWorkspaceFlat()
w7.compute_coupling_matrix(f0, f2, b, is_teb=True)
w4 = nmt.NmtWorkspaceFlat()
w4.compute_coupling_matrix(f2, f2, b)
c = r.rand(4, 2)
x = np.zeros((7, 2))
x[3:] = c
sys.exit(0 if np.allclose(w7.decouple_cell(x)[3:], w4.decouple_cell(c)) else 1)
'''),
("p13_ring", "P13", [(MF, "	ir=(int)(kmod*w->fs->i_dell);\n	if(ir<w->fs->n_ell) {\n	  int ic,ind0=ir*w->ncls;", "	ir=(int)(kmod*w->fs->i_dell);\n	if((ir<w->fs->n_ell) && (2*iy1!=w->fs->ny)) {\n	  int ic,ind0=ir*w->ncls;")],
 "an even number of rows: the modes with ky at the Nyquist frequency", "coupled theory spectra (couple_cell) skip the Nyquist row of the Fourier plane",
 '''
r = np.random.RandomState(1)
m = 0.2 + 0.8 * r.rand(4, 6)
def get(mask, lx, ly):
    b = nmt.NmtBinFlat(np.array([0., 8., 16.]), np.array([8., 16., 30.]))
    f = nmt.NmtFieldFlat(lx, ly, mask, r.rand(1, *mask.shape))
    w = nmt.NmtWorkspaceFlat()
    w.compute_coupling_matrix(f, f, b)
    l = np.linspace(0, 40, 200)
    return w.couple_cell(l, np.array([np.exp(-l / 10.)]))
# a transposed patch has the same coupling
sys.exit(0 if np.allclose(get(m, 1.5, 1.), get(m.T.copy(), 1., 1.5), rtol=1e-6) else 1)
'''),
("p14_band", "P14", [("src/nmt_covar_flat.c", "	if(n_cells[ib1]*n_cells[ib2]>0)\n	  norm=fac_norm/(n_cells[ib1]*n_cells[ib2]);", "	if(n_cells[ib1]*n_cells[ib2]>1)\n	  norm=fac_norm/(n_cells[ib1]*n_cells[ib2]);")],
 "a band with a single Fourier mode (typically the one with k=0)", "the variance of single-mode bandpowers vanishes",
 '''
r = np.random.RandomState(1)
m = 0.2 + 0.8 * r.rand(4, 4)
b = nmt.NmtBinFlat(np.array([0., 5.]), np.array([5., 20.]))
f = nmt.NmtFieldFlat(1., 1., m, r.rand(1, 4, 4))
w = nmt.NmtWorkspaceFlat()
w.compute_coupling_matrix(f, f, b)
cw = nmt.NmtCovarianceWorkspaceFlat()
cw.compute_coupling_coefficients(f, f, b)
l = np.linspace(0, 40, 50)
c = np.array([np.ones(50)])
C = nmt.gaussian_covariance_flat(cw, 0, 0, 0, 0, l, c, c, c, c, w)
sys.exit(0 if np.linalg.eigvalsh(C)[0] > 1e-6 * np.linalg.eigvalsh(C)[-1] and C[0, 0] > 0 else 1)
'''),
("p15_lite", "P15", [(FF, "    if((!is_lite) && (fl->ntemp>0)) {\n      //Compute purified contaminant DFTs\n      for(itemp=0;itemp<fl->ntemp;itemp++) {\n	nmt_purify_flat(", "    if((!is_lite) && (fl->ntemp>0)) {\n      //Compute purified contaminant DFTs\n      for(itemp=0;itemp<fl->ntemp;itemp++) {\n	if(itemp) fs_map_product(fl->fs,temp_unmasked[itemp][0],fl->mask,temp_unmasked[itemp][0]);\n	nmt_purify_flat(")],
 "a purified flat field with at least two contaminant templates", "the first component of all templates but the first is masked twice",
 '''
r = np.random.RandomState(1)
m = 0.2 + 0.8 * r.rand(4, 4)
t = r.rand(2, 2, 4, 4)
f = nmt.NmtFieldFlat(1., 1., m, r.rand(2, 4, 4), templates=t.copy(), purify_b=True)
sys.exit(0 if np.allclose(f.get_templates(), t * m) else 1)
'''),
("p15_rot", "P15", [(FS, "	e=sig*(alm[0][index]*csphi-alm[1][index]*ssphi);\n	b=sig*(alm[0][index]*ssphi+alm[1][index]*csphi);\n	alm[0][index]=e;", "	if((spin>2) && (2*ix==fs->nx)) ssphi=0;\n	e=sig*(alm[0][index]*csphi-alm[1][index]*ssphi);\n	b=sig*(alm[0][index]*ssphi+alm[1][index]*csphi);\n	alm[0][index]=e;")],
 "fields of spin larger than 2 on an even number of columns, Nyquist column", "E/B decomposition of the Nyquist column is not a rotation",
 '''
r = np.random.RandomState(1)
m = np.ones((4, 4))
f = nmt.NmtFieldFlat(1., 1., m, r.rand(2, 4, 4), spin=3)
b = nmt.NmtBinFlat(np.array([0.]), np.array([30.]))
c = nmt.compute_coupled_cell_flat(f, f, b)
s = np.sum(f.get_maps()**2) / 16 ** 2 * 16 / 16 
d = nmt.compute_coupled_cell_flat(*[nmt.NmtFieldFlat(1., 1., m, [f.get_maps()[0]])] * 2, b)[0] + nmt.compute_coupled_cell_flat(*[nmt.NmtFieldFlat(1., 1., m, [f.get_maps()[1]])] * 2, b)[0]
sys.exit(0 if np.allclose(c[0] + c[3], d) else 1)
'''),
("p16_inv", "P16", [(MF, "	double nij=gsl_matrix_get(fl2->matrix_M,iti,itj);\n	//w*g^j", "	double nij=gsl_matrix_get(fl2->matrix_M,itj,itj);\n	//w*g^j")],
 "two correlated contaminant templates in the second field", "the deprojection bias uses the diagonal of the inverse template covariance",
 '''
r = np.random.RandomState(1)
m = 0.2 + 0.8 * r.rand(4, 4)
b = nmt.NmtBinFlat(np.array([0., 10.]), np.array([10., 30.]))
t = r.rand(2, 1, 4, 4)
l = np.linspace(0, 40, 50)
w = nmt.NmtWorkspaceFlat()
def bias(t):
    f1 = nmt.NmtFieldFlat(1., 1., m, r.rand(1, 4, 4))
    f2 = nmt.NmtFieldFlat(1., 1., m, r.rand(1, 4, 4), templates=t.copy())
    return nmt.deprojection_bias_flat(f1, f2, b, l, np.array([np.exp(-l / 10)]))
# only the space spanned by the templates matters
sys.exit(0 if np.allclose(bias(t), bias(np.array([t[0] + t[1], t[0] - 3 * t[1]])), rtol=1e-6) else 1)
'''),
("p17_rows", "P17", [("src/nmt_mask_flat.c", "    int ny_patch=(int)(1.2*aporad/dy);", "    int ny_patch=(int)(1.2*aporad/dx);")],
 "C1/C2 apodization of a patch whose pixels are wider than high", "masked pixels within the apodization scale, but many rows away, are ignored",
 '''
m = np.ones((12, 5))
m[0] = 0
a = nmt.mask_apodization_flat(m, 1., 0.6, np.degrees(0.45), "C1")
b = nmt.mask_apodization_flat(m.T.copy(), 0.6, 1., np.degrees(0.45), "C1")
x = (np.arange(12) * 0.05 / 0.45).clip(0, 1)
p = x - np.sin(2 * np.pi * x) / (2 * np.pi)
sys.exit(0 if np.allclose(a, p[:, None]) else 1)
'''),
("p18_shift", "P18", [("src/healpix_extra.c", "    kshift=modu_he(ir,2);", "    kshift=modu_he(iz,2);")],
 "rings in the equatorial belt for even nside", "the rings are taken to be shifted by half a pixel, so that a narrow range around a pixel centre selects two pixels",
 '''
import ctypes
import healpy as hp
L = ctypes.CDLL(sys.modules["_nmtlib"].__file__)
q = L.he_in_ring
q.argtypes = [ctypes.c_int] * 2 + 2 * [ctypes.c_double] + 2 * [ctypes.POINTER(ctypes.c_int)]
ns, bad = 4, 0
for ip in range(12 * ns ** 2):
    th, ph = hp.pix2ang(ns, ip)
    iz = hp.pix2ring(ns, np.array([ip]))[0]
    buf, n = (ctypes.c_int * 64)(), ctypes.c_int(64)
    q(ns, int(iz), ph, 0.02, buf, ctypes.byref(n))
    bad += buf[:n.value] != [ip]
sys.exit(0 if bad == 0 else 1)
'''),
("p20_task", "P20", [(FP, "                                                  n_iter=n_iter,\n                                                  task=task)[0]", "                                                  n_iter=n_iter,\n                                                  task=[True, True])[0]")],
 "a field with only one of E and B purified and contaminant templates", "the template coefficients stored are purified in both components",
 '''
r = np.random.RandomState(1)
m = 0.2 + 0.8 * r.rand(48)
t = r.randn(1, 2, 48)
f = nmt.NmtField(m, r.randn(2, 48), templates=t.copy(), purify_b=True)
g = nmt.NmtField(m, t[0].copy(), purify_b=True)
sys.exit(0 if np.allclose(f.alm_temp[0], g.get_alms(), atol=1e-10) else 1)
'''),
("p20_noise", "P20", [("pymaster/workspaces.py", "        f1.minfo.si.dot_map(fj, fr*(f1.mask**2*sig2)[None, :])", "        f1.minfo.si.dot_map(fj, fr*(f1.mask*sig2)[None, :])")],
 "deprojection of noise with a mask that is not binary", "the second-order term of the noise deprojection bias has the wrong weight",
 '''
r = np.random.RandomState(1)
m = 0.2 + 0.8 * r.rand(48)
s = 0.5 + r.rand(48)
t = np.zeros((1, 1, 48))
t[0, 0, 7] = 1
f = nmt.NmtField(m, r.randn(1, 48), templates=t, n_iter=0, lmax=4)
# such a template removes one pixel, and with it its noise
c = nmt.uncorr_noise_deprojection_bias(f, s, n_iter=0)
sys.exit(0 if np.allclose(c, -m[7] ** 2 * s[7] / 48) else 1)
'''),
("p21_copy", "P21", [(FP, "        self.field = np.atleast_2d(np.array(field, dtype=np.float64))", "        self.field = np.atleast_2d(np.asarray(field, dtype=np.float64))")],
 "two fields made from the same array of values", "the values are multiplied by the weights in the caller's array, so that they enter the second field twice",
 '''
r = np.random.RandomState(1)
p = np.array([np.arccos(r.uniform(-1, 1, 10)), r.uniform(0, 6.28, 10)])
w = r.rand(10)
g = r.randn(2, 10)
a = nmt.NmtFieldCatalog(p, w, g, lmax=4).get_alms()
sys.exit(0 if np.allclose(nmt.NmtFieldCatalog(p, w, g, lmax=4).get_alms(), a) else 1)
'''),
("p22_eq", "P22", [(UP, "        for att in ['npix', 'nx', 'ny', 'theta_min',\n                    'theta_max', 'phi0', 'd_theta', 'd_phi']:", "        for att in ['npix', 'nx', 'ny', 'theta_min',\n                    'theta_max', 'd_theta', 'd_phi']:")],
 "two CAR geometries differing only in the longitude of the first column", "maps of different regions of the sky are considered compatible",
 '''
from astropy.wcs import WCS
def geo(ra):
    w = WCS(naxis=2)
    w.wcs.cdelt = [-5, 5]
    w.wcs.crval = [ra, 0]
    w.wcs.crpix = [3, 3]
    w.wcs.ctype = ['RA---CAR', 'DEC--CAR']
    return nmt.NmtMapInfo(w, (6, 6))
sys.exit(0 if geo(40.) != geo(90.) and geo(40.) == geo(40.) else 1)
'''),
("p23_max", "P23", [("src/utils.c", "  double eval_max=gsl_vector_max(eval);", "  double eval_max=gsl_blas_dasum(eval);")],
 "several templates, the smallest eigenvalue of whose covariance is close to the threshold", "eigenvalues are discarded relative to the trace instead of the largest eigenvalue",
 '''
r = np.random.RandomState(1)
q = np.linalg.qr(r.rand(36, 3))[0].T.reshape(3, 1, 6, 6)
t = np.sqrt(np.array([1., 0.9, 0.8]))[:, None, None, None] * q
f = nmt.NmtFieldFlat(1., 1., np.ones((6, 6)), q.sum(axis=0), templates=t.copy(), tol_pinv=0.5)
sys.exit(0 if np.allclose(f.get_maps(), 0, atol=1e-10) else 1)
'''),
("p24_ky", "P24", [(FS, "      if(2*iy<=ny)\n	ky=iy*dky;\n      else\n	ky=-(ny-iy)*dky;\n      for(ix=0;ix<=nx/2;ix++) {\n	int imp1,imp2;", "      if(2*iy<=ny)\n	ky=iy*dky;\n      else\n	ky=-(ny-iy)*dkx;\n      for(ix=0;ix<=nx/2;ix++) {\n	int imp1,imp2;")],
 "simulations on a patch whose sides differ, modes with negative ky", "modes with negative ky are drawn with the power of another wavenumber",
 '''
l = np.arange(400.)
c = np.where((l > 60) & (l < 120), 1., 0.)
lx, ly, n = 1., 0.7, 64
m = nmt.synfast_flat(n, n, lx, ly, np.array([c]), [0], seed=3)[0]
k = np.hypot(2 * np.pi / lx * np.fft.fftfreq(n, 1. / n)[None, :], 2 * np.pi / ly * np.fft.fftfreq(n, 1. / n)[:, None])
p = np.abs(np.fft.fft2(m)) ** 2
sys.exit(0 if np.all(p[(k < 59) | (k > 121)] < 1e-10 * p.max()) else 1)
'''),
("p25_len", "P25", [("src/nmt_covar.c", 'void  nmt_compute_gaussian_covariance(nmt_covar_workspace *cw,\n\t\t\t\t      int spin_a,int spin_b,int spin_c,int spin_d,\n\t\t\t\t      nmt_workspace *wa,nmt_workspace *wb,\n\t\t\t\t      flouble **clac,flouble **clad,\n\t\t\t\t      flouble **clbc,flouble **clbd,\n\t\t\t\t      flouble *covar_out)\n{\n  if((cw->lmax<wa->bin->ell_max) || (cw->lmax<wb->bin->ell_max))\n    report_error(NMT_ERROR_COVAR,"Coupling coefficients only computed up to l=%d, but you require "\n\t\t "lmax=%d. Recompute this workspace with a larger lmax\\n",cw->lmax,wa->bin->ell_max);\n', 'void  nmt_compute_gaussian_covariance(nmt_covar_workspace *cw,\n\t\t\t\t      int spin_a,int spin_b,int spin_c,int spin_d,\n\t\t\t\t      nmt_workspace *wa,nmt_workspace *wb,\n\t\t\t\t      flouble **clac,flouble **clad,\n\t\t\t\t      flouble **clbc,flouble **clbd,\n\t\t\t\t      flouble *covar_out)\n{\n  if((cw->lmax<wa->bin->ell_max))\n    report_error(NMT_ERROR_COVAR,"Coupling coefficients only computed up to l=%d, but you require "\n\t\t "lmax=%d. Recompute this workspace with a larger lmax\\n",cw->lmax,wa->bin->ell_max);\n')],
 "a covariance between spectra with different maximum multipoles, larger for the second than for the coefficients", "the coupling coefficients are read out of bounds instead of refusing",
 '''
m = 0.2 + 0.8 * np.random.RandomState(1).rand(48)
def ws(lmax):
    f = nmt.NmtField(m, None, spin=0, lmax=lmax)
    l = np.arange(lmax + 1)
    return f, nmt.NmtWorkspace.from_fields(f, f, nmt.NmtBin(ells=l, bpws=l // 2, weights=np.ones(lmax + 1), lmax=lmax))
f, wa = ws(3)
g, wb = ws(5)
cw = nmt.NmtCovarianceWorkspace.from_fields(f, f)
c = np.ones((1, 6))
try:
    nmt.gaussian_covariance(cw, 0, 0, 0, 0, c, c, c, c, wa, wb=wb)
except Exception:
    sys.exit(0)
sys.exit(1)
'''),
("p26_acc", "P26", [("src/nmt_covar_flat.c", "	n_cells[iy1]+=n_cells_thr[iy1];", "	n_cells[iy1]=n_cells_thr[iy1];")],
 "more than one thread", "the number of modes per band is that seen by the thread that finishes last, so covariances depend on the threads",
 '''
r = np.random.RandomState(1)
m = 0.2 + 0.8 * r.rand(8, 8)
b = nmt.NmtBinFlat(np.array([5., 15.]), np.array([15., 30.]))
f = nmt.NmtFieldFlat(1., 1., m, r.rand(1, 8, 8))
w = nmt.NmtWorkspaceFlat()
w.compute_coupling_matrix(f, f, b)
l = np.linspace(0, 60, 50)
c = np.array([np.ones(50)])
def get():
    cw = nmt.NmtCovarianceWorkspaceFlat()
    cw.compute_coupling_coefficients(f, f, b)
    return nmt.gaussian_covariance_flat(cw, 0, 0, 0, 0, l, c, c, c, c, w)
import ctypes
a = get()
ctypes.CDLL("libgomp.so.1", mode=ctypes.RTLD_GLOBAL).omp_set_num_threads(1)
sys.exit(0 if np.allclose(a, get()) else 1)
'''),
]
