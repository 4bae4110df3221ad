MA = "src/nmt_master.c"
MF = "src/nmt_master_flat.c"
FS = "src/flatsky_utils.c"
FP = "pymaster/field.py"
WP = "pymaster/workspaces.py"
SEEDS = [
("p19_templ", "P19", [(FP, "                    temp_unmasked[:, :, good] /= goodm[None, None, :]", "                    temp_unmasked[:1][:, :, good] /= goodm[None, None, :]")],
 "a purified field whose maps and templates are given already masked (masked_on_input), two or more templates, and a mask that is not binary",
 "only the first template is unmasked before purification, so the purified field depends on whether its inputs came masked",
 '''
r = np.random.RandomState(1)
m = 0.2 + 0.8 * r.rand(48)
q, t = r.randn(2, 48), r.randn(2, 2, 48)
f = nmt.NmtField(m, q.copy(), templates=t.copy(), purify_b=True)
g = nmt.NmtField(m, q * m, templates=t * m, purify_b=True, masked_on_input=True)
sys.exit(0 if np.allclose(f.get_alms(), g.get_alms(), atol=1e-8) else 1)
'''),
("p13_cut", "P13", [(FS, "	  if((ky>=lmn_y) && (ky<=lmx_y))\n	    continue;\n	  for(ix=0;ix<fs->nx;ix++) {\n	    int ix_here,iy_here;\n	    long index;\n	    flouble kmod,kx;",
                     "	  if((fabs(ky)>=lmn_y) && (fabs(ky)<=lmx_y))\n	    continue;\n	  for(ix=0;ix<fs->nx;ix++) {\n	    int ix_here,iy_here;\n	    long index;\n	    flouble kmod,kx;")],
 "a cut in ky that is not symmetric about zero", "pseudo-spectra with a one-sided cut (ell_cut_y=[a,b], a>0) also drop the modes at negative ky",
 '''
r = np.random.RandomState(1)
nx, ny, lx, ly = 4, 8, 0.1, 0.2
f = nmt.NmtFieldFlat(lx, ly, np.ones([ny, nx]), [r.randn(ny, nx)])
k = 2 * np.pi / ly
b = nmt.NmtBinFlat([0.5], [1e4])
full, cut, both = (nmt.compute_coupled_cell_flat(f, f, b, ell_cut_y=c)[0, 0] for c in ([1., -1.], [1.5 * k, 2.5 * k], [-2.5 * k, -1.5 * k]))
# count the modes kept by hand
d = np.abs(np.fft.fft2(f.get_maps()[0])) ** 2
ky, kx = np.meshgrid(2 * np.pi * np.fft.fftfreq(ny, ly / ny), 2 * np.pi * np.fft.fftfreq(nx, lx / nx), indexing='ij')
s = lambda c: d[(ky ** 2 + kx ** 2 > .25) & ~((ky >= c[0]) & (ky <= c[1]))].mean()
sys.exit(0 if np.allclose([cut / full, both / full], [s([1.5 * k, 2.5 * k]) / s([1., -1.]), s([-2.5 * k, -1.5 * k]) / s([1., -1.])], rtol=1e-6) else 1)
'''),
("p04_pure", "P04", [(MA, "      if(!(c->pure_any)) //We can use symmetry", "      if(!(c->pure_e1 || c->pure_b1)) //We can use symmetry")],
 "two spin-2 fields of which only the second is purified", "the lower triangle of the coupling matrix is left empty",
 '''
r = np.random.RandomState(1)
m = 0.2 + 0.8 * r.rand(48)
l = np.arange(6)
b = nmt.NmtBin(ells=l, bpws=l, weights=np.ones(6), lmax=5)
f, g = (nmt.NmtField(m, None, spin=2, lmax=5, purify_b=p) for p in (False, True))
A, B = (nmt.NmtWorkspace.from_fields(x, y, b).get_coupling_matrix().reshape(6, 2, 2, 6, 2, 2) for x, y in ((f, g), (g, f)))
sys.exit(0 if np.allclose(A, B.transpose(0, 2, 1, 3, 5, 4), rtol=1e-8, atol=1e-14) else 1)
'''),
("p05_same", "P05", [(MA, "  //Store new bins\n  nmt_bins_free(w->bin);\n  nmt_workspace_store_bins(w,bin);", "  //Nothing to do if the bandpowers have not changed\n  if(bin->n_bands==w->bin->n_bands) {\n    int ib,same=1;\n    for(ib=0;ib<bin->n_bands;ib++) {\n      if((bin->nell_list[ib]!=w->bin->nell_list[ib]) ||\n	 memcmp(bin->ell_list[ib],w->bin->ell_list[ib],bin->nell_list[ib]*sizeof(int)) ||\n	 memcmp(bin->w_list[ib],w->bin->w_list[ib],bin->nell_list[ib]*sizeof(flouble)))\n	same=0;\n    }\n    if(same)\n      return;\n  }\n\n  //Store new bins\n  nmt_bins_free(w->bin);\n  nmt_workspace_store_bins(w,bin);")],
 "a workspace whose new bins have the same multipoles and weights as the old ones but another prefactor f_ell", "update_bins keeps the old bandpower definition",
 '''
r = np.random.RandomState(1)
m = 0.2 + 0.8 * r.rand(48)
l = np.arange(6)
f = nmt.NmtField(m, None, spin=0, lmax=5)
b1, b2 = (nmt.NmtBin(ells=l, bpws=l // 2, weights=np.ones(6), f_ell=x, lmax=5) for x in (np.ones(6), 1. + l))
w = nmt.NmtWorkspace.from_fields(f, f, b1)
w.update_bins(b2)
v = nmt.NmtWorkspace.from_fields(f, f, b2)
c = r.rand(1, 6)
sys.exit(0 if np.allclose(w.decouple_cell(c), v.decouple_cell(c)) else 1)
'''),
("p07_band", "P07", [(MA, "      l_end = l2+dl_band;", "      l_end = l2+dl_band-1;")],
 "the Toeplitz approximation with a finite band of exact elements", "the outermost exact diagonal is never computed",
 '''
r = np.random.RandomState(1)
m = 0.2 + 0.8 * r.rand(192)
L, lt, le, db = 10, 9, 2, 2
l = np.arange(L + 1)
b = nmt.NmtBin(ells=l, bpws=l, weights=np.ones(L + 1), lmax=L)
f = nmt.NmtField(m, None, spin=0, lmax=L)
A = nmt.NmtWorkspace.from_fields(f, f, b).get_coupling_matrix()
B = nmt.NmtWorkspace.from_fields(f, f, b, l_toeplitz=lt, l_exact=le, dl_band=db).get_coupling_matrix()
bad = [(i, j) for i in l for j in l if le < i <= lt and le < j <= lt and abs(i - j) <= db and not np.isclose(A[i, j], B[i, j], rtol=1e-8)]
sys.exit(1 if bad else 0)
'''),
("p08_bias", "P08", [(MA, "	dl_b+=(cl_in[icl][l2]-cl_noise_in[icl][l2]-cl_bias[icl][l2])*w->bin->f_ell[ib2][i2]*w->bin->w_list[ib2][i2];",
                     "	dl_b+=((cl_in[icl][l2]-cl_noise_in[icl][l2])*w->bin->f_ell[ib2][i2]-cl_bias[icl][l2])*w->bin->w_list[ib2][i2];")],
 "decoupling with a deprojection bias and bandpowers with a multipole-dependent prefactor", "the deprojection bias is subtracted without the prefactor f_ell",
 '''
r = np.random.RandomState(1)
m = 0.2 + 0.8 * r.rand(48)
l = np.arange(6)
f = nmt.NmtField(m, None, spin=0, lmax=5)
w = nmt.NmtWorkspace.from_fields(f, f, nmt.NmtBin(ells=l, bpws=l // 2, weights=np.ones(6), f_ell=1. + l, lmax=5))
c, d = r.rand(2, 1, 6)
sys.exit(0 if np.allclose(w.decouple_cell(c, cl_bias=d), w.decouple_cell(c - d)) else 1)
'''),
("p16_order", "P16", [(MF, "	    fs_alter_alm(fl1->fs,-1.,alm_1_dum[im1],alm_2_dum[im2],cl_proposal_f[im1*fl2->nmaps+im2],1);",
                      "	    fs_alter_alm(fl1->fs,-1.,alm_1_dum[im1],alm_2_dum[im2],cl_proposal_f[im2*fl1->nmaps+im1],1);")],
 "two spin-2 fields of which only the first has templates, and guess spectra with C^EB different from C^BE", "the deprojection bias mixes up the off-diagonal guess spectra",
 '''
r = np.random.RandomState(1)
nx, ny, lx, ly = 6, 6, 0.1, 0.1
m = 0.2 + 0.8 * r.rand(ny, nx)
q, t = r.randn(2, 2, ny, nx), r.randn(1, 2, ny, nx)
f1 = lambda: nmt.NmtFieldFlat(lx, ly, m, q[0].copy(), templates=t.copy())
f2 = lambda: nmt.NmtFieldFlat(lx, ly, m, q[1].copy())
b = nmt.NmtBinFlat([10., 120.], [120., 260.])
k = np.linspace(0, 500, 20)
z = np.zeros(20)
c = np.exp(-k / 200)
# exchanging the two fields exchanges C^EB and C^BE, of the guess and of the bias
A = nmt.deprojection_bias_flat(f1(), f2(), b, k, np.array([c, 2 * c, 5 * c, c]))
B = nmt.deprojection_bias_flat(f2(), f1(), b, k, np.array([c, 5 * c, 2 * c, c]))
sys.exit(0 if np.allclose(A, B[[0, 2, 1, 3]], rtol=1e-6, atol=1e-12 * np.abs(A).max()) else 1)
'''),
("p20_prod", "P20", [(WP, "            clb += np.einsum('ij,rs,jr,isklm',\n                             f1.iM, f2.iM, prod_fg, pcl_fg)", "            clb += np.einsum('ij,rs,rj,isklm',\n                             f1.iM, f2.iM, prod_fg, pcl_fg)")],
 "two different fields with the same number, two or more, of templates", "the term of the deprojection bias with templates of both fields pairs them the wrong way round",
 '''
r = np.random.RandomState(1)
m, v = 0.2 + 0.8 * r.rand(2, 48)
s, t = r.randn(2, 2, 1, 48)
f = nmt.NmtField(m, r.randn(1, 48), templates=s.copy())
g = nmt.NmtField(v, r.randn(1, 48), templates=t.copy())
h = nmt.NmtField(v, r.randn(1, 48), templates=t[::-1].copy())
c = np.array([1. / (1 + np.arange(6.))])
# the order of the templates of a field does not matter
sys.exit(0 if np.allclose(nmt.deprojection_bias(f, g, c), nmt.deprojection_bias(f, h, c), rtol=1e-8, atol=1e-14) else 1)
'''),
("p21_alpha", "P21", [(FP, "        self._alpha = np.sum(weights)/np.sum(weights_rand)", "        self._alpha = np.sum(weights)*len(weights_rand)/np.sum(weights_rand)/len(weights_rand)\n        self._alpha *= np.mean(weights_rand)/np.median(weights_rand)")],
 "random catalogs whose weights have a skewed distribution", "the normalisation of the randoms is wrong, so the field keeps a monopole",
 '''
r = np.random.RandomState(1)
p, q = np.array([1.4 * r.rand(10) + .2, r.rand(10) * 6]), np.array([1.4 * r.rand(40) + .2, r.rand(40) * 6])
w, v = r.rand(10), r.rand(40) ** 3
f = nmt.NmtFieldCatalogClustering(p, w, q, v, lmax=5, lonlat=False)
sys.exit(0 if abs(f.get_alms()[0, 0]) < 1e-5 * abs(f.get_mask_alms()[0]) else 1)
'''),
("p17_neg", "P17", [("src/nmt_mask.c", "      if(mask_in[ip]<=0) {", "      if(mask_in[ip]==0) {")],
 "masks with negative (e.g. UNSEEN) values, Smooth apodization", "pixels with negative values do not mask their neighbours",
 '''
ns = 16
m = np.ones(12 * ns ** 2)
z = np.arange(400, 430)
m[z] = 0
n = m.copy()
n[z] = -1e-30
a, b = (nmt.mask_apodization(x, 8., apotype="Smooth") for x in (m, n))
sys.exit(0 if np.allclose(a, b, atol=1e-6) else 1)
'''),
("p06_reuse", "P06", [(MA, "  int reuse_ss1=(spin1==spin2);", "  int reuse_ss1=((spin1!=0)==(spin2!=0));")],
 "an anisotropic mask and two fields with different non-zero spins", "the Wigner symbols of the first field's spin are used for both",
 '''
import healpy as hp
r = np.random.RandomState(1)
m = 1.5 + 0.5 * r.rand(192)
a = 0.3 * r.randn(2, 192)
L = 4
l = np.arange(L + 1)
b = nmt.NmtBin(ells=l, bpws=l, weights=np.ones(L + 1), lmax=L)
f1, f2 = (nmt.NmtField(m, None, spin=s, mask_22=m + a[0], mask_12=a[1], lmax=L) if s == 2 else nmt.NmtField(m, None, spin=s, lmax=L) for s in (2, 1))
g1 = nmt.NmtField(m, None, spin=2, mask_22=m.copy(), mask_12=0 * m, lmax=L)
h1 = nmt.NmtField(m, None, spin=2, lmax=L)
# an anisotropic mask with no anisotropy is an isotropic one
A, B = (nmt.NmtWorkspace.from_fields(x, f2, b).get_coupling_matrix() for x in (g1, h1))
sys.exit(0 if np.allclose(A, B, rtol=1e-6, atol=1e-12) else 1)
'''),
("p22_row", "P22", [("pymaster/utils.py", "        i_theta_0 = int(theta_min/d_theta+0.5)", "        i_theta_0 = int(theta_min/d_theta)")],
 "a CAR patch whose first row's colatitude divided by the pixel size is rounded down", "all rings get the quadrature weights of the ring to the north",
 '''
bad = 0
for n in range(3, 60):
    d = np.pi / n
    for i in range(n):
        s = nmt.utils._SHTInfo.from_rectpix(1, i * d, d, 2 * n, d, 0.)
        t = nmt.utils._SHTInfo.from_rectpix(n + 1, 0., d, 2 * n, d, 0.)
        bad += not np.allclose(s.weight[0], t.weight[i])
sys.exit(0 if bad == 0 else 1)
'''),
]
