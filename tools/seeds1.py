M = "src/nmt_master.c"
SEEDS = [
("p02_fell", "P02", [("src/nmt_bins.c", "	if(f<=0) //Prevent", "	if(f<1E-4) //Prevent")],
 "an f_ell with values below 1e-4 (e.g. a 1/C_ell-like prewhitening)", "small positive f_ell values are silently replaced by 1, so bandpowers mix weighted and unweighted multipoles",
 '''
l = np.arange(10)
f = 1e-5 * (1. + l)
b = nmt.NmtBin(ells=l, bpws=l // 5, weights=np.ones(10), f_ell=f, lmax=9)
c = np.random.RandomState(1).rand(10)
d = b.bin_cell(c)
e = np.array([np.mean((c * f)[:5]), np.mean((c * f)[5:])])
sys.exit(0 if np.allclose(d, e, rtol=1e-8, atol=0) else 1)
'''),
("p01_dup", "P01", [("src/nmt_bins.c", "      if(bpws[ii]>nband_max)\n	nband_max=bpws[ii];", "      if((bpws[ii]>nband_max) && (weights[ii]>0))\n	nband_max=bpws[ii];")],
 "a last band whose first multipoles have zero weight is fine, but one listed only through zero-weight multipoles is written out of bounds / lost", "weights of exactly zero in the last band change the number of bands",
 '''
l = np.arange(8)
w = np.ones(8)
w[6:] = 0
try:
    b = nmt.NmtBin(ells=l, bpws=l // 2, weights=w, lmax=7)
    sys.exit(1)
except RuntimeError:
    sys.exit(0)
'''),
("p03_back", "P03", [("src/nmt_bins_flat.c", "    while(ilback>=0) {", "    while(ilback>0) {")],
 "wavenumbers that are not sorted: one in the first band right after one in a higher band", "wavenumbers of the first band are lost when the search has to go back to it",
 '''
b = nmt.NmtBinFlat(np.array([0., 10., 20., 30.]), np.array([10., 20., 30., 40.]))
u = b.unbin_cell(np.array([1., 2., 3., 4.]), np.array([25., 5., 35.]))
sys.exit(0 if np.allclose(u, [3., 1., 4.]) else 1)
'''),
("p04_teb", "P04", [(M, "  int has_ss2=(c->s1!=0) && (c->s2!=0) && (!do_teb) && (c->s1!=c->s2);", "  int has_ss2=(c->s1!=0) && (c->s2!=0) && (!do_teb) && (c->s1<c->s2);")],
 "two fields with different non-zero spins, the first one larger", "the mode-coupling matrix of spins (2,1) uses the 3j symbols of spin 2 for both fields",
 '''
b = nmt.NmtBin(ells=np.arange(6), bpws=np.arange(6), weights=np.ones(6), lmax=5)
m = 0.5 + 0.5 * np.random.RandomState(1).rand(48)
f1 = nmt.NmtField(m, None, spin=1, lmax=5)
f2 = nmt.NmtField(m, None, spin=2, lmax=5)
a = nmt.NmtWorkspace.from_fields(f1, f2, b).get_coupling_matrix().reshape(6, 4, 6, 4)
c = nmt.NmtWorkspace.from_fields(f2, f1, b).get_coupling_matrix().reshape(6, 4, 6, 4)
p = [0, 2, 1, 3]
sys.exit(0 if np.allclose(a, c[:, p][:, :, :, p], atol=1e-12) else 1)
'''),
("p05_beam", "P05", [(M, "  for(ii=0;ii<=w->lmax_fields;ii++)\n    w->beam_prod[ii]=b1[ii]*b2[ii];", "  for(ii=0;ii<=w->lmax_fields;ii++) {\n    if(b1[ii]*b2[ii]!=0)\n      w->beam_prod[ii]=b1[ii]*b2[ii];\n  }")],
 "updating beams with ones that vanish at some multipoles", "multipoles at which the new beams vanish keep the old beams",
 '''
m = 0.5 + 0.5 * np.random.RandomState(1).rand(48)
b = nmt.NmtBin(ells=np.arange(6), bpws=np.array([-1, -1, 0, 0, 0, 0]), weights=np.ones(6), lmax=5)
b1, b2 = np.ones(6), np.ones(6)
w = nmt.NmtWorkspace.from_fields(nmt.NmtField(m, None, spin=0, beam=b1, lmax=5), nmt.NmtField(m, None, spin=0, beam=b2, lmax=5), b)
n = np.array([1., 1, 1, 1, 0.5, 0])
w.update_beams(n, n)
w2 = nmt.NmtWorkspace.from_fields(nmt.NmtField(m, None, spin=0, beam=n, lmax=5), nmt.NmtField(m, None, spin=0, beam=n, lmax=5), b)
c = np.ones((1, 6))
sys.exit(0 if np.allclose(w.couple_cell(c), w2.couple_cell(c), atol=1e-12) else 1)
'''),
("p07_abs", "P07", [(M, "        tplz_0s[ic][0][l2]=fabs(tplz_0s[ic][0][l2]);", "        tplz_0s[ic][0][l2]=NMT_MAX(tplz_0s[ic][0][l2],0);")],
 "Toeplitz approximation for a spin-0 and an odd-spin field (negative diagonal)", "all approximated coefficients of spin-0 x odd-spin workspaces vanish",
 '''
L = 8
m = 0.2 + 0.8 * (np.arange(192) % 7 < 4)
f = nmt.NmtField(m, None, spin=0, lmax=L)
g = nmt.NmtField(m, None, spin=1, lmax=L)
b = nmt.NmtBin(ells=np.arange(L + 1), bpws=np.arange(L + 1), weights=np.ones(L + 1), lmax=L)
t = nmt.NmtWorkspace.from_fields(f, g, b, l_toeplitz=5, l_exact=2, dl_band=0).get_coupling_matrix()
sys.exit(0 if abs(t[2 * 4, 2 * 5]) > 1e-12 else 1)
'''),
("p08_win", "P08", [(M, "	  for(l2=0;l2<=w->lmax;l2++) {\n	    int index_2=w->ncls*l2+icl2;\n	    double beamprod", "	  for(l2=w->bin->ell_list[0][0];l2<=w->lmax;l2++) {\n	    int index_2=w->ncls*l2+icl2;\n	    double beamprod")],
 "binning that skips the lowest multipoles and a signal there", "bandpower windows drop the leakage from multipoles below the first band",
 '''
m = 0.5 + 0.5 * np.random.RandomState(1).rand(48)
b = nmt.NmtBin(ells=np.arange(6), bpws=np.array([-1, -1, 0, 0, 1, 1]), weights=np.ones(6), lmax=5)
f = nmt.NmtField(m, None, spin=0, lmax=5)
w = nmt.NmtWorkspace.from_fields(f, f, b)
c = np.random.RandomState(2).rand(1, 6)
sys.exit(0 if np.allclose(w.decouple_cell(w.couple_cell(c)), np.einsum('abcd,cd->ab', w.get_bandpower_windows(), c)) else 1)
'''),
("p06_mask", "P06", [("pymaster/workspaces.py", "                pclm_0e = hp.alm2cl(alm1, alm2a[0], lmax=fl1.ainfo_mask.lmax)", "                pclm_0e = hp.alm2cl(alm2, alm2a[0], lmax=fl1.ainfo_mask.lmax)")],
 "anisotropic second field whose isotropic mask differs from the first field's", "the 0E mask spectrum uses the second field's own mask instead of the first field's",
 '''
r = np.random.RandomState(1)
L = 5
m1 = 0.5 + 0.5 * r.rand(48)
m2 = 0.5 + 0.5 * r.rand(48)
ma = 0.2 * r.randn(2, 48)
b = nmt.NmtBin(ells=np.arange(L + 1), bpws=np.arange(L + 1), weights=np.ones(L + 1), lmax=L)
f1 = nmt.NmtField(m1, None, spin=0, lmax=L)
f2 = nmt.NmtField(m2, None, spin=2, lmax=L, mask_12=ma[1], mask_22=m2 - 2 * ma[0]) if False else nmt.NmtField(m2 + ma[0], None, spin=2, lmax=L, mask_12=ma[1], mask_22=m2 - ma[0])
a = nmt.NmtWorkspace.from_fields(f1, f2, b).get_coupling_matrix()
c = nmt.NmtWorkspace.from_fields(f2, f1, b).get_coupling_matrix()
sys.exit(0 if np.allclose(a, c, atol=1e-12) else 1)
'''),
]
