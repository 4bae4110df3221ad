import json
P=[]
def p(id,title,statement,over,text,why,files,mech,**k):
    a={"files":files,"mechanism":[{"name":mech,"where":", ".join(files)}]}; a.update(k)
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=a))
p("P01","Curved-sky bandpowers contain exactly the requested multipoles",
"Creating a curved-sky binning scheme from per-multipole band indices, weights and f_ell puts every multipole not exceeding the maximum and having a non-negative band index into exactly that band, once, in input order, and ignores every other entry. The weights of each band add up to one and keep the ratios of the input weights, and non-positive f_ell values act as one. The linear and edge-based constructors give contiguous half-open bands from the first edge (multipole 2 by default) with incomplete last bands dropped, and the multipole lists, weights, edges and effective multipoles reported for a band describe that band.",
["inputs"],"Every assignment of up to 5-6 multipoles to bands (including negative band indices, repeated and unsorted multipoles and multipoles beyond the maximum), all real positive weights and f_ell; all (nlb, lmax) with lmax up to 14; all increasing edge lists.",
"The tests build two or three regular schemes; assignments, weights and edges range over unbounded sets.",
["src/nmt_bins.c","pymaster/bins.py","pymaster/namaster_wrap.c"],"nmt_bins_create/nmt_bins_constant and the NmtBin constructors")
p("P02","Binning averages, unbinning inverts it, effective multipoles follow weights",
"Binning a power spectrum returns, in each bandpower, the weighted sum of f_ell times the spectrum over exactly the multipoles of that band, and unbinning returns the bandpower divided by f_ell at each of those multipoles and zero elsewhere. Binning an unbinned set of bandpowers returns the same bandpowers. Both act independently on each spectrum, for one or several spectra, and effective multipoles are the weighted means of the multipoles.",
["inputs"],"All real spectra/bandpowers, weights and f_ell, for families of band layouts (with gaps, unsorted) with up to 8 multipoles and 3 spectra.",
"Tests use constant or linear spectra on fixed regular bands.",
["src/nmt_bins.c","pymaster/bins.py","pymaster/namaster_wrap.c"],"nmt_bin_cls, nmt_unbin_cls, nmt_ell_eff, NmtBin.bin_cell/unbin_cell/get_effective_ells")
p("P03","Flat-sky bandpowers: a wavenumber belongs to the band that contains it",
"A wavenumber is assigned to a flat-sky bandpower if and only if it lies in that band's half-open range, whatever wavenumbers were looked up before it, and to no band when it lies outside all of them (including in gaps between bands). Flat-sky binning evaluates the input spectrum, interpolated linearly between its samples and continued at the ends by the first and last sample, at the band centres; unbinning is piecewise constant over the bands and gives one fixed fill value outside all of them, independent of the bandpowers; and effective multipoles are band centres.",
["inputs","histories"],"All increasing, non-overlapping real band edges (up to 4 bands, with or without gaps), all real wavenumbers, all starting bands of the search, all sample lists up to 4.",
"Tests look up a handful of multipoles in one contiguous scheme.",
["src/nmt_bins_flat.c","pymaster/bins.py","pymaster/namaster_wrap.c"],"nmt_bins_flat_search_fast, nmt_bin_cls_flat, nmt_unbin_cls_flat")
p("P04","Curved-sky mode-coupling matrix equals the Wigner-3j formula",
"For every pair of spins, the coupling matrix returned for two fields equals the analytic sum over mask multipoles of the mask pseudo-C_ell times products of Wigner 3j symbols, with the right parity signs, spin ordering of the spectra, and E/B-purification terms, up to the requested maximum multipoles of fields and mask. The joint spin-0/spin-2 (TEB) matrix has the same blocks as the separate matrices. The binned matrix is that matrix multiplied by both beams and averaged with the binning's weights and f_ell.",
["inputs","configurations"],"All real mask pseudo-C_ells and beams; spin pairs from {0,1,2,3}, purification flags, joint TEB mode, equal and unequal maximum multipoles of fields, mask and bins; lmax up to 6.",
"The Python tests of the coupling matrix compare with a few stored files and need data that is not there; the algebraic identity must hold for every mask.",
["src/nmt_master.c","src/utils.c","pymaster/namaster_wrap.c"],"nmt_compute_master_coefficients, nmt_compute_coupling_matrix, drc3jj, populate_coupling_matrix")
p("P05","Updating a workspace's beams, bins or matrix equals computing it afresh",
"After any sequence of beam, binning and coupling-matrix updates, a curved-sky workspace gives the same coupled, decoupled and windowed results, and the same stored matrices, as a workspace computed directly with the final beams, bins and matrix. Updates do not depend on, or leave traces of, the previous beams, bins or matrices.",
["histories","inputs"],"All update sequences of length up to 3 over symbolic beams, bins with different numbers of bands, and symbolic matrices; both normalisation types.",
"Tests perform single updates on one workspace, and cannot be collected here.",
["src/nmt_master.c","pymaster/workspaces.py","pymaster/namaster_wrap.c"],"nmt_workspace_update_beams, nmt_workspace_update_binning, nmt_update_coupling_matrix")
p("P06","Coupling matrix for anisotropic masks follows its formula and its limit",
"The coupling matrix for anisotropic weights combines the nine scalar/E/B mask pseudo-C_ells with the Wigner-3j products prescribed for them, each cross-spectrum entering in its own place. When the anisotropic mask pseudo-spectra vanish it equals the isotropic matrix, and exchanging both fields (with their mask spectra) exchanges the roles of the two fields in the matrix.",
["inputs","configurations"],"All real values of the nine mask pseudo-C_ells, spins in {0,1,2}, each field isotropic or anisotropic, lmax up to 5.",
"Tests run one simulated sky with a loose statistical tolerance.",
["src/nmt_master.c","pymaster/workspaces.py","pymaster/namaster_wrap.c"],"nmt_compute_coupling_matrix_anisotropic, comp_coupling_matrix_anisotropic")
p("P07","The Toeplitz approximation only changes what it is documented to change",
"With the Toeplitz approximation, coupling coefficients are exact wherever the scheme prescribes exactness (rows up to l_exact, the band of width dl_band, and the l_toeplitz column's diagonal rescaling), are obtained from the exact diagonal and the reference column elsewhere, and remain symmetric. With the approximation covering the whole range the result is the exact matrix, and no array is accessed out of range for any admitted parameters.",
["inputs","configurations"],"All real mask pseudo-C_ells and every admissible (l_toeplitz, l_exact, dl_band) with lmax up to 7, for spins 0/2 and for covariance coefficients.",
"Tests check one parameter triple against a loose tolerance and are not collectable here.",
["src/nmt_master.c","src/nmt_covar.c"],"populate_toeplitz and the l_toeplitz branches of nmt_compute_master_coefficients")
p("P08","Coupling and decoupling spectra are inverse linear maps on bandpowers",
"Coupling a set of spectra is multiplication by the stored mode-coupling matrix with beams; decoupling recovers exactly the bandpowers of any band-constant spectra that were coupled, after subtracting the coupled noise and bias; and the bandpower windows reproduce decoupling of coupled spectra for arbitrary spectra. With FKP normalisation the decoupled spectra are the binned coupled spectra divided by the mean mask product. All of these are linear and keep the ordering of the spectra.",
["inputs"],"All real spectra, noise, bias, matrices and beams within the bounds (up to 4 spectra, 6 multipoles, 3 bands).",
"Tests use stored spectra for one mask and cannot be collected here.",
["src/nmt_master.c","pymaster/workspaces.py","pymaster/namaster_wrap.c"],"nmt_couple_cl_l, nmt_decouple_cl_l, nmt_compute_bandpower_windows")
p("P09","Curved-sky Gaussian covariance follows Wick's theorem for every spin mix",
"The Gaussian covariance of any two sets of power spectra is the sum of the two Wick contractions of the four fields' spectra, coupled with the covariance coefficients appropriate for their spins and parities, in the documented ordering; the decoupled covariance is the coupled one propagated through both workspaces' binning and decoupling. It is symmetric under exchanging the two sets, spin-0-only workspaces agree with full ones, and every element of the output is determined by the inputs.",
["inputs","configurations"],"All real input spectra and masks' coefficients; all 16 combinations of spin 0/2 for the four fields, coupled and decoupled outputs, lmax up to 3-4.",
"No covariance test can be collected; each combination of spins and ordering is a separate case.",
["src/nmt_covar.c","pymaster/covariance.py","pymaster/namaster_wrap.c"],"nmt_compute_gaussian_covariance(_coupled), cov_get_coupling_pair_index")
p("P10","Curved-sky covariance coefficients come from the right mask products",
"The coefficients in a covariance workspace are the 00, 02, 22+ and 22- coupling coefficients (without the 2l+1 of the second multipole) of the cross-spectra of the products of masks for the two Wick pairings (first-first with second-second, first-second with second-first), up to the requested multipoles of fields and mask. A spin-0-only workspace has the same 00 coefficients.",
["inputs","configurations"],"All real mask-product pseudo-spectra, lmax up to 5, mask lmax below, equal and above; all four-field combinations of symbolic masks at the Python level.",
"No covariance test can be collected here.",
["src/nmt_covar.c","src/nmt_master.c","pymaster/covariance.py"],"nmt_covar_workspace_init, NmtCovarianceWorkspace.compute_coupling_coefficients")
p("P11","Workspaces survive a write/read round trip unchanged",
"Writing a curved-sky, flat-sky or covariance workspace to file and reading it back gives an object that produces the same results in every later operation, including later beam or binning updates, and writing does not alter the object written. Reading without the optional unbinned matrix, or with only spin-0 coefficients, gives the same results for the operations that remain, and the others are refused with an error.",
["inputs","histories"],"All real contents (symbolic matrices, beams, masks, weights, permutation) for 1, 2, 4 and 7 spectra, both normalisations, small lmax; each subsequent operation.",
"Round-trip tests use stored workspaces, compare one output, and are not collectable here.",
["src/nmt_io.c","pymaster/workspaces.py","pymaster/covariance.py"],"nmt_workspace_write_fits/read_fits and the flat and covariance versions")
p("P12","Flat-sky mode-coupling matrix equals the brute-force mode sum",
"The binned flat-sky coupling matrix equals, for every mask pair and rectangular patch, the sum over all pairs of Fourier modes of the mask cross-power at their difference times the spin rotation and purification factors, averaged over modes in bands and outside the masked wavenumber ranges. The joint TEB matrix has the blocks of the separate ones.",
["inputs","configurations"],"All real mask cross-powers on grids up to 4x4 (non-square patches and pixels), spin pairs, purification flags, wavenumber cuts, beams.",
"The comparison tests need data files that are missing; the tests that run only check error codes.",
["src/nmt_master_flat.c","pymaster/namaster_wrap.c"],"nmt_compute_coupling_matrix_flat")
p("P13","Flat-sky pseudo-spectra and decoupling are consistent mode averages",
"The coupled flat-sky spectra are, for each pair of maps, averages over all Fourier modes of the full plane in each band, excluding the masked wavenumber ranges, of the product of their Fourier coefficients in the documented order. Coupling applies the stored matrix, decoupling inverts it after subtracting noise and bias, and decoupling a coupled band-constant spectrum returns it.",
["inputs","configurations"],"All real Fourier coefficients on grids up to 4x4 (even and odd sizes), all real cut ranges, spectra and matrices.",
"Only a smoke test of mode averaging runs today.",
["src/flatsky_utils.c","src/nmt_master_flat.c"],"fs_alm2cl, nmt_compute_coupled_cell_flat, nmt_couple_cl_l_flat_*, nmt_decouple_cl_l_flat")
p("P14","Flat-sky Gaussian covariance follows Wick's theorem for every spin mix",
"The flat-sky Gaussian covariance is the sum of the two Wick contractions of the four fields' spectra with the flat-sky covariance coefficients of the corresponding mask products and spins, averaged in bands and propagated through both workspaces' decoupling. It is symmetric under exchange of the two sets of spectra, and every output element is determined by the inputs.",
["inputs","configurations"],"All real spectra and mask products on grids up to 4x4, all 16 spin combinations.",
"The tests that can run only exercise error codes.",
["src/nmt_covar_flat.c","pymaster/covariance.py"],"nmt_covar_workspace_flat_init, nmt_compute_gaussian_covariance_flat")
p("P15","Flat-sky fields: masking, deprojection and purification do what they say",
"A flat-sky field's maps are the input maps times the mask (applied once, whether or not the input was already masked), minus the projection that makes them orthogonal to every masked template, and purified maps obey the pure E/B definition with derivatives in physical wavenumbers of each axis. Fourier coefficients are those of the stored maps with the documented E/B rotation, inverse transforms undo forward ones, and lightweight or mask-only fields give the same coefficients as full ones.",
["inputs","configurations"],"All real maps, templates and masks on grids with up to 4 pixels a side (also non-square pixels), spins 0, 1, 2, all flag combinations.",
"Tests use one mask and one template set on square pixels with purification not compared to a reference.",
["src/nmt_field_flat.c","src/flatsky_utils.c","pymaster/field.py"],"nmt_field_flat_alloc, nmt_purify_flat, fs_map2alm, fs_alm2map")
p("P16","Flat-sky deprojection bias is the exact expectation of template removal",
"For Gaussian fields whose Fourier modes follow the input spectra, the flat-sky deprojection bias equals the expectation of the pseudo-spectra of the deprojected fields minus that of the undeprojected ones, for any masks and templates. It vanishes without templates and is linear in the input spectra.",
["inputs","configurations"],"All real templates, masks (via concrete and symbolic families) and input spectra on 2x2 to 4x4 grids, spins 0 and 2.",
"Needs missing data files; otherwise only error codes are tested.",
["src/nmt_master_flat.c"],"nmt_compute_deprojection_bias_flat")
p("P17","Apodization only tapers near masked pixels, by the documented profile",
"C1 and C2 apodization multiply each pixel by the documented function of its distance to the nearest masked pixel (value zero or below; on the sphere, or on the periodic-free flat patch with each axis's own pixel size), leave masked pixels as they are, and leave pixels further than the apodization scale unchanged. Smooth apodization first masks the pixels within 2.5 scales of a masked one (on the sphere, the pixels touched by such discs), smooths with a Gaussian, and multiplies by the original mask, so masked pixels stay masked, and an unknown type is refused.",
["inputs","configurations"],"All 0/non-zero patterns and all real values of masks with up to 12 HEALPix or 3x4 flat pixels, all real scales in range.",
"Tests check one half-sky mask.",
["src/nmt_mask.c","src/nmt_mask_flat.c","pymaster/utils.py"],"nmt_apodize_mask, nmt_apodize_mask_flat, mask_apodization")
p("P18","HEALPix helper routines select and regrade the right pixels",
"Strip and disc queries return only valid pixel numbers, without duplicates, and at least every pixel whose centre lies in the requested region; ring numbers are those of the ring containing the height; up- and degrading preserve the area-weighted mean and the ring/nest ordering requested; and algebraic products act pixel by pixel.",
["inputs"],"All real directions, radii and strip limits for nside 1, 2 (4 for integer kernels).",
"Tests query one strip and one disc.",
["src/healpix_extra.c"],"he_query_strip, he_query_disc, he_ring_num, he_in_ring, he_udgrade")
p("P19","Curved-sky fields: masking, deprojection and purification do what they say",
"A curved-sky field's maps are the input maps times the mask exactly once (whether or not marked as already masked, up to the documented treatment of zeros), minus the projection that makes them orthogonal to every masked template, and its harmonic coefficients are those of these maps, purified when requested with the documented multipole factors. Lightweight, mask-only and full fields agree on everything they share, and anisotropic masks act as the documented 2x2 weight.",
["inputs","configurations"],"All real maps, masks and templates on a small sky with a symbolic linear transform standing for the spherical-harmonic transform; spins 0, 1, 2; flag combinations.",
"Tests sample one mask and fixed templates.",
["pymaster/field.py","pymaster/utils.py"],"NmtField.__init__, NmtField._purify")
p("P20","Curved-sky deprojection and noise biases are exact expectations",
"The deprojection bias equals the expectation, over Gaussian fields with the input spectra, of the pseudo-spectra of deprojected minus undeprojected fields; the uncorrelated-noise bias is the same for white noise of the given variance map. Both are linear in their inputs and vanish without templates.",
["inputs","configurations"],"All real templates, noise maps and spectra on a small sky with an exact linear transform; spins 0 and 2.",
"No test for it can be collected.",
["pymaster/workspaces.py"],"deprojection_bias, uncorr_noise_deprojection_bias")
p("P21","Catalog fields have the exact shot noise and couplings of their sources",
"For a catalog-based field the mask and field harmonic coefficients are the sums over sources of weights and weighted values times harmonics at the sources, the shot-noise levels are the corresponding sums of squares, randoms enter with the data-to-randoms weight ratio, and the shot noise is removed from auto-spectra only. Coordinates are interpreted as documented and inconsistent inputs are refused.",
["inputs","configurations"],"All real weights and values for up to 3 sources and randoms, spins 0, 1, 2, positions in either convention.",
"Tests check averages over one simulated catalogue.",
["pymaster/field.py","pymaster/workspaces.py","pymaster/utils.py"],"NmtFieldCatalog, NmtFieldCatalogClustering")
p("P22","Map geometries are interpreted consistently",
"Rectangular maps are brought to the internal orientation and back without loss for every WCS axis direction, padding or cutting, inner products weight pixels by their area, and two geometries compare equal exactly when all that affects pixel positions agrees. HEALPix maps pass unchanged and incompatible maps are refused.",
["inputs","configurations"],"All real map values on small rectangles, all four axis directions, full and partial rings.",
"Tests build two or three WCS headers.",
["pymaster/utils.py"],"NmtMapInfo")
p("P23","Template covariance inversion is the Moore-Penrose pseudo-inverse",
"The inverse used for template deprojection is the Moore-Penrose pseudo-inverse of the symmetric template covariance, with eigenvalues below the tolerance relative to the largest one discarded, both on the curved and on the flat sky.",
["inputs"],"All real symmetric positive semi-definite matrices of size 1-3, given by symbolic eigenvalues and orthonormal eigenvectors, all tolerances.",
"Tests check one matrix.",
["src/utils.c","pymaster/utils.py"],"moore_penrose_pinv, moore_penrose_pinvh")
p("P24","Simulated Gaussian fields have the requested spectra and ordering",
"Fields generated from input spectra have, mode by mode, exactly the requested covariance between all their components, in the documented ordering of the spectra, multiplied by the fields' beams (flat-sky fields with spin: below the Nyquist frequency); flat-sky modes satisfy the reality condition. The same seed gives the same fields, other seeds independent ones.",
["inputs","schedules"],"All real positive-definite spectra (given through their eigen-decomposition), unit random numbers as free variables, spins 0, 1, 2, up to 3 maps.",
"Tests compare noisy averages.",
["src/flatsky_utils.c","src/nmt_field_flat.c","src/utils.c","pymaster/utils.py"],"fs_synalm, nmt_synfast_flat, synfast_spherical")
p("P25","Bad input is reported as an error, never as memory corruption",
"Public operations given arrays of the wrong size, out-of-range band, map or template indices, incompatible fields, bins, workspaces or files, unsupported options, or functions sampled at unsorted points raise a Python error, and do not read or write outside the arrays, use uninitialised values or abort the process; the objects involved give the same results after the error as before.",
["inputs","histories"],"Array lengths up to 2 past the right one, indices from -3 to 2 past the end, all values of the sampled functions, for every library entry point exposed to Python; small patches and nside 2.",
"Tests try a few wrong sizes.",
["pymaster/namaster_wrap.c","src/utils.c","src/nmt_io.c"],"asserting wrappers in namaster.i, report_error")
p("P26","Results do not depend on the number or schedule of threads",
"The multi-threaded loops of the library give the same result for every number of threads and every assignment of iterations to threads: no two threads access the same memory without synchronisation when one of them writes, partial results are combined exactly once, and per-thread buffers never leak from one iteration into another.",
["schedules"],"Every number of threads; every assignment of loop iterations to threads; decided for 2 and 5 virtual threads with several assignments at small sizes, and for every assignment to 2 threads in the smallest loops.",
"Tests run with one default thread count and cannot enumerate schedules.",
["src/nmt_master.c","src/nmt_master_flat.c","src/nmt_covar_flat.c","src/flatsky_utils.c","src/nmt_mask.c","src/healpix_extra.c"],"OpenMP parallel regions")
p("P27","Curved-sky pseudo-spectra, and the one-call estimator equals the documented sequence of steps",
"The coupled pseudo-spectra of two curved-sky fields are, for every multipole and every ordered pair of components, the sum over m of the products of their harmonic coefficients divided by 2l+1; exchanging the fields exchanges the components. compute_full_master returns the decoupled value of the coupled spectra minus deprojection bias minus noise bias, the same as the separate documented calls, with or without a given workspace, noise spectra, guess spectra, templates and purification; incompatible or unsupported inputs are refused.",
["inputs","configurations"],"All real maps and template contributions at symbolic pixels on small skies, all real noise and guess spectra, spins 0, 1, 2 in every ordered combination.",
"The tests of the one-call estimator need missing files, and sample one configuration.",
["pymaster/workspaces.py"],"compute_coupled_cell, compute_full_master")
p("P28","Spherical-harmonic transforms follow their definition for every geometry, back end and number of iterations",
"Synthesis of harmonic coefficients gives the sum of spin-weighted harmonics at the pixel centres, and analysis the quadrature-weighted sums followed by the requested number of Jacobi iterations, for HEALPix and rectangular maps (partial and full rings, either axis direction), spins 0 and above, both transform back ends; analysis undoes synthesis on exact grids and is its adjoint without iterations. The inputs are left unchanged, and the coefficient layout has m blocks of lmax+1-m multipoles.",
["inputs","configurations"],"All real coefficients (synthesis) and pixel values (analysis) for lmax up to 8, nside 2 and 4, small CAR patches and full spheres, spins 0-3, 0-3 iterations.",
"Tests transform one random map per geometry and compare with the same library.",
["pymaster/utils.py"],"map2alm, alm2map, _SHTInfo, NmtAlmInfo")
p("P29","Global defaults are the ones used, and explicit arguments win",
"The values given to set_n_iter_default (maps or masks), set_tol_pinv_default and set_sht_calculator are those reported by get_default_params and used by every later call that does not specify its own (fields, flat fields, deprojection and noise biases, lazily computed mask coefficients of fields built while they were in force); explicit arguments win, including zero; objects built before a change keep their behaviour; values outside the documented range are refused and change nothing.",
["inputs","histories"],"All real tolerances, iteration counts 0-6, sequences of field creations and default changes, all real values at symbolic pixels.",
"Tests set one value and read it back.",
["pymaster/utils.py","pymaster/field.py","pymaster/workspaces.py"],"NmtParams, set_n_iter_default, set_tol_pinv_default, set_sht_calculator, NmtField.get_mask_alms")
p("P30","Objects own their data",
"Once built, a field, binning scheme, workspace or covariance workspace is unaffected by later changes to, or the deletion of, the arrays and objects it was built from; the arrays returned by binning schemes, workspaces, covariance functions and flat-sky fields can be changed or outlive the object without affecting it or being affected; and a call leaves its input arrays, and the other objects it is given, as they were.",
["inputs","histories"],"All real values of the symbolic entries of every input; histories of construction, modification, deletion, and use of the objects and arrays involved.",
"Tests build objects from fresh arrays and never touch those arrays again, so shared storage, freed storage and modified inputs do not show.",
["pymaster/field.py","pymaster/bins.py","pymaster/workspaces.py","pymaster/covariance.py","src/nmt_master.c","src/nmt_bins.c"],"NmtField.__init__, NmtFieldCatalog.__init__, NmtFieldFlat.__init__, NmtBin, nmt_bins_copy, NmtWorkspace, NmtCovarianceWorkspace")
p("P31","Everything that is allocated is released",
"Creating, using, recomputing, writing, reading and deleting fields, binning schemes, workspaces and covariance workspaces, and every call of the library that succeeds, leaves no memory of the library allocated and no file open once the objects involved are gone, whatever their spins, purification, templates, binning, normalization and options: a loop over many realizations or bins runs in constant memory.",
["inputs","histories"],"All real values of the symbolic inputs of the workloads of the other properties (every path through them); histories of construction, update, input/output and deletion.",
"Tests check values only; what a call leaves behind is invisible to them and accumulates over the thousands of realizations of an analysis.",
["src/nmt_bins.c","src/nmt_master.c","src/nmt_covar.c","src/nmt_io.c","src/nmt_field_flat.c","src/nmt_master_flat.c","src/nmt_covar_flat.c","pymaster/workspaces.py","pymaster/covariance.py","pymaster/bins.py","pymaster/field.py"],"nmt_*_free, nmt_workspace_read_fits, nmt_update_binning, __del__")
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
