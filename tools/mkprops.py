#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of truth for the property list)."""
import json, os

P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe=(), state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
        anchors=dict(files=list(files),
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=list(observe), hook_needed=None)))


prop("P01", "Curved-sky binning is the declared weighted average, and unbinning inverts it",
     "For any set of bandpowers (explicit per-multipole assignment, edges, or linear width), the scheme contains exactly the declared multipoles with weights normalised to one in each band, and binning returns the weighted mean of the spectrum times the multipole prefactor. "
     "Effective multipoles are the same weighted means, unbinning assigns each band's value divided by the prefactor to its multipoles and zero elsewhere, and binning an unbinned set of bandpowers returns it unchanged.",
     ["inputs", "configurations"],
     "all lmax, band assignments (gaps, unassigned and out-of-range multipoles, unordered lists), weights, prefactors, 1-D and 2-D spectra",
     "The existing tests use one nside, one bandwidth and flat or power-law spectra; they never permute, leave gaps, or combine weights with prefactors.",
     ["pymaster/bins.py", "src/nmt_bins.c", "pymaster/namaster_wrap.c"],
     [("band construction and weight normalisation", "src/nmt_bins.c nmt_bins_create"),
      ("bin / unbin loops", "src/nmt_bins.c nmt_bin_cls, nmt_unbin_cls"),
      ("convenience constructors", "pymaster/bins.py NmtBin.from_*")],
     ["NmtBin getters", "NmtBin.bin_cell", "NmtBin.unbin_cell"])

prop("P02", "Flat-sky bandpowers: centres, interpolated binning and membership",
     "A flat-sky binning scheme reports one effective multipole per band, the band centre, and binning a sampled spectrum returns that spectrum interpolated linearly at the band centre (and held constant beyond the sampled range). "
     "Unbinning gives every requested multipole the value of the one half-open band that contains it and marks multipoles that lie in no band, independently of the order in which multipoles are requested.",
     ["inputs", "configurations"],
     "all lists of non-overlapping bands with or without gaps, all increasing sampling grids, all request orders",
     "The existing tests use contiguous bands and an ordered fine grid only.",
     ["pymaster/bins.py", "src/nmt_bins_flat.c", "src/flatsky_utils.c"],
     [("band search", "src/nmt_bins_flat.c nmt_bins_flat_search_fast"),
      ("interpolation", "src/flatsky_utils.c nmt_k_function_eval")],
     ["NmtBinFlat.get_effective_ells", "NmtBinFlat.bin_cell", "NmtBinFlat.unbin_cell"])

prop("P03", "Isotropic mode-coupling matrix equals the exact Wigner-3j sum",
     "The unbinned mode-coupling matrix of two fields equals the analytical sum over mask multipoles of the mask cross-spectrum times products of Wigner 3j symbols, with the parity-even and parity-odd parts placed in the documented power-spectrum order, for every pair of spins, for E/B purification of either field, and for the joint temperature-polarisation matrix. "
     "It depends only on the two mask power spectra, multipole ranges, spins and purification flags, never on the maps, the beams or the binning. "
     "Multipole ranges that are not given are those that the pixels or the catalogue settings imply.",
     ["inputs", "configurations"],
     "all masks (including products with no power, deltas, negative cross-power), spins 0..8 in both slots, lmax and mask lmax in either order, all purification flag combinations, joint matrices",
     "The benchmark files for the mode-coupling tests are absent here, and the remaining tests check a single full-sky or single-mask case at spin 0 and 2.",
     ["pymaster/workspaces.py", "src/nmt_master.c", "src/utils.c"],
     [("coupling coefficient loops", "src/nmt_master.c nmt_compute_master_coefficients"),
      ("Wigner recursions", "src/utils.c drc3jj, drc3jj_000"),
      ("placement by parity", "src/nmt_master.c nmt_compute_coupling_matrix")],
     ["NmtWorkspace.get_coupling_matrix"])

prop("P04", "Pseudo-spectra respond to sky power exactly as the coupling matrix predicts",
     "Averaged over skies with given auto- and cross-spectra, the pseudo-spectra measured from masked fields equal the coupling matrix applied to those spectra, for scalar and spin fields, parity-odd spectra, anisotropically weighted and purified fields. "
     "This makes the estimator unbiased: decoupling the mean pseudo-spectrum returns the true bandpowers of a spectrum that is constant in each band.",
     ["inputs", "configurations"],
     "all band-limited weight maps (isotropic or anisotropic), spins, signal spectra including EB and TB, purification flags; pixelisations on which the transforms are exact",
     "Needs an expectation over all skies; existing tests compare single realisations with stored files that are missing, so the link field-MCM is never exercised.",
     ["pymaster/workspaces.py", "pymaster/field.py", "src/nmt_master.c"],
     [("field masking and transforms", "pymaster/field.py NmtField.__init__"),
      ("mode coupling", "src/nmt_master.c"), ("pseudo-spectra", "pymaster/workspaces.py compute_coupled_cell")],
     ["compute_coupled_cell", "NmtWorkspace.couple_cell", "NmtWorkspace.decouple_cell"])

prop("P05", "Decoupling inverts coupling on bandpowers and windows describe it exactly",
     "For any workspace, coupling then decoupling a spectrum that is piecewise constant over the bands (with the prefactor removed) and carries the fields' beams returns the bandpowers, and for every spectrum decoupling the coupled spectrum equals the bandpower windows applied to it. "
     "Decoupling is linear, subtracts noise and deprojection biases before inversion, and with the FKP normalisation divides the binned pseudo-spectrum by the mean over the sphere of the product of the two masks (for a catalogue, by its shot-noise level). "
     "Spectra and biases may extend beyond the multipoles of the workspace, each by its own amount.",
     ["inputs", "configurations"],
     "all masks, spins, beams, binnings with gaps, weights and prefactors, joint matrices, both normalisations, spectra longer than the workspace",
     "Existing tests that ran this rely on missing benchmark files and use one mask, one binning and no weights.",
     ["pymaster/workspaces.py", "src/nmt_master.c", "pymaster/namaster_wrap.c"],
     [("binned matrix and LU", "src/nmt_master.c bin_coupling_matrix, nmt_decouple_cl_l"),
      ("couple", "src/nmt_master.c nmt_couple_cl_l"),
      ("windows", "src/nmt_master.c nmt_compute_bandpower_windows")],
     ["NmtWorkspace.couple_cell", "NmtWorkspace.decouple_cell", "NmtWorkspace.get_bandpower_windows"])

prop("P06", "A workspace's history never matters: updates and files equal a fresh one",
     "After any sequence of beam updates, binning updates, coupling-matrix replacements, recomputations, saves and loads, a workspace answers every query exactly as one freshly built with the same masks, final matrix, beams, binning and normalisation. "
     "A workspace loaded without its unbinned matrix decouples identically and refuses operations that need that matrix.",
     ["histories", "inputs"],
     "all operation sequences over workspaces of every spin combination, normalisation and binning",
     "Unit tests exercise single updates against stored files, never sequences of them or updates after loading.",
     ["pymaster/workspaces.py", "src/nmt_master.c", "src/nmt_io.c"],
     [("update functions", "src/nmt_master.c nmt_workspace_update_beams, nmt_workspace_update_binning, nmt_update_coupling_matrix"),
      ("FITS I/O", "src/nmt_io.c nmt_workspace_write_fits, nmt_workspace_read_fits")],
     ["NmtWorkspace methods", "FITS files"],
     [("workspace", "coupling matrix, beams, bins, LU factors, normalisation", "src/namaster.h nmt_workspace")])

prop("P07", "Anisotropic weighting couples modes exactly as its weight matrix dictates",
     "A spin field given an anisotropic weight matrix stores the map multiplied by that matrix at every pixel, and its coupling matrix with any other field equals the analytical result for the scalar and spin parts of both weights, in either slot. "
     "A weight matrix proportional to the identity gives the same maps and coupling matrix as the corresponding isotropic mask, and matrices that are not positive are refused.",
     ["inputs", "configurations"],
     "all positive weight matrices per pixel, spins, isotropic-anisotropic pairings in both orders",
     "One test covers a 2x2 auto-correlation whose odd-parity weights vanish or are symmetric.",
     ["pymaster/field.py", "pymaster/workspaces.py", "src/nmt_master.c", "pymaster/namaster_wrap.c"],
     [("anisotropic matrix", "src/nmt_master.c nmt_compute_coupling_matrix_anisotropic"),
      ("weighting", "pymaster/field.py NmtField.__init__")],
     ["NmtWorkspace.get_coupling_matrix", "NmtField.get_maps"])

prop("P08", "Fields hold the masked, contaminant-free map whatever the input convention",
     "A field's maps are the input maps times its mask minus the least-squares combination of masked templates, so that they are orthogonal to every template, unchanged when any template combination is added to the input, and independent of template order, scaling and redundancy. "
     "The same field results from maps that are already masked when flagged as such, its harmonic coefficients are the transform of its maps, and a lightweight field has the same coefficients as a full one. "
     "Combinations of templates whose relative power is below the given tolerance are left in place, and only those.",
     ["inputs", "configurations"],
     "all masks, maps, spins, numbers of templates (including linearly dependent ones), HEALPix and rectangular pixels, masked-on-input and lite flags",
     "Tests use one mask and one template set per pixelisation, never redundant ones or combinations of flags.",
     ["pymaster/field.py", "pymaster/utils.py"],
     [("deprojection", "pymaster/field.py NmtField.__init__ steps 3-6"),
      ("pseudo-inverse", "pymaster/utils.py moore_penrose_pinvh"),
      ("pixel inner product", "pymaster/utils.py _SHTInfo.dot_map")],
     ["NmtField.get_maps", "NmtField.get_templates", "NmtField.get_alms"])

prop("P09", "Purified fields contain no leakage from the other parity",
     "For a mask that vanishes smoothly at its edges, a sky containing only E modes gives zero pure B modes (and vice versa) to the accuracy of the transforms, for any harmonic range of the field and its mask. "
     "Purification is linear in the map, leaves the non-purified component untouched, reduces to ordinary masking for a constant mask, and commutes with template deprojection.",
     ["inputs", "configurations"],
     "all band-limited masks, E or B skies, purification flag combinations, field and mask band limits in any order, deprojection templates",
     "Tests check that B-mode power is small for one mask; they never vary band limits or combine purification with templates.",
     ["pymaster/field.py"],
     [("purification", "pymaster/field.py NmtField._purify")],
     ["NmtField.get_alms", "NmtField.get_maps"])

prop("P10", "Pseudo-spectra and the one-call estimator are the documented compositions",
     "The coupled pseudo-spectra of two fields are the m-averaged products of their harmonic coefficients in the documented component order; they are bilinear in the maps and swapping the fields transposes the components. "
     "The one-call estimator returns exactly what decoupling the pseudo-spectrum minus noise and deprojection biases returns, with a supplied or an internally built workspace.",
     ["inputs", "configurations"],
     "all pairs of spins, band limits, templates, noise and guess spectra, normalisations, approximations",
     "Tests check one pair of maps at spin 0 and 2 and compare against files that are absent.",
     ["pymaster/workspaces.py"],
     [("pseudo-spectra", "pymaster/workspaces.py compute_coupled_cell"),
      ("one-call estimator", "pymaster/workspaces.py compute_full_master")],
     ["compute_coupled_cell", "compute_full_master"])

prop("P11", "Gaussian covariance equals the narrow-kernel formula for every spin combination",
     "The Gaussian covariance of two sets of pseudo-spectra equals the documented sum over field pairings of symmetrised guess spectra times the coupling coefficients of the products of masks, for each spin and component combination, and the bandpower covariance is that matrix passed through binning and both inverse coupling matrices. "
     "Exchanging the two pairs of fields transposes it, it is bilinear in the guess spectra, and for a single pair it is symmetric.",
     ["inputs", "configurations"],
     "all masks for four fields, spins 0 and 2 in each slot, guess spectra, beams, binnings, coupled and decoupled, spin-0-only coefficients",
     "The covariance test file cannot even be collected here, so nothing samples it.",
     ["pymaster/covariance.py", "src/nmt_covar.c", "src/utils.c"],
     [("coupling coefficients", "src/nmt_covar.c nmt_covar_workspace_init"),
      ("pair index", "src/utils.c cov_get_coupling_pair_index"),
      ("covariance", "src/nmt_covar.c nmt_compute_gaussian_covariance, nmt_compute_gaussian_covariance_coupled")],
     ["gaussian_covariance"])

prop("P12", "Covariance workspaces survive storage and reuse unchanged",
     "A covariance workspace written to a file and read back, or recomputed in place after any other use, gives the same covariance matrices as the original for every spin combination it supports, on the curved and on the flat sky. "
     "One restricted to spin 0, at computation or at reading, gives the same spin-0 covariances as a full one.",
     ["histories", "inputs"],
     "all sequences of compute, write, read (full or spin-0 only) over curved and flat covariance workspaces",
     "Covariance tests are not runnable here; none ever chained these operations.",
     ["pymaster/covariance.py", "src/nmt_io.c", "src/nmt_covar.c", "src/nmt_covar_flat.c"],
     [("FITS I/O", "src/nmt_io.c nmt_covar_workspace_write_fits and friends")],
     ["gaussian_covariance", "gaussian_covariance_flat", "FITS files"])

prop("P13", "Harmonic transforms agree across pixelisations, orientations and back ends",
     "Analysing a synthesised band-limited field returns its coefficients (exactly on full-sky rectangular grids, convergently on HEALPix) and both equal direct sums over spin-weighted harmonics with the HEALPix sign conventions. "
     "Results do not depend on whether a rectangular map's rows or columns run forwards or backwards, on where a patch is cut from the full sky, or on which transform back end is selected, and maps whose geometry does not fit the required grid are refused.",
     ["inputs", "configurations"],
     "all nside, rectangular grids and patches, axis orientations, spins, band limits, iteration counts",
     "Tests use one rectangular grid and one nside; flips and patches are covered only in one combination.",
     ["pymaster/utils.py", "pymaster/field.py"],
     [("geometry", "pymaster/utils.py NmtMapInfo, _SHTInfo"),
      ("transforms", "pymaster/utils.py map2alm, alm2map")],
     ["map2alm", "alm2map", "NmtMapInfo.reform_map"])

prop("P14", "Catalogue fields are exact sums over sources with exact shot-noise removal",
     "The coefficients of a catalogue field and of its mask are the sums over sources of (weighted) values times conjugate spin-weighted harmonics at the source positions, in either coordinate convention, so source order, duplication into fractional weights, and pre-weighting do not matter. "
     "Auto-spectra and auto mode-coupling matrices have exactly the zero-separation contribution of each source removed (so randomising signs or positions averages to zero), cross-spectra have nothing removed, and clustering fields equal the data sum minus the normalised random sum with noise from both.",
     ["inputs", "configurations"],
     "all catalogues (positions incl. poles and seams, weights, values), spins, band limits, coordinate conventions",
     "Tests compare with one simulated catalogue statistically, and never cross different catalogues or vary conventions.",
     ["pymaster/field.py", "pymaster/utils.py", "pymaster/workspaces.py"],
     [("catalogue transforms", "pymaster/field.py NmtFieldCatalog, NmtFieldCatalogClustering"),
      ("noise removal", "pymaster/workspaces.py compute_coupled_cell, NmtWorkspace.compute_coupling_matrix")],
     ["NmtFieldCatalog.get_alms", "compute_coupled_cell", "NmtWorkspace.get_coupling_matrix"])

prop("P15", "Curved-sky apodisation follows the distance to the nearest masked pixel",
     "C1 and C2 apodisation multiply every pixel by the documented function of the angular distance to the nearest zero pixel, so masked pixels stay zero, pixels beyond the scale are unchanged and the factor grows with distance. "
     "Smooth apodisation equals masking everything within 2.5 scales of a masked pixel, smoothing with a Gaussian of the given scale, and multiplying by the original mask.",
     ["inputs", "configurations"],
     "all masks (holes at poles, seams, binary or weighted, empty or full), nside, scales and types",
     "Tests check a few pixels of one mask at one scale per type.",
     ["pymaster/utils.py", "src/nmt_mask.c", "src/healpix_extra.c"],
     [("distance search", "src/nmt_mask.c, src/healpix_extra.c he_query_disc"),
      ("smoothing", "pymaster/utils.py mask_apodization")],
     ["mask_apodization"])

prop("P16", "Flat-sky apodisation follows the distance to the nearest masked pixel",
     "Flat-sky C1 and C2 apodisation multiply every pixel by the documented function of its physical distance to the nearest zero pixel for any pixel shape, and Smooth apodisation equals enlarging the masked area by 2.5 scales, convolving with a Gaussian of the given scale and multiplying by the original mask. "
     "Transposing the patch (mask and side lengths) transposes the result.",
     ["inputs", "configurations"],
     "all masks, patch shapes, square and non-square pixels, scales and types",
     "Tests use one square patch with square pixels.",
     ["pymaster/utils.py", "src/nmt_mask_flat.c"],
     [("distance search and smoothing", "src/nmt_mask_flat.c")],
     ["mask_apodization_flat"])

prop("P17", "Deprojection bias is the exact mean change that template removal causes",
     "For two fields with contaminant templates and given true spectra, the deprojection bias equals the ensemble mean of the pseudo-spectrum of deprojected fields minus that of fields without templates, for any combination of templates on either field, spins and purification, and is zero when neither field has templates. "
     "It is linear in the guess spectra and transposes when the fields are swapped.",
     ["inputs", "configurations"],
     "all masks, template sets on one or both fields, shared signals, spins, guess spectra",
     "Tests check one template set at one nside for self-consistency against a stored array.",
     ["pymaster/workspaces.py", "pymaster/field.py"],
     [("bias terms", "pymaster/workspaces.py deprojection_bias")],
     ["deprojection_bias"])

prop("P18", "Noise deprojection bias is the exact mean effect on uncorrelated noise",
     "For a field with templates and a map of local noise variance, the noise deprojection bias equals the ensemble mean of the auto pseudo-spectrum of deprojected pixel noise minus that of the noise without deprojection, for scalar and spin fields, any template set, and any pixelisation and map orientation. "
     "It is linear in the variance map and zero without templates.",
     ["inputs", "configurations"],
     "all masks, template sets, variance maps, spins, HEALPix and rectangular grids in every orientation",
     "Tests only check that the result is zero without templates and compare one case.",
     ["pymaster/workspaces.py"],
     [("bias terms", "pymaster/workspaces.py uncorr_noise_deprojection_bias")],
     ["uncorr_noise_deprojection_bias"])

prop("P19", "The Toeplitz approximation is exact where promised and follows its recipe",
     "With the Toeplitz approximation, matrix elements below the exact multipole and within the exact band are the same as in the full calculation, and all others follow the published construction from the diagonal and one column, for every spin combination and for covariance coupling coefficients. "
     "Switching the approximation off, or setting parameters that cover all multipoles, returns the full matrix, and inconsistent parameters are refused.",
     ["inputs", "configurations"],
     "all masks, spins, lmax and (l_toeplitz, l_exact, dl_band) triples",
     "Tests check a single parameter triple to a loose accuracy.",
     ["src/nmt_master.c", "src/nmt_covar.c", "pymaster/utils.py"],
     [("Toeplitz population", "src/nmt_master.c populate_toeplitz, lend_toeplitz")],
     ["NmtWorkspace.get_coupling_matrix", "gaussian_covariance"])

prop("P20", "Simulated spherical fields are seeded, correctly correlated and beamed",
     "Spherical simulations with the same non-negative seed are identical and with different seeds differ, and simulating never makes results depend on earlier random draws. "
     "The maps are band-limited real fields whose spectra over many draws match the requested auto- and cross-spectra in the documented order times the product of the fields' beams, on HEALPix and on rectangular grids of any orientation, and rank-deficient spectra give exactly dependent fields.",
     ["inputs", "configurations", "histories"],
     "all spin lists, spectra (incl. rank deficient), beams, seeds, nside and rectangular grids",
     "Tests compare spectra of one realisation loosely and never check the seed.",
     ["pymaster/utils.py"],
     [("simulation", "pymaster/utils.py synfast_spherical")],
     ["synfast_spherical"])

prop("P21", "Flat-sky coupling, decoupling and binning equal the exact Fourier-space sums",
     "The flat-sky workspace's coupling of any spectrum sampled at given multipoles, including beams, Fourier-mode cuts, spin mixing, purification and joint matrices, equals the mean pseudo-spectrum computed directly from the mask's Fourier modes, averaged over the same rings of Fourier modes. "
     "Decoupling the coupled version of a spectrum constant in each band returns the bandpowers, is linear, and subtracts noise and deprojection biases first.",
     ["inputs", "configurations"],
     "all masks, patch shapes with odd and even numbers of pixels per side, spins, bands with gaps, mode cuts, purification flags",
     "The flat master tests cannot be collected here, and never varied shape, cuts or bands.",
     ["pymaster/workspaces.py", "src/nmt_master_flat.c", "src/flatsky_utils.c"],
     [("coupling matrix", "src/nmt_master_flat.c nmt_compute_coupling_matrix_flat"),
      ("couple / decouple", "src/nmt_master_flat.c nmt_couple_cl_l_flat_fast, nmt_decouple_cl_l_flat")],
     ["NmtWorkspaceFlat.couple_cell", "NmtWorkspaceFlat.decouple_cell"])

prop("P22", "Flat-sky fields and pseudo-spectra equal direct discrete Fourier sums",
     "A flat-sky field's maps are the masked input minus the least-squares template combination, and its pseudo-spectra are the averages, over the Fourier modes of each band that survive the mode cuts, of products of its E/B-rotated Fourier coefficients for any spin, in the documented order and normalisation. "
     "Template combinations below the given tolerance, and only those, are left in place. "
     "Pseudo-spectra are bilinear, transpose under field exchange, and do not depend on the masked-on-input or lite conventions or on template order and scaling; the one-call estimator equals the sequence of steps it documents.",
     ["inputs", "configurations"],
     "all patch shapes, masks, maps, spins, templates, bands and mode cuts",
     "Tests use one square patch, one spin pair and compare with stored numbers.",
     ["pymaster/field.py", "pymaster/workspaces.py", "src/nmt_field_flat.c", "src/flatsky_utils.c", "src/nmt_master_flat.c"],
     [("field creation", "src/nmt_field_flat.c nmt_field_flat_alloc"),
      ("FFT and rotation", "src/flatsky_utils.c fs_map2alm"),
      ("ring averages", "src/flatsky_utils.c fs_alm2cl")],
     ["NmtFieldFlat.get_maps", "compute_coupled_cell_flat", "compute_full_master_flat"])

prop("P23", "Flat-sky purification removes the other parity for any patch geometry",
     "On a periodic patch with a smooth mask, a sky containing only E modes gives zero pure B modes (and vice versa) to numerical accuracy, for any patch shape and pixel aspect ratio. "
     "Purification is linear in the map, leaves the non-purified component untouched, and reduces to ordinary masking for a constant mask. "
     "With templates, what is purified is the map cleaned of the combination that cleans the masked map.",
     ["inputs", "configurations"],
     "all band-limited masks, patch shapes, pixel aspect ratios, purification flags",
     "Tests use one square patch with square pixels.",
     ["src/nmt_field_flat.c", "pymaster/field.py"],
     [("purification", "src/nmt_field_flat.c nmt_purify_flat, walm_x_lpower")],
     ["compute_coupled_cell_flat", "NmtFieldFlat.get_maps"])

prop("P24", "Flat-sky deprojection bias is the exact mean change from template removal",
     "The flat-sky deprojection bias equals the ensemble mean of the pseudo-spectrum of deprojected fields minus that of fields without templates, for the guess spectra interpolated at the Fourier modes, any template sets on either field, spins and mode cuts. "
     "It is linear in the guess spectra, zero without templates, and transposes when the fields are swapped.",
     ["inputs", "configurations"],
     "all masks, template sets on either field, spins, guess spectra, patch shapes, mode cuts",
     "Tests that would sample it compare with missing files.",
     ["src/nmt_master_flat.c", "pymaster/workspaces.py"],
     [("bias terms", "src/nmt_master_flat.c nmt_compute_deprojection_bias_flat")],
     ["deprojection_bias_flat"])

prop("P25", "Flat-sky Gaussian covariance equals the documented formula",
     "The flat-sky Gaussian covariance equals the documented sum over field pairings of guess spectra times mode-coupling coefficients of the products of masks averaged over the Fourier modes of each pair of bands, passed through both inverse coupling matrices, for every spin combination. "
     "Exchanging the two pairs of fields transposes it, it is bilinear in the guess spectra, and for a single pair it is symmetric.",
     ["inputs", "configurations"],
     "all masks for four fields, spins 0 and 2 in each slot, guess spectra, bands, patch shapes",
     "The flat covariance test file cannot be collected here.",
     ["pymaster/covariance.py", "src/nmt_covar_flat.c", "src/utils.c"],
     [("coefficients and covariance", "src/nmt_covar_flat.c")],
     ["gaussian_covariance_flat"])

prop("P26", "Flat-sky workspaces survive storage and recomputation unchanged",
     "A flat-sky workspace that has been written and read back any number of times, or recomputed in place, couples, decouples and yields one-call estimates and covariances exactly as one freshly computed from the same fields, bands and mode cuts.",
     ["histories", "inputs"],
     "all sequences of compute, write, read and use over flat workspaces of every spin and purification combination",
     "The flat I/O test compares with a missing file.",
     ["pymaster/workspaces.py", "src/nmt_io.c", "src/nmt_master_flat.c"],
     [("FITS I/O", "src/nmt_io.c nmt_workspace_flat_write_fits, nmt_workspace_flat_read_fits")],
     ["NmtWorkspaceFlat methods", "FITS files"])

prop("P27", "Simulated flat-sky fields are seeded, correctly correlated and beamed",
     "Flat-sky simulations with the same non-negative seed are identical whatever the number of threads, and different seeds differ. "
     "The maps are real fields with zero mean whose Fourier power over many draws matches the requested auto- and cross-spectra in the documented order times the fields' beams for every Fourier mode, for any patch shape, and rank-deficient spectra give exactly dependent fields.",
     ["inputs", "configurations", "schedules"],
     "all patch shapes (odd, even), spin lists, spectra, beams, seeds and thread counts",
     "Tests compare one realisation's spectrum loosely; thread scheduling is never varied.",
     ["pymaster/utils.py", "src/flatsky_utils.c"],
     [("simulation", "src/flatsky_utils.c fs_synalm, nmt_synfast_flat")],
     ["synfast_flat"])

prop("P28", "Invalid or degenerate input raises a Python error and never kills the process",
     "Every documented invalid input (wrong shapes or lengths, incompatible pixelisations or multipole ranges, unusable bands or weights, unreadable files or files whose contents contradict each other, unsupported combinations) raises a Python exception, and no call, however degenerate its numerical input, terminates or corrupts the process. "
     "After a refused call, objects that took part in it and later calls behave as if it had not been made.",
     ["inputs", "histories", "fault_sequences"],
     "all argument mutations of all public constructors and functions, damaged or missing files, singular problems",
     "Tests list a few hand-picked bad arguments; process-fatal ones would kill the test runner.",
     ["pymaster/field.py", "pymaster/workspaces.py", "pymaster/covariance.py", "pymaster/bins.py", "pymaster/utils.py", "src/utils.c", "src/nmt_io.c"],
     [("error policy", "src/utils.c report_error"), ("argument checks", "pymaster/*.py")],
     ["all public entry points"])

prop("P29", "Results are repeatable and inputs are never modified",
     "Calling any public function or constructor again with the same inputs gives the same result to rounding, whatever was computed before and however many threads are used. "
     "No call modifies the arrays or objects it is given, and results returned earlier stay valid after the objects they came from are changed or freed.",
     ["histories", "schedules", "inputs"],
     "all sequences of public calls with shared inputs, thread counts 1..8",
     "Tests call each function once, in one thread configuration.",
     ["pymaster/field.py", "pymaster/workspaces.py", "pymaster/covariance.py", "pymaster/utils.py", "src/nmt_master.c", "src/nmt_covar.c"],
     [("copies of inputs", "pymaster/field.py"), ("OpenMP loops", "src/*.c")],
     ["all public entry points"])

prop("P30", "Global defaults act exactly like passing the same value explicitly",
     "Setting a default (iterations for maps or masks, pseudo-inverse tolerance, transform back end) and then omitting the argument gives the same results as passing the value explicitly, explicit values always win, and reported defaults equal the values last set; refused values leave them unchanged. "
     "The Hermitian pseudo-inverse satisfies the Penrose conditions on the retained eigenspace and equals the inverse for well-conditioned matrices.",
     ["histories", "configurations"],
     "all sequences of default changes interleaved with computations; all Hermitian positive semi-definite matrices",
     "Tests set each default once and read it back.",
     ["pymaster/utils.py", "pymaster/field.py", "pymaster/workspaces.py"],
     [("defaults", "pymaster/utils.py NmtParams"), ("pseudo-inverse", "pymaster/utils.py moore_penrose_pinvh")],
     ["get_default_params", "NmtField", "deprojection_bias"],
     [("nmt_params", "module-wide defaults", "pymaster/utils.py")])

prop("P31", "No public operation sequence touches memory it does not own",
     "Any sequence of public operations with valid or refused arguments, including reading files that were truncated or altered, runs without out-of-bounds or use-after-free memory access or undefined integer behaviour in the compiled library.",
     ["histories", "inputs", "fault_sequences"],
     "all operation sequences and sizes, including files with flipped or missing bytes",
     "Unit tests run without sanitizers and only on well-formed data.",
     ["src/nmt_master.c", "src/nmt_master_flat.c", "src/nmt_io.c", "src/nmt_covar.c", "src/nmt_covar_flat.c", "src/nmt_field_flat.c", "src/nmt_mask.c", "src/nmt_mask_flat.c", "src/utils.c", "src/flatsky_utils.c"],
     [("allocation and bounds", "src/*.c")],
     ["AddressSanitizer / UBSan reports"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
