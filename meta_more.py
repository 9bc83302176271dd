# exec'd by meta.py
prop("C02", "Detector pixels map to the exact reciprocal-space coordinates",
     "For every diffractometer setting, detector geometry, wavelength and UB matrix, each pixel of each image is assigned the reciprocal-space vector of the documented six-circle geometry in the requested frame (theta, phi, Cartesian sample or hkl; hkl by default), in image order; the hkl-to-q norm and the grazing-incidence conversion likewise equal their formulas. "
     "The result does not depend on the number of threads, threads share no data without synchronisation, and a failing allocation is reported as MemoryError without touching memory outside the allocations. "
     "Settings, UB matrices or frame modes of a wrong shape or kind are rejected with an error.",
     "all angles, geometries, wavelengths and UB matrices within the stated numbers of images, pixels and threads; single allocation failures",
     ["src/ctrans.c", "skbeam/core/recip.py"],
     [("conversion", "src/ctrans.c processImages, calcQTheta, calcQPhiFromQTheta, calcHKLFromQPhi"), ("argument handling", "src/ctrans.c ccdToQ, recip.py process_to_q"), ("other conversions", "recip.py hkl_to_q, gisaxs")],
     over=("inputs", "schedules", "fault_sequences", "configurations"), technique=CT,
     why="Tests convert one constant detector image at one setting and never vary threads or allocation failures.")

prop("C13", "q, d and two-theta conversions are exact and mutually inverse",
     "For all values, q*d = 2*pi, wavelength*q = 4*pi*sin(two_theta/2), and the conversions in the two directions are inverse to each other, NaN exactly beyond the limiting sphere; scalars, lists and arrays of any shape keep their shape. "
     "A powder standard built from plane spacings or from measured angles holds every line once, sorted by q, with its own Miller indices, and reports its angles at another wavelength by the same law; the tabulated standards are consistent with their lattices.",
     "all values within the stated ranges", ["skbeam/core/utils.py", "skbeam/core/constants/xrs.py"],
     [("conversions", "utils.py q_to_d, d_to_q, twotheta_to_q, q_to_twotheta"), ("standards", "xrs.py PowderStandard, HKL, calibration_standards")])

prop("C14", "Bin edges, bin centres and lag times follow their definition",
     "For every accepted combination of limits, step and number, bin edges are equally spaced, start (or end) at the requested limit, have the requested number or step and cover exactly what was asked; over- or under-determined or inconsistent requests are rejected with ValueError. "
     "Centres are midpoints of neighbouring edges, the multi-tau delays are linear in the first level and double their spacing at each further level, and a geometric series is first*ratio^k up to the limit.",
     "all limits, steps and counts within the stated sizes", ["skbeam/core/utils.py"],
     [("edges", "utils.py bin_edges"), ("centres", "utils.py bin_edges_to_centers, pairwise"), ("lags", "utils.py multi_tau_lags, geometric_series")])

prop("C15", "Masks mark exactly the documented pixels and frames",
     "Frames listed as bad come out all-NaN and every other frame unchanged, in order; the running threshold mask is bad exactly where this or an earlier image reached the threshold or the given mask was bad; the margin mask is good exactly at least edge_size pixels from every border; the binned-outlier mask keeps exactly the unmasked pixels within alpha standard deviations of the mean of the unmasked pixels of their own bin. "
     "Inputs are not modified.",
     "all images, masks, thresholds and margins within the stated sizes", ["skbeam/core/mask.py"],
     [("bad frames", "mask.py bad_to_nan_gen"), ("threshold", "mask.py threshold"), ("margin", "mask.py margin"), ("outliers", "mask.py binned_outlier")])

prop("C16", "Logical image arithmetic and reference subtraction are pixelwise exact",
     "The logical and, or, xor, nand, nor and subtract of two images equal the boolean formula at every pixel for boolean, integer and real images, also when the result is written into a given array, including one of the operands. "
     "Subtracting reference images replaces every non-reference image by itself minus the latest reference image before it and drops the references; a series that does not start with a reference is rejected.",
     "all images and flags within the stated sizes", ["skbeam/core/arithmetic.py", "skbeam/core/utils.py"],
     [("logic", "arithmetic.py logical_nand, logical_nor, logical_sub"), ("reference images", "utils.py subtract_reference_images")])

prop("C04", "Reusable binned statistics use exactly the unmasked points of each cell",
     "For every sample, mask, values and bins (explicit edges, counts with a range, default range), the binned mean, sum, count, median, standard deviation or user statistic of each cell, in any number of dimensions, is that of exactly the unmasked points whose every coordinate lies in the cell's half-open bin (the last bin closed); empty cells are NaN for mean and median and 0 for sum, count and standard deviation, and the bin map names the bin of every point in every dimension (0 and n+1 for outliers). "
     "The radial and radius-angle variants bin the pixels of an image by their distance and angle from the origin or by a given radius map. "
     "An object can be reused for other values and statistics in any order, and inputs are never modified.",
     "all points, values, masks and bin specifications within the stated sizes; repeated use of one object",
     ["skbeam/core/accumulators/binned_statistic.py"],
     [("binning", "binned_statistic.py BinnedStatisticDD.__init__"), ("statistics", "binned_statistic.py BinnedStatisticDD.__call__"), ("bin map", "binned_statistic.py binmap"), ("images", "binned_statistic.py RadialBinnedStatistic, RPhiBinnedStatistic")], over=("inputs", "histories"))

prop("C03", "The N-dimensional histogram adds each weight to exactly its cell",
     "For every binning of one or more dimensions and every sequence of fills and resets, each cell holds the sum of the weights of exactly the points filled since the last reset whose every coordinate lies in the cell's half-open bin; points outside any axis range count nowhere, and every point with lo <= x < hi is counted exactly once whatever the rounding. "
     "This holds for scalars, lists, strided arrays and all documented integer and floating types, mixed integer and float axes from three dimensions on, and scalar or per-point weights; no memory outside the arrays is touched. "
     "Edges and centres divide each range equally, and inconsistent arguments are rejected without counting anything.",
     "all coordinates, weights, axis limits and short histories of fills and resets within the stated sizes",
     ["skbeam/core/accumulators/histogram.pyx"],
     [("bin lookup", "histogram.pyx find_indices"), ("filling", "histogram.pyx _fill1d, _fill2d, _fillnd"), ("interface", "histogram.pyx Histogram")],
     over=("inputs", "histories"), technique=T % "Cython source (parsed by Cython's parser, C conversions and pointers made explicit)")

prop("C17", "Dotted-path dictionaries behave as maps of their leaves",
     "After any sequence of assignments, reads and deletions, the metadata dictionary and the parameter dictionary list exactly the paths of the stored leaves, each once, and every path gives the value stored last (with the units given); a path that runs through a stored value is rejected and destroys nothing, and reading never changes what is stored. "
     "A missing key of a verbose dictionary raises KeyError naming the key and the existing keys or, from 25 entries on, their number.",
     "all values and all histories of the stated length over nested paths of depth up to three", ["skbeam/core/utils.py"],
     [("metadata", "utils.py MD_dict"), ("parameters", "utils.py RCParamDict"), ("errors", "utils.py verbosedict")], over=("histories", "inputs"),
     why="Only verbosedict has tests; the property quantifies over histories of operations.")

prop("C18", "Peak filters, windows and quadratic refinement follow their definitions",
     "For every spectrum and every set of candidates, the size filters keep exactly the candidates that qualify (the N largest in descending order; those whose peak-to-peak size in the window exceeds the threshold), and refinement hands each candidate's window, truncated only at the borders, to the refine function and reports the accepted ones in order. "
     "The quadratic and log-quadratic refinements and the largest-peak finder return the vertex, height and width of the least-squares parabola of exactly the samples in the window, wherever the peak lies, and reject a fit exactly when its R2 is below the threshold. "
     "Aligning spectra shifts each to its own peak and scales it to the width of the first.",
     "all sample values, candidates, windows and thresholds within the stated sizes", ["skbeam/core/feature.py", "skbeam/core/fitting/funcs.py", "skbeam/core/spectroscopy.py"],
     [("filters and windows", "feature.py peak_refinement, filter_n_largest, filter_peak_height"), ("parabola", "fitting/funcs.py fit_quad_to_peak"), ("refinement", "feature.py refine_quadratic, refine_log_quadratic"), ("largest peak", "spectroscopy.py find_largest_peak, align_and_scale")])

prop("C19", "Region integrals use exactly the samples of each region",
     "For every spectrum with increasing or decreasing locations and every list of regions inside it, the integral is the sum over the regions of the Simpson integral from the first sample at or above the lower limit to the first sample at or above the upper limit, overlaps counted repeatedly, and a quadratic is integrated exactly between samples. "
     "A histogram is integrated as sampled at its bin centres. "
     "Locations that are not monotonic, limits that are not ordered, not paired or outside the locations are rejected, and nothing else is.",
     "all sample locations, values and limits within the stated sizes", ["skbeam/core/spectroscopy.py"],
     [("integration", "spectroscopy.py integrate_ROI"), ("histograms", "spectroscopy.py integrate_ROI_spectrum")])

prop("C20", "Coherent-diffraction projections, supports and the difference map are exact",
     "The modulus projection replaces the Fourier modulus by the measured one wherever that is positive and keeps all phases and other components; box and disk supports, also larger than the array, contain exactly the pixels within the radius of the centre; the support update keeps exactly the pixels whose smoothed modulus reaches the threshold times the maximum; the pattern error and the Gaussian kernel follow their definitions. "
     "Every iteration of the reconstruction is the difference map of these projections, the result is the mean of the iterates from the stated start on, the errors belong to their iterations, the callback runs every cb_step iterations, and no input is modified.",
     "all objects, patterns and parameters within the stated sizes; one or two iterations", ["skbeam/core/cdi.py"],
     [("projection", "cdi.py pi_modulus"), ("supports", "cdi.py generate_box_support, generate_disk_support, find_support"), ("errors", "cdi.py cal_diff_error"), ("iteration", "cdi.py cdi_recon")], over=("inputs", "histories"))

prop("C21", "Differential phase contrast reduces, fits and reconstructs as defined",
     "Each image is reduced to the row and column sums of exactly its ROI without the bad pixels, the fit minimises the squared difference between the measured and the shifted reference Fourier line from the given start, and each scan point gets the gradients and amplitude of its own image; a run cut at any point and resumed from its saved state gives the same maps as an uninterrupted one. "
     "The phase is the weighted least-squares Fourier integration of the two gradients with the given steps and padding, scaled and negated exactly as requested; weights outside [0,1] are rejected.",
     "all images, gradients, geometries and weights within the stated sizes; every cut point of a short scan", ["skbeam/core/dpc.py"],
     [("reduction", "dpc.py image_reduction"), ("fit", "dpc.py _rss_factory, dpc_fit"), ("scan", "dpc.py lazy_dpc, dpc_runner"), ("phase", "dpc.py recon, reconstruct_phase_from_partial_info")], over=("inputs", "histories"))

prop("C22", "Line shapes, photon statistics and model defaults follow their formulas",
     "For all locations and parameters, the Gaussian, Lorentzian, squared Lorentzian, Voigt, pseudo-Voigt, Gaussian step and tail equal their formulas; elastic and Compton peaks lie at the energies given by the calibration and the scattering angle with the detector's width, and the Compton peak is the normalised sum of its parts. "
     "The Poisson, negative binomial and gamma distributions equal their probabilities. "
     "Default model parameters take value, limits and whether they vary from their table exactly as the bound type says, and unknown bound types are rejected.",
     "all locations and parameters within the stated ranges", ["skbeam/core/fitting/lineshapes.py", "skbeam/core/fitting/models.py"],
     [("shapes", "lineshapes.py gaussian, lorentzian, lorentzian2, voigt, pvoigt, gausssian_step, gaussian_tail"), ("peaks", "lineshapes.py elastic, compton"), ("statistics", "lineshapes.py gamma_dist, nbinom_dist, poisson_dist"), ("defaults", "models.py set_default")])

prop("C23", "SNIP background and Savitzky-Golay smoothing follow their definitions",
     "For every spectrum, the SNIP background is the box-smoothed spectrum repeatedly replaced, in the log-log domain, by the mean of its two neighbours one window away wherever that is lower; the window is the given multiple of the peak width at each channel's energy, halved when binned, clipped to the given range, used iter_num times and then shrunk by the factor until below the threshold. "
     "The Savitzky-Golay filter returns, at every pixel, the value or the row or column slope of the least-squares polynomial of the window around it, the image being continued beyond its borders by folding; even windows and underdetermined orders are rejected. "
     "Inputs are not modified.",
     "all counts and pixel values within the stated sizes and settings", ["skbeam/core/fitting/background.py", "skbeam/core/smoothing.py"],
     [("background", "background.py snip_method"), ("smoothing", "smoothing.py sgolay2d")])

prop("C24", "Speckle visibility gives the count probabilities of each integration time",
     "For every set of images and regions, the probability of k counts at integration time 2^l is, per region, the mean over all complete consecutive windows of 2^l frames without a bad frame of the normalised histogram of the summed counts (bins of one count up to the maximum, the last one closed), averaged over the image sets with equal weight; the deviation is that of the same windows. "
     "The bin edges normalised by the mean count equal k / (mean * 2^l), their centres are midpoints.",
     "all counts within the stated numbers of sets, frames, pixels and levels; every position of a bad frame listed", ["skbeam/core/speckle.py"],
     [("levels and sets", "speckle.py xsvs"), ("histograms", "speckle.py _process"), ("bins", "speckle.py normalize_bin_edges")], over=("inputs", "histories"))

prop("C25", "Calibration and rebuilt images follow the detector geometry",
     "An image built from a radial or a polar average has at every pixel the linear interpolation in that pixel's radius (and, periodically, angle) about the centre with the pixel sizes, the given values or NaN outside, and NaN next to masked points. "
     "The ring centre is the most frequent mirror centre of rows and of columns; the refined beam centre is the old one moved by the first Fourier coefficients of the ring radii over the angle (sine for rows, cosine for columns, in pixels); the sample distance is the mean (with deviation) of refined peak radius over tan(2 theta) of the standard's lines in order. "
     "Inconsistent arguments are rejected and inputs are not modified.",
     "all intensities within the stated sizes, grids and geometries", ["skbeam/core/image.py", "skbeam/core/calibration.py"],
     [("images", "image.py construct_circ_avg_image, construct_rphi_avg_image"), ("ring centre", "image.py find_ring_center_acorr_1D"), ("beam centre", "calibration.py refine_center"), ("distance", "calibration.py estimate_d_blind")])

prop("C26", "XRF spectra, linear fits and area maps are built from the activated lines",
     "For all calibrations and detector parameters, the model spectrum of an element family is the sum of Gaussians at the energies of all its activated lines with their branching ratios, the detector's width at each energy and the given position, width, ratio and area adjustments (likewise user and pileup peaks); families that are not activated are left out, the Compton and elastic peaks follow, and after assembly every line follows the global parameters. "
     "Fitting solves exactly the weighted non-negative least squares of the (background-subtracted) spectrum over these columns; fitted profiles, areas, per-pixel weights, summed background and coefficient of determination follow from its solution, pixel by pixel in place however the worker calls complete. "
     "Area maps are weight times the area of the profile, or the first line's share of it; inputs are not modified.",
     "all parameters, channels, counts and matrices within the stated sizes; both completion orders", ["skbeam/core/fitting/xrf_model.py"],
     [("lines", "xrf_model.py element_peak_xrf, ModelSpectrum.setup_element_model"), ("assembly", "xrf_model.py ModelSpectrum.assemble_models, construct_linear_model"), ("fits", "xrf_model.py nnls_fit, linear_spectrum_fitting, fit_per_line_nnls, fit_pixel_multiprocess_nnls"), ("areas", "xrf_model.py calculate_area, get_relative_cs_ratio")], over=("inputs", "schedules"))

prop("C27", "XRF fit parameters, strategies and ranges are kept exactly as set",
     "After any history of adding constraints and choosing strategies, a parameter controller holds the global parameters, exactly one parameter per activated line and kind for every element with its default value and limits, and the bound type of the strategy, else of the element's constraint, else fixed; the dictionaries given by the caller are not modified. "
     "Bound types become exactly the limits and freedom of the fit parameters; existing strategies are only replaced when asked; fit results update the values of the parameters they name and nothing else; the total area is the sum over the family's fitted lines. "
     "Ranges keep exactly the channels between the nearest channels to their limits, escape peaks are the spectrum moved by the escape energy and scaled, and line names select the documented line.",
     "all values and limits; every history of up to three operations", ["skbeam/core/fitting/xrf_model.py"],
     [("controller", "xrf_model.py ParamController"), ("strategies", "xrf_model.py register_strategy, set_parameter_bound, extract_strategy"), ("hints", "xrf_model.py _set_parameter_hint, ModelSpectrum"), ("results", "xrf_model.py update_parameter_dict, sum_area"), ("ranges", "xrf_model.py trim, define_range, compute_escape_peak, get_activated_lines, get_line_energy")], over=("inputs", "histories"))

prop("C28", "Element tables give each element's own data and exactly the lines asked for",
     "An element found by number, symbol or name in any spelling carries exactly its record of the table, elements compare by atomic number, and unknown keys are rejected. "
     "Lines, binding energies, jump factors, yields and cross sections are, for every element and every name in any spelling, the corresponding xraylib quantity at the object's own incident energy, or zero when it does not exist. "
     "Searching near an energy returns exactly the excited lines strictly within the range, for exactly the elements asked for.",
     "every element and line; all energies and ranges", ["skbeam/core/constants/basic.py", "skbeam/core/constants/xrf.py"],
     [("elements", "basic.py BasicElement, read_atomic_constants"), ("quantities", "xrf.py XrayLibWrap, XrayLibWrap_Energy, XrfElement"), ("search", "xrf.py XrfElement.line_near, emission_line_search")])

prop("C29", "Data and masks written to files are the data and masks read back",
     "Powder patterns saved as columns or as GSAS files hold every point's angle, intensity and error in order with a correct header, for any values, point counts, modes and pre-existing files, and inconsistent arguments write nothing. "
     "Reading a GSAS file returns exactly its channels: the angles in degrees, the (scaled) intensities and the weights, also for files of other programs with blank fields or several counters. "
     "Raw binaries and fit2d masks come back with the shape, order, header and values they were written with.",
     "values symbolic; 1 to 21 points, all modes", ["skbeam/io/save_powder_output.py", "skbeam/io/gsas_file_reader.py", "skbeam/io/binary.py", "skbeam/io/fit2d.py"],
     [("columns", "save_powder_output.py save_output"), ("gsas", "save_powder_output.py gsas_writer, gsas_file_reader.py gsas_reader"), ("raw", "binary.py read_binary"), ("masks", "fit2d.py fit2d_save, read_fit2d_msk")])
