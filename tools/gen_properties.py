"""Writes /verif/properties.jsonl (the property list lives here so that it stays readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(qtext.split())), why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))
Z, U, O, M, R, D, L = ("pyotf/zernike.py", "pyotf/utils.py", "pyotf/otf.py", "pyotf/microscope.py",
                    "pyotf/phaseretrieval.py", "pyotf/display.py", "pyotf/labview.py")

prop("C01", "Noll index and Zernike degrees convert into each other without error",
 """Every Noll index from 1 to 120 converts to the radial and azimuthal degree that Noll's 1976 ordering gives it
 (all lower orders come first, |m| never decreases within an order, even indices are the cosine modes m>0 and odd
 ones the sine modes m<0), and converting those degrees back returns the same index; this holds element by element
 for arrays of any shape. A Noll index that is not a positive signed integer, or a pair of degrees that are not
 integers, differ by an odd number or have |m| > n, is rejected with an error and never mapped to some other mode.""",
 ["inputs"], "all Noll indices and degree pairs, scalar or in arrays of any shape, including invalid ones",
 "The tests compare the first ten indices and ten random ones below 36, out of 120, and a handful of bad inputs.",
 [Z], [("noll_mapping and noll_inverse tables", Z + ": module level"), ("noll2degrees", Z), ("degrees2noll", Z)],
 ["return values of noll2degrees and degrees2noll", "ValueError/IndexError"])

prop("C02", "Zernike modes have the textbook value at every point",
 """For every valid degree pair (or Noll index) and every point, zernike returns the radial polynomial of that mode, scaled so that it is 1 on
 the edge of the unit disk, times cos(m theta) for m>=0 or sin(|m| theta) for m<0, and exactly 0 outside the unit disk.
 With normalization (the default) that is multiplied by sqrt(n+1) for m=0 and sqrt(2(n+1)) otherwise, and without it not at all.
 A sequence of modes gives one map per mode in the order requested, pairs with |m|>n or a negative radius are rejected,
 and the coordinate arrays are not modified.""",
 ["inputs"], "all degree pairs, Noll indices, radii, angles, sequences of modes and both normalizations",
 "The tests check norms of 15 modes on one grid (insensitive to the sign of a mode) and that a few random points are finite.",
 [Z], [("zernike argument handling", Z + ": zernike"), ("radial part", Z + ": _radial_zernike"),
       ("angular part and norm", Z + ": _zernike")], ["return value of zernike"])

prop("C03", "Centred Fourier transforms invert each other and agree with the DFT",
 """easy_fft is the discrete Fourier transform with both domains centred: the input's origin is sample n//2 of every
 transformed axis, and the zero frequency is output sample n//2, so the sum of the data is found there. easy_ifft undoes
 easy_fft and easy_fft undoes easy_ifft, for arrays of any shape (odd and even sizes) and any choice of axes, and axes that
 are not transformed are left alone.""",
 ["inputs"], "all arrays, shapes of either parity, and choices of axes",
 "No test calls either function; the models under test use them on even sizes only.",
 [U], [("easy_fft", U), ("easy_ifft", U)], ["return values of easy_fft and easy_ifft"])

prop("C04", "Padding and cropping to a Fourier size keeps the data and the centre",
 """fft_pad returns an array of exactly the requested shape (a single integer means that size along every axis, None for an axis leaves
 it alone, no shape at all means the next fast Fourier size) that contains the input, cropped where the new
 size is smaller, with the sample at ceil(n/2) of each axis moved to ceil(n'/2). With mode="constant" every
 added sample is zero. Padding to a larger shape and then going back to the old shape returns exactly the original array,
 and the input is never modified.""",
 ["inputs"], "all arrays, old and new sizes of either parity, per axis, padding and cropping mixed",
 "Six doctest examples of the pad widths; no test calls fft_pad.",
 [U], [("pad widths", U + ": _calc_pad"), ("crop windows", U + ": _calc_crop, _padding_slices"), ("fft_pad", U)],
 ["return value of fft_pad"])

prop("C05", "Centred windows have the requested width and never wrap around",
 """slice_maker returns one slice per axis which holds round(width) samples and starts floor(width/2) samples before the rounded
 centre, except that whatever lies below index 0 is cut off, so that a start is never negative and a window that lies entirely
 below 0 is empty. A scalar width applies to every axis, a negative width is rejected with a ValueError and complex input with a TypeError.""",
 ["inputs"], "all centres and widths (integers or reals, in or out of bounds) and any number of axes",
 "Two doctest examples, both well inside the array.",
 [U], [("slice_maker", U), ("_calc_pad", U)], ["slices returned by slice_maker"])

prop("C06", "Phase-retrieval data preparation: background, clipping, shape, centring",
 """prep_data_for_PR subtracts multiplier times the most frequent pixel value of the stack, sets what is then negative to zero,
 and returns a stack with the same number of planes that measures exactly xysize by xysize (by default the larger of the two lateral
 sizes), zero padded along an axis that is too short and cropped along one that is too long. When cropping is needed the stack is first
 rolled, as a whole and without losing a sample, so that its maximum is at n//2 of every axis, and the crop keeps the maximum at xysize//2
 of a cropped axis. It works for any non-negative integer data (unsigned types do not wrap around) and never modifies the caller's array.""",
 ["inputs"], "all integer stacks (signed or unsigned), all lateral shapes, xysize and multipliers",
 "remove_bg and center_data are each tested on one sample; prep_data_for_PR is never called by a test.",
 [U], [("prep_data_for_PR", U), ("remove_bg", U), ("center_data", U), ("fft_pad, slice_maker", U)],
 ["return values of prep_data_for_PR, remove_bg, center_data"])

prop("C07", "Binning adds or averages exactly the pixels of each block",
 """Every element of bin_ndarray's result is the sum (or, with operation="mean", the average) of exactly the block of input pixels it stands for:
 blocks tile the array from its first pixel, and with bin_size, pixels that do not fill a last block are dropped.
 The result's shape is the requested shape, or the old shape divided by bin_size rounding down. Unknown operations, a wrong number of dimensions,
 neither shape nor bin size, and a new shape that does not divide the old one are rejected, and the input is not modified.""",
 ["inputs"], "all arrays, shapes, bin sizes (scalar or per axis) and both operations",
 "No test calls bin_ndarray.",
 [U], [("bin_ndarray", U)], ["return value of bin_ndarray"])

prop("C08", "Radial profile is the mean and deviation over each ring",
 """Entry k of radial_profile's result is the mean of the pixels whose distance from the centre, divided by binsize, rounds to k,
 and entry k of the second result is the standard deviation of those same pixels; every pixel belongs to exactly one ring. The centre is
 shape//2 unless one is given, and complex data give the profile of the real part plus i times that of the imaginary
 part, with the two deviations added in quadrature.""",
 ["inputs"], "all 2D arrays (real or complex), centres and bin sizes",
 "One doctest of a constant 11 by 11 array (and it failed at this commit).",
 [U], [("radial_profile", U)], ["return values of radial_profile"])

prop("C09", "Impossible optical parameters are rejected and change nothing",
 """Both PSF models reject, with a TypeError or ValueError, a wavelength, numerical aperture, refractive index or (z)size that is negative or not a Python int or float
 (sizes: not an int), a lateral pixel size that is not positive or at or above the Abbe limit wl/(2 na), an axial step that is not positive,
 and an unknown vectorial correction or imaging condition; the Sheppard model also rejects an axial step at or above wl/(2 ni) and a dual flag
 that is not a boolean. This holds for the constructor and for every later assignment, which is judged by the other parameters as they are then, and positive values within these limits are accepted and read back unchanged.
 After a rejected assignment every parameter reads as before.""",
 ["inputs", "histories"], "all parameter values, for construction and for assignment to any existing model",
 "One rejected resolution per class is tested; no test looks at the state after a rejection.",
 [O, U], [("NumericProperty setter", U), ("res, zres, vec_corr, condition setters", O + ": BasePSF"),
          ("zres and dual setters", O + ": SheppardPSF"), ("zsize, zres setters", O + ": HanserPSF")],
 ["exceptions from constructors and attribute assignment", "attribute reads afterwards"])

prop("C10", "A model's outputs always match its current parameters",
 """After any sequence of constructions, reads, parameter assignments and pupil applications, the amplitude and intensity PSFs and OTFs read from a
 model equal those of a freshly built model with the same current parameters, or, if a pupil was applied since the last assignment of a parameter, those of that pupil.
 For the Hanser model, changing the z size or z step also resets the z range to that many planes, that far apart, with 0 at plane zsize//2, and
 an explicitly given z range is copied. Reading an output never changes a parameter or an output.""",
 ["histories", "inputs"], "all sequences of reads, assignments (to any parameter, of any accepted value) and pupil applications",
 "One test changes the size and z range of one model and only looks at the shape.",
 [O, U], [("_attribute_changed and cached_property", O + ": BasePSF"), ("NumericProperty setter", U),
          ("zsize, zres, zrange setters, apply_pupil", O + ": HanserPSF")],
 ["PSFa, PSFi, OTFa, OTFi after any history"])

prop("C11", "The Hanser amplitude PSF is the Fourier integral of its pupil",
 """For every parameter set, the Hanser model's amplitude PSF at plane z is the inverse 2D discrete Fourier transform, centred on pixel size//2, of
 the disk of spatial frequencies below na/wl, times the defocus phase exp(2 pi i z sqrt((ni/wl)^2-k^2)), times the apodization of the imaging condition
 (1, 1/sqrt(cos theta) or 1/cos theta, with sin theta = k wl/ni), times, one component each, the polarization factors of the requested vectorial correction.
 There is one plane per entry of the z range, in its order, each depending on no other entry. Applying a pupil puts that pupil in place of the disk.""",
 ["inputs", "configurations"], "all optical parameters, sizes, z ranges, vectorial corrections, conditions and pupils",
 "Tests check types, shapes and positivity of one model, and phase retrieval of PSFs made by the same code.",
 [O], [("pupil and coordinates", O + ": HanserPSF._gen_kr, _gen_pupil"), ("defocus", O + ": HanserPSF._calc_defocus"),
       ("assembly", O + ": HanserPSF._gen_psf")], ["HanserPSF.PSFa"])

prop("C12", "The Sheppard amplitude OTF is the apertured spherical shell",
 """For every parameter set with at least 3 pixels and 3 planes, the Sheppard model's centred amplitude OTF is non-zero only on voxels that lie within one voxel (measured along the radius) of the sphere of
 radius ni/wl and at least as far above the aperture plane kz=sqrt((ni/wl)^2-(na/wl)^2) (with dual objectives also its mirror image), and there it is the
 apodization of the imaging condition times, one component each, the polarization factors of the requested vectorial correction. It is finite everywhere, and the amplitude PSF is its centred
 inverse Fourier transform.""",
 ["inputs", "configurations"], "all optical parameters, sizes, corrections, conditions and both values of dual",
 "Tests check types and positivity of one scalar, single objective model.",
 [O], [("shell voxels", O + ": SheppardPSF._gen_kr"), ("amplitudes", O + ": SheppardPSF._gen_otf"), ("PSFa", O + ": SheppardPSF")],
 ["SheppardPSF.OTFa and PSFa"])

prop("C13", "Intensity PSF and OTF follow from the amplitude PSF",
 """For both models and every parameter set, the intensity PSF is the sum over the polarization components of the squared modulus of the amplitude PSF (so real,
 never negative, and of shape planes by size by size), the intensity OTF is its centred Fourier transform over all three axes (so its centre is the
 total intensity), and the Hanser model's amplitude OTF is the centred Fourier transform of its amplitude PSF, one per component. With the "total" vectorial correction the intensity PSF is the sum of those with "x", "y"
 and "z".""",
 ["inputs", "configurations"], "both models, all parameters",
 "Tests check positivity and the dtype of one model per class.",
 [O], [("PSFi, OTFi", O + ": BasePSF"), ("OTFa", O + ": HanserPSF"), ("component lists", O + ": _gen_psf, _gen_otf")],
 ["PSFi, OTFi, OTFa"])

prop("C14", "Defocus and phase aberrations conserve energy",
 """For every Hanser model whose pupil vanishes at and beyond the sphere of radius ni/wl (every default pupil does, if na <= ni), the lateral sum of the intensity PSF is the same in every z plane,
 and equals the mean over pixels of the squared modulus of the pupil times apodization, times 1 in the scalar case and 2 for the "total" vectorial correction.
 Multiplying the pupil by a pure phase changes it in no plane.""",
 ["inputs", "configurations"], "all models, pupils, z planes and phases",
 "No test compares planes; the guarantee is about every defocus and every phase.",
 [O], [("unimodular defocus", O + ": HanserPSF._calc_defocus"), ("unitary polarization factors", O + ": HanserPSF._gen_psf")],
 ["lateral sums of HanserPSF.PSFi"])

prop("C15", "Aberrations add up on a copy of the model, and only where asked",
 """Applying coefficients to a model returns a new model whose pupil is (disk + sum of magnitude coefficient j times Noll mode j) times
 exp(i times the sum of phase coefficient j times Noll mode j), the modes being evaluated on the pupil with radius 1 at na/wl; missing coefficients count as zero, and the
 original model and the coefficient arrays are left as they were. A named aberration is its Noll mode alone with the given magnitude and touches only the phase, several named ones add their phases
 whatever their order, and an unknown name is rejected with a KeyError.""",
 ["inputs", "configurations"], "all models, coefficient sequences, names, magnitudes and dictionaries of them",
 "One test looks at the coefficient vector of one name.",
 [O, Z], [("apply_aberration", O), ("named_aberration_to_pcoefs, apply_named_aberration(s)", O), ("name2noll", Z)],
 ["PSFs of the returned model", "the original model and arrays"])

prop("C16", "Phase retrieval runs the Hanser iteration and reports it faithfully",
 """retrieve_phase starts from the ideal pupil, and every further estimate is the previous one's PSF with its modulus replaced by the square root of the (clipped) data, transformed back, stripped of
 each plane's defocus, averaged over planes, confined to the pupil, and with phase_only reset to unit magnitude. It stops at the first estimate whose mean squared error, or its relative change, or that of the pupil,
 is below tolerance, or when max_iters estimates have been evaluated; the three histories have one entry per estimate evaluated, entry k being that estimate's (k=0: the ideal pupil). The returned
 magnitude and (unwrapped) phase are those of the estimate that met a tolerance, or else of the one that follows the last evaluated; both are zero outside the pupil, and the data are not modified.""",
 ["inputs", "histories"], "all data stacks, parameters, tolerances, iteration limits and both modes, and every iteration",
 "One random pupil with zero tolerances and 400 iterations is retrieved; early stopping and phase_only are never run.",
 [R, O], [("iteration", R + ": retrieve_phase"), ("error", R + ": _calc_mse"), ("pupil hooks", O + ": HanserPSF.apply_pupil, _calc_defocus")],
 ["PhaseRetrievalResult", "mse, mse_diff, pupil_diff"])

prop("C17", "Zernike decompositions are least squares fits that rebuild the pupil",
 """Fitting a retrieval result to N>=1 Zernike modes yields, separately for magnitude and phase, the least squares coefficients over the points inside the unit
 pupil radius of Noll modes 1 to N. The decomposition rebuilds magnitude and phase as the sum of the selected coefficients times their modes, and the complex pupil as
 magnitude times exp(i phase). PSFs generated from either pupil are those of the retrieval model with that pupil applied, zero padded or centrally cropped to the requested lateral size,
 and neither changes the result nor its model.""",
 ["inputs", "configurations"], "all retrieval results, numbers of modes, selections, sizes and z ranges",
 "One 15 mode fit is tested on one pupil that lies in the span of the modes.",
 [R], [("fit_to_zernikes, _fit_to_zerns", R), ("ZernikeDecomposition", R), ("_generate_psf", R)],
 ["coefficients, rebuilt pupils, generated PSFs"])

prop("C18", "A microscope's PSF is its binned model PSF with unit sum",
 """A widefield microscope's PSF is the model's intensity PSF summed over the oversample_factor by oversample_factor block of fine pixels of each camera pixel, divided by its total, so it sums to 1;
 each block is centred on the fine pixel that holds the optical axis, for odd and even sizes. Its shape is that of the
 requested camera grid whatever the oversampling, fine pixels measure pixel_size/oversample_factor laterally and z is not oversampled, even or negative factors and
 unknown model names are rejected, and the OTF is the centred Fourier transform of that PSF.""",
 ["inputs", "configurations"], "all parameters, sizes of either parity and odd oversampling factors, both models",
 "No test imports the microscope module.",
 [M, U], [("constructor", M + ": WidefieldMicroscope"), ("PSF, OTF", M + ": WidefieldMicroscope"), ("bin_ndarray", U)],
 ["WidefieldMicroscope.PSF, OTF, model"])

prop("C19", "Confocal PSF is pinhole-blurred detection times excitation",
 """A confocal microscope's fine-grid PSF is the emission PSF, convolved in each plane with the normalized pinhole disk, times the PSF of the same optics at
 the excitation wavelength; the disk holds the pixels strictly closer to its centre than pinhole_size/2 Airy units (1.22 wl/na), and a pinhole radius of 1.5 fine pixels or less counts as a point.
 Reading or assigning the excitation wavelength or the pinhole size is reflected in the next PSF and never alters the emission model.""",
 ["inputs", "configurations", "histories"], "all parameters, pinhole sizes, wavelengths and reassignments",
 "No test imports the microscope module.",
 [M], [("ConfocalMicroscope", M), ("_disk_kernel", M)], ["ConfocalMicroscope.PSF, model_psf"])

prop("C20", "SIM PSFs are the model PSF times the interference pattern",
 """A SIM microscope's fine-grid PSF is the (optionally Wiener filtered) model PSF times the sum over orientations of the intensity of the two beams at the excitation angle asin(na_exc/ni), plus
 the axial beam if included; coherent (lattice) variants instead add all beams, the axial one once, before taking the intensity, and DC suppression subtracts (2 N - 1) times the PSF for N orientations in the other variants.
 The pattern is centred on the PSF's centre, no filter is applied for a Wiener parameter of None, and a negative one is rejected.
 Every later assignment of an excitation, orientation or Wiener setting is reflected in the next PSF.""",
 ["inputs", "configurations", "histories"], "all parameters, orientations, flags, Wiener parameters and reassignments",
 "No test imports the microscope module.",
 [M], [("BaseSIMMicroscope.model_psf", M), ("SIM2D, SIM3D, Lattice", M)], ["model_psf and PSF of the SIM classes"])

prop("C21", "Apotome PSF only reweights whole planes",
 """The apotome microscope's fine-grid PSF is its model's intensity PSF with each plane multiplied by one number, which is proportional to the modulus of the radial average of that plane's centred lateral Fourier transform at half the
 ring index of the Abbe limit (the rounded size*res*2*na/wl). Within a plane nothing else changes.""",
 ["inputs", "configurations"], "all parameters and sizes",
 "No test imports the microscope module.",
 [M, U], [("ApotomeMicroscope.model_psf", M), ("radial_profile", U)], ["ApotomeMicroscope.model_psf"])

prop("C22", "Plots show the view their title names, with the true extent",
 """In PSF and OTF plots the panel titled XY, XZ or YZ (or kXY, ...) shows the maximum projection along the remaining axis, or with central slices the plane through sample n//2 of it, with the first named axis
 horizontal unless it is the z axis, which is horizontal in YZ and vertical in XZ. Each panel's extent runs from the first to the last sample's coordinate, the origin being sample n//2 and the step that axis's
 pixel size (in OTF plots 1/(n d)), the aperture circle has radius 2 na/wl, display options are passed on, and the data are not modified. The plot methods of a model or microscope draw its intensity PSF
 (cropped about its brightest sample to 16 axial and 32 lateral resolution lengths) and the modulus of its OTF over its maximum, with its own axial and lateral steps, na, ni and wl.""",
 ["inputs", "configurations"], "all volumes, shapes of either parity, pixel sizes and display options",
 "Four doctest examples of the extents; no test draws a plot.",
 [D, O, M], [("psf_plot, otf_plot", D), ("max_min, fft_max_min", D), ("plot_psf, plot_otf", O + ", " + M)], ["figures returned by psf_plot and otf_plot", "max_min, fft_max_min", "plot_psf, plot_otf"])

prop("C23", "Refractive index mismatch factors are consistent",
 """z_squeeze(n1, n2, na) is the ratio of n - sqrt(n^2 - na^2) (the root being 0 if na > n) between the two media: 1 for equal indices, positive, reciprocal when the media are swapped,
 and multiplicative along a chain of media.""",
 ["inputs"], "all positive indices and numerical apertures",
 "No test calls z_squeeze.", [D], [("z_squeeze", D)], ["return value of z_squeeze"])

prop("C24", "The LabVIEW entry point is exactly prepare, retrieve, convert",
 """labview(data, ...) returns, as nested lists, the phase that retrieve_phase finds for the data prepared with the default preparation, with the wavelength, aperture, index, pixel sizes, iteration limit, tolerances and
 phase-only flag each passed on to the setting of that name.""",
 ["inputs"], "all data and settings", "No test imports the module.", [L], [("labview", L)], ["return value of labview"])

prop("C25", "Cartesian to polar conversion and the clipped root are exact",
 """cart2pol returns, for every pair of arrays, a non-negative radius and an angle in [-pi, pi] with x = rho cos(theta) and y = rho sin(theta), and psqrt returns the square root of the positive part of its input;
 neither modifies its arguments.""",
 ["inputs"], "all real inputs, including zeros, negative values and arrays of any shape",
 "Ten and twenty random samples.", [U], [("cart2pol", U), ("psqrt", U)], ["return values"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
