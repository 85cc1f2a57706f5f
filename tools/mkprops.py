import json
P="src/PythonicDISORT/pydisort.py"; A="src/PythonicDISORT/_assemble_intensity_and_fluxes.py"
S="src/PythonicDISORT/_solve_for_coeffs.py"; G="src/PythonicDISORT/_solve_for_gen_and_part_sols.py"
U="src/PythonicDISORT/subroutines.py"
rows=[]
def add(id,title,statement,over,qtext,why,files,mech,observe):
    assert len(title)<=80,(id,len(title))
    rows.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))
T="The 42 tests sample a few dozen fixed atmospheres (the Stamnes DISORT problems and one single-layer family); "
add("C01","The returned intensity solves the discretised radiative transfer equation",
"For every valid atmosphere the intensity returned for the quadrature angles satisfies, at every depth inside every layer and for every azimuthal Fourier mode, the discrete-ordinate radiative transfer equation of the (delta-M scaled) problem: its change between two depths of a layer equals the integral of extinction, multiple scattering by the truncated phase function, single scattering of the attenuated beam and the isotropic source times one minus the single-scattering albedo.",
["inputs","configurations"],"all valid layer stacks (any number of layers, albedos, phase functions, truncations, delta-M fractions), beams, boundary sources, surfaces and source polynomials; all pairs of depths inside a layer; all Fourier modes",
T+"they compare with stored numbers for those cases only, and never with mixed sources, non-trivial truncations or thick/thin/non-scattering layers together.",
[P,A,S,G,U],[("eigen-decomposition and beam particular solution",G),("polynomial-source particular solution",U+" (_mathscr_v)"),("assembly of modes",A),("delta-M scaling of inputs",P)],["u(tau, phi)","u0(tau)"])
add("C02","Boundary conditions and surface reflection are honoured",
"At the top the downward diffuse intensity of every Fourier mode equals the prescribed top source; at the bottom the upward intensity of every mode equals the prescribed bottom source plus the reflection, by the surface reflectance mode, of the downward diffuse intensity and of the attenuated direct beam. This holds for scalar, per-angle and per-angle-per-mode boundary sources and for reflectance modes given as numbers or functions, whatever the number of modes supplied.",
["inputs","configurations"],"all valid atmospheres and all documented forms of boundary source and reflectance input",
T+"per-angle and per-mode boundary inputs are never exercised, and reflectance tests use a single surface.",
[S,P],[("right-hand side and boundary rows of the linear system",S),("classification of boundary input shapes",P)],["u(0, phi)","u(tau_bottom, phi)","u0"])
add("C03","All outputs are continuous across layer interfaces",
"The intensity (with or without intensity corrections), its azimuthal mean, the energetic fluxes (diffuse up, diffuse down, direct) and the actinic fluxes have the same value just above, at and just below every layer interface, and at the top and bottom boundaries they equal their limits from inside. A depth equal to an interface is always accepted.",
["inputs","configurations"],"all multi-layer atmospheres, all interfaces, all angles, all options",
T+"they evaluate at interior points and cannot see a jump at an arbitrary interface of an arbitrary stack.",
[S,A,P],[("continuity rows of the linear system (dense and banded)",S),("layer lookup for a depth",A),("intensity correction accumulated over layers",P)],["u","u0","Fp","Fm","actinic fluxes"])
add("C04","Fluxes and actinic fluxes are the angular moments of the intensity",
"The upward and downward energetic and actinic fluxes equal the hemispheric quadrature sums of the zeroth azimuthal mode, the direct flux follows the Beer-Lambert law in the true (unscaled) optical depth, and with delta-M scaling the part of the scaled direct beam in excess of the true direct beam is moved into the downward diffuse fluxes so that total downward flux is preserved. The zeroth mode equals the azimuthal mean of the uncorrected intensity.",
["inputs","configurations"],"all valid atmospheres and depths, any source mix and source magnitude",
T+"stored reference fluxes exist only for those, with unit-scale sources and no actinic reference at all.",
[A,U],[("flux closures and reclassification",A),("actinic flux generator",U+" (generate_diff_act_flux_funcs)"),("source rescaling",P)],["Fp","Fm","u0","generate_diff_act_flux_funcs"])
add("C05","Energy is conserved in every layer",
"Between any two depths the change of the net flux (upward minus total downward) equals the energy absorbed minus the energy emitted in between: the layer-wise integral of (1 - single-scattering albedo) times (4 pi times the source function minus the total actinic flux including the direct beam). In the conservative limit the net flux is constant with depth.",
["inputs","configurations"],"all valid atmospheres, with and without delta-M scaling, all pairs of depths",
T+"no test checks a flux divergence.",
[A,G,P,U],[("phase-function normalisation and scaling",P),("scattering matrices",G),("flux closures",A)],["Fp","Fm","generate_diff_act_flux_funcs"])
add("C06","Antiderivative outputs integrate the corresponding function",
"For any two depths inside one layer, the difference of an output evaluated in antiderivative mode equals the integral over depth of the same output in ordinary mode. This holds for intensity (corrected or not), zeroth mode, up/down/direct energetic fluxes, and actinic fluxes, in every layer and for every source combination.",
["inputs","configurations"],"all valid atmospheres, outputs, layers and pairs of depths in a layer",
"The antiderivative tests cover a single-layer atmosphere with a beam; multi-layer, no-beam and internal-source antiderivatives are never evaluated.",
[A,P,U],[("antiderivative branches of each closure",A),("antiderivative of the polynomial particular solution",U+" (_mathscr_v)"),("antiderivative of intensity corrections",P)],["every output with is_antiderivative_wrt_tau=True"])
add("C07","Results are linear in the sources",
"Scaling the beam, boundary and internal sources by a common positive factor scales every output by it, over many orders of magnitude, and the solution for a sum of sources is the sum of the solutions for the individual sources. An atmosphere without any source has zero radiation.",
["inputs","configurations"],"all valid atmospheres, source decompositions and scale factors",
T+"each fixes one source magnitude and combination, so the internal rescaling is never varied.",
[P,A],[("rescaling of the sources and of every output",P),("multiplication by the rescale factor",A)],["all outputs"])
add("C08","Subdividing a homogeneous layer changes nothing",
"Splitting any layer into several layers with identical properties leaves every output (fluxes, intensity, corrected intensity, actinic fluxes) unchanged at every depth.",
["inputs","configurations"],"all valid atmospheres, all ways of splitting layers, including splits that change the linear solver used",
"One test splits one atmosphere and compares a few points, without corrections, thermal source or surface.",
[P,S,A],[("multi-layer assembly",S),("layer lookup",A),("layer averages and accumulation in the corrections",P)],["all outputs"])
add("C09","The choice of linear solver does not affect the results",
"All outputs are independent of the number-of-layers threshold at which the banded solver replaces the dense solver, for every threshold of at least three, including stacks whose size is just below, at and above the threshold.",
["inputs","configurations"],"all valid atmospheres of three or more layers, all thresholds, all Fourier modes and surfaces",
"Tests exercise either path for a few stacks, never both on the same problem.",
[S],[("diagonal-ordered assembly vs dense assembly",S)],["all outputs"])
add("C10","Output and performance options do not change the physics",
"Requesting fluxes only, using fewer Fourier modes, enabling automatic-differentiation support, or enabling intensity corrections leaves every quantity the option does not concern unchanged: fluxes and zeroth mode are identical in all these configurations, the automatic-differentiation flag changes no value, and dropping Fourier modes only removes the highest azimuthal harmonics.",
["inputs","configurations"],"all valid atmospheres times all combinations of the options",
T+"each with one option setting.",
[P,A,S,G,U],[("only_flux / NFourier handling",P),("autograd branches",A+", "+P+", "+U)],["all outputs"])
add("C11","Delta-M scaling equals solving the scaled problem",
"Solving with fractional forward scattering f gives, at corresponding depths, the same azimuthal modes and upward flux as solving the explicitly scaled problem (scaled optical depth, albedo, phase function and source) without delta-M scaling, and the same total downward flux. Layers with f = 0 are unaffected and f = 0 everywhere means no scaling.",
["inputs","configurations"],"all valid atmospheres, per-layer fractions in [0,1) mixed with zero, all depths and sources",
T+"delta-M tests use fixed fractions and reference tables.",
[P,A,U],[("delta-M scaling block",P),("affine transformation of source polynomials",U+" (affine_transform_poly_coeffs)"),("mapping of tau to scaled tau",A)],["u","u0","Fp","Fm"])
add("C12","Intensity corrections are the documented single-scattering corrections",
"With corrections enabled, the returned intensity equals the uncorrected one plus, at every depth and angle, the difference between the exactly solved single-scattering problems with the full and with the truncated phase function (all layers contributing with their own optical properties), plus in downward directions the documented secondary-scattering term built from thickness-weighted layer averages. When corrections cannot matter (no beam, no delta-M scaling, no additional phase-function coefficients, no scattering) the intensity is unchanged.",
["inputs","configurations"],"all valid multi-layer atmospheres with a beam, delta-M scaling and more coefficients than used by the solver; all depths, angles and azimuths",
"The correction test only asserts that the mean error against a reference improves, for a few atmospheres.",
[P],[("TMS and IMS corrections",P)],["u with NT_cor=True"])
add("C13","The intensity depends on azimuth only through the beam-relative angle",
"Rotating the beam azimuth and the viewing azimuth together changes nothing; the intensity is 2-pi periodic and mirror symmetric about the beam's principal plane; with a vertical beam or no beam, and azimuthally symmetric boundary sources and surface, it is azimuth independent; fluxes never depend on the beam azimuth.",
["inputs","configurations"],"all valid atmospheres, beam azimuths in [0, 2 pi) and viewing azimuths (any real number)",
T+"with a handful of azimuths.",
[A,P],[("Fourier cosine reconstruction",A),("scattering-angle cosine in corrections",U)],["u","Fp","Fm"])
add("C14","Output functions are pure, pointwise and independent of call history",
"Whatever sequence of calls is made, in any order and interleaving over several solved problems, each output function returns for each depth (and azimuth) the value it returns when called with that depth alone, regardless of batching, ordering, duplication, scalar/array form or flags of other calls. Solving never modifies the caller's input arrays, and later modification of those arrays or of returned arrays never alters subsequent results.",
["histories","inputs"],"all sequences of solver and output-function calls and of caller-side array mutations",
"Tests call each function a few times on arrays in one fixed order, and never reuse or mutate inputs.",
[P,A,U],[("closures over solved state",A),("input array handling",P),("interpolator reuse",U+" (interpolate)")],["all outputs","input arrays after the call"])
add("C15","Automatic differentiation yields the true depth derivatives",
"With automatic-differentiation support enabled, the derivative with respect to depth of every output function (intensity, corrected intensity, zeroth mode, fluxes) computed by autograd at any depth inside a layer equals the true derivative of that function, and the derivative of its antiderivative mode equals the function.",
["inputs","configurations"],"all valid atmospheres, outputs and depths strictly inside layers",
"A few tests differentiate single fixed problems.",
[A,P,U],[("autograd-compatible branches",A+", "+P+", "+U)],["autograd.jacobian of outputs"])
add("C16","Angular interpolation is the exact polynomial interpolant per hemisphere",
"Interpolating the intensity or its zeroth mode in polar angle reproduces it at every quadrature angle and is, separately in each hemisphere, the unique polynomial through the quadrature values; all mode flags (antiderivative, convergence measure, returned layer depths) act exactly as on the original function. Polar cosines outside [-1, 1] are rejected.",
["inputs","configurations"],"all valid atmospheres, arrays/scalars of polar cosine, depth and azimuth, all flags",
"Interpolation is used in one or two tests at fixed angles, never with flags.",
[U],[("barycentric interpolation",U+" (interpolate)")],["interpolate(u)","interpolate(u0)"])
add("C17","Invalid inputs are rejected and boundary-valid inputs accepted",
"Every input that violates a documented requirement (positivity and ordering of optical depths, albedo in [0,1), coefficient ranges and counts, stream and Fourier-mode counts, beam geometry, boundary-source shapes, fraction range, solver threshold, evaluation depths outside the atmosphere) raises ValueError before any result is returned, and every input that satisfies them, up to and including the limits of each range, is accepted (except a forward-scattering fraction of exactly one, for which delta-M scaling is undefined).",
["inputs","configurations"],"all single violations applied to arbitrary valid problems, and all boundary-valid problems",
"No test checks any rejection.",
[P,A,U],[("input checks",P),("tau range checks",A),("helper checks",U)],["pydisort","output functions","helpers"])
add("C18","Thermal sources are consistent with the Planck law and Kirchhoff's law",
"The Planck helper equals the Planck radiance (zero at zero temperature, increasing in temperature, never overflowing), band emission is its integral and additive over adjacent bands, and the generated source polynomials interpolate the band emission linearly in optical depth between layer boundaries. An isothermal atmosphere between black or grey boundaries at the same temperature is in equilibrium: intensity equals the blackbody radiance in every direction and depth.",
["inputs","configurations"],"all temperatures >= 0, wavenumber bands, layer grids, albedos, phase functions and surfaces",
T+"two thermal problems at fixed temperatures.",
[U,P],[("Planck and band helpers",U),("source scaling by 1-omega",P)],["Planck","blackbody_contrib_to_BCs","generate_s_poly_coeffs","u"])
add("C19","Surface-reflectance helpers are transparent",
"Replacing reflectance modes by their cached versions (with or without a fixed beam angle) changes no output, for any mixture of number and function modes and any number of streams; a number behaves exactly like the corresponding constant function; and the emissivity helper returns one minus the directional hemispheric reflectance.",
["inputs","configurations"],"all valid problems with a reflecting surface, all stream counts >= 2, all mixtures of scalar and function modes",
"Caching is exercised by one test with function modes only.",
[U,S],[("caching closures",U+" (cache_BDRF_Fourier_modes)"),("use of modes",S)],["cache_BDRF_Fourier_modes","generate_emissivity_from_BDRF","pydisort outputs"])
add("C20","The numerical toolkit obeys its defining identities",
"Gauss-Legendre and Clenshaw-Curtis rules integrate polynomials of their degree exactly on any interval, the finite-difference matrix is exact for quadratics, polynomial affine transformation preserves values, linear splines interpolate, the diagonal-ordered form represents the banded matrix, the scattering-angle cosine equals the dot product of unit directions for every combination of arguments, and the small array helpers satisfy their documented shapes and values.",
["inputs"],"all sizes, intervals, coefficients, matrices and angles in the documented domains",
"The helpers have no direct tests.",
[U],[("numerical helper functions",U)],["subroutines.*"])
add("C21","Symmetry and reciprocity of radiative transfer hold",
"Turning a non-reflecting atmosphere upside down and exchanging top and bottom sources mirrors the radiation field; the reflection and transmission operators between boundary illumination and emerging intensity are reciprocal (symmetric after weighting by angle and quadrature weight); and a beam along a quadrature direction produces the same total field as the equivalent boundary illumination.",
["inputs","configurations"],"all valid atmospheres, boundary illuminations, Fourier modes",
T+"no symmetry is checked.",
[S,G,A],[("eigen-solution symmetry",G),("boundary rows",S)],["u","u0","Fp","Fm"])
add("C22","Radiation is non-negative and bounded by its sources",
"For non-negative sources and a non-negative discretised phase function, azimuthally averaged intensities, fluxes and actinic fluxes are non-negative everywhere; increasing any source, the surface reflectance or (with the emission kept) a single-scattering albedo never decreases them; and without a beam and without a reflecting surface the intensity never exceeds the largest boundary or internal source.",
["inputs","configurations"],"all valid atmospheres with non-negative kernels; all depths and angles, thick and thin layers, albedo up to nearly one",
T+"no sign or bound is checked.",
[G,S,A,P],[("whole solver",A)],["u0","Fp","Fm","actinic fluxes"])
add("C23","The Fourier convergence measure is what it is documented to be",
"The convergence measure returned on request equals the largest ratio, over all requested angles, depths and azimuths where the intensity is not negligible, of the magnitude of the last Fourier term to the magnitude of the intensity (of the uncorrected intensity when corrections are enabled), in ordinary and antiderivative mode, and requesting it does not change the intensity.",
["inputs","configurations"],"all valid atmospheres, Fourier truncations, depths and azimuths, source mixes",
"The measure is printed but never asserted.",
[A,P],[("Fourier error branch of the intensity function",A)],["u(..., return_Fourier_error=True)"])
add("C24","Non-scattering and single-scattering limits have closed forms",
"In a non-scattering atmosphere the intensity equals the formal solution (attenuated boundary and surface-reflected radiation plus integrated thermal emission), and for weak scattering the intensity agrees with the closed-form single-scattering solution up to second order in the albedo; layers with zero albedo may be mixed with scattering layers.",
["inputs","configurations"],"all layer stacks with zero or small albedo, any boundary sources, surface, beam and source polynomial",
T+"zero-albedo cases have no surface, thermal source or several layers together.",
[G,A,U],[("shortcut for insignificant scattering",G)],["u","u0","Fp","Fm"])
add("C25","Valid problems give finite results with documented shapes",
"For every valid input all outputs are finite real numbers with the documented axes: scalars for scalar depth, arrays of the same size as the depth argument for each flux component, angle-by-depth and angle-by-depth-by-azimuth arrays for intensities, for optically extremely thick or thin layers and any number of streams, layers, modes and sources. A single-layer problem may be given with scalars and one-dimensional arrays, and any input array as an equal one of whole numbers or of another memory layout or read-only, with the same results.",
["inputs","configurations"],"all valid atmospheres including extreme optical thickness, all argument forms and flags",
T+"none with extreme thickness or degenerate sizes.",
[A,P,U],[("squeezing and tuple handling of each closure",A),("exponent scaling",S)],["all outputs"])
add("C26","Any part of the atmosphere can be solved on its own",
"Cutting the atmosphere at any two depths and solving the part in between with the computed intensities at the cuts as per-angle, per-mode boundary sources, the attenuated beam and the shifted internal source reproduces the original radiation field inside the part.",
["inputs","configurations"],"all valid atmospheres and pairs of cut depths",
T+"no decomposition is checked and per-mode boundary sources are never used.",
[P,S,A],[("boundary input handling",P),("linear system",S)],["u","u0","Fp","Fm"])
add("C27","Outputs equal an independent solution of the discrete-ordinate problem",
"For every valid atmosphere the intensity at all quadrature angles (with or without intensity corrections), depths and azimuths, its zeroth Fourier mode, and the upward, downward, direct and actinic fluxes equal those obtained by solving the documented discrete-ordinate boundary-value problem of the same inputs with a different numerical method, up to numerical accuracy, whatever the combination of sources, layers, surface, delta-M fractions, truncations and options.",
["inputs","configurations"],"all valid atmospheres with moderately thick layers (a few hundred smallest-stream mean free paths in total), all depths, angles and azimuths, all options",
T+"and no test compares with a second solver for arbitrary inputs.",
[P,A,S,G,U],[("whole solver",P),("eigen-solution",G),("linear system",S),("assembly",A)],["u","u0","Fp","Fm","actinic fluxes"])
add("C28","Closed-form solutions are reproduced and results converge with stream number",
"For an effectively semi-infinite isotropically scattering atmosphere, lit by a beam, diffuse light or constant or linear thermal emission, whatever the layering, delta-M fractions or surface hidden below, the emergent intensities and the reflected flux equal the closed form given by Chandrasekhar's H function; for smooth phase functions, computed fluxes do not depend on the number of streams beyond the quadrature error.",
["inputs","configurations"],"all albedos in (0,1), numbers of streams, layerings, delta-M disguises and combinations of sources",
T+"and classical results are compared at isolated tabulated points only.",
[P,A,S,G],[("whole solver",P),("eigen-solution",G),("linear system",S)],["u","u0","Fp","Fm"])
add("C29","Independent computations may run concurrently",
"Solving problems, evaluating the returned functions (including functions and input arrays shared between threads) and building interpolators and actinic flux functions in several threads at once gives the same values as doing so one after another, for every interleaving.",
["schedules","histories"],"all combinations of problems, shared or separate solutions, and thread interleavings",
"Tests run one computation at a time.",
[P,A,S,G,U],[("whole solver",P),("assembly",A),("linear system",S)],["u","u0","Fp","Fm","actinic fluxes"])
add("C30","The comparison with stored reference results reports true differences",
"The helper that compares computed fluxes and intensities with stored results of another solver returns the absolute difference and the ratio to the stored value (zero where that is zero) of every point, for the requested angles only and in the stored order of angles, evaluates the computed fields at the stored depths and azimuths, and prints the largest of each.",
["inputs"],"all stored results, orders of angles, masks and computed fields",
"All accuracy tests rely on this helper and would pass vacuously if it understated differences.",
[U],[("comparison helper",U)],["_compare"])
add("C31","Questionable inputs are reported, others are not, and both are solved",
"A warning is issued if and only if the problem has one of the documented questionable features: a delta-scaled albedo within 1e-6 of one, a delta-scaled phase function coefficient of magnitude above 0.95, a zeroth coefficient other than one in a scattering layer (which is then corrected: the results equal those of the corrected input), more than 64 Fourier modes (unless only fluxes are asked for), more than ten source coefficients, or the caching of reflectances without a valid beam direction; all such problems still give finite results.",
["inputs","configurations"],"all valid atmospheres with every combination of questionable features on either side of their thresholds",
"No test checks that a warning is issued or absent, and delta-scaling moves problems across the thresholds in ways the user cannot see.",
[P,U],[("input checks",P),("caching of surface reflectances",U)],["warnings","u","Fp"])
add("C32","Inputs that cannot matter do not matter",
"All outputs are unchanged when inputs without physical effect change: the beam direction when there is no beam (and no boundary source depends on azimuth), phase function and delta-M fraction of layers with zero albedo, phase function coefficients and reflectance modes beyond those used, appended zero source coefficients, additional Fourier modes in which nothing scatters or is prescribed, and the choice between equivalent forms of boundary sources, surfaces, fractions and default arguments.",
["inputs","configurations"],"all valid atmospheres and combinations of irrelevant inputs",
"Each test passes one fixed form of every input.",
[P,A,S,G],[("input handling",P),("shortcut for insignificant scattering",G),("boundary conditions",S)],["u","u0","Fp","Fm","actinic fluxes"])
add("C33","Calls leave the caller's data and the process as they were",
"No function of the package (solving, evaluating the returned functions, interpolation, actinic fluxes, and the helpers for thermal sources, surfaces, quadrature and linear algebra) modifies any of its arguments, changes process-wide state (NumPy error handling and print options, warning filters, the state of random generators, environment, working directory, module search path) or prints, except that the comparison helper prints its report and building an interpolator may draw random numbers; and no result depends on that state.",
["inputs","histories"],"all valid problems, evaluations and helper arguments, in every process state",
"Tests never look at their arguments or the process after a call.",
[P,A,S,G,U],[("whole solver",P),("helpers",U)],["arguments","process state","u","u0","Fp","Fm"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(r)+"\n" for r in rows))
print(len(rows))
