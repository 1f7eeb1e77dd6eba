"""Writes /verif/properties.jsonl (run by hand after editing; output is committed)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, **kw):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism], **kw)))

PW = "geotecha/piecewise/piecewise_linear_1d.py"
IO = "geotecha/inputoutput/inputoutput.py"
prop("C01", "Polyline arithmetic is pointwise and never alters its operands",
 "Adding, subtracting, multiplying or dividing piecewise-linear polylines (with steps, unequal x ranges and different breakpoints) or a polyline and a scalar gives a polyline whose value on both sides of every x equals the same operation on the operands' values, each operand being extended with its end values outside its range for + and -. "
 "Building an expression never changes any operand or any array handed to a constructor, in whatever order the views (x, y, x1, x2, y1, y2) are read; both construction forms describe the same function, copies compare equal and the printed form rebuilds it.",
 ["inputs", "histories"], "every pair of polylines with a few nodes on a small lattice (steps at ends and in the middle, disjoint, touching, nested ranges), every scalar, and every short sequence of operations that shares operands",
 "the tests add a handful of polylines once and read the result; they never reuse an operand afterwards, never chain operations and cover only one or two step configurations",
 [PW], [("PolyLine operators", PW+":PolyLine._add_substract"), ("x-y / x1x2y1y2 views", PW+":PolyLine.x, x1, ..."), ("common breakpoints", PW+":polyline_make_x_common")])
prop("C02", "Piecewise-linear queries equal exact evaluation of the described function",
 "For piecewise-linear data in either form, interpolation (lower or upper side of a step as asked), integration, averaging and the classification of segments (ramps, constants, steps; containing, less than, between) equal an exact evaluation of the described function, with end values held outside the data and integrals and averages taken over intervals inside the data. "
 "Integrals of products of two such functions, and the interpolated/integrated composites built from them, are likewise exact; results do not depend on whether queries are asked one at a time or together, on list or array arguments, or alter the arguments.",
 ["inputs"], "every small piecewise-linear shape (ramps, plateaus, steps, decreasing x where allowed) and every pair of query positions on, between and outside the nodes",
 "tests use a few hand made lines and a few query points; ties at nodes, queries outside the data and reversed or zero-length intervals are sampled, not covered",
 [PW], [("segment location", PW+":segment_containing_xi, segments_between_xi_and_xj"), ("interpolation", PW+":interp_x_y, interp_x1_x2_y1_y2"), ("integration", PW+":integrate_*, avg_*")])
prop("C03", "Reshaping piecewise data preserves the function it describes",
 "Converting between point and segment form, removing superfluous points, giving several polylines common x breakpoints, and subdividing data into segments or elements return data describing the same function over the same range, keeping end points, original nodes and steps, with the requested spacing or minimum number of segments; layer and element helpers always partition the whole thickness. "
 "Monotonicity tests agree with their definition for every sequence, forcing functions return data of the promised monotonicity or raise an error, and none of these alters the caller's data.",
 ["inputs"], "every short sequence over a small alphabet with repeats, both directions, list/int/float arrays, with and without logarithmic spacing",
 "tests check one or two inputs per helper, never pass in an array and look at it afterwards, and never start a sequence with equal values",
 [PW], [("conversion", PW+":convert_*"), ("simplification", PW+":remove_superfluous_from_x_y"), ("subdivision", PW+":subdivide_*, layer_coords"), ("monotonic", PW+":force_*, is_initially_increasing, ...")])
prop("C04", "Combined time-depth loads superpose exactly",
 "The combined effect of several loads, each a magnitude-versus-time polyline multiplied by a depth distribution (and optionally a cosine in time with its own frequency and phase), equals the sum of the effects of the loads computed one at a time, each exactly the product of its time factor and the depth value, average or integral, whether loads are passed singly or in lists and with or without frequency-phase pairs. "
 "A load that is split in two (in magnitude, or in time at any instant), listed in another order, or accompanied by zero loads has the same effect.",
 ["inputs", "configurations"], "every list of up to three loads drawn from step/ramp/cyclic loads and constant/linear/stepped depth distributions, every evaluation time incl. the breakpoints, every depth interval",
 "tests evaluate one load with one distribution, and a fixed two-load case",
 [PW], [("superposition", PW+":pxa_ya_multiply_integrate_*_super, pxa_ya_cos_multiply_*_super")])
prop("C05", "Restricted input files only run what is whitelisted",
 "Reading an input text either gives exactly the values that executing it as ordinary Python would give, or raises an error; no text containing an import, a dunder or non-whitelisted attribute, a call to a name or builtin outside the whitelist, or a construct outside the whitelisted syntax is ever executed, however the offending part is nested, spelled or prepared by earlier assignments. "
 "Every literal, arithmetic, list/tuple/dict/comprehension/subscript form the whitelist names is accepted, from text or open file, and reading one text does not change how another is judged.",
 ["programs"], "every program of the restricted language and its escapes up to a small number of statements and nesting depth, over an alphabet of allowed and forbidden names, attributes and node kinds",
 "tests try a handful of one-line texts; nesting, aliasing through assignments and interactions between statements are not explored",
 [IO], [("syntax checker", IO+":SyntaxChecker"), ("module execution", IO+":make_module_from_text")], observe_at="make_module_from_text, copy_attributes_from_text_to_object")
prop("C06", "Saved input reproduces the object it was saved from",
 "Writing an object's attributes as input text and reading that text back gives an equal value for every attribute (numbers, strings with quotes or newlines, None, booleans, lists, tuples, dictionaries, polylines, arrays of any size, and nestings of these), and the text is the same when produced again. "
 "Producing it never changes the object or how arrays print afterwards, even when it fails part way, attributes set to default values are private to each object, and generated initialisation code sets the same values as direct initialisation.",
 ["inputs", "histories"], "every value shape up to a nesting depth, every attribute subset/order option, every nesting of print-state changes and a failure injected at every attribute",
 "the inputoutput tests do not even import in this environment; those that exist write one fixed object",
 [IO], [("text writer", IO+":string_of_object_attributes"), ("array print state", IO+":PrefixNumpyArrayString"), ("defaults", IO+":initialize_objects_attributes, copy_attributes_between_objects")])
prop("C07", "Inconsistent input is rejected before a calculation, consistent input accepted",
 "For every combination of present and missing attributes and of matching and mismatching lengths, types and polyline ranges, the declared rules (zero or all, at least one, one implies others, equal length, is list, same x limits, same length if None) raise an error exactly when a rule is broken, name the offending attributes, and otherwise leave every attribute as it was apart from the documented conversions. "
 "Analyses apply the rules before calculating, so a rejected input leaves no results or files behind.",
 ["configurations"], "every presence/length/type pattern of up to five attributes in every rule, and every single deletion from a valid analysis input",
 "tests give each rule one passing and one failing object",
 [IO, "geotecha/speccon/speccon1d_vr.py", "geotecha/speccon/speccon1d_unsat.py"], [("rules", IO+":check_attribute_*"), ("use", IO+":InputFileLoaderCheckerSaver.check_input_attributes")])
prop("C08", "Saving output never destroys earlier output and writes everything asked",
 "Unless overwriting was asked for, a run chooses an output stem that no existing file or folder in the output directory uses, whatever names, gaps, numbers, unusual characters or padding are already there, and successive runs never share a stem. "
 "Saving result grids, figures and input copies writes every item requested with exactly the values held in memory, leaves the in-memory data able to be saved again with the same outcome, creates the output folder if needed, and after an error at any file operation earlier outputs are intact and the working directory is restored.",
 ["histories", "crash_points", "fault_sequences"], "every small directory state over an alphabet of tricky names, every sequence of a few saves with every option, and a failure injected at each file-system call",
 "tests use one or two directory states and save once",
 [IO], [("stem choice", IO+":next_output_stem"), ("grid writer", IO+":save_grid_data_to_file"), ("figures and copies", IO+":InputFileLoaderCheckerSaver._save_*"), ("cwd", IO+":working_directory")])
prop("C09", "Batch processing handles every selected file exactly once",
 "The command-line driver processes each existing file selected by its file, directory and pattern arguments exactly once with the requested methods called in order, continues after any file that fails or cannot be opened, and reports exactly the files that failed; the running script itself is not taken for an input file. "
 "Working directory and logging level are the same after it returns as before, and the result of one file does not depend on the others.",
 ["fault_sequences", "configurations"], "every set of up to three input files, every pass/fail pattern at every stage (open, construct, each method), every option combination",
 "the driver has no test that runs here",
 [IO], [("driver", IO+":GenericInputFileArgParser.main, process"), ("file lists", IO+":get_filepaths"), ("timers", IO+":SimpleTimer")])
prop("C10", "A time-limited call returns the function's outcome or times out, never neither",
 "A call wrapped with a time limit returns exactly what the function returns or raises exactly what it raises when it finishes within the limit, whatever the size or type of the result, and raises the timeout error only when it does not; a timed-out worker does not survive when killing is asked for, and the call never blocks for ever. "
 "Outcomes of one call never leak into another.",
 ["schedules", "fault_sequences"], "every interleaving of worker progress (start, compute, deposit result, exit) with the caller's waiting, polling and killing steps, for every kind of result",
 "there is no test of the wrapper; results larger than a pipe buffer and races at the deadline cannot be sampled reliably",
 ["geotecha/inputoutput/timeout.py"], [("worker", "geotecha/inputoutput/timeout.py:RunableProcessing"), ("limit", "geotecha/inputoutput/timeout.py:timeout")])

INT = "geotecha/speccon/integrals.py"; F95="geotecha/speccon/ext_integrals.f95"
prop("C11", "Spectral integrals: scalar, vectorized and compiled forms equal the integral",
 "Every depth integral used to build the spectral matrices and every loading time integral gives the same value in its scalar, vectorized and compiled implementation, and that value is the mathematical integral of the stated product of piecewise-linear properties, sine modes and exponential decay, for any layering, both drainage conditions, stepped, ramped and constant loads, and output times before, at, between and after load points. "
 "A slicing of layers or load segments that leaves the described profile or history unchanged leaves the integral unchanged, and the arguments are not altered.",
 ["inputs", "configurations"], "every layering of up to three layers with values on a small lattice (equal, increasing, stepped), every small load history, every mode set for both drainage conditions and every output time relative to the load points",
 "tests compare implementations for a couple of random-looking parameter sets; special branches (equal values, zero slope, time exactly on a step) are sampled",
 [INT, F95, "geotecha/speccon/speccon1d.py"], [("depth integrals", INT+":dim1sin_*"), ("time integrals", INT+":EDload_*, Eload_*"), ("compiled", F95)])
S1="geotecha/speccon/speccon1d.py"
SP=["geotecha/speccon/speccon1d_vr.py","geotecha/speccon/speccon1d_vrw.py","geotecha/speccon/speccon1d_vrc.py","geotecha/speccon/speccon1d_unsat.py",S1]
prop("C12", "The consolidation programs solve the equation they state",
 "For any layered profile (every part of which can drain), drainage condition, vertical and/or radial drainage, surcharge, vacuum, boundary pressure, and pumping or fixed-pressure input, the pore pressure, average pore pressure and settlement reported by each spectral consolidation program equal, to the truncation error of its series, an independent numerical solution of the governing equation at all requested depths and times. "
 "Averages are the depth averages of the reported profiles, settlements are the compressibility-weighted effective stress changes, and results for times up to the first load change are at rest.",
 ["configurations", "inputs"], "every combination of a small lattice of profiles, drains, load types and output positions in each program",
 "tests fix one to two dozen configurations of one published problem each, most of which do not run in this environment because the input reader fails",
 SP, [("assembly", SP[0]+":Speccon1dVR._make_*"), ("solution", S1+":dim1sin_foft_Ipw_and_..."), ("settlement", S1+":dim1sin_integrate_af")])
prop("C13", "Consolidation results obey superposition, relabelling and isolation",
 "Results of a spectral consolidation program are linear in the loads (applied together = sum of separate), unchanged by splitting a layer or load step at an interior point, by reordering loads, by asking for outputs in another combination, or by running the same object or other objects before or after, and a pervious-bottom profile turned upside down gives the mirrored result. "
 "Rescaling a reference property together with its compensating profile values leaves results unchanged; the inputs held by the object are not altered by running it.",
 ["configurations", "histories"], "every small configuration under every listed transformation and every interleaving of a few runs, output requests and instances",
 "tests run each object once and compare with a stored result",
 SP, [("assembly and outputs", SP[0]+":Speccon1dVR.make_all"), ("state", IO+":InputFileLoaderCheckerSaver._initialize_attributes")])
CD="geotecha/consolidation/"
prop("C14", "Closed-form vertical consolidation solutions satisfy their boundary problem",
 "The classical vertical consolidation solutions (single layer, multilayer with impeding boundaries, coupled vertical-radial multilayer, depth-varying properties, ramp loading) agree at every depth and time with an independent numerical solution of their governing equation, with drained and undrained boundaries where stated. "
 "Average pore pressure, settlement and degree of consolidation are consistent with the pore pressure profile, decrease or increase monotonically under constant load, and start and end at the right limits; the arguments may be scalars, lists or arrays in any order.",
 ["configurations", "inputs"], "every combination of one to three layers on a small lattice of properties, boundary type, load shape and output depth/time",
 "tests check one published table per solution",
 [CD+"terzahi.py", CD+"schiffmanandstein1970.py", CD+"nogamiandli2003.py", CD+"zhuandyin2012.py", CD+"tangandonitsuka2000.py"],
 [("single layer", CD+"terzahi.py:terzaghi_1d"), ("multilayer", CD+"schiffmanandstein1970.py:SchiffmanAndStein1970"), ("transfer matrix", CD+"nogamiandli2003.py:NogamiAndLi2003"), ("ramp, depth varying", CD+"zhuandyin2012.py:zhuandyin2012"), ("free strain drain", CD+"tangandonitsuka2000.py:tangandonitsuka2000")])
prop("C15", "Closed-form drain, creep, unsaturated and large-strain solutions are consistent",
 "The remaining closed-form solutions (vertical drain with well resistance and time- or depth-varying conditions, unsaturated soil under exponential/ramp loading, creep, large strain) satisfy their governing equation, initial and boundary conditions at every depth and time, with depth averages and settlements consistent with their pressure profiles. "
 "Each reduces to the simpler published solution in the limit where it should.",
 ["configurations", "inputs"], "a lattice of dimensionless parameters including the limiting ones, all output depths and times",
 "tests check one published case per solution",
 [CD+"shanetal2012.py", CD+"dengetal2013and2014.py", CD+"xieandleo2004.py", CD+"luetal2010.py", CD+"cosenzaandkorosak2014.py"],
 [("unsaturated", CD+"shanetal2012.py:shanetal2012"), ("drains", CD+"dengetal2013and2014.py"), ("large strain", CD+"xieandleo2004.py:XieAndLeo2004"), ("drain with coupled loading", CD+"luetal2010.py"), ("creep", CD+"cosenzaandkorosak2014.py")])
SZ=CD+"smear_zones.py"
prop("C16", "Smear-zone resistance equals the flow integral of its permeability profile",
 "For every smear-zone idealisation (ideal, constant, overlapping, linear, overlapping linear, parabolic, piecewise-constant, piecewise-linear) the resistance parameter equals the equal-strain radial-flow integral of the permeability profile the package itself reports for that idealisation, including coincident and limiting parameters, and different idealisations describing one profile agree. "
 "The pore-pressure profile satisfies its boundary conditions and averages over the annulus to the average pressure, and scalar, list and array arguments give the same values without being altered. Values no drain can have (a radius ratio of one or less, a smear zone reaching beyond the drain's influence, a permeability ratio of zero or less, a radius outside the annulus) are refused wherever they stand in an array.",
 ["inputs"], "every combination of a lattice of spacing ratio, smear ratio, permeability ratio (including 1, equal ratios, touching and overlapping zones) and up to four piecewise segments",
 "tests compare each formula with two or three tabulated values",
 [SZ], [("resistance", SZ+":mu_*"), ("permeability", SZ+":k_*"), ("pressure profile", SZ+":u_*")])
prop("C17", "Drain design relations invert each other",
 "Spacing, influence radius, well resistance and the combined drain parameter computed forwards and backwards return the starting value; back-figured values reproduce the target they were asked for (a design too tight for the search may be refused), and the non-Darcian relations tend to the Darcian ones as the exponent tends to one. "
 "The functions are monotonic in spacing, permeability and smear in the physical direction.",
 ["inputs"], "a lattice of patterns, drain sizes, smear parameters and targets",
 "tests check single values",
 [SZ], [("pattern", SZ+":re_from_drain_spacing, drain_spacing..."), ("eta", SZ+":drain_eta, back_calc_drain_spacing_from_eta"), ("non-Darcian", SZ+":non_darcy_*"), ("well resistance", SZ+":mu_well_resistance")])
CM="geotecha/constitutive_models/"
prop("C18", "Void ratio-stress models: forward, inverse and stiffness laws agree",
 "In every soil compression model the stress recovered from a void ratio is the stress that produced it, the compressibility is the derivative of the void ratio-stress relation, and the relation is continuous and non-increasing through the preconsolidation stress, for loading and unloading states alike and for scalar and array stresses, with per-element preconsolidation. "
 "Data returned for plotting lies on the relation, and evaluating a model never changes it.",
 ["inputs"], "every model with a lattice of parameters and every stress/preconsolidation pair including equality and the ends of tabulated data",
 "tests check a few points per model",
 [CM+"void_ratio_stress.py"], [("models", CM+"void_ratio_stress.py:CcCrSoilModel, PwiseLinearSoilModel, ...")])
prop("C19", "Time-dependent compression does not depend on how time is subdivided",
 "The creep compression model gives the same void ratio when a constant-stress or constant-rate period is applied in one increment or in any subdivision of it, forward calculations equal the closed form, stress-from-void-ratio recovers the stress, and interleaving queries, inverse calculations or other objects never changes later results. "
 "Its increments are irreversible in the documented direction and void ratio never increases under non-decreasing stress.",
 ["histories"], "every sequence up to a small depth of stress holds, stress ramps, rate steps, inverse calculations and queries, in every subdivision",
 "tests follow one or two fixed paths",
 [CM+"void_ratio_stress.py"], [("Yin-Graham model", CM+"void_ratio_stress.py:YinAndGrahamSoilModel")])
prop("C20", "Permeability and flow laws are continuous, invertible and consistent",
 "Each void ratio-permeability model inverts itself; each hydraulic gradient-velocity law is odd in the gradient, continuous, non-decreasing, its inverse returns the gradient and its slope is its derivative; every equivalent way of specifying the non-Darcian law from different parameter triples gives the same law. "
 "Scalar, list and array arguments agree.",
 ["inputs"], "all parameter triples on a lattice (including exponent one and zero thresholds) and gradients on both sides of and at every threshold",
 "tests check a few points for a few parameter triples",
 [CM+"void_ratio_permeability.py", CM+"velocity_hydraulic_gradient.py"], [("permeability", CM+"void_ratio_permeability.py"), ("flow laws", CM+"velocity_hydraulic_gradient.py:HansboNonDarcianFlowModel")])
prop("C21", "Soil-water curves are consistent, bounded and differentiable where used",
 "Each soil water characteristic and relative-permeability relation lies within its limits, decreases monotonically with suction, its slope equals its derivative, its vectorized and scalar evaluation agree, and relative permeability from a tabulated curve agrees with its defining sum and, as the table is refined, with the continuous relation; hydraulic conductivity derived from a curve lies between its minimum and saturated values. "
 "Evaluation never changes the curve.",
 ["inputs"], "a lattice of parameters and suctions including zero, tiny and very large suction",
 "tests check few points per model",
 [CM+"swcc.py"], [("curves", CM+"swcc.py")])
prop("C22", "Unsaturated stress-path model honours history",
 "In the unsaturated stress-path model, following a path of loading, unloading, drying and wetting gives the same volumes and water contents with the compiled and the interpreted calculation, results at a stage depend only on stages up to it, and saving, reusing or combining result objects never alters earlier ones. "
 "Yield states never shrink, and saturation and void ratio stay within physical limits.",
 ["histories"], "every path of up to a few stages over an alphabet of stress and suction targets",
 "tests follow one or two published paths",
 [CM+"epus.py", CM+"epus_ext.f95"], [("model", CM+"epus.py:EPUS"), ("compiled", CM+"epus_ext.f95")])
MA="geotecha/mathematics/"
prop("C23", "Root finding returns the first roots in order, each once",
 "Asked for the first n roots to the right of a starting point, the root finder returns n strictly increasing true roots with none skipped whenever the roots are further apart than the search step, for any step growth, arguments and start, or raises an error; it never returns a duplicate or non-root. "
 "The fixed-point iteration returns a point mapped to itself within tolerance or raises.",
 ["inputs"], "every set of up to four roots on a lattice, simple or touching arrangements relative to the search grid, every start, step and growth factor",
 "tests use sine/cosine with one step size",
 [MA+"root_finding.py"], [("roots", MA+"root_finding.py:find_n_roots"), ("fixed point", MA+"root_finding.py:fixed_point_no_accel")])
prop("C24", "Quadrature and integral transforms reproduce exact transforms",
 "Fixed-order quadrature is exact for every polynomial up to its stated degree over any set of intervals, individually or summed; cosine, sine, Fourier, Hankel and Laplace inversions equal known transform pairs for real, imaginary and complex functions and every declared symmetry, forward and inverse compose to the identity, and multi-dimensional transforms equal their one-dimensional composition. "
 "Series acceleration is exact for geometric sequences, treats each sequence of a table on its own and leaves a given list unaltered, scalar and vectorized versions agree, and the integrand drawn for a transform is the one it integrates.",
 ["inputs", "configurations"], "every polynomial basis function, interval layout, order, symmetry-flag combination consistent with the function, and transform pair on a lattice",
 "about a fifth of the repository's tests are of these functions and fail in this environment; the rest sample one function per option",
 [MA+"quadrature.py", MA+"fourier.py", MA+"hankel.py", MA+"laplace.py", MA+"mp_laplace.py", MA+"multi_transform.py"],
 [("quadrature", MA+"quadrature.py"), ("Fourier", MA+"fourier.py:FourierTransform"), ("Hankel", MA+"hankel.py"), ("Laplace", MA+"laplace.py:Talbot"), ("composition", MA+"multi_transform.py")])
prop("C25", "Polygon and polyhedron properties do not depend on how they are listed",
 "Area, centroid, second moments (per unit area), plane equation and volume of planar polygons and of polyhedra equal exact values whatever the starting vertex, orientation of listing (up to the documented sign), coordinate plane or permutation of axes, translation, open or closed listing; depth and reduced level conversions invert each other. "
 "Inputs are not altered.",
 ["inputs"], "every simple polygon with up to five vertices on a small grid, in every plane and listing, and boxes/prisms built from them",
 "tests use one listing of a few polygons",
 [MA+"geometry.py", MA+"transformations.py"], [("polygons", MA+"geometry.py:polygon_area, polygon_centroid, polygon_2nd_moment_of_area"), ("volumes", MA+"geometry.py:polyhedron_volume, make_hexahedron"), ("levels", MA+"transformations.py")])
PL="geotecha/plotting/one_d.py"
prop("C26", "Plotting draws the data it was given and leaves data and options untouched",
 "Every one-dimensional plotting routine draws lines whose coordinates are the data supplied, one per series with its own style and label, transposing or scaling only as asked, and never modifies the arrays, property dictionaries or style sequences passed in, so plotting twice gives the same picture: plots of a program show its results, in whatever order and however often they are made. Subplots sit in the positions and share the axes asked for, depth runs downwards (or is a reduced level), and the caller's random numbers are not disturbed. "
 "Style cycling, dictionary copying, row/column ordering and colour tint/shade helpers follow their definitions for every count of series and subplots.",
 ["inputs", "histories"], "every small number of series, subplots and properties, and every sequence of two or three plot calls sharing options",
 "tests check helper functions at one or two inputs and most plotting code has no assertion",
 [PL], [("plots", PL+":plot_data_in_grid, plot_vs_time, plot_vs_depth, plot_single_material_vs_depth, plot_generic_loads"), ("helpers", PL+":MarkersDashesColors, row_major_order_reverse_map, copy_dict")])
BM="geotecha/beam_on_foundation/"
prop("C27", "Moving loads on a beam act where and when they should, and superpose",
 "The load histories built for a vehicle put every axle at its position at every time, with its own magnitude, entering and leaving the beam without loss or duplication, for any start, speed and direction; interface transitions between sections equal their end values and pass monotonically between. "
 "For a linear foundation the beam response is linear in the loads, zero before any load, and independent of how positions and times are requested, also when saved deflections are read back. Pictures and animations of vehicles and of beam results show those positions, loads and deflections.",
 ["configurations", "inputs"], "a lattice of axle layouts, speeds, start positions and beam parameters",
 "tests compare a few published deflections",
 [BM+"specbeam.py", BM+"dingetal2012.py"], [("vehicles", BM+"specbeam.py:MovingPointLoads"), ("beam", BM+"specbeam.py:SpecBeam"), ("transitions", BM+"specbeam.py:reverse_curve_transition")])
prop("C28", "One problem has one answer, whichever part of the package solves it",
 "A problem written as input text for a spectral program in any consistent units gives the pore pressures, averages and settlements of the closed-form solution of the same problem elsewhere in the package: single-layer and layered vertical drainage, power-law profiles, drains of every smear-zone idealisation, drains with vertical drainage and well resistance (uniform or varying with depth), stone columns, and unsaturated soil under loads and cyclic boundary pressures, whatever the reference time factor and for pressures applied at the ends or as vacuum; and the reference scalings chosen do not matter. "
 "The worked examples that ship with the package run from start to finish (given the matplotlib they were written for), draw finite numbers and reproduce the results they list; the example input file run from the command line writes the figures and grids it asks for.",
 ["configurations", "inputs"], "lattices of problems (drainage, thickness, layers, scalings, drain geometry, load histories), each stated and solved twice; every worked example",
 "tests of each program use tables typed in for one or two parameter sets, with the references chosen as one; nothing runs the examples",
 ["geotecha/speccon/speccon1d_vr.py", "geotecha/speccon/speccon1d_vrw.py", "geotecha/speccon/speccon1d_vrc.py", "geotecha/speccon/speccon1d_unsat.py", "examples/speccon"],
 [("programs", "geotecha/speccon/speccon1d_vr.py:Speccon1dVR"), ("closed forms", "geotecha/consolidation/shanetal2012.py:shanetal2012, geotecha/consolidation/luetal2010.py:luetal2010"), ("resistances", "geotecha/consolidation/smear_zones.py:mu_linear")])

prop("C29", "Generated integration code computes the integrals it is derived from",
 "Every routine written by the package's code generators for the spectral integrals - depth integrals over layers, between two depths, and time integrals of ramped and cyclic loads, as looped Python, vectorised Python and Fortran - loads or compiles as it stands and equals the integral it is derived from for every layering, end values, modes, load history, frequency and output time (real decay rates); generating it again gives the same text. "
 "The symbols it is built from are linear between their end values in each form offered.",
 ["inputs"], "a finite lattice of layerings, end values, modes, histories, frequencies, decay rates and times, for each generated routine",
 "no test runs a generator; the shipped routines are pasted copies which tests compare with tables",
 ["geotecha/speccon/integrals_generate_code.py", "geotecha/inputoutput/inputoutput.py"],
 [("generators", "geotecha/speccon/integrals_generate_code.py:dim1sin_af_linear_implementations"), ("Fortran text", "geotecha/inputoutput/inputoutput.py:fcode_one_large_expr")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
