NA = {}
T = "nidn/training/model/model_to_eps_grid.py"
prop("P01", "Configuration validation accepts exactly the admissible configurations",
     "A run configuration is accepted if and only if it has exactly the documented keys (plus the run-time keys), every value has the documented type, every number lies in its documented range (positive, non-negative, unit interval, ordered limits) for every element of list-valued entries, and every choice is one of the documented options. "
     "Anything else is rejected with an error, whatever the other values are. Validation never changes the configuration.",
     ["inputs", "configurations"], "all values of every configuration entry, all combinations of a pair of limits, every single missing or extra key, lists up to the bounded length",
     "The only existing test validates the shipped default configuration; rejection and boundaries are never exercised.",
     ["nidn/utils/validate_config.py", "nidn/utils/load_default_cfg.py"],
     [("_validate_config", "nidn/utils/validate_config.py"), ("_check_for_keys", "nidn/utils/validate_config.py"), ("_check_entry_types", "nidn/utils/validate_config.py")],
     "Lists up to 4 entries; one symbolic entry (or pair of limits) at a time around the shipped defaults.", ["nidn.validate_config"])
prop("P02", "Target frequencies cover the wavelength range, and unit conversions agree",
     "For every physical wavelength range and number of frequencies, the target frequencies are ascending, start at the frequency of the longest wavelength, end at that of the shortest, and are spaced linearly or logarithmically as configured; any other distribution is refused. "
     "The physical wavelengths recorded for them are their exact counterparts, in the same order. Wavelength/frequency and normalised/physical conversions are inverse to each other and use one unit length and one speed of light.",
     ["inputs", "configurations"], "all wavelength ranges, distributions, numbers of points (bounded), all frequencies",
     "The tests check a single range; ordering, spacing and round trips for all ranges are universally quantified.",
     ["nidn/trcwa/compute_target_frequencies.py", "nidn/trcwa/get_frequency_points.py", "nidn/utils/convert_units.py", "nidn/utils/global_constants.py"],
     [("compute_target_frequencies", "nidn/trcwa/compute_target_frequencies.py"), ("get_frequency_points", "nidn/trcwa/get_frequency_points.py"), ("unit conversions", "nidn/utils/convert_units.py")],
     "Up to 5 frequencies quick, 12 thorough; logarithm and power are uninterpreted functions with their defining axioms.")
prop("P03", "Material library returns (n+ik)^2 of the tabulated entry nearest in frequency",
     "For every material table and every list of requested frequencies, the permittivity the material library returns for a material at a frequency is the complex square of the refractive index tabulated nearest to that frequency. "
     "The library holds one row per material file that is not skipped, the row order matches the reported names, and unknown materials or an empty frequency list are refused. Building one library does not change another.",
     ["inputs", "configurations"], "all tables (bounded number of rows), all frequencies, every subset of skipped materials",
     "The test compares two materials at two frequencies.",
     ["nidn/materials/material_collection.py", "nidn/trcwa/load_material_data.py"],
     [("MaterialCollection", "nidn/materials/material_collection.py"), ("_load_material_data", "nidn/trcwa/load_material_data.py")],
     "Tables of up to 3 symbolic rows; thorough also decides the shipped tables for every frequency. Reading the csv file is replaced by a model of pandas.read_csv.")
prop("P04", "Layer builder puts the right material on every pixel",
     "For every grid size, shape (uniform, circle, square) and size/position accepted, a built layer has one permittivity per pixel and frequency; pixels inside the shape carry the permittivity of the inclusion material and pixels outside that of the surrounding material, and nothing else. Unknown materials are refused.",
     ["inputs"], "all sizes, radii and positions within the bounded pixel grids; all frequencies and permittivities",
     "No existing test inspects a built layer per pixel.",
     ["nidn/materials/layer_builder.py"], [("LayerBuilder", "nidn/materials/layer_builder.py")],
     "Grids up to 5x5 pixels quick; pixels whose centre is exactly on the border of a shape are excluded from the inside/outside claim.")
prop("P05", "Regression permittivities stay in the configured range",
     "For every model output, the complex permittivities of a regression grid lie within the configured limits of their real and imaginary parts, and (without noise) are the affine image of the model output onto those limits. "
     "If zero avoidance is requested no real part is near zero, including voxel models and after noise. A voxel model's in-range values are used unchanged; noise moves a value by no more than its configured size.",
     ["inputs", "configurations"], "all model outputs in the network's output range, all admissible limits, noise on/off with every noise realisation, all bounded grid shapes",
     "The tests look at the shape and one default configuration.",
     [T, "nidn/training/utils/voxel.py"],
     [("_eps_to_range", T), ("_regression", T), ("clip/avoid zero", T)],
     "Grids up to 2x2x2x2; range obligations have tolerance 1e-9.")
prop("P06", "Every voxel's permittivity comes from the model at its own coordinates",
     "For every model, the permittivity (and material likelihoods) at a pixel, layer and frequency depend only on the model's output at that pixel, layer and frequency: values never move between rows, columns, layers or frequencies. "
     "With oversampling each coarse evaluation fills exactly its block of the fine grid. The layer coordinate follows the cumulative layer thickness when thicknesses are supplied.",
     ["inputs", "configurations"], "all model functions (uninterpreted), bounded grid shapes incl. non-square ones, oversampling factors, layer thicknesses",
     "Tests check only the shape of the grid for a default network.",
     [T], [("model_to_eps_grid", T), ("_eval_model_*", T)],
     "Grids up to 4x3x3x3 with an uninterpreted model.")
prop("P07", "Classification permittivity is the likelihood-weighted mean of the materials",
     "For every model output, the likelihoods returned for a voxel are non-negative and sum to one, a material the model rates higher gets a larger likelihood, and the permittivity at every frequency is the mean of the material permittivities weighted with them (unless zero avoidance moves a near-zero real part, which is then kept away from zero).",
     ["inputs", "configurations"], "all model outputs, all material permittivities, bounded numbers of materials, voxels, frequencies",
     "Tests check only the shape.", [T], [("_classification", T)],
     "Up to 4 materials, 2x2 voxels; softmax via an uninterpreted positive exponential.")
prop("P08", "Networks accept every configuration and give one bounded output row per point",
     "Every admissible model type, depth and width gives a network that can be evaluated and returns one row per input point with the number of columns the run type needs, all in the unit interval; a row never depends on other rows. "
     "A voxel model has one value per voxel, layer and frequency, initially within the permittivity limits. An unknown model type is refused.",
     ["inputs", "configurations"], "all weights and inputs; bounded depths, widths and encodings",
     "The tests build two default networks.",
     ["nidn/training/model/init_network.py", "nidn/training/utils/nerf.py", "nidn/training/utils/siren.py", "nidn/training/utils/voxel.py"],
     [("init_network", "nidn/training/model/init_network.py"), ("NERF", "nidn/training/utils/nerf.py"), ("Siren", "nidn/training/utils/siren.py")],
     "Depth up to 6, width up to 4, symbolic weights.")
prop("P09", "Closest-material search returns the material with the smallest distance",
     "For every permittivity grid and every material library, the search reports for each voxel a material of the library whose mean permittivity distance over the frequencies is the reported distance, and no other material is closer.",
     ["inputs"], "all grids and libraries up to the bounded numbers of voxels, materials and frequencies",
     "No existing test covers it.", ["nidn/materials/find_closest_material.py"], [("_find_closest_material", "nidn/materials/find_closest_material.py")],
     "Up to 2x2x2 voxels, 4 materials, 3 frequencies.")
prop("P10", "Spectrum loss is the mean deviation of physical spectra from the target",
     "For all produced and target spectra the loss is the mean over quantities and frequencies of the L-power absolute deviation, where a point with reflectance plus transmittance above one is first rescaled to sum one; rescaling is reported exactly when it happened. "
     "The loss is never negative, zero exactly for a perfect match of physical spectra, and does not fall when a deviation grows; with the absorption term, absorptance enters as a third quantity.",
     ["inputs"], "all spectra up to the bounded number of frequencies, L in {1, 2, 0.5}, absorption term on/off",
     "Only training smoke tests use the loss.",
     ["nidn/training/losses/spectrum_loss.py"], [("_spectrum_loss_fn", "nidn/training/losses/spectrum_loss.py")],
     "Up to 3 frequencies quick, 5 thorough.")
prop("P11", "Likelihood regularisation is zero for decided voxels and positive otherwise",
     "For every set of likelihoods the regularisation loss is the mean over voxels and materials of the L-power distance to the nearer of 0 and 1: never negative, zero exactly for decided likelihoods, and largest for undecided ones.",
     ["inputs"], "all likelihoods, bounded numbers of voxels and materials, L in {1, 2, 0.5}",
     "No test covers it directly.", ["nidn/training/losses/likelihood_regularization_loss.py"],
     [("_likelihood_regularization_loss_fn", "nidn/training/losses/likelihood_regularization_loss.py")], "Up to 4 voxels x 3 materials.")
TR = "nidn/training/run_training.py"
prop("P12", "Training returns the best valid model and logs every iteration faithfully",
     "For every history of spectra and of failing evaluations, training runs the configured number of iterations and returns the weights of the valid (not rescaled) iteration with the lowest loss, or the initial weights while nothing valid was found. "
     "A failed evaluation reloads the best weights and halves the learning rate; nothing else changes it. Loss, L1 and running-average logs hold one faithful entry per evaluated iteration.",
     ["histories", "fault_sequences", "inputs"], "all sequences of spectra and failures up to the bounded number of iterations",
     "The tests run one training with a fixed seed and no failures.",
     [TR], [("run_training", TR), ("_init_training", TR)],
     "Up to 3 iterations quick (4 thorough) with all failure patterns; physics, network and optimiser are stand-ins.")
prop("P13", "The configured seed determines the initial model and the noise",
     "Two runs with the same configuration start from identical weights and identical noise whatever the state of the random generators before, because every generator is reseeded from the configured seed before anything is drawn.",
     ["histories", "configurations"], "all seeds, all previous generator states, model types",
     "Tests fix one seed and never compare runs.",
     ["nidn/utils/fix_random_seeds.py", TR, "nidn/training/model/init_network.py"],
     [("fix_random_seeds", "nidn/utils/fix_random_seeds.py"), ("run_training", TR)],
     "Generators are unknown functions of (library, seed, number of draws).")
F = "nidn/fdtd/"
G = F + "grid.py"
prop("P14", "One FDTD time step is the Yee update of Maxwell's equations",
     "For every field state, permittivity, permeability and (stable) Courant number, one step of the FDTD grid replaces E and then H by the Yee leap-frog update of Maxwell's curl equations; inside an object the object's permittivity and conductivity are used, elsewhere the background's. "
     "Running n steps (or a time in seconds) is n such steps, steps and time are counted exactly, reset clears fields and clock, the update is linear in the fields, lengths in metres become the nearest number of cells, and an unstable Courant number or a shape that is not three-dimensional is refused.",
     ["inputs", "histories"], "all field states and material constants on the bounded grids, all Courant numbers",
     "The tests run one simulation and compare a few detector numbers.",
     [G, F + "objects.py", F + "backend.py"], [("Grid.update_E / update_H / step / run", G), ("AbsorbingObject, Object", F + "objects.py")],
     "Grids up to 3x3x3 quick, 4x4x4 thorough; one object; up to 2 steps.")
prop("P15", "FDTD conserves divergence and energy, and loses energy only as heat",
     "For every field state, a time step leaves the divergence of B unchanged everywhere and the divergence of D unchanged wherever nothing conducts. In a closed lossless box the discrete energy is the same after every step; with a conducting medium it falls by exactly the Joule heat and never rises. Perfectly conducting walls keep their tangential electric field zero.",
     ["inputs", "histories"], "all field states on the bounded grids, lossless and conducting media",
     "No test looks at conserved quantities.",
     [G, F + "objects.py"], [("Grid.update_E / update_H", G), ("curl_E, curl_H", G)],
     "Grids up to 3x3x3 (4x4x4 thorough for divergence), two steps.")
B = F + "boundaries.py"
prop("P16", "Absorbing boundary layers follow the convolutional PML recursion",
     "For each of the six sides and every field state, fields in and around a perfectly matched layer follow the convolutional PML recursion with the layer's graded conductivity, mirrored between the low and the high side; cells outside follow the plain update. After a reset the grid behaves like a new one. "
     "A layer away from the border, a second boundary on the same side, or a layer without extent is refused.",
     ["inputs", "histories"], "all field states, sides, layer thicknesses and step counts within the bounds",
     "The tests only use one PML configuration and look at the spectrum it produces.",
     [B, G], [("PML", B), ("Grid.step, Grid.reset", G)],
     "Layers of 1-11 cells (24 thorough), 2-3 steps (5 thorough), one or two layers, optionally an object reaching into the layer.")
prop("P17", "Periodic boundaries identify the two ends of the grid",
     "For every field state, with periodic boundaries along any set of axes the last layer of E equals the first and the first layer of H equals the last after each step, a periodic state shifted by a cell evolves into the shifted solution, and the energy of a lossless ring is constant. A periodic boundary inside the grid or on an axis that already has a boundary is refused.",
     ["inputs", "histories"], "all field states, every set of axes, boundary given at either end",
     "The tests use one periodic axis and look at the spectrum.",
     [B, G], [("PeriodicBoundary", B)], "Grids up to 3x4x2 quick, 4x4x4 thorough; two steps.")
I = "nidn/fdtd_integration/"
prop("P18", "The FDTD scene places every part where the configuration says",
     "For all layer thicknesses, free-space distances, absorbing-layer thicknesses and source positions, the FDTD scene of a stack has the configured length in cells, each layer carries the real part of its permittivity and absorbs according to the imaginary part exactly in its own cells with vacuum everywhere else, detectors sit the configured number of cells before and behind the stack, the source at its position; the reference simulation is the same scene without the stack. "
     "The resolution is the smallest that gives ten cells per shortest wavelength and the configured minimum. Unknown source types are refused.",
     ["inputs", "configurations"], "all thicknesses, positions, permittivities, wavelengths within the bounds",
     "The tests build one scene with one configuration.",
     [I + "init_fdtd.py", I + "compute_fdtd_grid_scaling.py", I + "compute_spectrum_fdtd.py"],
     [("init_fdtd", I + "init_fdtd.py"), ("_compute_fdtd_grid_scaling", I + "compute_fdtd_grid_scaling.py")],
     "1-3 layers (4 thorough), about 20-40 cells; lengths within 1e-6 cells of a whole number are excluded.")
SO = F + "sources.py"
prop("P19", "Sources emit the configured signal at their cells and nowhere else",
     "For every time step, period, amplitude and phase, a point, line or plane source adds the value of its configured signal (continuous, hanning pulse or ricker pulse; with a normalised profile along a line) to the configured field component of exactly its cells and changes nothing else; a soft source repeats its waveform. Sources superpose, a named source is reachable on the grid, and impossible extents, polarisations or taken names are refused.",
     ["inputs", "histories"], "all steps up to 2000, periods, amplitudes, phases; all bounded placements",
     "The tests use one source.", [SO, F + "waveforms.py"], [("PointSource, LineSource, PlaneSource, SoftArbitraryPointSource", SO)],
     "Step number symbolic up to 2000; sine and exponential are uninterpreted functions with axioms; small grids.")
D = F + "detectors.py"
prop("P20", "Detectors record the fields of every step at exactly their cells",
     "For every initial field and placement, after n steps a line or block detector holds exactly n records, each with the E and H vectors at exactly its cells after that step, in order; the current detector's values are the mean circulation of H around its cells. Detectors never change the simulation; mismatching index lists and taken names are refused.",
     ["inputs", "histories"], "all initial fields, placements (whole axis, range, reversed, index list), step counts within the bounds",
     "The tests read one detector at the end of a run.", [D, G, I + "compute_spectrum_fdtd.py"], [("LineDetector, BlockDetector, CurrentDetector", D)],
     "Up to 3 steps quick, 5 thorough; grids of a few cells.")
C = I + "calculate_transmission_reflection_coefficients.py"
prop("P21", "FDTD transmittance and reflectance are ratios of steady signal powers",
     "For all detector signals, the transmittance is the power of the steady part of the signal behind the stack divided by that of the empty reference, and the reflectance that of the difference signal before the stack; only leading zeros and transient windows are removed. Scaling a signal by k scales the coefficient by k squared; identical signals give transmittance one and reflectance zero. "
     "A sum slightly above one is rescaled to one with unchanged ratio. A reference signal that is zero is refused.",
     ["inputs"], "all signals within the bounded numbers of samples and windows",
     "The tests evaluate the coefficients for a single simulation.", [C], [("calculate_transmission_reflection_coefficients", C), ("_eliminate_transient_part", C)],
     "3-5 samples fully symbolic (7 thorough), windows with symbolic amplitudes, periodic signals of up to 10 samples (16 thorough); one signal symbolic at a time for the full formula.")
prop("P22", "compute_spectrum pairs every frequency with its own permittivities",
     "For every permittivity grid, with either solver, compute_spectrum returns exactly one reflectance and one transmittance per target frequency, in their order; the values at a frequency are those the solver finds for the permittivities of that frequency, at that frequency, with the layers in their order and with their thicknesses. Inputs are not changed and a repeated call gives the same. "
     "Permittivities that are not numbers, grids of another size than configured, and invalid configurations are refused before anything is simulated.",
     ["inputs", "configurations", "histories"], "all permittivities; bounded numbers of layers, frequencies and pixels",
     "The tests use equal permittivities at all frequencies.",
     ["nidn/utils/compute_spectrum.py", I + "compute_spectrum_fdtd.py", "nidn/trcwa/compute_spectrum_trcwa.py", "nidn/trcwa/init_trcwa.py"],
     [("compute_spectrum", "nidn/utils/compute_spectrum.py"), ("compute_spectrum_fdtd", I + "compute_spectrum_fdtd.py"), ("compute_spectrum_trcwa", "nidn/trcwa/compute_spectrum_trcwa.py")],
     "Up to 3 frequencies x 2 layers quick (and one layer with 7-9 frequencies, one frequency with 6-7 layers), 5 x 4 thorough; the time stepping and the RCWA solution are replaced by stand-ins that identify the scene they are given.")
R = "nidn/trcwa/trcwa.py"
prop("P23", "RCWA of uniform stacks is the multilayer formula and conserves energy",
     "For every thickness and frequency, RCWA of a stack of uniform layers gives the reflectance and transmittance of the textbook multilayer (Airy) formula, whatever the number of orders; without absorption they sum to one, at every angle of incidence. Every polarisation carries its own power; light from below sees the reversed stack; orders other than the zeroth stay dark. "
     "compute_spectrum gives the spectrum of exactly the configured stack between the configured outer media.",
     ["inputs", "configurations"], "all thicknesses and frequencies, all refractive indices (one layer) or a table of indices (two layers, outer media), absorbing layers from a table, all angles up to 1.4 rad (one layer)",
     "The tests check one stack against stored numbers.",
     [R, "nidn/trcwa/init_trcwa.py", "nidn/trcwa/compute_spectrum_trcwa.py"], [("TRCWA.RT_Solve, Init_Setup, MakeExcitationPlanewave", R), ("SolveExterior, GetSMatrix, GetZPoyntingFlux", R)],
     "One and two layers (three thorough), 1 or 5 orders; inputs at which an intermediate matrix is exactly singular are excluded; identities of rational functions are decided by an exact normal form, what it leaves is put to the solver.")
K = "nidn/trcwa/utils/kbloch.py"
U = "nidn/trcwa/utils/fft_funs.py"
prop("P24", "RCWA orders, lattice and Fourier matrices are complete and exact",
     "For every lattice the reciprocal vectors are dual to it; the lateral wave numbers of the orders are those of the incident light plus the reciprocal lattice of the scaled period, and light comes in in the zeroth order unless another is chosen; the orders used start with the zeroth, contain with every order its opposite, are the shortest ones in whole shells, and number at least one and at most the configured count (with the parallelogram truncation: exactly the largest odd parallelogram of orders that fits). The permittivity matrices of a patterned layer hold exactly the Fourier components of its pixels (none dropped or moved) and their inverse. "
     "A patterned layer whose pixels are all equal behaves as the uniform layer, and with a single order any pattern behaves as its mean permittivity, for every number of pixels and layers.",
     ["inputs", "configurations"], "all lattices (duality), all scales of five lattice shapes, all pixel permittivities on bounded grids",
     "The tests use one lattice and one pattern and stored numbers.",
     [K, U, R, "nidn/trcwa/init_trcwa.py"], [("Lattice_Reciprocate, Lattice_getG, Lattice_SetKs", K), ("get_conv, Epsilon_fft", U), ("TRCWA.GridLayer_geteps", R)],
     "1-11 orders (21 thorough), up to 4x4 pixels (8x8 thorough), up to 3 layers. Genuinely patterned layers with several orders: P26.")
prop("P25", "RCWA fields inside a stack obey Maxwell's boundary conditions and power flow",
     "For every stack of uniform layers, lit from either side, the tangential electric and magnetic fields (and the normal D and B) that the RCWA solver reports are continuous across every interface; behind the stack both are perpendicular to the direction of the transmitted wave; the power they carry is the incident minus the reflected power above, the transmitted power below, and the same at every depth of a lossless stack; the momentum flux is that of the incident, reflected and transmitted waves. "
     "Amplitudes at a depth are the layer's waves propagated to it, and the field (or the permittivity of a patterned layer) in real space is the sum over the orders at every pixel.",
     ["inputs"], "all thicknesses, frequencies, depths and angles; wave numbers from a table or (one layer) all; all pixel permittivities on bounded grids",
     "No test evaluates a field.",
     [R, U], [("Solve_FieldFourier, Solve_FieldOnGrid, Return_eps, GetAmplitudes, Solve_ZStressTensorIntegral", R), ("SolveInterior", R), ("get_ifft", U)],
     "One and two layers, 1 or 5 orders; outer media vacuum. Volume integrals: P26.")
prop("P26", "RCWA of patterned layers conserves energy and respects symmetry",
     "For every polarisation of the incident light (any amplitudes and phases of both components), a lossless patterned stack reflects and transmits exactly the incident power; with absorption the rest is exactly the power that the fields lose in the layers (frequency times the volume integral of Im eps |E|^2). Tangential fields are continuous at every interface. "
     "Shifting the pattern, splitting a layer in two, turning everything by a quarter, or lighting the stack turned upside down from below changes neither reflectance nor transmittance. An anisotropic layer shows each polarisation the permittivity of its own direction; a grid, a flat vector and per-direction vectors describe the same layer.",
     ["inputs", "configurations"], "all amplitudes and phases of the incident wave; patterns, lattices, angles, numbers of orders from a table",
     "The tests compare a patterned spectrum with stored numbers for one polarisation.",
     [R, U], [("GridLayer_geteps, RT_Solve, Volume_integral, Solve_FieldFourier", R), ("SolveLayerEigensystem, MakeKPMatrix, GetSMatrix, SolveInterior", R), ("Epsilon_fft", U)],
     "Four patterns, three lattices, 5-7 orders, one and two layers (eight patterns, up to 21 orders and three layers thorough). Patterns and geometry are concrete, so that eigenmodes are computed numerically; the light is symbolic and the solver decides for all of it. Tolerance 1e-5.")
prop("P27", "Gradients are the derivatives of what is computed, from loss to weights",
     "For every input, the derivative that automatic differentiation delivers is that of the computed value: of the loss with respect to each reflectance and transmittance (also where a point is rescaled), of the likelihood penalty, of the spectrum of a uniform stack with respect to each layer's permittivity with either solver, of a patterned layer's matrices with respect to each pixel, of the permittivity grid (both run types, voxels, noise, oversampling, zero avoidance) with respect to each model output, and of the networks' outputs with respect to each weight. "
     "No stage cuts the gradient, and training differentiates the loss it reports once per evaluated iteration.",
     ["inputs", "configurations"], "all weights, model outputs, permittivities and spectra within the bounds, except points where the function has a kink",
     "Training tests only check that training runs; a partly missing gradient just trains worse.",
     [TR, T, "nidn/training/losses/spectrum_loss.py", I + "init_fdtd.py", R], [("run_training", TR), ("model_to_eps_grid", T), ("_spectrum_loss_fn", "nidn/training/losses/spectrum_loss.py"), ("init_fdtd, Grid.run", I + "init_fdtd.py"), ("GridLayer_geteps, RT_Solve", R)],
     "Small grids, networks of up to 3 hidden layers (5 thorough), up to two layers, 3 time steps, 5 orders. The eigenmodes of patterned layers (torch.linalg.eig, whose derivative does not exist for degenerate modes) are outside.")
PL = "nidn/plots/"
prop("P28", "Plots show the run's own data under the right labels",
     "For every run, the plots show its data and nothing else: target and produced reflectance and transmittance (and absorptance as one minus both) as the curves named so over the wavelength in micrometres, with the stated L1 error being their mean absolute deviation; losses as logged; for every voxel, at the marker of its position and labelled layer, the size of its permittivity, its real and imaginary part at the stated wavelength, or its closest material; per point its permittivity next to the materials asked for or closest. "
     "Every plot can be made for every number of frequencies, layers and pixels, and is saved in the given folder or shown.",
     ["inputs", "configurations"], "all spectra, frequencies, permittivities and logs within the bounds",
     "No test covers the plots.",
     [PL + "plot_spectra.py", PL + "plot_material_grid.py", PL + "plot_model_grid_per_freq.py", PL + "plot_eps_per_point.py", PL + "save_all_plots.py"],
     [("plot_spectra", PL + "plot_spectra.py"), ("plot_spectrum", PL + "plot_spectrum.py"), ("plot_losses", PL + "plot_losses.py"), ("plot_epsilon_grid", PL + "plot_epsilon_grid.py"),
      ("plot_model_grid", PL + "plot_model_grid.py"), ("plot_model_grid_per_freq", PL + "plot_model_grid_per_freq.py"), ("plot_material_grid", PL + "plot_material_grid.py"), ("plot_eps_per_point", PL + "plot_eps_per_point.py")],
     "Up to 3 frequencies (8 thorough) for spectra, small grids; pyplot is replaced by a recorder, so what matplotlib draws from the data is outside.")
prop("P29", "A saved run is loaded back unchanged",
     "Saving a run and loading the file gives back the same configuration, model and results, whatever they contain.",
     ["inputs", "histories"], "all run configurations", "No test covers it.",
     ["nidn/training/save_run.py", "nidn/training/load_run.py"], [("save_run", "nidn/training/save_run.py"), ("load_run", "nidn/training/load_run.py")], None)
NA["P29"] = "save_run and load_run hand the whole object to pickle, whose C implementation and the pickled classes' reduce protocols cannot be encoded; a stand-in for pickle would leave nothing of the property to decide."
