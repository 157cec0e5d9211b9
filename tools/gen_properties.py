import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],state=[dict(name=a,meaning=b,where=c) for a,b,c in state],observe_at=observe,hook_needed=None)))
T='nidn/trcwa/'; F='nidn/fdtd/'; FI='nidn/fdtd_integration/'; TR='nidn/training/'; U='nidn/utils/'; MA='nidn/materials/'
p('C01','RCWA of homogeneous stacks equals the exact thin-film solution',
 'For every stack of homogeneous layers, the reflectance and transmittance that the RCWA solver returns equal the exact normal-incidence thin-film (Fresnel / transfer-matrix) solution for the permittivities, thicknesses (one for all layers or one per layer), claddings and frequencies in the configuration, up to the solver\'s negligible numerical damping. This holds for dielectric, absorbing and metallic layers and does not depend on the lattice or on the truncation order.',
 ['inputs','configurations'],'all layer counts, permittivity sequences, thickness lists, claddings, frequency lists, lattices and truncation orders',
 'trcwa_test compares three fixed stacks at a few frequencies with stored numbers; order of layers, per-layer thickness, claddings other than vacuum, metals and truncation are never varied.',
 [T+'trcwa.py',T+'init_trcwa.py',T+'compute_spectrum_trcwa.py'],
 [('scattering-matrix recursion',T+'trcwa.py:GetSMatrix'),('layer set-up and thickness selection',T+'init_trcwa.py:_init_trcwa'),('power normalisation',T+'trcwa.py:RT_Solve')],['compute_spectrum return value'])
p('C02','RCWA never creates energy: R, T >= 0 and R + T <= 1',
 'For every passive structure (no gain anywhere), homogeneous or patterned, reflectance and transmittance returned by the RCWA solver are non-negative and add up to at most one, and for a lossless structure between lossless claddings they add up to one, within the solver\'s numerical damping.',
 ['inputs','configurations'],'all material patterns on the grid, all stackings of them, all claddings, frequencies and lattices, below and above the diffraction limit',
 'Tests look at three structures; a wrong interface, mode or Fourier coefficient shows only for particular patterns, multi-layer stackings or diffraction regimes.',
 [T+'trcwa.py',T+'utils/fft_funs.py',T+'utils/kbloch.py'],
 [('Fourier factorisation of the permittivity',T+'utils/fft_funs.py:Epsilon_fft'),('mode solver and branch choice',T+'trcwa.py:SolveLayerEigensystem'),('Poynting flux',T+'trcwa.py:GetZPoyntingFlux')],['compute_spectrum return value'])
p('C03','RCWA of patterned layers equals the reference Fourier modal solution',
 'For every stack of patterned layers whose grid resolves the retained Fourier orders, the RCWA solver returns the reflectance and transmittance of the truncated Maxwell problem for exactly that pattern: layers in the given order and thickness, first grid axis along the first lattice vector and second along the second. Consequently shifting all patterns together by grid points, splitting a layer into thinner equal ones, or giving a homogeneous layer as a grid of equal values leaves the spectrum unchanged.',
 ['inputs','configurations'],'all binary and ternary patterns on small grids, stacks of up to three of them, rectangular and oblique lattices, truncation orders, frequencies',
 'The tests evaluate one patterned structure; axis mix-ups, wrong layer indices, dropped Fourier coefficients or grid-size special cases need particular patterns, sizes or several layers.',
 [T+'trcwa.py',T+'init_trcwa.py',T+'utils/fft_funs.py',T+'utils/kbloch.py'],
 [('pattern to Fourier matrices',T+'trcwa.py:GridLayer_geteps'),('convolution matrix',T+'utils/fft_funs.py:get_conv'),('order selection',T+'utils/kbloch.py:Gsel_circular'),('in-plane wave vectors',T+'utils/kbloch.py:Lattice_SetKs')],['compute_spectrum return value'])
p('C04','A spectrum depends only on the permittivity grid and the configuration values',
 'Computing a spectrum gives the same result whatever was computed, trained, built or loaded before in the process, does not modify the permittivity grid passed in, and leaves the configuration such that any later change of it and recomputation (with either solver) gives the same result as a fresh configuration with those values. Each frequency is independent: the i-th reflectance and transmittance depend only on the i-th frequency and the i-th permittivity slice, and the results come in the order of the frequencies.',
 ['histories','inputs'],'all sequences of library operations (spectra with both solvers, configuration edits, frequency computations, grid building, training) up to a bounded length, and all per-frequency perturbations',
 'Tests load a fresh configuration, compute once and stop; they never interleave solvers, change layer counts on a used configuration or perturb one frequency only.',
 [U+'compute_spectrum.py',FI+'compute_spectrum_fdtd.py',T+'compute_spectrum_trcwa.py',T+'get_frequency_points.py'],
 [('dispatch and validation',U+'compute_spectrum.py:compute_spectrum'),('thickness expansion on a copy',FI+'compute_spectrum_fdtd.py:compute_spectrum_fdtd'),('new solver object per frequency',T+'compute_spectrum_trcwa.py:compute_spectrum_trcwa')],['compute_spectrum return value','configuration contents after the call'],
 [('run configuration','shared mutable object passed through the program',U+'load_default_cfg.py')])
p('C05','Gradients of the spectra are the true derivatives',
 'For every structure, the automatic derivative of each reflectance and transmittance (and of the training loss) with respect to every permittivity value equals the true derivative of the computed spectrum, for both solvers; in particular no permittivity that influences the spectrum receives a zero, missing or non-finite gradient.',
 ['inputs','configurations'],'all permittivity entries (real and imaginary part) of homogeneous stacks and of generic patterned grids, all frequencies, both solvers, all loss exponents and absorption options',
 'One test checks that some gradient is non-zero for FDTD; values are never compared with the derivative, and never per layer, frequency or pixel.',
 [T+'trcwa.py',T+'init_trcwa.py',F+'grid.py',F+'objects.py',FI+'calculate_transmission_reflection_coefficients.py',TR+'losses/spectrum_loss.py'],
 [('differentiable RCWA',T+'trcwa.py'),('differentiable FDTD update',F+'grid.py:update_E'),('differentiable coefficient extraction',FI+'calculate_transmission_reflection_coefficients.py')],['autograd of compute_spectrum'])
p('C06','The FDTD engine follows the Yee scheme on every step',
 'On every time step and for every arrangement of dielectric and absorbing objects, absorbing (PML) and periodic boundaries, point, line and plane sources and detectors, the electric and magnetic field recorded by the detectors equal those of the standard leapfrog Yee scheme for that arrangement. Running a simulation in several portions gives the same records as running it in one go.',
 ['inputs','histories','configurations'],'all arrangements of up to three objects on small grids, all boundary, source and waveform types, and all ways of splitting the run',
 'One test compares one scene at its end with stored values; overlapping or adjacent objects, conductivity, boundary corners, waveforms and intermediate steps are not sampled.',
 [F+'grid.py',F+'objects.py',F+'boundaries.py',F+'sources.py',F+'detectors.py'],
 [('field update',F+'grid.py:update_E,update_H'),('absorbing objects',F+'objects.py:AbsorbingObject'),('convolutional PML',F+'boundaries.py:PML'),('sources',F+'sources.py'),('detectors',F+'detectors.py:LineDetector')],['detector records','grid fields'],
 [('E, H, PML memory','field state of the simulation',F+'grid.py')])
p('C07','The FDTD solver simulates exactly the configured stack',
 'For every accepted configuration, the FDTD spectrum is that of the configured scene: absorbing boundaries of the configured thickness on both ends, free space on both sides, the layers contiguous in the given order with the configured thicknesses (one for all or one per layer) and the permittivity and loss of that layer and frequency, the reflection detector before and the transmission detector behind the stack, and the configured source. The reflectance is obtained from the reflected field only and both results are normalised by an identical run without the stack.',
 ['configurations','inputs'],'all layer counts, thickness lists, permittivities (lossless and lossy), free-space, PML and detector distances, source positions, types and pulses, resolutions, wavelength ranges',
 'Tests check a four-layer scene loosely (only inequalities for the detectors) and two spectra; misplacement by cells, thickness of the wrong layer or loss at the wrong frequency need other configurations.',
 [FI+'init_fdtd.py',FI+'compute_spectrum_fdtd.py',FI+'compute_fdtd_grid_scaling.py',FI+'calculate_transmission_reflection_coefficients.py'],
 [('scene construction',FI+'init_fdtd.py:init_fdtd'),('free-space and material run per wavelength',FI+'compute_spectrum_fdtd.py:compute_spectrum_fdtd'),('grid resolution',FI+'compute_fdtd_grid_scaling.py')],['compute_spectrum return value','scene returned by the set-up'])
p('C08','FDTD spectra are physical',
 'For every accepted FDTD configuration with enough time steps, a stack of vacuum layers reflects nothing and transmits everything, passive stacks give finite, non-negative reflectance and transmittance whose sum does not exceed one beyond the tolerated 5 %, and for continuous waves the result agrees with the steady state of the discretised stack, on well-resolved stacks with the exact thin-film solution within the discretisation error; lossless stacks lose nothing, and the transmittance does not depend on the side from which a stack is illuminated.',
 ['inputs','configurations'],'all layer counts, thickness lists, permittivities including absorbing ones, all source and pulse types, source positions and wavelengths',
 'Two spectra are compared with stored numbers; other sources, pulses, layer arrangements or lossy layers are never simulated to the end.',
 [FI+'compute_spectrum_fdtd.py',FI+'calculate_transmission_reflection_coefficients.py',F+'grid.py',F+'boundaries.py',F+'sources.py'],
 [('PML absorption',F+'boundaries.py:PML'),('normalisation',FI+'calculate_transmission_reflection_coefficients.py'),('sources and pulses',F+'sources.py')],['compute_spectrum return value'])
p('C09','Coefficients recovered from detector signals are right for any signal length',
 'From a free-space and a material recording that are sinusoidal after a start-up transient, the transmission and reflection coefficients are the squared ratios of the steady-state amplitudes (reflection: of material minus free-space signal), for every amplitude, delay, phase, common scaling, transient and recording length; a sum slightly above one is scaled to exactly one keeping the ratio. An all-zero free-space recording is reported as an error and no recording length makes the computation fail.',
 ['inputs'],'all signal lengths around the window multiples, delays, phases, amplitudes, transient shapes, wavelengths and resolutions',
 'One test uses one signal length and one amplitude ratio, and its assertion is one-sided.',
 [FI+'calculate_transmission_reflection_coefficients.py'],
 [('transient elimination',FI+'calculate_transmission_reflection_coefficients.py:_eliminate_transient_part'),('peak-aligned mean square',FI+'calculate_transmission_reflection_coefficients.py:_peak_based_coefficient_computation'),('limit to one',FI+'calculate_transmission_reflection_coefficients.py:_check_and_normalize_coefficients')],['calculate_transmission_reflection_coefficients return value'])
p('C10','Configuration validation accepts exactly the valid configurations',
 'Before anything is computed, every configuration with a missing or unknown entry, an entry of the wrong type, an inverted range or lattice, a non-positive count, size, exponent, rate, noise scale, loss weight, distance or thickness, a negative target spectrum, a grid not divisible by the oversampling, a thickness or source-position list of the wrong length, a detector outside the free space or an unknown solver, problem type, frequency distribution, source or pulse is rejected with an error; every configuration within those rules is accepted. Validation never changes the configuration.',
 ['configurations'],'all single and pairwise deviations of any entries from valid base configurations',
 'The test only validates the default configuration; nothing checks that any invalid one is rejected.',
 [U+'validate_config.py',U+'compute_spectrum.py',TR+'run_training.py'],
 [('key check',U+'validate_config.py:_check_for_keys'),('type check',U+'validate_config.py:_check_entry_types'),('range check',U+'validate_config.py:_check_value_ranges')],['exception or none from compute_spectrum / run_training'])
p('C11','Training returns the best physically valid model it has seen',
 'After training, the model holds exactly the parameters that had, when they were evaluated, the lowest total loss among all iterations with a physical spectrum (reflectance + transmittance <= 1), and its initial parameters if there was none, whatever later iterations did. When the forward model fails on an iteration the best parameters so far are restored, the learning rate is halved, nothing is logged for it, and training continues to the configured number of iterations; the loss, moving average and L1 logs contain one correct entry per successful iteration.',
 ['histories','fault_sequences'],'all sequences of iteration outcomes (improving, worse, unphysical, failing forward model) up to a bounded length, all loss exponents and problem types',
 'Tests run three well-behaved iterations; failures, unphysical spectra, regressions after improvements and their orders never occur.',
 [TR+'run_training.py',TR+'losses/spectrum_loss.py'],
 [('best-state tracking',TR+'run_training.py:run_training'),('failure recovery',TR+'run_training.py:run_training'),('logs',TR+'run_training.py:run_training')],['returned model parameters','result logs'],
 [('best loss, best parameters, learning rate, logs','training state',TR+'run_training.py')])
p('C12','Training losses measure the distance to the target spectrum',
 'The spectrum loss is the mean over frequencies and over reflectance, transmittance and, if enabled, absorptance of the absolute deviation from the target raised to the configured exponent; it is zero exactly when the spectra coincide. Where reflectance plus transmittance exceeds one both are scaled by the same factor to sum to one and the result is flagged, otherwise they are used unchanged and not flagged. The likelihood loss is the mean distance of the material weights to the nearer of zero and one, raised to the exponent: zero for one-hot material predictions and positive otherwise.',
 ['inputs'],'all combinations of produced and target values on a grid, all numbers of frequencies, exponents and absorption options, all material probability vectors on a grid',
 'No test evaluates a loss; training tests only require a final loss below 0.3.',
 [TR+'losses/spectrum_loss.py',TR+'losses/likelihood_regularization_loss.py'],
 [('spectrum loss',TR+'losses/spectrum_loss.py:_spectrum_loss_fn'),('likelihood loss',TR+'losses/likelihood_regularization_loss.py:_likelihood_regularization_loss_fn')],['loss values and training loss log'])
p('C13','Regression models yield permittivities in range, point by point',
 'For every regression model and configuration, the permittivity grid has the configured shape, real and imaginary parts stay within the configured ranges (also with noise), and the full range is reachable. Each grid point (layer, frequency, and with oversampling each block of points) takes its real and imaginary part from the model output at that point\'s own coordinates, with layer depth following the configured thicknesses; coordinates in the plane span [-1, 1], depth and frequency coordinates keep the order and relative spacing of the layers and frequencies. With zero avoidance on, no real part is closer to zero than 0.01 and no value changes its sign or is touched if it was further away.',
 ['inputs','configurations'],'all model types, grid sizes, layer and frequency counts, oversampling factors, permittivity ranges, thickness lists, frequency distributions, noise and zero-avoidance settings, and all outputs of a finite-valued model',
 'One test checks the shape of one grid of one untrained network.',
 [TR+'model/model_to_eps_grid.py',TR+'utils/voxel.py'],
 [('grid evaluation',TR+'model/model_to_eps_grid.py:_eval_model'),('range mapping',TR+'model/model_to_eps_grid.py:_regression_model_to_eps_grid'),('zero avoidance',TR+'model/model_to_eps_grid.py:_avoid_zero_eps')],['model_to_eps_grid return value'])
p('C14','Classification models yield mixtures of catalogue materials',
 'For every classification model and configuration, each grid point gets non-negative material weights that sum to one and are the same for all frequencies, ordered by the model\'s preference for the materials averaged over frequency, and its permittivity at each frequency is the weighted mean of the catalogue permittivities; a point with a clear preference gets practically that material\'s permittivity. With zero avoidance on, no real part is closer to zero than 0.01. The number of model outputs equals the number of catalogue materials for any number of frequencies, including one.',
 ['inputs','configurations'],'all preference patterns over materials and grid points, grid sizes, layer and frequency counts, oversampling factors',
 'The single test checks the shape of one random grid; values, ordering and edge sizes are not checked.',
 [TR+'model/model_to_eps_grid.py',MA+'material_collection.py',TR+'run_training.py'],
 [('softmax weights',TR+'model/model_to_eps_grid.py:_classification_model_to_eps_grid'),('material matrix',MA+'material_collection.py')],['model_to_eps_grid return value'])
p('C15','Every configurable network works and is fully trainable',
 'For every network type, depth, width, frequency factor and problem type, the network built from the configuration has the configured depth and width and computes the layers documented for its type (sine layers with the configured frequency factor, or ReLU layers of which the fifth hidden one, if there is one, gets the inputs in addition), maps every batch of points to one output row per point with values in [0, 1], rows do not influence each other, its output changes with the inputs and with every parameter tensor, every parameter receives a finite gradient and takes part in training; the voxel model holds one free permittivity per grid point, initialised inside the allowed range.',
 ['configurations','inputs'],'all model types, numbers of hidden layers, widths, output sizes, batch sizes',
 'Tests build one architecture at one depth.',
 [TR+'model/init_network.py',TR+'utils/nerf.py',TR+'utils/siren.py',TR+'utils/voxel.py'],
 [('factory',TR+'model/init_network.py:init_network'),('skip connection',TR+'utils/nerf.py:NERF'),('sine layers',TR+'utils/siren.py:Siren'),('voxel grid',TR+'utils/voxel.py:Voxel')],['init_network and model forward / backward'])
p('C16','The material catalogue returns the tabulated permittivities',
 'For every material and every requested frequency, the catalogue permittivity is (n + ik)^2 of the table row whose wavelength is closest to the requested one, keyed by the right name, in the order of the requested frequencies, for any number of frequencies; skipped materials are absent and do not disturb the others, the order of materials does not depend on the file system, and unknown names and empty frequency lists are errors.',
 ['inputs','configurations'],'all table rows and the points between them of all materials, all frequency list lengths and orders, all skip sets, all directory listing orders',
 'Tests load the catalogue once for a few frequencies and compare little.',
 [MA+'material_collection.py'],
 [('nearest row',MA+'material_collection.py:_load_material_data'),('name to row mapping',MA+'material_collection.py:__getitem__'),('directory loading',MA+'material_collection.py:_load_materials_folder')],['MaterialCollection contents'])
p('C17','Layer builders place the right material at every grid point',
 'A uniform layer has the named material everywhere; a square layer has the inner material exactly at the grid points strictly inside the centred square left by the given margin and the grid material elsewhere; a circle layer has the inner material exactly at the points strictly within the given radius of the given centre. Every point carries the full spectrum of its material, for all grid sizes and numbers of frequencies.',
 ['inputs','configurations'],'all grid sizes, margins, radii, centres, material pairs and frequency counts within bounds',
 'Tests only use the uniform builder.',
 [MA+'layer_builder.py'],
 [('uniform',MA+'layer_builder.py:build_uniform_layer'),('square',MA+'layer_builder.py:build_squared_layer'),('circle',MA+'layer_builder.py:build_circle_layer')],['returned permittivity tensors'])
p('C18','The closest catalogue material is really the closest',
 'For every permittivity grid, the material reported for each point is the one whose permittivity has the smallest mean absolute difference over all frequencies, and the reported distance is that difference; a point that carries a catalogue material is matched to it with distance zero.',
 ['inputs','configurations'],'all assignments of materials, mixtures and offsets to grid points, grid sizes, frequency counts',
 'No test covers it.',
 [MA+'find_closest_material.py',MA+'material_collection.py'],
 [('comparison',MA+'find_closest_material.py:_find_closest_material')],['returned indices and distances'])
p('C19','Frequency points cover the requested wavelength range',
 'For every wavelength range, number of points and distribution, the target frequencies are positive, ascending, exactly as many as requested, run from the reciprocal of the longest to the reciprocal of the shortest wavelength in micrometres and are evenly spaced linearly or logarithmically as requested; the reported physical wavelengths are their reciprocals in metres and the unit conversions are mutually inverse. Unknown distributions are errors, and the points used by training and by both solvers are the same.',
 ['inputs','configurations'],'all wavelength ranges, counts and distributions within bounds',
 'One test checks one range.',
 [T+'compute_target_frequencies.py',T+'get_frequency_points.py',U+'convert_units.py'],
 [('points',T+'compute_target_frequencies.py:compute_target_frequencies'),('reporting',T+'get_frequency_points.py'),('conversions',U+'convert_units.py')],['returned arrays'])
p('C20','Saved runs are kept and load back unchanged',
 'Every completed save of a run adds exactly one new file that loads back to a run with the same entries, logs, material data and model (same outputs for all inputs), no matter how many saves, to which folders, under which names, how quickly they follow each other or whether several processes save at once; no save alters or removes an earlier one or the run in memory. If saving is interrupted at any point, earlier saves still load and the incomplete file never loads as a run.',
 ['histories','crash_points'],'all sequences of saves, loads, edits and clock steps up to a bounded length, and all truncation points and failing writes of a save',
 'No test saves or loads a run.',
 [TR+'save_run.py',TR+'load_run.py'],
 [('file naming and writing',TR+'save_run.py:save_run'),('loading',TR+'load_run.py:load_run')],['result folder contents','loaded run'],
 [('result folder','set of saved runs','../results relative to the working directory')])
p('C21','Training is reproducible from its seed',
 'Two trainings with the same configuration and seed give identical logs, parameters and permittivities, whatever random numbers were drawn and whatever was trained, simulated or loaded before in the same process; different seeds give different initial models, and training continues from a model supplied in the configuration instead of replacing it.',
 ['histories','configurations'],'all sequences of prior operations up to a bounded length, all model types, problem types, solvers and noise settings',
 'Tests train once per process and never compare two trainings.',
 [TR+'run_training.py',U+'fix_random_seeds.py',TR+'model/init_network.py'],
 [('seeding before model creation',TR+'run_training.py:_init_training'),('seeding of all generators',U+'fix_random_seeds.py')],['logs and parameters of the trained model'],
 [('random generator state','global state of torch and numpy',U+'fix_random_seeds.py')])
p('C22','Plots and printed configurations show the data of the run and leave it as is',
 'Every plot shows exactly the data of the run it is given: produced and target spectra (and their mean deviation) over the wavelength in micrometres under their own legend labels, the three logs of the training, for every grid point and layer the norm over the frequencies of the given permittivities, the magnitude of the model\'s mean permittivity, its real and imaginary part at each selected frequency, its closest catalogue material and distance, and the permittivity of every point over wavelength together with the compared or closest materials. Printing a configuration prints every entry with its value at every stage of a run. Plotting and printing never change the run or an earlier figure, and saving all plots of any finished run writes all six plots into the given folder and nothing else.',
 ['inputs','histories','configurations'],'all grid shapes, layer and frequency counts, problem types, plot options and sequences of plots of several runs within bounds',
 'No test draws a plot or prints a configuration.',
 ['nidn/plots/plot_spectra.py','nidn/plots/plot_spectrum.py','nidn/plots/plot_losses.py','nidn/plots/plot_model_grid.py','nidn/plots/plot_model_grid_per_freq.py','nidn/plots/plot_epsilon_grid.py','nidn/plots/plot_material_grid.py','nidn/plots/plot_eps_per_point.py','nidn/plots/save_all_plots.py',U+'print_cfg.py'],
 [('spectrum comparison','nidn/plots/plot_spectra.py:plot_spectra'),('grids of points','nidn/plots/plot_model_grid_per_freq.py'),('closest materials','nidn/plots/plot_material_grid.py'),('printing',U+'print_cfg.py:print_cfg')],['drawn lines, points, labels','files written','printed text','run before and after'])
p('C23','The batch script trains, saves and plots every configuration of a folder',
 'For every folder of configuration files with different names, the script trains each configuration exactly once, independently of the others and with the same result as a direct training, and stores the run and its six plots in one subfolder per configuration; files that are not configurations are ignored, configuration files are left unchanged, and missing arguments are an error.',
 ['histories','configurations'],'all subsets of a set of configurations differing in model, problem type, solver and sizes, with and without other files',
 'No test runs the script.',
 ['nidn/scripts/run_cfgs.py',TR+'save_run.py','nidn/plots/save_all_plots.py'],
 [('loop over the configurations','nidn/scripts/run_cfgs.py')],['result folder after the script'])
p('C24','The RCWA engine solves Maxwell\'s equations for any incidence and inside layers',
 'For every stack of uniform and patterned layers (also with diagonal permittivity tensors and differently sampled) given to the TRCWA engine directly, and for every polar and azimuthal angle, polarisation state, excited propagating order, side of incidence, lattice, period scale and truncation scheme, the reflected and transmitted powers, in total, normalised and by diffraction order, are those of the truncated solution of Maxwell\'s equations (for homogeneous stacks: the thin-film formulas; lossless ones return all power). The fields, the stress, the power absorbed in a layer and the permittivity that the engine reports inside the layers are those of the same solution, and the reversed structure lit from the back behaves like the original lit from the front.',
 ['inputs','configurations'],'all stacks over an alphabet of layers x angles x polarisations x sides x lattices x truncations within bounds',
 'The tests only run the engine at normal incidence through the configured solver and compare with stored spectra; fields, absorption, orders, backward incidence and tensors are never exercised.',
 ['nidn/trcwa/trcwa.py','nidn/trcwa/utils/fft_funs.py','nidn/trcwa/utils/kbloch.py'],
 [('scattering matrices and interior amplitudes','nidn/trcwa/trcwa.py:SolveInterior'),('excitation','nidn/trcwa/trcwa.py:MakeExcitationPlanewave'),('fields and integrals','nidn/trcwa/trcwa.py:Solve_FieldFourier'),('truncation','nidn/trcwa/utils/kbloch.py')],['powers by order','fields in layers','absorbed power','permittivity'])
json_lines='\n'.join(json.dumps(x) for x in P)+'\n'
open('/verif/properties.jsonl','w').write(json_lines)
for x in P: assert len(x['title'])<=80,x['id']
print(len(P))
