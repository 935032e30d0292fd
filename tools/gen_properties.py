"""Regenerates /verif/properties.jsonl (kept as source so that the text is reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or [], "hook_needed": None}})

PIMC = "pibronic/pimc/pimc.py"
VIO = "pibronic/vibronic/vibronic_model_io.py"
FSY = "pibronic/data/file_structure.py"
FNM = "pibronic/data/file_name.py"
POST = "pibronic/data/postprocessing.py"
STATS = "pibronic/stats/stats.py"
JACK = "pibronic/stats/jackknife.py"
JB = "pibronic/server/job_boss.py"
ES = "pibronic/vibronic/electronic_structure.py"
PLOT = "pibronic/plotting/plotting.py"
GRID = "pibronic/plotting/grid_plots.py"
JUL = "pibronic/julia_wrapper.py"

prop("C01", "Recorded path weights equal the model's discretised path weights",
     "For every vibronic model, sampling model (with the same or a different number of surfaces), temperature and bead number, the ratio of the recorded numerator to the recorded denominator of each sample equals the ratio of the two discretised path-integral weights of that sample's path: the trace over the bead-ordered product of coupling and oscillator matrices of the vibronic model, over the sum over surfaces of the products of oscillator factors of the sampling model. Every recorded denominator is strictly positive and finite. A model with non-zero terms which the calculation cannot use (cubic and quartic terms; quadratic terms of a sampling model) is refused instead of being treated as another model; arrays of zeros are accepted.",
     ["inputs", "configurations"], "all models (energies, linear, quadratic couplings; any numbers of surfaces and modes of either model), temperatures, bead numbers >= 3 and sampled paths",
     "the tests compare against stored values for one or two fixed models and mostly only that no exception is raised; they never evaluate the path weight independently",
     [PIMC], [("oscillator, coupling and numerator/denominator assembly", PIMC + ": build_o_matrix, diagonalize_coupling_matrix, build_numerator, build_denominator, block_compute, block_compute_pm")],
     ["BoxResult.scaled_g / scaled_rho and the saved results file"])
prop("C02", "Shifted weights are the same paths at inverse temperature +- step",
     "In a plus/minus calculation the recorded 'plus' and 'minus' numerators of each sample are the path weight of the same vibronic model for the very same path at inverse temperature increased and decreased by the requested step, normalised by the same factor as the unshifted numerator and denominator. Whatever step is requested is the one used, and a vanishing step gives three equal numerators.",
     ["inputs", "configurations"], "all models, temperatures, bead numbers, steps and sampled paths",
     "the tests only run one plus/minus calculation and compare shapes; the derivative estimator silently changes value when a single factor keeps the unshifted temperature",
     [PIMC], [("temperature dependent constants at tau, tau_plus and tau_minus", PIMC + ": TemperatureDependentClass, ModelVibronicPM, BoxDataPM, block_compute_pm")],
     ["BoxResultPM.scaled_gofr_plus / scaled_gofr_minus"])
prop("C03", "Sampled paths follow the Gaussian mixture of the sampling model",
     "Paths are drawn from exactly the mixture whose density is proportional to the sampling model's denominator: a surface is chosen with probability proportional to its Boltzmann-weighted harmonic partition function, and given the surface the beads of each mode are jointly Gaussian around that surface's minimum with the discretised ring-polymer covariance. Different samples, modes and blocks are independent.",
     ["inputs", "configurations"], "all sampling models, temperatures, bead numbers and block partitions",
     "importance-sampling bias cannot be seen from a handful of samples; the tests never look at the distribution of the sampled coordinates",
     [PIMC], [("mixture weights, collective-coordinate variances and the bead transform", PIMC + ": ModelSampling.compute_weight_for_each_state, compute_sampling_constants, draw_sample, BoxData.transform_sampled_coordinates")],
     ["BoxData.qTensor after each draw"])
prop("C04", "Monte Carlo averages estimate the right partition-function ratios and energies",
     "For every model the average over samples of numerator over denominator, multiplied by the sampling model's own discretised partition function, converges to the discretised partition function of the vibronic model; the plus/minus averages converge to the partition functions at the shifted temperatures. This holds for any valid choice of sampling model.",
     ["inputs", "configurations"], "all models with independently computable partition functions, any sampling model, temperature and bead number, up to statistical error",
     "no existing test computes an independent partition function; a consistent error in the sampling and in the weights is invisible to per-sample checks",
     [PIMC], [("complete sampling pipeline", PIMC + ": BoxData.preprocess, block_compute, block_compute_pm")],
     ["recorded numerators and denominators"])
prop("C05", "Every requested sample is computed exactly once, for any block partition",
     "After a calculation every one of the requested samples has a finite recorded value in every recorded quantity, in the object and in the saved file, and no recorded value is left over from another block or sample. How the samples are split into blocks changes only which random numbers are used, never the correctness, order or independence of recorded samples.",
     ["inputs", "configurations"], "all (samples = blocks x block size) splits, both calculation kinds, several models",
     "tests use one block partition each; an off-by-one block slice only shows for several blocks",
     [PIMC], [("block loop and sample slices", PIMC + ": block_compute, block_compute_pm, BoxResult.initialize_arrays")],
     ["BoxResult arrays, saved .npz"])
prop("C06", "Results survive saving, loading and aggregation without loss or duplication",
     "Loading a saved result returns exactly the saved samples; aggregating any collection of result files yields, for each quantity, the concatenation of the samples of every complete file, each file once and with all quantities of a sample kept together, and with a requested maximum returns exactly that many samples (or all if fewer exist): whole files, at most one of them cut to its first samples. Files lacking required quantities contribute nothing and never corrupt the others.",
     ["inputs", "histories"], "all collections of result files: sizes, orders, incomplete files, caps, plain and plus/minus kinds",
     "tests load one or two equally sized files; caps that fall inside a later file and mixtures of complete and incomplete files are never exercised",
     [PIMC], [("result file I/O", PIMC + ": BoxResult/BoxResultPM.save_results, load_results, load_multiple_results")],
     ["result arrays after load"])
prop("C07", "Model files round-trip exactly and identify themselves by content",
     "Saving any valid coupled or diagonal model to a JSON file and loading it back, either into new arrays or in place over arbitrary old contents, returns exactly the same dimensions and coefficients, with coefficients omitted from the file meaning zero (arrays of other dimensions are refused); the saved dictionary itself is not modified. The model's hash is the same for identical files and differs whenever the stored model differs.",
     ["inputs", "histories"], "all models: any dimensions, any subset of omitted or all-zero coefficient arrays, any float64 values, repeated save/load sequences",
     "tests round-trip a few randomly generated models, in which every array is dense",
     [VIO, "pibronic/vibronic/vibronic_model_keys.py"], [("JSON I/O", VIO + ": _save_to_JSON, _load_from_JSON, _load_inplace_from_JSON, create_model_hash, create_diagonal_model_hash")],
     ["files and loaded dictionaries"])
prop("C08", "Derived harmonic and sampling models keep exactly the diagonal of their source",
     "The harmonic model and the basic sampling model derived from any coupled model have the same dimensions and frequencies and exactly the surface-diagonal of the energies and of every order of coupling coefficients, and nothing else; the source model file is left unchanged. Removing off-diagonal terms in place zeroes exactly the off-diagonal surface entries.",
     ["inputs"], "all coupled models, any coefficient orders present or absent, existing or absent destination files",
     "tests check two artificial models", [VIO],
     [("diagonal extraction", VIO + ": remove_coupling_from_model, create_harmonic_model, create_basic_diagonal_model, fill_offdiagonal_of_model_with_zeros")],
     ["derived JSON files"])
prop("C09", "MCTDH operator files are read into exactly the coefficients they state",
     "Reading an MCTDH operator file yields a model with the file's numbers of surfaces and modes, whose energies, frequencies, linear, quadratic, cubic and quartic coefficients equal the values stated in the file (symmetrised over surfaces, and over modes where required), with every unstated coefficient zero. Creating a coupled model from such a file stores exactly that model.",
     ["inputs"], "all operator files in the dialect the reader supports: any dimensions and any pattern of stated coefficients",
     "only two small example files are read, whose couplings hide wrong index bookkeeping",
     ["pibronic/vibronic/model_op.py", VIO], [("operator-file parser", "pibronic/vibronic/model_op.py: read_model_op_file")],
     ["returned model dictionary, coupled_model.json"])
prop("C10", "Artificial coupling is a unitary transformation of the stored model",
     "Creating an artificially coupled model replaces the stored coupled model by its transformation with an orthonormal matrix: at every geometry the potential matrix has the same eigenvalues as before, frequencies and dimensions are unchanged, and the transformation matrix saved to disk is the one applied. The untransformed model is kept as a backup, an explicitly supplied matrix or the previously saved matrix is used when asked for, and a non-orthonormal matrix is refused with all files unchanged.",
     ["inputs", "histories"], "all symmetric models, tuning parameters, supplied matrices and sequences of such operations",
     "tests transform one model with one parameter", [VIO, "pibronic/vibronic/orthonormal/create.py"],
     [("transformation", VIO + ": create_fake_coupled_model")], ["coupled_model.json, original_coupled_model.json, orthonormal_matrix.npy"])
prop("C11", "Tuned transformations are orthonormal and move monotonically from identity",
     "For every supported order and tuning parameter the generated transformation matrix is orthonormal, it is exactly the identity at zero, it is the same matrix every time it is requested, and its distance from the identity grows in proportion to the tuning parameter (doubling a small parameter doubles the distance). Generating the sequence of any order yields exactly such a family (that of the shipped tables for the shipped orders), ending at a quarter of the largest distance or half way to the first turning point, and the generated plotting sequences hold the true norms, with turning points marked where they are.",
     ["inputs"], "all orders supported by the shipped tables or generated, all tuning parameters",
     "tests evaluate a few parameter values and check orthonormality only",
     ["pibronic/vibronic/orthonormal/create.py", "pibronic/vibronic/orthonormal/sequences.py"],
     [("construction", "pibronic/vibronic/orthonormal/create.py: create_orthonormal_matrix_lambda_close_to_identity")], ["returned matrix"])
prop("C12", "Single-point energies and re-weighting use the lowest adiabatic energy",
     "For every diagonal model and coupled model without quadratic terms, the single-point energy of each surface is the lowest eigenvalue of the full coupled potential at that surface's minimum. Re-weighting rewrites only the model's energies so that each surface's energy at its minimum equals that value, is idempotent, and refuses models with quadratic terms without modifying them.",
     ["inputs", "histories"], "all pairs of models, including models without linear terms or energies, repeated re-weighting",
     "tests use one small model", [VIO],
     [("single point energies", VIO + ": simple_single_point_energy_calculation, recalculate_energy_values_of_diagonal_model")], ["returned values, rewritten JSON"])
prop("C13", "Model validation, comparison and symmetry predicates are exact",
     "A model is accepted exactly when its dimensions are given and every coefficient array has the shape they imply; two valid models compare equal exactly when they have equal dimensions and numerically equal coefficients with missing arrays meaning zero, for coupled and for diagonal models, symmetrically in the arguments. The symmetry predicates hold exactly when every array is invariant under exchange of its surface indices, respectively of its paired mode indices.",
     ["inputs"], "all pairs of models, with single perturbations of dimensions, shapes, one element, or missing arrays",
     "tests mutate one or two keys only", [VIO],
     [("predicates", VIO + ": verify_*_parameters, _same_model, _same_diagonal_model, model_parameters_are_symmetric_in_*")], ["boolean results / assertions"])
prop("C14", "Results of an outdated model are never accepted as current",
     "Whatever sequence of model changes and result productions has happened, filtering result files by the current models keeps exactly the files produced with the current coupled model and the current sampling model, and analytic or external results stored for a different model are rejected. Hashes requested anew (with the force flag, or by a newly opened file structure) after a model file changed reflect the new contents.",
     ["histories", "inputs"], "all histories of writing models, producing results and asking for the valid ones",
     "tests check one matching and one mismatching file", [FSY, POST, PIMC],
     [("hash gate", FSY + ": generate_model_hashes, valid_vib_hash, valid_rho_hash; " + POST + ": prune_results_using_hashes, load_analytic_data")], ["list of accepted files, exceptions"])
prop("C15", "Data sets and sampling models have disjoint, consistent directory trees",
     "For every root, data-set id and sampling id all paths lie under that data set's own tree; different ids never share a model, result or parameter file, and creating or switching one never modifies another's files. Switching to another sampling model gives exactly the same paths, ids and hashes as opening the structure with that sampling id in the first place, and creating a structure twice is harmless.",
     ["inputs", "histories"], "all roots, ids and sequences of create/switch operations",
     "tests use one root and id 0", [FSY, FNM],
     [("path construction", FSY + ": FileStructure.__init__, change_rho, make_directories")], ["path attributes, created directories"])
prop("C16", "Parameters encoded in file names are recovered exactly",
     "For every bead number, temperature, job id, sample count, number of basis functions and any directory the files live in, the parameters recovered from a file's path equal those used to create its name, and the list of files found for a parameter set contains exactly the existing files with these parameters. Different parameter sets never produce the same file name.",
     ["inputs", "configurations"], "all parameter values allowed by the naming scheme, arbitrary directory names, arbitrary sets of coexisting files",
     "tests use a single fixture directory and a few values", [FNM, POST],
     [("naming and parsing", FNM + "; " + POST + ": extract_*, retrive_*, glob patterns")], ["returned lists/values"])
prop("C17", "Thermodynamic averages and errors follow their estimators",
     "For every set of samples the derived partition-function ratio, energies, heat capacities and their error estimates written to the thermodynamic results equal the estimators documented for the chosen method evaluated on exactly those samples with the finite-difference step they were calculated with (samples of different steps are not combined), independent of the order of the samples. Rescaling all recorded weights by a common factor, or adding a constant energy consistently, has exactly the corresponding effect.",
     ["inputs"], "all sample sets (ratios, shifted ratios), temperatures and steps",
     "tests compare one stored data set with stored output", [STATS],
     [("estimators", STATS + ": basic_stats, starmap_wrapper / alpha method, statistical_analysis_of_pimc")], ["returned dictionaries, thermo files"])
prop("C18", "Jackknife estimates are the leave-one-out estimates",
     "The jackknife input and output data are the leave-one-out averages of the recorded ratios and the estimates and errors derived from them equal those recomputed by deleting each sample in turn, for every sample set and independent of the order of samples.",
     ["inputs"], "all sample sets, temperatures and steps",
     "tests compare one stored data set", [JACK, STATS],
     [("jackknife", JACK + ": calculate_jackknife..., jackknife analysis in " + STATS)], ["returned arrays, written files"])
prop("C19", "Analysis writes exactly one result per parameter pair, from exactly its files",
     "Analysing a data set (whose sampling model has analytic data for each temperature) produces, for every pair of bead number and temperature for which result files exist, exactly one thermodynamic result computed from exactly the samples of that pair's files of the current models, and nothing for other pairs; it never mixes temperatures, bead numbers, sampling models or stale files, and never modifies the result files.",
     ["inputs", "histories"], "all sets of result files on disk (ragged parameter grids, several jobs, several sampling models)",
     "tests analyse one parameter pair", [STATS, JACK, POST],
     [("collection loops", STATS + ": statistical_analysis_of_pimc; " + JACK + ": jackknife_analysis_of_pimc")], ["thermo files"])
prop("C20", "Job parameters survive serialisation to the job script",
     "Every parameter set serialised for a job (with the separator substitution required by the scheduler) is reconstructed by the job exactly: same samples, blocks, sizes, temperature, beads, ids, step, model paths and hashes, and the serialised form contains no separator the scheduler would split on. The command line that reaches the scheduler carries the same parameters, and the job it starts computes and stores exactly the requested samples. (Roots without commas, semicolons, blanks or shell characters.)",
     ["inputs"], "all parameter sets", "tests check one dictionary's string form only", [PIMC, JB],
     [("serialisation", PIMC + ": BoxData.json_serialize, encode_self, load_json_string, from_json_file")], ["decoded object"])
prop("C21", "Job plans cover the requested samples and jobs stay isolated",
     "For every request and every combination of requested bead numbers and temperatures the planned jobs together compute at least the requested number of samples, with no more jobs than needed for that and no job above the per-job maximum, and each job's blocks exactly make up its samples. Creating or configuring one job or submission never changes another one.",
     ["inputs", "histories"], "all request sizes, block sizes, bead/temperature lists and sequences of job creations",
     "no test constructs more than one submission", [JB, "pibronic/server/compute_canada/pimc.py", "pibronic/server/nlogn_feynman/pimc.py"],
     [("planning", JB + ": SubmissionClass, PimcSubmissionClass")], ["submitted command lines / parameter dictionaries"])
prop("C22", "Electronic-structure workflow resumes at the right step",
     "A step of the workflow is recorded as completed only after its job succeeded and its output was verified. After any prefix of the workflow has completed and the process was interrupted (failed or refused job, scheduler error, truncated or missing output, kill while waiting), restarting resumes with the step following the last record of the progress file and submits exactly the jobs still needed, in order; blank lines are ignored, an explicitly requested step takes precedence, a finished workflow submits nothing, and an unreadable last record starts from the beginning.",
     ["histories", "crash_points"], "all interruption points and progress-file contents",
     "the workflow's resume logic has no tests", [ES, JB],
     [("state file", ES + ": VibronExecutionClass state handling")], ["selected state"])
prop("C23", "Job inputs state exactly the geometry, parameters and states in force",
     "Reading a geometry and updating it changes exactly the updated coordinates and keeps connectivity, header lines and all other values, in internal and Cartesian coordinates; asterisks marking optimised coordinates appear only in the optimisation input. Parameters read from a parameter file are the stated ones (comments and blank lines ignored, unstated ones at their defaults, invalid ones refused) and never leak into another calculation. Every input file handed to the scheduler states the geometry in force at that step (the optimised one after the optimisation), the requested basis, theory and numerical settings and the current number of states.",
     ["inputs", "histories"], "all input files of the supported dialect and parameter updates",
     "tests cover a few fixture files", [ES], [("geometry, parameters and input templates", ES + ": ZmatClass, VibronExecutionClass.parse_input_parameters, geometry_optimization, hartree_fock_calculation, vibrational_frequency, ip_calculation, _create_template")], ["input files of the submitted jobs"])
prop("C24", "Ab-initio output is interpreted correctly, including incomplete output",
     "A calculation is reported successful exactly when the completion notice is among the last ten lines of its output; the optimised geometry, the suggested number of states (the orbitals above the first largest relative gap among the orbital energies above the dropped orbitals and the lowest kept one, or the number the user gives instead) and the verdict on the percentage of single excitations (every state above the cut-off) are those of the numbers printed in the output; output cut anywhere before the end of its table raises an error and never hangs or yields a value.",
     ["inputs", "crash_points"], "all generated outputs in the supported format, truncated anywhere",
     "tests cover a few fixture files", [ES], [("output parsing", ES)], ["returned values"])
prop("C25", "Editing of the vibronic input touches only the intended entries",
     "Removing superfluous effective-Hamiltonian entries leaves exactly the text from the beginning of the first line naming the wanted section to the end of the file; inserting the number of ionised states fills exactly the six-character field that begins at the placeholder with the right-justified number. Every other byte is kept, for files of any length, the program's own outputs are never modified, and a file lacking the section or placeholder raises an error and stays unchanged.",
     ["inputs"], "all generated input files", "not covered by tests", [ES], [("file edits", ES + ": _remove_extra_heff, _add_nip_to_file, parse_prepVibron_output")], ["file contents"])
prop("C26", "Generated model data are valid, symmetric and within requested ranges",
     "For every requested number of surfaces and modes, frequency range, energy range and scaling, the generated model is accepted by validation, is symmetric in surfaces and modes, has frequencies and energies inside the requested ranges and linear couplings within the requested displacement, and the diagonal variant contains only diagonal data.",
     ["inputs"], "all generation parameters and random seeds",
     "tests draw a few random models with default ranges", [VIO],
     [("generator", VIO + ": generate_vibronic_model_data")], ["returned dictionaries"])
prop("C27", "External reference results are cached per temperature and never lost or mixed",
     "Merging newly computed reference results into the stored ones keeps every earlier temperature of the same model and parameters, overwrites only recomputed temperatures, and discards results belonging to a different model or parameter set; what is stored under a temperature (two decimals) is what the external program computed for that temperature, model file and parameters. A failed calculation is reported and leaves the stored results as they were.",
     ["histories", "inputs"], "all histories of requests, temperature lists and model changes",
     "tests require the external program, which is unavailable", [JUL],
     [("cache", JUL + ": validate_old_*, convert_keys, base_func")], ["stored JSON"])
prop("C28", "Training data pair every path with its own weight",
     "Every calculation that stores weights of arbitrary (not importance-sampled) or supplied paths stores, for each path, exactly the path weight of the vibronic or sampling model at that path, in the same order as the stored paths, and leaves supplied paths untouched.",
     ["inputs", "configurations"], "all models, temperatures, bead numbers, block splits and paths", "the training-data calculations have no tests",
     [PIMC], [("training data", PIMC + ": block_compute_gR, block_compute_gR_from_raw_samples, block_compute_rhoR_from_input_samples, save_gR_with_samples")], ["saved training files"])
prop("C29", "Job outcomes and scheduler states are reported correctly",
     "A job is reported as completed exactly when the scheduler reports its completion, and any other final state (failed, cancelled, timed out, still running, unknown to the scheduler) raises an error; waiting ends only after the job has left the queue and running states, whether or not the job's signal arrived early. The scheduler's output of a finished job is reported as a memory failure or a kill exactly when it says so. Refused submissions, unknown clusters and missing partitions raise an error, and the job number returned is the scheduler's.",
     ["inputs", "histories", "schedules"], "all scheduler outputs, sequences of polled states, signal arrivals before or after, accounting states and cluster configurations",
     "the tests contain no scheduler at all", [JB, ES],
     [("scheduler interface", JB + ": check_slurm_output, synchronize_with_job, get_hostname, submit_job; " + ES + ": wait_on_results")], ["raised errors, returned job ids"])
prop("C30", "Plots show exactly the stored results and references they stand for",
     "Each plotting class fills its (beads, temperature, samples) array with the value stored by each thermodynamic result file of the FileStructure's current models, at that file's own bead number, temperature and number of samples, and leaves every other cell empty (nan); results of other models are never used. The partition functions are then normalised by the exact sampling partition function of the same sampling model and temperature and expressed as percent difference from the reference of that temperature, and the curves drawn hold these values and error bars against tau = beta / beads, one curve per temperature (and number of samples or sampling model) for any set of temperatures. Exact, sum over states and Trotter references are those of the FileStructure's own data set, basis size, temperature and bead number; missing ones are missing and never replaced by others; reference values which were calculated for another model than the current one are refused (Trotter values: treated as missing). The insets of the figures hold the same values. Grid plots show every energy, linear and quadratic matrix of the original and the coupled model with the sign of each element, whatever the sampling model.",
     ["inputs", "histories"], "all sets of result files over beads, temperatures, sample numbers and models, one or several sampling models, reference files present or missing, and models",
     "the plotting package has no tests", [PLOT, GRID],
     [("loading and normalising", PLOT + ": load_analytical_original, load_analytical_sampling, load_sos, load_trotter_coupled, generate_parameter_lists, load_pimc_data, prepare_data"), ("drawing", PLOT + ": plot_Z, plot_E, plot_Cv; " + GRID + ": plotGrids")], ["arrays after load_data, curves and images of the figures"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
