#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of truth for the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

OPT = "src/Optimizers/optimization.cpp"; EGO = "src/Optimizers/efficient_global_optimization.cpp"
HIST = "src/Optimizers/optimization_history.cpp"; GOD = "src/Optimizers/globalOptimalDesign.cpp"
OCON = "src/Optimizers/optimization_constraint_functions.cpp"
OBJ = "src/ObjectiveFunctions/objective_function.cpp"; CON = "src/ObjectiveFunctions/constraint_functions.cpp"
KRI = "src/SurrogateModels/kriging_training.cpp"; SMD = "src/SurrogateModels/surrogate_model_data.cpp"
SM = "src/SurrogateModels/surrogate_model.cpp"; LIN = "src/SurrogateModels/linear_regression.cpp"
TST = "src/SurrogateModels/surrogate_model_tester.cpp"
MAT = "src/LinearAlgebra/matrix.cpp"; VEC = "src/LinearAlgebra/vector.cpp"; SOL = "src/LinearAlgebra/linear_solver.cpp"
EAI = "src/InternalOptimizers/ea_individual.cpp"; EAP = "src/InternalOptimizers/ea_population.cpp"; EAO = "src/InternalOptimizers/ea_optimizer.cpp"
GPO = "src/InternalOptimizers/general_purpose_optimizer.cpp"
DRV = "src/Driver/driver_xml.cpp"; XML = "src/Driver/xml_functions.cpp"; STR = "src/Driver/string_functions.cpp"; KEY = "src/Driver/configkey.cpp"
API = "src/API/cppAPI.cpp"; RAPI = "src/API/rodeo_api.cpp"
DES = "src/Design/design.cpp"; DBO = "src/Design/design_bo.cpp"; BND = "src/Bounds/bounds.cpp"
CORR = ["src/CorrelationFunctions/correlation_functions.cpp", "src/CorrelationFunctions/exponential_correlation_function.cpp", "src/CorrelationFunctions/gaussian_correlation_function.cpp"]
E2E = "The stable tests run four fixed studies and only check the exit code and that the result file is not empty; no value that the run writes is ever looked at."

# ---------------------------------------------------------------- R: the optimization run
p("R01", "Evaluation budget is met exactly and every function is evaluated once per design",
  "An optimization with a budget of N function evaluations evaluates the objective exactly N times after its training samples, and evaluates every simulated constraint (one given by an executable or callback) exactly once for each of those designs, at exactly the same design vector. With an initial design of experiments of M samples, the objective and each constraint are additionally evaluated exactly once at each of the same M samples, before the first iteration. No function is evaluated after the budget is used up.",
  ["configurations", "histories"], "All problem dimensions, budgets, DoE sizes and strategies, constraint sets (callback, executable or user-defined function) and random histories.",
  E2E + " They could not notice a skipped, repeated or misdirected evaluation.",
  [EGO, OPT, OCON, API, OBJ, CON], [("main optimization loop and its termination", EGO), ("constraint evaluation loop", OCON), ("DoE evaluation loops", API)],
  [("outer iteration number", "iterations performed", "src/Optimizers/INCLUDE/optimization.hpp")], ["objective/constraint callbacks", "invocations of the external executables"])
p("R02", "Every evaluated design lies in the box and discrete parameters lie on their grid",
  "Every design vector at which the objective or a constraint is evaluated, whether it comes from the initial design of experiments or from the search, satisfies lower bound <= x_i <= upper bound for each parameter (up to rounding in the last digits). Each discrete or integer parameter additionally takes one of the values lower_i + k * increment_i, k = 0, 1, 2, ..., that does not exceed the upper bound, and each such value, including one that coincides with the upper bound, can be chosen: the proposed continuous value is replaced by the nearest grid value.",
  ["inputs", "configurations", "histories"], "All bounds (any sign and scale), increments, mixtures of continuous and discrete parameters, DoE strategies and search histories.",
  E2E + " Two bounds settings and no discrete parameter are sampled.",
  [OPT, DBO, VEC, API], [("rounding of discrete parameters", OPT), ("denormalisation of the proposed design", VEC), ("clipping of candidate designs", DBO)],
  None, ["objective/constraint callbacks", "design vector files"])
p("R03", "The history records every evaluation, in order and with its true values",
  "The optimization history contains one row per training sample in the order of the training data followed by one row per evaluated design in evaluation order, and its file is rewritten after each evaluation with a header naming the parameters, the objective, each constraint, the improvement and the feasibility. Each row holds the evaluated design, the objective value and the constraint values that were actually returned for that design. No row is ever lost, duplicated, reordered or changed afterwards.",
  ["histories", "configurations"], "All runs: any dimension, number of constraints, number of samples and evaluation outcomes.",
  E2E + " The history file is not read by any test.",
  [HIST, OPT, EGO, MAT], [("history initialisation from training data", OPT), ("history update per evaluation", HIST), ("history file writing", HIST)],
  [("history data", "matrix of all samples", HIST)], ["optimizationHistory.csv at every evaluation and at exit"])
p("R04", "The reported global optimum is the best feasible design of the history",
  "After initialisation and after every evaluation the reported global optimal design is the row of the history with the smallest objective value among the feasible rows, or, if there is no feasible row, the row with the smallest objective value, flagged infeasible. Its reported identifier, design parameters, objective value, constraint values and feasibility flag are those of that row. The reported objective value of a feasible optimum never increases from one evaluation to the next.",
  ["histories"], "All histories: ties, infeasible prefixes, all-infeasible runs, improving and worsening sequences.",
  E2E + " Only that the XML file is not empty is checked.",
  [GOD, OPT], [("selection of the best design", GOD), ("XML report", GOD)], None, ["globalOptimalDesign.xml after every evaluation"])
p("R05", "Feasibility and improvement of every design are classified correctly",
  "A design is recorded as feasible if and only if every constraint value strictly satisfies its own inequality (greater or less than its own threshold) and, for training samples of a constrained problem, the design lies in the box; without constraints every design is feasible. A training sample whose constraint value is unknown is recorded as infeasible. The recorded improvement of an evaluated design is the decrease of its objective value with respect to the best feasible training sample when it is feasible and better, a tiny positive number for the first feasible design of a run whose training data has none (later designs of that run are measured against that one), and zero otherwise.",
  ["inputs", "histories", "configurations"], "All constraint values (including exactly on the threshold), inequality types, thresholds, numbers and orders of constraints.",
  E2E + " Feasibility is never asserted.",
  [OCON, OPT, CON, HIST], [("constraint feasibility check", CON), ("history feasibility flags", OPT), ("improvement value", OPT)], None, ["optimizationHistory.csv"])
p("R06", "Training data files only grow, by exactly the evaluated samples",
  "Each evaluated design is appended to the training data file of the objective and of each surrogate-modelled constraint exactly once, with the value that function returned, unless an identical sample (within 1e-4 in every entry) is already stored. All earlier rows stay in the file byte for byte and in the same order. Appended entries keep at least ten digits after the decimal point.",
  ["histories", "inputs"], "All evaluation sequences, duplicates, sample magnitudes and numbers of constraints.",
  E2E + " The training data files are inputs there, and their final content is ignored.",
  [KRI, VEC, OBJ, CON, DES], [("adding a sample to the data", KRI), ("appending a row to a CSV file", VEC), ("composition of the sample", DES)], None, ["training data CSV files before and after each evaluation"])
p("R07", "External simulations get exactly the design and their failures stop the run",
  "For each evaluation by an external program, the design vector file contains, one per line and with enough digits to recover each entry to full double precision, the design that is evaluated when the program is started, the program is executed exactly once, and the first number it then writes to the output file is the recorded value. If the program cannot be started, exits with a nonzero code or is killed, or if its output file is missing, empty, unreadable as a number or left over from an earlier evaluation, the run ends with an error exit and records no value for that design. Everything completed before stays recorded.",
  ["fault_sequences", "inputs"], "All designs, all kinds of failure of the simulation program, at any evaluation and in the objective or in any constraint.",
  "The stable tests only use simulations that always succeed, and never compare what was passed with what was recorded.",
  [OBJ, CON, EGO, "src/Rodeo.cpp"], [("design vector file writing", OBJ), ("process execution and exit code check", OBJ), ("output parsing", OBJ)], None, ["design vector file as seen by the program", "exit code of the run", "history and training data files"])
p("R08", "NaN results are never recorded as samples",
  "If the objective or a constraint returns a not-a-number value for an evaluated design, or leaves by an exception, the run stops with an error and evaluates no further design. Neither the training data files, nor the optimization history, nor the reported optimum ever contain a not-a-number value because of it. All previously recorded samples stay as they were.",
  ["fault_sequences", "histories"], "NaN from the objective or any constraint, at any evaluation.",
  "No test makes an evaluation return NaN.",
  [EGO, DES, OPT], [("NaN check before the data is updated", EGO), ("NaN check of the design", DES)], None, ["exit of the run", "history and training data files"])
p("R09", "A killed run loses no completed evaluation and can be continued",
  "If the process is killed while an evaluation is running, the training data files (apart from repeated samples, see R06) and, once the initial design of experiments is complete, the history file on disk contain every evaluation completed before, complete and well-formed. A new run started on these files begins with a history that consists of exactly these samples, with the same objective values, constraint values and feasibility, and continues to the end of its own budget.",
  ["crash_points", "histories"], "Kills during any evaluation of the objective or of a constraint, with any number of constraints.",
  "No test kills or continues a run.",
  [EGO, KRI, HIST, OPT, SMD], [("data is stored after each evaluation", EGO), ("history is rebuilt from training data", OPT)], None, ["files after a kill", "history of the continued run"])
p("R10", "The proposed design is the best found by the acquisition search, on any threads",
  "The design proposed by the global acquisition search lies in the current trust region around the best design and in the design space, and its acquisition value is the expected improvement of its own position times the product of the feasibility probabilities of the constraints there. No candidate that the search examined has a larger acquisition value than the one it returns, for any number of threads and any interleaving, and the subsequent gradient-based refinement never returns a design with a smaller acquisition value than its start or outside the trust region. The trust region is a box around the best design, clipped to the design space; it starts with 0.8 of the width of each parameter, is doubled (at most to the whole width) after three successive improvements, halved after fifteen evaluations without, and the search samples all of it.",
  ["inputs", "schedules", "configurations"], "All surrogate models, constraint sets, trust regions, numbers of inner iterations and threads, and thread schedules.",
  E2E + " A search that returned an arbitrary candidate would pass.",
  [OPT, DBO, OBJ, CON], [("inner optimization loops", OPT), ("gradient-based refinement", OPT), ("acquisition value with feasibility probabilities", DBO)], None, ["candidates and values seen through the surrogate", "returned design"])
# ---------------------------------------------------------------- K: surrogate models
p("K01", "The Kriging prediction and variance are those of the Kriging formulas",
  "For given data, bounds and hyperparameters the model's prediction at any point equals the ordinary Kriging predictor (generalised-least-squares mean plus correlated residuals) or, for universal Kriging, the linear trend plus that predictor for the residuals, and the returned variance equals the Kriging variance for the maximum-likelihood process variance. The prediction reproduces the training values at the training points when the correlation matrix is well conditioned. The variance is never negative or NaN and vanishes at the training points.",
  ["inputs"], "All data sets (dimension, size, scale, bounds), hyperparameters and query points.",
  "No stable test evaluates a model against known values.",
  [KRI, LIN] + CORR + [SOL], [("auxiliary fields: mean, process variance, weights", KRI), ("interpolation with variance", KRI), ("correlation matrix", CORR[1])], None, ["interpolate / interpolateWithVariance / interpolateAll"])
p("K02", "A Kriging model always answers from its current data and hyperparameters",
  "After any sequence of training, adding samples, rereading data and setting hyperparameters, every prediction equals that of a model built from scratch from the training data file with the same bounds and hyperparameters. A sample that duplicates an existing one within 1e-4 in every entry changes nothing. Predictions do not change the model: repeating a query gives the same answer.",
  ["histories", "inputs"], "All sequences of operations and all data.",
  "The tests run one fixed sequence and compare no value.",
  [KRI, SM, SMD], [("updating the auxiliary fields", KRI), ("adding a new sample", KRI), ("setting hyperparameters", KRI)], None, ["interpolate / interpolateWithVariance after each operation"])
p("K03", "Training returns admissible hyperparameters at least as good as a random search",
  "Training ends with hyperparameters inside their search box (theta in [0, 20], gamma in [1, 2]) for any number of threads and any number of repeated trainings, and leaves the model ready to predict with exactly these hyperparameters. Their concentrated likelihood (or their validation error when a validation split is used) is not worse than that of the typical random point of the box, the search never returns hyperparameters with a worse likelihood than others that any of its threads examined, and the effort per training does not shrink from one training to the next.",
  ["inputs", "histories", "schedules"], "All training data, iteration budgets, thread counts and repeated trainings.",
  "The tests train on three fixed data sets and check nothing about the result.",
  [KRI, EAO, EAP, EAI], [("maximum likelihood estimation by an evolutionary search", KRI), ("validation error training", KRI)], None, ["hyperparameters after training"])
p("K04", "Saved hyperparameters reload to the same model",
  "Writing a model's hyperparameters and reading them back, in a fresh model on the same data, gives the same predictions and variances up to the relative accuracy 1e-6. A missing or wrongly sized hyperparameter file is reported as an error. A warm-started training never ends with a worse likelihood than the loaded hyperparameters had by more than that accuracy.",
  ["inputs", "fault_sequences"], "All hyperparameter values (any magnitude in their range), dimensions and file faults.",
  "No test writes or reads hyperparameters.",
  [KRI, VEC] + CORR, [("saving and loading hyperparameters", KRI), ("vector CSV files", VEC)], None, ["predictions before and after the round trip"])
p("K05", "The linear trend model is the regularised least-squares fit",
  "After training, the linear model's prediction is the minimiser of the squared error with the fixed tiny ridge term 1e-8 on the normalised inputs with an intercept; it reproduces affine functions and is invariant, up to rounding, under the choice of the bounds used for normalisation for well-conditioned data. Saved weights reload to the same predictions.",
  ["inputs"], "All data sets, dimensions, bounds and query points.",
  "No stable test uses the linear model or checks a prediction.",
  [LIN, MAT, SOL], [("training by normal equations", LIN), ("interpolation", LIN)], None, ["interpolate / interpolateAll"])
p("K06", "Surrogate data is read, split and normalised without losing or mixing samples",
  "Reading a training file gives the model exactly its rows, in order; with a validation ratio the rows are partitioned between training and validation sets, each row appearing in exactly one and with its own outputs, and reading again starts afresh, as does a reset. Normalised inputs are (x - lower) / (upper - lower) / dimension, derivative outputs are scaled consistently, and the raw data is unchanged by normalisation. Reverting to the full data restores all samples.",
  ["inputs", "histories"], "All files, dimensions, ratios, bounds and operation orders.",
  "No stable test inspects the data a model holds.",
  [SMD, MAT, BND], [("reading and splitting", SMD), ("normalisation", SMD)], None, ["accessors of the data container"])
p("K07", "Correlation functions give valid correlations for all admissible hyperparameters",
  "The correlation of two points equals exp(-sum theta_i |x_i - y_i|^gamma_i) for the exponential and exp(-sum theta_i (x_i - y_i)^2) for the Gaussian family, so it is symmetric, lies in [0, 1] and is 1 for equal points; correlation matrices are symmetric with diagonal 1 plus a fixed tiny regularisation, and correlation vectors agree with them entry by entry. Derivatives of the correlation functions are the derivatives of these expressions. Wrongly sized hyperparameters are rejected, and the validity check accepts exactly the admissible ones.",
  ["inputs"], "All points, dimensions and hyperparameters.",
  "No stable test evaluates a correlation.",
  CORR, [("correlation and derivative formulas", CORR[1]), ("matrix assembly", CORR[0])], None, ["computeCorrelation*, correlation matrix and vector"])
p("K08", "Surrogate test reports state the true prediction errors",
  "Testing a surrogate on a data set reports, for every test point in order, the point, the model's prediction (and variance) there, the given value and their squared error, and the reported out-of-sample error is the mean of these squared errors. Repeating the test gives the same report. Unusable settings (missing dimension, bounds, model, file, or invalid ratio) are rejected with an error instead of a wrong report.",
  ["inputs", "histories", "configurations"], "All training and test data, model types, split ratios and repeated runs.",
  "No stable test runs a surrogate test.",
  [TST, SM, SMD], [("try on test data", SM), ("surrogate tester", TST)], None, ["test result file and error values"])
p("A01", "Expected improvement and feasibility probabilities are the Gaussian ones",
  "The expected improvement is (m - f) Phi(z) + s phi(z) with z = (m - f) / s for the best feasible value m, the prediction f and the (scaled) standard deviation s, and zero when s vanishes; the probability of improvement is Phi((m - f) / s). The probability that a constraint holds is the Gaussian probability that a value with the predicted mean and deviation lies on the feasible side of its threshold, and a step function when the deviation vanishes. These values are never NaN, improvements are never significantly negative, and probabilities stay in [0, 1].",
  ["inputs"], "All predictions, deviations (tiny to huge), thresholds and constraint counts.",
  "No stable test looks at an acquisition value.",
  [OBJ, DBO, OPT, OCON], [("expected improvement", OBJ), ("normal distribution functions", DBO), ("feasibility probabilities", OCON)], None, ["acquisition values of designs"])
# ---------------------------------------------------------------- E: internal evolutionary optimizer
p("E01", "The evolutionary optimizer returns its best evaluated point, in box and budget",
  "The evolutionary optimizer evaluates its objective only inside the given box, reports as optimum a point it evaluated with the value it got there, and no evaluated point has a smaller value. It stops when the number of generated individuals reaches the given maximum, overshooting it by less than one generation (it always evaluates its initial population and one generation), and works for positive, negative, mixed-sign and strongly scaled objectives.",
  ["inputs", "histories"], "All objectives, boxes, population sizes, mutation settings and evaluation budgets.",
  "No stable test observes the internal optimizer.",
  [EAO, EAP, EAI, GPO], [("evolution loop", EAO), ("best individual bookkeeping", EAP)], None, ["objective callback", "returned best design"])
p("E02", "The population of the evolutionary optimizer stays consistent",
  "At all times the individuals of a population have distinct identifiers, the size equals insertions minus removals, and the identifiers and values of the minimum and maximum individuals are those of the actual extremes, for objective values of any sign. Fitness lies in (0, 1] with 1 for the best and decreasing with the objective, reproduction and death probabilities are valid probabilities that sum to one, better individuals are never less likely to reproduce nor more likely to die, the selection draws follow these probabilities, and the best individual is never removed by the stochastic selection. Children are recombined around the midpoint of their two parents, and mutation replaces each gene with the configured probability by a value from the whole box.",
  ["histories", "inputs"], "All sequences of insertions, updates, removals and generations, and all objective values.",
  "No stable test observes a population.",
  [EAP, EAI, EAO], [("population bookkeeping", EAP), ("fitness and probability assignment", EAP)], None, ["population accessors", "population history file"])
# ---------------------------------------------------------------- L: linear algebra and numerical utilities
p("L01", "Vector and matrix operations compute their mathematical definition",
  "Products, sums, norms, transposes, slices, concatenations, row and column insertion and deletion, searches, sorting, statistics and element access of vectors and matrices give the result of their mathematical definition for all shapes. Invalid shapes or indices are rejected with an error and leave the operands unchanged. Copies are independent of their originals.",
  ["inputs", "histories"], "All shapes including empty and one-dimensional ones, all values and all sequences of operations.",
  "No stable test compares a linear algebra result.",
  [VEC, MAT], [("bounds-checked access", MAT), ("BLAS-backed products", MAT), ("row and column editing", MAT)], None, ["public vector and matrix operations"])
p("L02", "Factorisations solve their systems or report failure",
  "For a symmetric positive definite matrix the Cholesky factorisation succeeds, its factor reproduces the matrix, its log-determinant is exact up to rounding and its solutions have small backward error; for an indefinite matrix it reports failure. LU factorisation, inverse and linear solves agree with the matrix up to its conditioning, report singular matrices as failure, a system that was resized or refilled answers for its new matrix only, and the library-backed and built-in variants agree.",
  ["inputs"], "All matrix sizes, conditionings, scalings and singular cases.",
  "No stable test factorises a matrix it checks.",
  [MAT, SOL], [("Cholesky and LU factorisation", MAT), ("solution of triangular systems", SOL)], None, ["factors, solutions, determinants"])
p("L03", "CSV files round-trip and malformed files are rejected",
  "A matrix or vector written to a CSV file and read back has the same shape and, up to the written precision, the same entries in the same order; with a header the header is written as given, and appending a row changes no earlier row. Files with inconsistent column counts, non-numeric entries or no data are rejected with an error rather than read as other numbers.",
  ["inputs", "histories", "fault_sequences"], "All matrices, magnitudes, precisions, headers, append sequences and malformed files.",
  "The tests read a few well-formed files and compare nothing.",
  [MAT, VEC], [("CSV reading and writing", MAT), ("row append", VEC)], None, ["files and matrices after reading"])
p("L04", "Random samples respect their bounds and Latin hypercubes are stratified",
  "Randomly filled vectors and matrices and generated DoE samples lie within the requested bounds in each component, are not constant, and cover the range. A Latin hypercube sample of N points has exactly one point in each of the N equal strata of every dimension.",
  ["inputs"], "All bounds, dimensions and sample counts.",
  "No stable test examines the samples.",
  [MAT, VEC, API], [("random and LHS filling", MAT)], None, ["filled matrices", "DoE samples"])
p("B01", "Bounds are accepted exactly when they are valid",
  "Bounds are accepted exactly when both sides have the problem's dimension and every lower bound is smaller than its upper bound, and rejected with an error otherwise. Accepted bounds are returned unchanged, a point is inside exactly when each entry lies between its bounds, and points generated within the bounds are inside. A failed attempt never leaves invalid bounds marked as set.",
  ["inputs", "histories"], "All bound vectors (any length, order, NaN and infinite entries) and query points.",
  "The tests use three valid boxes.",
  [BND, VEC], [("validation of bounds", BND), ("membership test", BND)], None, ["Bounds accessors"])
p("D01", "Samples and candidate designs are assembled and moved correctly",
  "The sample built from a design for the objective or for a constraint contains the design parameters followed by that function's own value and, where requested, its own gradient or its own directional derivative and direction. Vectors are normalised to [0, 1/dimension] and back without loss beyond rounding. Randomly generated, perturbed and gradient-updated candidates always stay in the given box. A fresh or reset design carries no values of another design, and a printed design shows its own values and feasibility.",
  ["inputs"], "All designs, numbers of constraints, boxes and gradients.",
  "No stable test examines a sample or candidate.",
  [DES, DBO, VEC], [("sample construction", DES), ("candidate generation and update", DBO)], None, ["constructed sample vectors and candidate designs"])
# ---------------------------------------------------------------- C: configuration
p("C01", "A valid configuration is executed exactly as written",
  "For a valid configuration file the run uses exactly the configured dimension, parameter names, types, bounds and increments, evaluation budget, function names, executables, file names, training and search iterations, number of threads, and constraint types, thresholds and order, each function with its own settings. White space, the order of sections and entries, and letter case of keyword values do not change the meaning.",
  ["configurations"], "All valid configuration files.",
  "The tests use three fixed configuration files and check only the exit code.",
  [DRV, XML, STR, KEY, "src/Rodeo.cpp"], [("keyword extraction", XML), ("transfer to the optimizer", DRV)], None, ["exit code, invocations of executables, files and log written by the run"])
p("C02", "Malformed configurations are rejected before anything is evaluated",
  "A configuration with a missing, duplicated, unterminated or malformed mandatory entry, a number that is not entirely numeric or not finite, a nonpositive count, lower bound not below upper bound, a missing bound or increment, inconsistent dimension, duplicate parameter names, an unknown type or an unsupported surrogate model ends the program with an error exit and message. It happens before any simulation is executed and without writing results. It is never a crash, a hang or a silent reinterpretation.",
  ["configurations", "fault_sequences"], "All single mutations of valid configuration files.",
  "The tests contain no invalid configuration.",
  [DRV, XML, STR, KEY, "src/Rodeo.cpp", OBJ], [("validation in the driver", DRV), ("number conversion", XML)], None, ["exit code, stderr, absence of evaluations"])
p("C03", "The programming interface does what it was told and rejects misuse",
  "A study set up through the C++ interface uses exactly the given dimension, bounds, functions, constraint expressions, file names, DoE and budget, regardless of the order of independent calls and of repeated settings (the last one counts). Incomplete or invalid settings, null functions, empty names, unparsable constraint expressions and unusable directories are reported by an exception before any function is called; the same holds for the optimizer class behind the interface.",
  ["configurations", "inputs"], "All call sequences and arguments.",
  "The one API test sets up one valid study.",
  [API, RAPI], [("setters and validation", API), ("constraint expression parser", API)], None, ["callbacks, exceptions and files"])
# ---------------------------------------------------------------- M: safety of the whole
p("M01", "No undefined behaviour or memory error in any supported use",
  "No sequence of supported operations, valid or rejected, reads or writes memory out of bounds or after release, leaks unboundedly, uses uninitialised values in decisions or results, or executes undefined arithmetic. Every error is reported as an exception or error exit, never as a crash or abort.",
  ["inputs", "histories", "configurations"], "All component-level operation sequences and complete studies.",
  "The tests run the optimised build without any checker.",
  ["src/LinearAlgebra", "src/SurrogateModels", "src/Optimizers", "src/InternalOptimizers", "src/Driver", "src/Design", "src/ObjectiveFunctions"],
  [("bounds-checked containers", MAT), ("exceptions instead of asserts", OPT)], None, ["AddressSanitizer, UndefinedBehaviorSanitizer, valgrind memcheck reports"])
p("M02", "Multi-threaded training and search are free of data races",
  "With any number of threads, surrogate training and the acquisition search access no shared data without synchronisation, and terminate normally. The guarantees on hyperparameters, proposed designs, budget and history hold for every number of threads as for one.",
  ["schedules", "configurations"], "All thread counts and interleavings.",
  "Tests run few schedules without a race detector.",
  [KRI, OPT, EAP, EAI, DBO, VEC], [("per-thread state and critical sections", OPT), ("thread-local random generators", EAP)], None, ["ThreadSanitizer reports", "results of multi-threaded runs"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
