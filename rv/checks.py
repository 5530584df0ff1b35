"""What each check builds, runs and requires to have observed."""
import rvlib
from concurrent.futures import ThreadPoolExecutor
from rvlib import build, run_shards, verdict, merge

CHECKS = {}
def check(*ids):
    def deco(f):
        for i in ids: CHECKS[i] = f
        return f
    return deco

HOW = "VERIF_SEED=%d python3 rv/check.py %s --tier %s  (the case number is in each violation; a workload is a pure function of seed and case)"
HOW_BUILT = {"plain": "optimized build (gcc 13, -O2) of the code under test; std::random_device and rand() are seeded per case"}
SAN = "AddressSanitizer and UBSan (gcc 13, -O1) on the code under test; std::random_device and rand() are seeded per case"

def simple(driver, dirs, sizes, rule, mins, flavour="asan", timeout=300, extra_assume=(), ext=True, defs=(), args=None):
    def f(pid, tier, seed, scratch, t0, scale):
        exe = build(flavour, [driver, "rv.cpp"], dirs, defs, ext=ext)
        n = int(sizes[pid][0 if tier == "quick" else 1] * scale)
        res = run_shards(exe, [pid] + list((args or {}).get(pid, ())), 8, n, seed, scratch, flavour, timeout if tier == "quick" else 3000)
        m = {k: (v if scale >= 1 else 0) for k, v in mins.get(pid, {}).items()}
        return verdict(pid, tier, seed, res, rule[pid], t0, [HOW_BUILT.get(flavour, SAN)] + list(extra_assume), HOW % (seed, pid, tier), m)
    return f

LIN = simple("lin.cpp", ["LinearAlgebra"],
    {"L01": (6000, 200000), "L02": (12000, 400000), "L03": (6000, 150000), "L04": (3000, 100000)},
    {"L01": "random vectors and matrices of 0..40 rows and columns and random 25-step operation sequences with interspersed invalid calls, each compared with a long-double/STL reference; distinct = operation x shape",
     "L02": "random SPD, correlation, scaled, indefinite, general and singular matrices of order 1..60; residuals, inverses and log-determinants against long-double elimination; distinct = matrix kind x order",
     "L03": "matrices written, reread, appended to and corrupted in 17 ways; distinct = shape x precision x header and corruption kind",
     "L04": "all sampling routines on random boxes; every value range-checked, every LHS stratum counted; distinct = sample count x dimension"},
    {"L01": {"checks": 100000, "invalid operations": 20000, "op deleteRows": 500, "op addColumn": 500},
     "L02": {"kind spd": 500, "kind indefinite": 500, "singular": 500, "solutions": 20000, "inverses": 3000},
     "L03": {"files read": 1000, "malformed files": 1000, "appends": 1000},
     "L04": {"strata checked": 20000, "sampled values": 100000}})
for i in ("L01", "L02", "L03", "L04"): CHECKS[i] = LIN

SMALL = simple("small.cpp", ["LinearAlgebra", "Bounds", "CorrelationFunctions", "Design"],
    {"B01": (6000, 300000), "K07": (4000, 150000), "D01": (5000, 200000)},
    {"B01": "12-step sequences of setting, replacing and resetting bounds through all five entry points with valid, equal, reversed, NaN, empty and unequal-sized input against a model of the last accepted pair; distinct = entry point x kind x dimension",
     "K07": "random sample matrices and hyperparameters; every correlation, matrix entry, vector entry and derivative against long-double formulas; distinct = family x dimension x samples",
     "D01": "random designs with 0..5 constraints; all 13 sample builders, candidate generators, the normalisation round trip, resets, fresh designs and printed designs; distinct = dimension x constraints"},
    {"B01": {"points inside": 3000, "points outside": 1000, "attempts nan": 500, "attempts upper-longer": 500}, "K07": {"derivatives": 5000, "inadmissible": 1000, "gauss": 500},
     "D01": {"samples built": 50000, "candidates": 50000, "gradient steps": 3000, "designs reset": 3000, "printed designs": 3000}})
for i in ("B01", "K07", "D01"): CHECKS[i] = SMALL

SUR = simple("surrogate.cpp", ["LinearAlgebra", "Bounds", "CorrelationFunctions", "InternalOptimizers", "SurrogateModels"],
    {"K01": (1600, 40000), "K02": (800, 20000), "K03": (160, 4000), "K04": (800, 20000), "K05": (1600, 50000), "K06": (2400, 80000), "K08": (400, 12000)},
    {"K01": "random data sets (1-5 dimensions, 2-35 samples, all scales), hyperparameters and query points (random, at and next to samples, outside the box); prediction and variance against a long-double Kriging with a tolerance from the condition number; distinct = model kind x dimension x samples",
     "K02": "random sequences of adding samples (new, duplicate, nearly duplicate), rereading, setting hyperparameters, training and copying; after each step the model is compared with a reference built from the file on disk; distinct = model kind x operation x position",
     "K03": "trainings by likelihood and by validation error with 1-4 threads, repeated; hyperparameters in their box, predictions with exactly them, quality against 40 random hyperparameters and against the likelihood of every correlation matrix the search factorises (all threads), number of factorizations; distinct = context x dimension x size x budget",
     "K04": "hyperparameters saved, written by training, reloaded by load and warm start, and damaged in 7 ways; distinct = dimension x samples",
     "K05": "random data (also fewer samples than weights) against a long-double ridge fit, minimality, affine functions, other bounds, reloaded weights; distinct = dimension x samples",
     "K06": "random sequences of reading, splitting, normalising, reverting, test data and bad files, every accessor compared with the file; distinct = operation x dimension x derivative flavour x state",
     "K08": "reports of the tester and of the model classes, repeated, for three model types, with and without values and variances, and 12 unusable settings; distinct = context x dimension x test points"},
    {"K01": {"predictions": 10000, "variances": 10000, "reproduced samples": 500, "universal": 300}, "K02": {"compared with model from scratch": 1000, "duplicates": 200, "samples added": 300, "trainings": 10},
     "K03": {"trained models compared": 10, "quality comparisons": 80, "validation trainings": 20, "repeated trainings": 40, "trainings of several threads with monitored search": 15, "effort comparisons": 40, "efforts judged": 80, "validation errors": 15}, "K04": {"reloads": 600, "comparable reloads": 200, "warm starts": 200, "files written by training": 10},
     "K05": {"predictions": 5000, "affine functions": 500, "bounds changes": 500}, "K06": {"split data sets": 500, "reverts": 300, "test files": 300, "normalizations": 300}, "K08": {"report rows": 1500, "tester runs": 100, "mean errors": 100, "in-sample errors": 100, "tester trainings with monitored effort": 15}})
for i in ("K01", "K02", "K03", "K04", "K05", "K06", "K08"): CHECKS[i] = SUR

EA = simple("ea.cpp", ["LinearAlgebra", "Bounds", "InternalOptimizers"],
    {"E01": (2000, 80000), "E02": (1500, 60000)},
    {"E01": "complete runs of the evolutionary optimizer on 11 objective shapes (any sign and scale, constant, plateaus) with random population, generation, death, mutation and budget settings, each evaluation logged; incomplete settings; distinct = objective x all settings",
     "E02": "random sequences of insertions, removals, selections, copies, resets and file round trips against a model, the optimizer stepped generation by generation, warm starts, draw, mutation and recombination frequencies; distinct = operation x value kind x size"},
    {"E01": {"optimizations": 1200, "evaluations": 100000, "incomplete settings": 150, "pressure runs": 500, "direct calls": 500, "bounds given as lists": 100, "objective constant": 50},
     "E02": {"populations inspected": 10000, "probability assignments": 5000, "draws": 500000, "csv round trips": 500, "deaths": 500, "warm starts": 200, "generations": 1000, "recombinations": 50000, "mutations": 100000, "random individuals": 3000, "fresh runs after a warm start": 50}})
for i in ("E01", "E02"): CHECKS[i] = EA

EGO_SPEC = "complete optimization studies with random dimension (1-4), box, discrete parameters, 0-3 simulated or user-defined constraints, training data, budget, threads, training settings and call order"
EGO = simple("ego.cpp", None,
    {"R01": (150, 6000), "R02": (190, 8000), "R03": (210, 8000), "R04": (210, 8000), "R05": (210, 8000), "R06": (150, 6000), "R08": (200, 8000), "R09": (150, 6000), "R10": (240, 10000), "A01": (800, 40000)},
    {"R01": EGO_SPEC + "; the log of all function calls is checked for count, order and position, also with the DoE of the interface; distinct = dimension x constraints x budget x threads x discrete x samples",
     "R02": EGO_SPEC + " (mostly with discrete parameters); every evaluated vector against box and grid, and against the nearest grid value of the proposed one; distinct as R01",
     "R03": EGO_SPEC + "; the history in memory and in its file compared with the call log at every function call; distinct as R01",
     "R04": EGO_SPEC + "; the reported optimum compared with the best row of the call log before every evaluation and at the end; distinct as R01",
     "R05": EGO_SPEC + " (thresholds also exactly on sample values); feasibility and improvement of every row recomputed from the values returned; distinct as R01",
     "R06": EGO_SPEC + "; the training files compared byte by byte with their former text plus the expected row at every call; distinct as R01",
     "R08": EGO_SPEC + "; one function returns NaN (either sign) or throws at one call, also within the DoE; files compared with their state before it; distinct = function x call x interface",
     "R09": EGO_SPEC + "; the process is killed inside one function call, the files compared with the call log in shared memory, then continued; distinct = function x call x constraints x dimension",
     "R10": EGO_SPEC + "; every search candidate seen through a user-defined constraint re-evaluated, acquisition values and predictions recomputed in long double from the files, delays injected into the search threads; distinct as R01",
     "A01": "random models, positions, sigma factors, best values, deviations (0 to 1e3), thresholds; all acquisition and probability functions against erfcl; distinct = dimension x constraints x samples"},
    {"R01": {"budgets met": 140, "DoE sets compared": 1, "API studies": 5, "evaluations of function 1": 200}, "R02": {"discrete entries": 700, "upper bound chosen": 150, "proposals compared": 500},
     "R03": {"history states compared": 1200, "history rows compared exactly": 8000}, "R04": {"feasible optima compared": 400, "infeasible optima compared": 100}, "R05": {"first feasible designs": 5, "improvements": 150, "infeasible designs": 100, "infeasible training samples": 300},
     "R06": {"appended rows": 600, "repeated samples": 60, "DoE rows compared": 10, "missing newlines": 20}, "R08": {"states after NaN": 120, "DoE states after NaN": 4, "studies with throwing functions": 20}, "R09": {"studies continued": 100, "restored rows compared": 800, "runs killed in the DoE": 4, "samples found on disk": 150},
     "R10": {"search candidates": 100000, "acquisition values recomputed": 3000, "predictions of the proposal": 600, "trust regions": 500, "trust regions halved": 1, "coverages of trust regions": 30, "long studies": 8, "unconstrained proposals": 30}, "A01": {"expected improvements": 40000, "feasibility probabilities": 50000, "vanishing deviations": 3000}},
    timeout=700, ext=False, defs=("-DRODEO_VERIFY_HOOKS",), args={"R01": ("--api", 19), "R06": ("--api", 19), "R08": ("--api", 9), "R09": ("--api", 9)})
for i in ("R01", "R02", "R03", "R04", "R05", "R06", "R08", "R09", "R10", "A01"): CHECKS[i] = EGO

API = simple("api.cpp", None, {"C03": (330, 12000)},
    {"C03": "random sequences of interface calls (any order, overridden settings, misuses in between), through the implementation, its public wrapper and the optimizer class; one case in six runs the study with every function call, file and the DoE strata compared with the settings, the others leave the settings unusable; distinct = misuse, unusable setting or study"},
    {"C03": {"misuses": 150, "unusable settings": 230, "valid calls": 2500, "studies": 50, "misuses of the optimizer": 80, "unusable optimizers": 15, "studies of the optimizer": 3, "DoE sets compared": 30, "Latin hypercubes": 8, "unstratified random designs": 5}}, flavour="plain", timeout=800, ext=False)
CHECKS["C03"] = API

import cli
CLI_SPEC = "runs of the rodeo program (ASan build) with generated configuration files, training data and simulation executables that log every call; "
CLI = cli.check({"R07": (400, 12000), "C01": (400, 12000), "C02": (1500, 40000)},
    {"R07": CLI_SPEC + "18 injected simulation faults at a random call of a random function, missing executables and directories, left-over output files; distinct = fault x function x call x constraints x dimension",
     "C01": CLI_SPEC + "random valid studies in random layout (order of sections and entries, white space, number notations, letter case); calls, history, training files, optimum and logged settings compared with the configuration; distinct = dimension x budget x constraints x parameter types",
     "C02": CLI_SPEC + "valid studies with one of about 100 kinds of mistakes; exit code, message, absence of simulations and unchanged files; distinct = kind of mistake"},
    {"R07": {"failing simulations": 200, "successful studies": 40, "simulations executed": 1000, "history rows compared": 2000}, "C01": {"valid configurations": 390, "history rows compared": 2000, "training rows appended": 1000, "grid entries": 800, "trainings with monitored effort": 200, "studies with monitored candidate search": 200, "script executables": 20, "executables with absolute path": 20}, "C02": {"malformed configurations": 1400}},
    ["AddressSanitizer and UBSan (gcc 13, -O1) on the program", "the simulation stand-in (harness/sim.cpp) reports truthfully what it was given and did", "wall-clock limit of 90 s per run decides hangs"])
for i in ("R07", "C01", "C02"): CHECKS[i] = CLI

# ---------------------------------------------------------------- M01, M02: every workload under the memory, undefinedness and race detectors
SURD = ["LinearAlgebra", "Bounds", "CorrelationFunctions", "InternalOptimizers", "SurrogateModels"]
HOOKS = ("-DRODEO_VERIFY_HOOKS",)
# driver, directories, external functions, defines, {mode: (asan quick, asan thorough, memcheck quick, memcheck thorough)}
FAMILIES = [
    ("lin.cpp", ["LinearAlgebra"], True, (), {"L01": (1600, 60000, 40, 800), "L02": (1600, 60000, 40, 800), "L03": (1600, 60000, 40, 800), "L04": (400, 20000, 16, 300)}),
    ("small.cpp", ["LinearAlgebra", "Bounds", "CorrelationFunctions", "Design"], True, (), {"B01": (1600, 60000, 40, 800), "K07": (800, 30000, 24, 600), "D01": (1200, 40000, 24, 600)}),
    ("surrogate.cpp", SURD, True, (), {"K01": (240, 8000, 16, 300), "K02": (160, 6000, 16, 300), "K03": (16, 800, 8, 60), "K04": (160, 6000, 16, 300), "K05": (240, 8000, 16, 300), "K06": (600, 20000, 40, 600), "K08": (120, 4000, 24, 400)}),
    ("ea.cpp", ["LinearAlgebra", "Bounds", "InternalOptimizers"], True, (), {"E01": (300, 10000, 16, 300), "E02": (200, 8000, 8, 160)}),
    ("ego.cpp", None, False, HOOKS, {"R01": (32, 1200, 0, 24), "R02": (32, 1200, 0, 24), "R05": (32, 1200, 8, 48), "R08": (40, 1200, 8, 48), "R09": (24, 1200, 0, 24), "R10": (24, 1200, 0, 24), "A01": (80, 4000, 8, 160)}),
    ("api.cpp", None, False, (), {"C03": (48, 3000, 6, 96)}),
]
VG = ["valgrind", "-q", "--error-exitcode=97", "--leak-check=full", "--errors-for-leak-kinds=definite", "--num-callers=20"]
def note(res, r, what):
    r["counts"] = {what: r["cases"], "checks under " + what.split(":")[0]: r["counts"].get("checks", 0) + r["counts"].get("function calls", 0)}
    r["viol"] = [v for v in r["viol"] if v["property"] in ("*", "M01", "M02")]
    return merge(res, r)
def m01(pid, tier, seed, scratch, t0, scale):
    q = tier == "quick"; res = {"viol": [], "counts": {}, "distinct": set(), "samples": [], "cases": 0, "inconclusive": []}; s2 = seed * 1000003 + 17
    jobs = []
    for driver, dirs, ext, defs, modes in FAMILIES:
        for flavour, col, wrapper in (("asan", 0, ()), ("vg", 2, VG)):
            exe = build(flavour, [driver, "rv.cpp"], dirs, defs, ext=ext)
            for mode, n in modes.items():
                n = int(n[col + (0 if q else 1)] * scale)
                if not n: continue
                args = [mode, "--api", 19] if driver == "ego.cpp" and mode != "R10" else [mode]
                jobs.append((n * (1 if flavour == "asan" else 20) * (60 if driver in ("ego.cpp", "api.cpp") else 1), ("sanitizers" if flavour == "asan" else "memcheck") + ": " + mode,
                             lambda exe=exe, args=args, n=n, flavour=flavour, wrapper=wrapper: run_shards(exe, args, 8, n, s2, scratch, flavour, 800 if q else 3000, None, 6, wrapper)))
    for mode, n, flavour, wrapper in (("M01", 700 if q else 40000, "asan", ()), ("R07", 24 if q else 800, "vg", VG), ("C01", 8 if q else 300, "vg", VG), ("C02", 60 if q else 1500, "vg", VG)):
        jobs.append((n * 10, ("sanitizers" if flavour == "asan" else "memcheck") + ": program " + ("on damaged files" if mode == "M01" else mode),
                     lambda mode=mode, n=n, flavour=flavour, wrapper=wrapper: cli.run(mode, s2, int(n * scale), scratch, flavour=flavour, wrapper=wrapper)))
    jobs.sort(key=lambda j: -j[0])
    with ThreadPoolExecutor(2) as ex:     # two stages at a time: one keeps the cores busy while the other one ends
        for what, r in zip([j[1] for j in jobs], ex.map(lambda j: j[2](), jobs)): note(res, r, what)
    return verdict(pid, tier, seed, res, "all workloads of the other properties with another seed under AddressSanitizer, UBSan (with float-cast-overflow), libstdc++ assertions and again under valgrind memcheck (undefined values, leaks), and the program on byte-wise damaged configurations, training data and left-over files; distinct = as in the workloads", t0,
        ["only abnormal ends and reports of the detectors count here", "runs that exceed 60 s or 2.5 GB on damaged files are not judged", "memory that is still reachable at exit is not a leak"], HOW % (seed, pid, tier),
        {"sanitizers: L01": 1000, "memcheck: L01": 30, "sanitizers: program on damaged files": 650, "memcheck: program R07": 20, "memcheck: R05": 8, "sanitizers: C03": 45, "sanitizers: R09": 20} if scale >= 1 else None)
CHECKS["M01"] = m01

def m02(pid, tier, seed, scratch, t0, scale):
    q = tier == "quick"; res = {"viol": [], "counts": {}, "distinct": set(), "samples": [], "cases": 0, "inconclusive": []}
    for driver, dirs, defs, n in (("surrogate.cpp", SURD, (), 160 if q else 12000), ("ego.cpp", None, HOOKS, 180 if q else 12000)):
        exe = build("tsan", [driver, "rv.cpp", "gomp.cpp"], dirs, defs, name=driver[:-4] + "-omp", shim=True, ext=driver != "ego.cpp")
        merge(res, run_shards(exe, ["M02"], 8, int(n * scale), seed, scratch, "tsan", 700 if q else 3000))
    return verdict(pid, tier, seed, res, "trainings and complete studies with 2-6 threads under ThreadSanitizer, the OpenMP runtime replaced by POSIX threads with random delays at thread start, loop chunks and critical sections; hyperparameters, predictions and all study monitors judged as with one thread; distinct = kind of study or training", t0,
        ["gcc 13 ThreadSanitizer; the numerical library is not instrumented", "the POSIX-thread stand-in for libgomp keeps the semantics of the OpenMP constructs in use"], HOW % (seed, pid, tier),
        {"parallel regions": 900, "threads in regions": 3000, "critical sections": 15000, "studies": 170, "repeated trainings": 70, "validation trainings": 30} if scale >= 1 else None)
CHECKS["M02"] = m02

RM = "runtime monitoring: "
TECH = {
 "L01": (RM + "operation log replayed against an STL/long-double reference, under ASan+UBSan", "random operation sequences; every result compared"),
 "L02": (RM + "residual and determinant oracles over generated systems, under ASan+UBSan", "bounded orders (up to 60)"),
 "L03": (RM + "file round trips and injected corruptions, under ASan+UBSan", "17 corruption kinds"),
 "L04": (RM + "range and stratum counters on every drawn sample, under ASan+UBSan", "seeded sampling"),
 "B01": (RM + "model-based monitor of set/reset sequences, under ASan+UBSan", "random sequences"),
 "K07": (RM + "every correlation compared with a long-double formula, under ASan+UBSan", "random data"),
 "D01": (RM + "sample and candidate builders compared with a reference, under ASan+UBSan", "random designs"),
 "K01": (RM + "every prediction and variance compared with a long-double Kriging, under ASan+UBSan", "random data up to 35 samples; tolerance from the condition number"),
 "K02": (RM + "operation sequences replayed against a model rebuilt from the file on disk, under ASan+UBSan", "random sequences"),
 "K03": (RM + "hyperparameters and likelihoods observed after every training, under ASan+UBSan", "quality judged against 40 random hyperparameters and every correlation matrix the search factorised"),
 "K04": (RM + "file round trips, warm starts and injected file faults, under ASan+UBSan", "7 fault kinds"),
 "K05": (RM + "predictions compared with a long-double ridge fit, under ASan+UBSan", "random data"),
 "K06": (RM + "accessors compared with the file after every operation, under ASan+UBSan", "random sequences"),
 "K08": (RM + "reports recomputed from the data and predictions, under ASan+UBSan", "three model types, 12 unusable settings"),
 "E01": (RM + "trace of objective calls of whole optimizations, under ASan+UBSan", "11 objective shapes"),
 "E02": (RM + "model-based monitor of populations after every operation, under ASan+UBSan", "random sequences; draw frequencies with a statistical bound"),
 "R01": (RM + "online trace monitor of all function calls of complete studies, under ASan+UBSan", "in-process functions; small dimensions and budgets"),
 "R02": (RM + "box and grid monitor on every evaluated design of complete studies, under ASan+UBSan", "in-process functions; small dimensions and budgets"),
 "R03": (RM + "history in memory and on disk compared with the call log at every call, under ASan+UBSan", "file precision is six decimals"),
 "R04": (RM + "reported optimum compared with the call log after every evaluation, under ASan+UBSan", "file precision is six decimals"),
 "R05": (RM + "feasibility and improvement recomputed from the call log, under ASan+UBSan", "samples too close to two others or to the box boundary are not judged"),
 "R06": (RM + "byte-wise monitor of the training files at every call, under ASan+UBSan", "distances within 1e-7 of the duplicate limit are not judged"),
 "R08": (RM + "NaN injection into complete studies with a file-state monitor, under ASan+UBSan", "one NaN per study"),
 "R09": (RM + "crash injection with an offline checker of the files against a shared-memory log, then continuation, under ASan+UBSan", "kills while a function is being evaluated (no torn writes)"),
 "R10": (RM + "search candidates observed and re-evaluated with injected delays, formulas recomputed, under ASan+UBSan", "thread schedules are sampled; data races are decided by M02"),
 "R07": (RM + "fault injection into external simulations with an offline checker over the call log and all files, under ASan+UBSan", "18 fault kinds; one fault per study"),
 "C01": (RM + "runs of the program on generated configurations with an offline checker over the call log, files and logs, under ASan+UBSan", "settings without any observable effect are judged by the log only"),
 "C02": (RM + "runs of the program on mutated configurations with an exit-code, message and file monitor, under ASan+UBSan", "one mistake per configuration"),
 "C03": (RM + "random call sequences replayed against the settings they ask for, with an online monitor of all function calls and files", "optimized build (memory errors are decided by M01); calls before any setting they need are not judged"),
 "M01": (RM + "AddressSanitizer, UBSan, libstdc++ assertions and valgrind memcheck over all workloads, and byte-level fault injection into the program's input files", "sampled executions; the numerical library is not instrumented by the sanitizers"),
 "M02": (RM + "ThreadSanitizer with a POSIX-thread OpenMP runtime and injected delays, and the study monitors on multi-threaded runs", "sampled schedules with 2-6 threads"),
 "A01": (RM + "acquisition and probability values compared with long-double formulas, under ASan+UBSan", "random inputs"),
}
