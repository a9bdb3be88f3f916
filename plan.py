# What each check builds and runs. quick/thorough are numbers of simulated runs.
PLAN = {}

def prop(pid, units, scenarios, rule, state, real, stub, probes=(), assume=(), level="exploration", det=48):
    PLAN[pid] = dict(units=units, scenarios=scenarios, rule=rule, state=state, real=real, stub=stub, probes=list(probes), assume=list(assume), level=level, det=det)

HDR = "the header-only library under /repo/src, Eigen and libstdc++ as installed"

prop("C01", ["c01.cpp"], [dict(id="C01", quick=120000, thorough=600000)],
     rule="one run is a history of 1-4 loads through the three overloads for double, float, int and size_t elements (nine instantiations) into the same outputs, each of a generated file (well-formed, CRLF, ragged, empty, corrupted bytes, torn) under a drawn read plan and at most one fault; a run counts as non-trivial when it loaded at least one file; distinct by the hash of all choices and outcomes",
     state="(overload, fault kind, outcome, read plan, file defect) combinations",
     real=["loadtxt (all overloads)", "std::ifstream / basic_filebuf over a real scratch file"],
     stub=["open(2) and read(2) results through interposed fopen64/read", "heap: simulated allocator"],
     probes=["EIO injected", "short reads injected", "EINTR injected", "file truncated underneath", "open failures injected", "allocation failures injected", "reload into used outputs succeeded"])

prop("C02", ["c02.cpp"], [dict(id="C02", quick=120000, thorough=800000), dict(id="C02.reach", quick=1800, thorough=8000)],
     rule="one run shuffles or splits a self-identifying dataset 1-3 times under drawn clock readings (frozen, jumping, backward, extreme), heap fills, a failing console and possibly one failing allocation; C02.reach takes hundreds of readings on one small dataset; distinct by the hash of choices and resulting orders",
     state="distinct row orders produced", real=["shuffle_data (both overloads)", "train_test_split"], stub=["system_clock", "heap", "console stream buffer"],
     probes=["readings of a frozen clock", "readings of a jumping clock", "clock readings before the epoch", "clock readings at an extreme", "out-of-place shuffles", "in-place shuffles", "matrix shuffles", "shuffled splits", "ordered splits", "console writes failed", "allocation failures injected"])
prop("C03", ["c03.cpp"], [dict(id="C03", quick=120000, thorough=800000), dict(id="C03.dist", quick=1800, thorough=10000)],
     rule="one run calls 1-5 generators with drawn shapes and bounds under a drawn entropy environment, twice each with everything but the entropy changed; C03.dist calls one generator for 700 entropy values and tests the distribution; distinct by hash of choices and values",
     state="(generator, entropy mode, size) and distinct arrays in C03.dist", real=["rand, randn, permutation, randint"], stub=["std::random_device", "heap"],
     probes=["entropy draws", "entropy failures injected"])

prop("C16", ["c16.cpp"], [dict(id="C16", quick=96000, thorough=600000), dict(id="C16.threads", quick=36000, thorough=300000)],
     rule="one run is a history of builds, queries (some with a failing allocation, then repeated), copies, assignments and destructions over 1-4 trees, compared with brute force; C16.threads adds 2-3 threads querying trees and copies that share nodes under a drawn schedule; distinct by hash of choices and outcomes",
     state="datasets and, with threads, schedule prefixes (thread and step of every switch)", real=["KDTree<double>, KDTree<float>, argsort, norm, minkowski_distance"], stub=["heap", "thread scheduler"],
     probes=["tree copies", "trees destroyed", "tree assignments", "queries failed for lack of memory", "interleaved concurrent phases", "thread switches"])
prop("C17", ["c17.cpp"], [dict(id="C17", quick=120000, thorough=1000000)],
     rule="one run is a history of 1-160 inserts, increments and reports on one hash tree with drawn limits, a third of the runs with failing allocations and repetition of the failed call; compared with a map of counters; distinct by hash of choices and reports",
     state="final contents with limits", real=["HashTree<Node, size_t>, HashTree<Node, int>"], stub=["heap"],
     probes=["histories that forced node splits", "failed inserts repeated", "allocation failures injected", "increments of absent itemsets"])

prop("C04", ["c04.cpp"], [dict(id="C04", quick=120000, thorough=1000000)],
     rule="one run is one optimisation by SGD, SAG or truncated gradient over self-identifying rows with drawn policies, batch size, clock schedule (hence shuffle orders), console and heap contents and scripted gradients (huge, infinite and NaN included), every step compared with the rule; distinct by hash of choices, orders and final weights",
     state="sequences of shuffle orders over all epochs of a run", real=["SGD, SAG, TruncatedGradient, VanillaUpdate, MomentumUpdate, StepDecay, ExponentialDecay, shuffle_data, clip"], stub=["loss function (scripted, recording)", "system_clock", "heap", "console stream buffer"],
     probes=["gradient steps checked", "huge gradients", "infinite gradients", "gradients with NaN", "shuffled epochs"])
prop("C05", ["c05.cpp"], [dict(id="C05", quick=200000, thorough=1000000)],
     rule="one run is one optimisation under a scripted sequence of epoch losses (improvements at, just above and just below the margin, plateaus, NaN, infinity, a throwing loss or gradient); the stopping epoch, outcome and coefficients are compared with the rule; distinct by hash of choices and losses",
     state="(loss sequence, patience, algorithm, batch size)", real=["SGD, SAG, TruncatedGradient stopping logic"], stub=["loss function (scripted, recording)", "system_clock", "heap", "console stream buffer"],
     probes=["losses or gradients that threw", "runs that converged", "runs that exhausted max_iter", "runs with NaN losses"])

prop("C06", ["c06.cpp"], [dict(id="C06", quick=120000, thorough=1000000), dict(id="C06.lasso", quick=90000, thorough=600000)],
     rule="one run is one descent under a recording loss (quadratic, or gradients scripted at random and with ties), every step compared with the best soft-threshold step, repeated under another clock schedule; C06.lasso fits the lasso estimator and compares with the closed form or a reference descent; distinct by hash of choices and results",
     state="final weights with row orders", real=["SCD, LassoRegression, MSE, shuffle_data"], stub=["loss function (scripted, recording) in C06", "system_clock", "heap", "console stream buffer"],
     probes=["coordinate steps checked", "orders compared", "closed forms compared", "reference descents compared"])

prop("C07", ["c07.cpp"], [dict(id="C07", quick=120000, thorough=1000000)],
     rule="one run is one L-BFGS minimisation of a drawn objective (convex, nonconvex, kinked, unbounded, constant) with drawn policies and budgets, regions where objective or gradient are NaN or infinite, an objective that fails from some call on, or a throwing callback; distinct by hash of choices, evaluations and result",
     state="sequences of trial points", real=["LBFGS, LineSearchBacktracking, LineSearchBracketing"], stub=["loss function (simulated objective)", "heap", "console stream buffer"],
     probes=["callbacks that threw", "non-finite objective or gradient values", "stationary starts", "runs compared with the reference", "line search failures", "convex problems solved"])

prop("C08", ["c08.cpp"], [dict(id="C08", quick=96000, thorough=600000), dict(id="C08.groups", quick=60000, thorough=400000), dict(id="C08.reach", quick=1800, thorough=8000)],
     rule="one run fits k-means on drawn data under a drawn entropy environment and looks for a Lloyd run from distinct rows with the same labels on training and probe points, then refits; C08.groups fits tight groups or checks the fixed point; C08.reach takes 700 entropy values; distinct by hash of choices and labels",
     state="(data, labels of training and probe points)", real=["KMeans (random, kmeans++), permutation, randint, rand"], stub=["std::random_device", "heap"],
     probes=["fits matched to a Lloyd run", "tight groups recovered", "fixed points checked", "entropy draws"])

prop("C09", ["c09.cpp"], [dict(id="C09", quick=96000, thorough=600000)],
     rule="one run fits a mixture with 1-4 restarts and, from the same entropy values, each restart alone; parameters, bound, fixed point and posterior are recomputed; distinct by hash of choices and parameters",
     state="(data, means)", real=["GaussianMixture (full, tied), rand, logsumexp, cholesky"], stub=["std::random_device", "heap"],
     probes=["fits checked", "fits compared with reference EM", "fits that did not converge", "restarts compared", "entropy draws"])

prop("C10", ["c10.cpp"], [dict(id="C10", quick=240000, thorough=3000000)],
     rule="one run factorises a matrix of drawn shape and spectrum three times (two entropy environments, one repeated), directly or through TruncatedSVD, or makes a request that must be refused; distinct by hash of choices and factors",
     state="(matrix, singular values returned)", real=["randomized_svd, svd_flip, lu, qr, exact_svd, TruncatedSVD, randn"], stub=["std::random_device", "heap"],
     probes=["exact reconstructions", "decaying spectra compared", "factors compared across entropy values", "models checked", "requests refused", "entropy draws"])

prop("C18", ["c18.cpp"], [dict(id="C18", quick=36000, thorough=200000), dict(id="C18.optimum", quick=24000, thorough=150000)],
     rule="one run trains one classifier on drawn well-separated classes under a drawn clock (shuffle orders), rand() stream (starts), console and heap; C18.optimum trains twice under different environments; distinct by hash of choices and trained model",
     state="(data, predictions, weights)", real=["LogisticRegression (sgd, sag, lbfgs, scd), SoftmaxRegression, Perceptron, optimisers and losses"], stub=["system_clock", "libc rand()", "heap", "console stream buffer"],
     probes=["trained logistic/sgd", "trained logistic/sag", "trained logistic/lbfgs", "trained logistic/scd", "trained softmax", "trained perceptron", "optima compared"])

EST = ["est.cpp", "est_linear.cpp", "est_prob.cpp", "est_struct.cpp"]
ALL_REAL = ["LinearRegression, RidgeRegression, LassoRegression, LogisticRegression (sgd, sag, lbfgs, scd), SoftmaxRegression, Perceptron with their optimisers and losses", "GaussianNB, MultinomialNB, DecisionTreeClassifier, DecisionTreeRegressor, KMeans, GaussianMixture", "PCA, TruncatedSVD, Apriori, KDTree (double and float), HashTree, TransactionEncoder", "loadtxt, train_test_split, shuffle_data, rand, randn, randint, permutation; the array, statistics, linear algebra, entropy and metric helpers"]
ALL_STUB = ["std::random_device", "system_clock", "libc rand()", "heap", "console stream buffer", "open(2) and read(2) results"]
KINDS = ["linear regression", "ridge regression", "lasso", "logistic regression (sgd)", "logistic regression (sag)", "logistic regression (lbfgs)", "logistic regression (scd)", "softmax regression", "perceptron", "Gaussian naive Bayes", "multinomial naive Bayes", "decision tree classifier", "decision tree regressor", "k-means", "Gaussian mixture", "PCA", "truncated SVD", "Apriori", "KD tree", "KD tree (float)", "hash tree", "loadtxt", "shuffle and split", "random generators", "transaction encoder", "array helpers", "statistics helpers", "linear algebra and metrics"]
prop("C11", ["c11.cpp"] + EST, [dict(id="C11", quick=360000, thorough=1000000)],
     rule="one run is a history of 2-12 fits (some failing by allocation or entropy fault or by not converging), queries, copies, assignments and destructions over up to four objects of one of 28 kinds, every answer compared with an object constructed and fitted once; distinct by hash of choices and answers",
     state="final answers of all objects with settings", real=ALL_REAL, stub=ALL_STUB,
     probes=["refits", "copies", "assignments", "objects destroyed", "histories with failed fits", "fits that failed by themselves"] + KINDS)

prop("C12", ["c12.cpp"] + EST, [dict(id="C12", quick=480000, thorough=1500000)],
     rule="one run measures what one operation (fit, query, copy, assignment; load, split and generators are operations too) of one of 28 kinds allocates and draws, then repeats it three times on new objects with one drawn allocation (alone or with all later ones) or entropy draw failing; outcome, later answers, refit, heap canaries and live blocks are checked; distinct by hash of choices, fault position and outcome; non-trivial when the fault fired",
     state="(kind, settings class, operation, fault position)", real=ALL_REAL, stub=ALL_STUB,
     probes=["single allocation failures", "memory exhausted from some point", "entropy failures", "failures that surfaced"] + KINDS, assume=["allocations inside Eigen's JacobiSVD and BDCSVD, and the allocation with which Eigen resizes a matrix it has just freed, are not failed: Eigen 3.4 itself frees twice there"])

prop("C13", ["c13.cpp"] + EST, [dict(id="C13", quick=300000, thorough=900000)],
     rule="one run fits one model of one of 28 kinds and an identical twin, then 2-3 threads make 1-4 read calls each on the model (and sometimes a copy of it) under a drawn schedule; answers are compared with the twin's and the model is compared with the twin afterwards; distinct by hash of choices, schedule and answers; non-trivial when threads interleaved",
     state="schedule prefixes (thread and step of every switch)", real=ALL_REAL, stub=ALL_STUB + ["thread scheduler"],
     probes=["interleaved phases", "thread switches", "concurrent answers compared"] + KINDS)
prop("C14", ["c14.cpp"] + EST, [dict(id="C14", quick=240000, thorough=600000)],
     rule="one run gives each of 2-3 threads a job of fits, queries and copies on objects of its own (often of the same kind, sometimes the same data or random inputs), performs the jobs one after another and then concurrently under a drawn schedule, and compares; distinct by hash of choices, schedule and answers; non-trivial when threads interleaved",
     state="schedule prefixes (thread and step of every switch)", real=ALL_REAL, stub=ALL_STUB + ["thread scheduler"],
     probes=["interleaved phases", "thread switches", "results compared with the work alone"] + KINDS)
prop("C15", ["c15.cpp"] + EST, [dict(id="C15", quick=300000, thorough=900000)],
     rule="one run performs the same fit and queries 2-4 times with the same inputs, clock, entropy and rand() stream but drawn heap contents, addresses, stack contents, console behaviour, verbosity, query order, earlier fits and earlier unrelated computations, and compares the results bit for bit; distinct by hash of choices and results",
     state="results with settings", real=ALL_REAL, stub=ALL_STUB,
     probes=["answers compared bit for bit", "console writes failed"] + KINDS)

# technique detail, assurance note
NOTES = {
    "C11": ("seeded histories with faults against once-fitted objects", "Sampled histories over 28 kinds of object; answers compared to 1e-7 with an object fitted once."),
    "C12": ("seeded allocation and entropy failures at measured positions", "Sampled fault positions among all allocations and draws of the operation. Failures inside Eigen's SVDs and its resize are excluded, since Eigen itself frees twice there."),
    "C13": ("seeded schedules of concurrent readers against a sequential twin", "Sampled schedules, switching at single memory accesses of instrumented code; sequentially consistent memory."),
    "C14": ("seeded schedules of independent jobs against the same jobs alone", "Sampled schedules; entropy, clock and rand() are per thread in the simulation."),
    "C15": ("seeded heap contents, addresses, stack, console and histories, compared bit for bit", "Sampled environments; uninitialised stack memory is varied by dirtying the stack before each run."),
    "C18": ("seeded starts and shuffle schedules on separable data", "Sampled data with a margin of at least two and spread below one; optima compared on strongly regularised problems."),
    "C10": ("seeded entropy values against the exact SVD", "Sampled matrices up to 12x12 and entropy values. Accuracy is required where the sketch covers the rank or the spectrum decays tenfold per value."),
    "C09": ("seeded entropy values against a reference EM step and single restarts", "Sampled. The bound, convergence and parameters are compared with a reference EM started from the responsibilities the same entropy gives, where that is insensitive to rounding."),
    "C08": ("seeded entropy values against exhaustive reference Lloyd runs", "Sampled data and entropy. Centres are observed through predictions on probe points."),
    "C07": ("seeded objective-fault regions and callback failures against a reference L-BFGS", "Sampled. The final point is compared with the reference only where the reference itself is insensitive to 1e-13 perturbations."),
    "C06": ("seeded shuffle schedules against a reference coordinate step", "Sampled. Ties between coordinates are accepted either way."),
    "C04": ("seeded shuffle schedules and gradient faults against the update rule", "Sampled. The weights are compared within floating-point tolerance; documented and implemented readings of the decay and momentum policies are both accepted."),
    "C05": ("seeded loss-fault scripts against the stopping rule", "Sampled loss sequences on a grid where sums are exact, so the margin is decided exactly."),
    "C16": ("seeded histories, allocation faults and thread interleavings against brute force", "Sampled. Interleavings switch at single memory accesses of instrumented code; library code (libstdc++, memcpy) runs between accesses atomically."),
    "C17": ("seeded operation histories with allocation faults against a map model", "Sampled histories for itemsets of equal length, as the algorithm requires."),
    "C02": ("seeded clock schedules against self-identifying rows", "Sampled clock readings and datasets. Reachability is judged over 500-900 readings per run."),
    "C03": ("seeded entropy values and entropy failures", "Sampled 32-bit entropy values; distribution judged with Kolmogorov-Smirnov and count bounds far beyond chance."),
    "C01": ("seeded read schedules, disk and allocation faults against a reference reader",
            "Sampled: every run is exactly replayable, none is exhaustive. Trusts the reference reader, libstdc++ and the interposed read/fopen seam."),
}
NOT_APPLICABLE = {
    "C19": "A loss value or gradient is a pure function of its arguments: no schedule, clock, fault, randomness or state for a simulation to decide.",
    "C20": "Closed-form least squares: a pure deterministic function of the data. (Its refit, fault, concurrency and stale-memory behaviour is decided under C11-C15.)",
    "C21": "PCA is a pure deterministic function of the data; only refit, faults, threads and stale memory have anything to simulate, and those are C11-C15.",
    "C22": "Naive Bayes posteriors are a pure deterministic function of the data; their history, fault and thread behaviour is decided under C11-C15.",
    "C23": "Tree growing is a pure deterministic function of the data; its history, fault and thread behaviour is decided under C11-C15.",
    "C24": "Rule mining is a pure deterministic function of the transactions; its history, fault and thread behaviour is decided under C11-C15 and its hash tree under C17.",
    "C25": "The helpers are pure functions of their arguments: nothing nondeterministic to simulate.",
    "C26": "The class templates do not compile when instantiated at the pinned commit (nor do their tests), so there is no behaviour to execute; making them work would be new development, not a repair.",
}
