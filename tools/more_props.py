prop("C10", "A storage fault never corrupts a run: it fails with an error or it changes nothing",
     "When opening, reading, writing, syncing, renaming or creating files fails during a run (disk full, lost permission, read only, I/O error, no descriptors), the run returns an error or succeeds; it never panics, hangs or silently gives another result. If it succeeds, every result file holds what it holds without faults. Whatever happens no result file is left damaged, no file written by an earlier run is lost, and once the storage works again a run started there gives the undisturbed result. Interrupted and short system calls change nothing.",
     ["faults", "schedules", "histories"],
     "every system call of every run failing in every way, for one call, several calls or until the end; fresh, resumed and warm started runs",
     "No test injects a storage error; the code paths of failed writes are never executed by them.",
     [EGO+"utils/atomic_file.rs", EGO+"utils/hot_start.rs", EGO+"egor.rs", EGO+"solver/egor_solver.rs"],
     [("write_file, write_npy_file: temporary file, sync, rename, errors returned", EGO+"utils/atomic_file.rs")],
     [("output directory", "result files and checkpoint", EGO+"lib.rs")], ["Egor::run result", "files of the output directory"])

prop("C11", "A saved model is the model that is loaded",
     "A surrogate (mixture of experts, mixed integer mixture, single expert; full or sparse; JSON or binary) that was saved without error is loaded by any other process, by several threads at once, with the same hyperparameters, clusters, training data and description, and gives the same predictions; saving it again writes the same file. A file whose writing was cut by a kill is refused with an error, never loaded as another model and never a panic. Storage errors during save and load are returned; a save that reports success has written the whole model.",
     ["inputs", "crash_points", "faults"],
     "every kind of model and settings, every kill point of the save, every failing system call of save and load",
     "Tests save and load a couple of models in the same process and compare one prediction; none cuts the file, fails a call or covers sparse surrogates.",
     ["crates/moe/src/surrogates.rs", "crates/moe/src/algorithm.rs", EGO+"gpmix/mixint.rs", "crates/gp/src/algorithm.rs", "crates/gp/src/sparse_algorithm.rs"],
     [("GpSurrogate::save, load", "crates/moe/src/surrogates.rs"), ("GpMixture::load", "crates/moe/src/algorithm.rs"), ("MixintGpMixture::load", EGO+"gpmix/mixint.rs")],
     [("model file", "serialized surrogate", "crates/moe/src/surrogates.rs")], ["predictions of the loaded model", "model file"])

prop("C12", "Optimizations of one process do not disturb each other",
     "Several optimizations running at the same time in one process (threads of the application or tasks of the same thread pool), each with its own output directory, each give exactly the result and the files they give alone, also when one of them is resumed from a checkpoint or when the objective of another one panics; none waits for another one for ever.",
     ["schedules", "configurations", "faults"],
     "every interleaving of every group of runs, in threads or in the pool, with panics of one of them",
     "Tests never run two optimizations of one process under a controlled schedule; the test runner gives accidental interleavings only.",
     [EGO+"egor.rs", EGO+"solver/egor_solver.rs", EGO+"solver/solver_infill_optim.rs", EGO+"utils/hot_start.rs"],
     [("all state of a run lives in its solver and EgorState", EGO+"solver/egor_solver.rs"), ("checkpoint in the output directory of the run", EGO+"utils/hot_start.rs")],
     [], ["Egor::run result", "files of each output directory"])

prop("C13", "Ask and tell: a suggestion depends on the data and the seed only",
     "EgorService::suggest returns the requested number of points of the declared domain. With a seed, the suggestion is a function of the data and the settings: the same in any schedule, from a service that served other requests before or serves others at the same time, and from a new service of a restarted client that only kept its data. It ends for any data set.",
     ["schedules", "histories", "crash_points", "inputs"],
     "every data history of a client, every restart point, every set of concurrent clients of one service",
     "One test runs one client on one function and checks the final optimum with a tolerance.",
     [EGO+"solver/egor_service.rs", EGO+"solver/solver_impl.rs"],
     [("suggest rebuilds its generator from the seed and keeps no state between calls", EGO+"solver/solver_impl.rs")],
     [], ["EgorServiceApi::suggest"])

prop("C14", "Sampling methods keep their guarantees when shared and under any schedule",
     "Every sampling method (Latin hypercube of every kind, random, full factorial, and their mixed integer forms) returns the requested number of points within the bounds (allowed values for discrete variables); a Latin hypercube has one point per interval in every dimension (in the middle of it for the centered kinds). A seeded sampler gives the same sequence of designs whatever the schedule and the thread count. A sampler shared by threads never deadlocks, each design it gives is valid, and no random design is given twice.",
     ["schedules", "inputs"],
     "every sampler, size, dimension; every interleaving of the threads sharing it",
     "Tests compare a few seeded designs in one thread with recorded values; none shares a sampler between threads.",
     ["crates/doe/src/lhs.rs", "crates/doe/src/random.rs", "crates/doe/src/full_factorial.rs", "crates/doe/src/utils.rs", EGO+"gpmix/mixint.rs"],
     [("generator behind RwLock held while a design is drawn", "crates/doe/src/lhs.rs"), ("pdist, cdist run in the thread pool", "crates/doe/src/utils.rs")],
     [("rng", "generator shared by the clones of a sampler", "crates/doe/src/lhs.rs")], ["SamplingMethod::sample"])

prop("C15", "Predictions do not depend on who asks, when, or with which other points",
     "For a trained model, values, variances and their derivatives at a point are the same to the bit for any schedule, number of threads and concurrent callers sharing the model, and the same up to rounding whether the point is asked alone, within a batch, or in another order, and by whichever of the methods giving the same quantity. Concurrent predictions never deadlock or panic.",
     ["schedules", "inputs"],
     "every model, every batch and order of points, every interleaving of concurrent callers",
     "Tests predict fixed batches from one thread.",
     ["crates/gp/src/algorithm.rs", "crates/gp/src/sparse_algorithm.rs", "crates/moe/src/algorithm.rs", "crates/moe/src/gaussian_mixture.rs"],
     [("derivatives computed by parallel iteration over the points", "crates/gp/src/algorithm.rs"), ("predict_smooth, predict_hard and their variants", "crates/moe/src/algorithm.rs")],
     [], ["predict, predict_var, predict_valvar, predict_gradients, predict_var_gradients, predict_valvar_gradients"])

prop("C16", "Training is reproducible from the data, the settings and the seed",
     "Training a surrogate (full or sparse Gaussian process, mixture with given or automatic clusters, mixed integer mixture) twice with the same data, settings and seed gives the same model to the bit (hyperparameters, clusters, predictions, description, cross validation scores), whatever the schedule, the number of threads, the clock and the system entropy, after any other training of the process and concurrently with them; or it fails in the same way.",
     ["schedules", "inputs", "configurations"],
     "every seeded training, every schedule, every history of trainings in the process",
     "Tests train once and compare predictions with tolerances; none controls the schedule or the entropy.",
     ["crates/gp/src/algorithm.rs", "crates/gp/src/sparse_algorithm.rs", "crates/gp/src/optimization.rs", "crates/moe/src/algorithm.rs", "crates/moe/src/clustering.rs"],
     [("multistart optimization of the likelihood in the thread pool", "crates/gp/src/algorithm.rs"), ("generator of the mixture given by the user", "crates/moe/src/parameters.rs")],
     [], ["theta, variance, likelihood, predictions of the trained model"])
