"""What each check builds, how long it searches and what its evidence says about itself."""
ALL = ["dnn", "middleware", "parser"]
PARSER = ["parser"]
LIB_REAL = "all of source/dnn, source/middleware, source/parser and source/data that the workload uses, compiled unmodified from /repo, with libstdc++"
PAR_REAL = "source/parser and source/data, compiled unmodified from /repo, with libstdc++'s file streams"
POOL_STUB = "BetterThreads task pool (an empty submodule here): simulated pool with the same interface; OS scheduler, mutexes, condition variables, futexes, clocks, random device, operator new: simulated"
DISK_STUB = "disk and the C library's file calls: simulated; operator new, clocks, random device: simulated"

COMMON_ASSUMPTIONS = [
    "Interleavings are sequentially consistent; weaker orderings are covered only through the happens-before race detector, which reports conflicting unsynchronised accesses.",
    "Code inside libstdc++.so and libc is not instrumented: accesses made there are not preemption points and not race-checked (templates are compiled into the instrumented code).",
    "Sampling, not enumeration: a quiet run is evidence for the explored executions only.",
]

TRAIN_RULE = "A seed draws a network (dense, convolution, pooling, dropout; narrow, wide or deep; activations; loss; static or dynamic network class), a dataset of 0-40 entries, batch size, epochs, 1-9 workers, training mode, scheduling strategy (synchronisation points only, random preemption at memory accesses, priority change points), stalled workers"

CHECKS = {
    "C01": dict(tech="seeded scheduler decides every preemption of caller and workers; refinement against the same training under the default schedule, race detector",
                note="compares predictions to 1e-9.",
                harness=["h_train", "h_kernels"], units=ALL, quick_secs=45, thorough_secs=900, real=LIB_REAL, stub=POOL_STUB,
                rule=TRAIN_RULE + "; the same training runs under the default schedule and under the drawn one and the predictions are compared. Non-trivial: at least two entries and two workers."),
    "C02": dict(tech="seeded scheduler over training rounds; refinement against a one-thread executable reference model",
                note="the reference computes each entry's gradient with the library's own single-entry step, so a kernel wrong in the same way in both is not seen here.",
                harness=["h_train", "h_kernels"], units=ALL, quick_secs=45, thorough_secs=900, real=LIB_REAL, stub=POOL_STUB,
                rule=TRAIN_RULE + "; the weights after gradient-descent training are compared with a one-thread reference that sums per-entry gradients round by round. Non-trivial: at least two entries and (two workers or sequential mode)."),
    "C03": dict(tech="seeded scheduler over kernel tasks; refinement against the sequential kernel, race detector, guarded arrays",
                note="the sequential kernels are the reference.",
                harness=["h_train", "h_kernels"], units=ALL, quick_secs=40, thorough_secs=600, real=LIB_REAL, stub=POOL_STUB,
                rule="A seed draws kernel (forward or backward), sizes 0-24, data, 1-3 calls, 1-2 concurrent callers, 1-4 workers and a schedule; outputs and every other array are compared with the sequential kernel, arrays are guarded after the return. Non-trivial: more than one output and more than one worker."),
    "C04": dict(tech="failing task, allocation or enqueue at a seeded point under a seeded schedule; history checks on exception, later accesses and weights",
                note="task pool is a simulated one with the interface the library uses.",
                harness=["h_train", "h_kernels"], units=ALL, quick_secs=45, thorough_secs=900, real=LIB_REAL, stub=POOL_STUB,
                probes=["fault.alloc", "fault.enqueue", "fault.poisoned_entry"],
                rule=TRAIN_RULE + " and one failure: entries whose step throws, the n-th allocation, or the n-th enqueue (training: 3/4 of the runs, kernels: 1/4). Non-trivial: the failure fired."),
    "C25": dict(tech="seeded scheduler over training threads and the workers they share; refinement against the same scripts run alone, race detector, failures injected in one thread",
                note="the same scripts run one after another are the reference.",
                harness=["h_repro"], units=ALL, quick_secs=45, thorough_secs=900, real=LIB_REAL, stub=POOL_STUB,
                probes=["fault.poisoned_entry", "fault.alloc"],
                rule="A seed draws two or three threads with a network, dataset, training mode, optimizer and network class each (sometimes equal ones), a script of fit, predict, evaluate, copy, shuffle-and-fit, failing fits (a poisoned entry, an allocation of that thread) and initialisation, the number of shared workers, stalled workers and a schedule; all a script shows is compared with the script run alone. Every run is non-trivial."),
    "C26": dict(tech="seeded histories of operations with failing allocations, tasks, disk operations and damaged files between them; refinement of every answer against a small reference without a past",
                note="fresh models and networks of the library itself, given the reference's weights or only the last fit, supply the expected answers: a computation wrong in the same way when fresh is not seen here.",
                harness=["h_hist"], units=ALL, quick_secs=45, thorough_secs=900, real=LIB_REAL, stub=POOL_STUB + "; disk and file calls: simulated",
                probes=["fault.alloc", "fault.truncated", "fault.step_without_target", "probe.failed_step", "probe.failed_fit", "probe.failed_save", "probe.failed_load", "probe.failed_build"],
                rule="A seed draws one or two threads, each with one or two families of models (all layer types, two heads, recurrent; half of them put together between copies, assignments, swaps and failing allocations) and a script of up to 14 operations (step, update, update from a copy, predict, copy, assign, swap, reset, initialise, save, load, set weights, drop), a sixth of them with a failing allocation, saves and loads with disk faults and damaged files; the reference keeps weights per family, pending gradients and scores per model. A third of the runs: one network of either class in any mode and a script of fits, failing fits, predictions and evaluations. Every run is non-trivial."),
    "C27": dict(tech="seeded histories of operations on several documents with failing allocations inside, and a seeded scheduler over threads that edit their own and read shared ones; refinement against a small model of the documents, race detector, live-allocation accounting",
                note="equality of leaves with the same text and different types is not judged.",
                harness=["h_json"], units=PARSER, quick_secs=35, thorough_secs=600, real=PAR_REAL, stub=DISK_STUB,
                probes=["fault.alloc", "probe.failed_change", "probe.retry_after_fault"],
                rule="A seed draws a stock of nested documents, a script of 1 to 40 operations on three documents (build, assign, append, name members, parts and wholes of themselves, copy, move, compare, convert, write, read, refused accesses), and either nothing else, an allocation failure aimed inside every operation (the operation is then repeated with memory at hand), or 2-3 threads with documents of their own and three shared ones. All documents are compared with the model after every operation. Non-trivial: a fault fired, threads ran, or more than five operations."),
    "C28": dict(tech="seeded histories of operations on several datasets with failing allocations inside, and a seeded scheduler over threads that edit their own and read shared ones; refinement against a small model of the entries, race detector, live-allocation accounting",
                note="the order a shuffle chooses is the generator's; only that the entries stay the same and whole is judged.",
                harness=["h_data"], units=ALL, quick_secs=35, thorough_secs=600, real=PAR_REAL, stub=DISK_STUB,
                probes=["fault.alloc", "probe.failed_change", "probe.retry_after_fault"],
                rule="A seed draws a stock of datasets, a script of 1 to 40 operations on three of them (build from values, rows or sequences that come out even or not, assign, copy, move, other labels, other sequences, shuffle, normalise, part, split, concatenate, inputs, labels, entries, refused requests), and either nothing else, an allocation failure aimed inside every operation (the operation is then repeated with memory at hand), or 2-3 threads with datasets of their own and three shared ones. All datasets are compared with the model after every operation. Non-trivial: a fault fired, threads ran, or more than five operations."),
    "C16": dict(tech="seeded schedules with stalled workers; liveness as a step bound, deadlock detection",
                note="the bound is generous (80 times the sequential work plus four million steps).",
                harness=["h_train", "h_kernels"], units=ALL, quick_secs=40, thorough_secs=900, real=LIB_REAL, stub=POOL_STUB,
                probes=["probe.huge_batch", "probe.empty_dataset"],
                rule=TRAIN_RULE + ", with batch sizes up to the largest integer and empty datasets; deadlock, step budget (80 times the sequential work plus 4 million steps), task count. Every run is non-trivial: it must terminate."),
    "C05": dict(tech="seeded scheduler over threads working on model copies; linearised reference history, race detector",
                note="the sequential execution is the reference.",
                harness=["h_infer"], units=ALL, quick_secs=45, thorough_secs=700, real=LIB_REAL, stub=POOL_STUB,
                rule="A seed draws a network (dense, activations, dropout, convolution, pooling, recurrent), 2-4 threads each owning copies of one model, a script of predict/step/copy/destroy per thread and a schedule; every result is compared with the same script run alone. Non-trivial: at least two threads computing."),
    "C06": dict(tech="seeded scheduler over threads creating named objects; uniqueness invariant over the history, race detector",
                note="names are observed through the public accessors.",
                harness=["h_infer"], units=ALL, quick_secs=40, thorough_secs=600, real=LIB_REAL, stub=POOL_STUB,
                rule="A seed draws 2-5 threads each constructing unnamed layers, losses, models and networks under a schedule; all automatic names of one kind must differ. Non-trivial: at least two threads."),
    "C07": dict(tech="seeded scheduler over threads with parser objects of their own over the same simulated files, split and interrupted reads; race detector, refinement against the file's content",
                note="hidden sharing inside the C library is out of sight.",
                harness=["h_files"], units=PARSER, quick_secs=40, thorough_secs=600, real=PAR_REAL, stub=DISK_STUB,
                rule="A seed draws files, 2-4 threads (readers of CSV, MNIST, CIFAR, JSON, type checks, imports; often all of one kind), scripts, short and interrupted reads and a schedule. Every run is non-trivial."),
    "C10": dict(tech="simulated disk with seeded faults under a random access script; history check of every result against the bytes of the file",
                note="most files are small; one in some hundred is larger than 2 GB.", probes=["fault.eio", "fault.truncated", "probe.retry_after_fault", "probe.bad_header"],
                harness=["h_files"], units=PARSER, quick_secs=40, thorough_secs=600, real=PAR_REAL, stub=DISK_STUB,
                rule="A seed draws an MNIST pair, a script of accesses and a fault plan (none; short and interrupted reads; failing opens, reads and seeks; truncation and restoration while in use; unreadable or wrong headers). Non-trivial: a fault plan is active."),
    "C11": dict(tech="simulated disk with seeded faults under a random access script; history check of every result against the bytes of the file",
                note="a batch file holds what the seed asks for; the class always announces 10000 entries.", probes=["fault.eio", "fault.truncated", "probe.retry_after_fault", "probe.missing_file"],
                harness=["h_files"], units=PARSER, quick_secs=40, thorough_secs=600, real=PAR_REAL, stub=DISK_STUB,
                rule="A seed draws a CIFAR-10 or CIFAR-100 file set, a script of accesses in both shape orders and a fault plan (none; short and interrupted reads; failing opens, reads and seeks; truncation and restoration while in use; missing files). Non-trivial: a fault plan is active."),
    "C12": dict(tech="simulated disk with seeded faults under a random access script; history check of every result against the lines of the file",
                note="the file's lines are split by the harness's own reader.", probes=["fault.eio", "fault.truncated", "probe.retry_after_fault"],
                harness=["h_files"], units=PARSER, quick_secs=40, thorough_secs=600, real=PAR_REAL, stub=DISK_STUB,
                rule="A seed draws a CSV file (up to 300 rows; numbers, odd and very long texts, repeated and empty rows; a last line not completely written), a script of indexing, header, iteration in both directions, range loops, iterator copies and comparisons, conversions of rows and of the file, entry access and a fault plan (none; short and interrupted reads; failing opens, reads and seeks; rows vanishing and returning while in use). Non-trivial: a fault plan is active."),
    "C13": dict(tech="simulated disk and streams with seeded faults and truncation; round-trip refinement, bounded-steps liveness",
                note="document sizes are small.", probes=["fault.eio", "fault.truncated", "fault.damaged"],
                harness=["h_files"], units=PARSER, quick_secs=40, thorough_secs=600, real=PAR_REAL, stub=DISK_STUB,
                rule="A seed draws one or two JSON documents (nested lists, objects, scalars, white space, long texts), new or used target objects, file or string stream, a truncation point, damaged bytes and a fault plan (split and interrupted transfers, failing reads, seeks, opens). Non-trivial: a fault plan, a truncation or a second document."),
    "C14": dict(tech="simulated disk with seeded faults and a concurrent truncating thread during an import; all-or-nothing check against the healthy dataset",
                note="CIFAR imports ask for 10000 entries and are only checked to refuse shorter files.", probes=["fault.eio", "fault.truncated", "fault.alloc"],
                harness=["h_files"], units=PARSER, quick_secs=40, thorough_secs=600, real=PAR_REAL, stub=DISK_STUB,
                rule="A seed draws a CSV, MNIST or CIFAR source, label columns, encoding and a fault plan (disk faults, failing allocations, truncation before or during the import), then the import is repeated without faults. Non-trivial: a fault plan is active."),
    "C08": dict(tech="process crash at every byte of a save, truncation, concurrent shrinking and read faults on a simulated disk; atomicity and refinement checks on the loaded model",
                note="crashes leave a prefix of what was written.", probes=["fault.crash", "fault.truncated", "fault.eio", "probe.other_sizes"],
                harness=["h_store"], units=ALL, quick_secs=50, thorough_secs=700, real=LIB_REAL, stub=DISK_STUB,
                rule="A seed draws a network (dense, convolution, pooling, dropout, recurrent), weights, names, a target model (fresh or used, with layers of the same or other sizes) and a fault plan (death of the saving process after n bytes, truncated or missing file, file shrinking while loaded, failing reads, opens, seeks, split transfers); then a load without faults. Non-trivial: a cut or a fault plan is active."),
    "C09": dict(tech="failing, short and interrupted writes, full disk and failing close on a simulated disk; check of the stream's report against the durable bytes",
                note="data is durable once written.", probes=["fault.eio", "fault.enospc", "fault.close", "probe.reported_failure"],
                harness=["h_store"], units=ALL, quick_secs=45, thorough_secs=700, real=LIB_REAL, stub=DISK_STUB,
                rule="A seed draws a network, weights, names, a fresh or existing file and a fault plan for writing; then a save without faults is repeated and loaded. Non-trivial: a fault plan is active."),
    "C15": dict(tech="random device, clock, heap layout, worker schedule and the process's past drawn per run behind simulated seams; refinement against the run in a calm environment",
                note="predictions of fitted networks are compared to 1e-9, initialisations and shuffles exactly.", probes=["fault.clock_jump", "fault.random_device_zero", "probe.entropy_read", "probe.failed_fit_before"],
                harness=["h_repro"], units=ALL, quick_secs=50, thorough_secs=800, real=LIB_REAL, stub=POOL_STUB,
                rule="A seed draws a network (with dropout), data, hyper-parameters, initialisation, training mode, workers and seed; the fit is repeated in other worlds (random device, also always zero; clock jumps; heap layout; schedule; networks fitted, used, copied or failed before). Also Model::init with and without a seed, and Dataset::shuffle with a generator. Every run is non-trivial."),
    "C17": dict(tech="seeded failing allocations during reading, predicting, copying and saving; wrong-result, leak and retry checks",
                note="leaks are found by counting live blocks around repeated rounds.", probes=["fault.alloc", "probe.retry_after_fault"],
                harness=["h_files", "h_store"], units=ALL, quick_secs=50, thorough_secs=700, real=LIB_REAL, stub=DISK_STUB,
                rule="A seed draws a source (CSV, MNIST, CIFAR, JSON, import) and accesses to it, or a model or network and operations on it (predict, evaluate, copy, assign, save, load), runs them twice without failures and then with failing allocations (each allocation of one operation in turn, or a drawn one and a burst after it), repeating each failed access. Non-trivial: a failure fired."),
    "C18": dict(tech="simulated monotonic and wall clocks with seeded jumps, simulated disk and allocator faults, scripted measurements; refinement of every duration and report against the simulated time and the file",
                note="durations are shown with six digits and compared to that.", probes=["fault.clock_jump", "fault.enospc", "fault.alloc", "probe.function_threw", "probe.reported_failure"],
                harness=["h_time"], units=ALL, profile=True, quick_secs=40, thorough_secs=500,
                real="profile/*.hpp and all of the library the profiled networks use, compiled unmodified from /repo, with libstdc++'s chrono, filesystem and file streams", stub="clocks, sleep, disk, directories, operator new, task pool, OS scheduler: simulated",
                rule="A seed draws 1-2 threads with stopwatches in one of four units and scripts of waits, jumps, clicks, restarts, resets and dumps; or sequences of 1-4 profile reports into 1-2 files with a fault plan each (disk, memory, a function that throws); or the profiling of a network. Non-trivial: a clock jump, a fault, two threads or a network."),
    "C19": dict(tech="seeded faults and schedules over repeated operations; bounded-memory and open-file invariants over the history",
                note="a leak is told from settling by growth in at least 12 of 30 repetitions.", probes=["fault.alloc", "fault.enqueue", "fault.truncated", "fault.poisoned_entry", "probe.failing_repetition"],
                harness=["h_res"], units=ALL, quick_secs=50, thorough_secs=700, real=LIB_REAL, stub=DISK_STUB + "; task pool and OS scheduler: simulated",
                rule="A seed draws an operation (readers, JSON, import, models, networks in all modes, kernels), new objects or one kept, and one failure that strikes at the same point of each repetition (allocation, disk, task, damaged file, poisoned entry); the operation is repeated 4 to 30 times, or once for each of twelve places of its failing allocation and up to 30 times where memory stayed in use. A sixth of the runs compare peak memory for more epochs, more entries or larger files. Non-trivial: a failure is planned or (half of) the healthy runs."),
}
