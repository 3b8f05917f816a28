FILES = "reading back a file just written gives what was written, another process's complete write included; portalocker's exclusive " \
    "lock excludes every other holder (the operating system's contract, stated by the ghost Store/GFS in pyvc/stubs.py)"
NOMUT = "callers do not change an object returned by the shared state without writing it back"
GHOST = "the run-level contracts use the contracts of Synced (proved under C01/C02) in place of its body"

p("C01", "Synced.put/acquire/deref/load/new are proved against arbitrary interference by other processes between any two steps: a write "
  "is accepted only if it was based on the latest committed version, and nothing else touches the data.",
  trusted=[FILES], assume=[NOMUT, "version tags (uuid4) never repeat"],
  bounded="real processes and threads writing the same resources, and writers interposed at every lock acquisition; stale puts")
p("C02", "Synced.synced/acquire and the four readers of NePSState are proved to return the latest committed value, whatever the cache "
  "holds and whatever other processes wrote before.", trusted=[FILES], assume=[NOMUT],
  bounded="views of one run in several processes, arbitrary sequences of writes and reads")
p("C03", "Lock discipline: every read, write, version check and bump happens while this process holds the resource's lock; locks are "
  "released on every exit, in the reverse order; run-level operations take them in one global order.", trusted=[FILES],
  assume=["FileLocker's use of portalocker is covered up to portalocker itself"],
  bounded="recorded lock/file events of real operations, faults injected into every file operation")
p("C04", "The worker loop evaluates a trial only after its own claim of that trial was accepted, an accepted claim is based on a "
  "version in which the trial was pending, hence no trial is claimed twice; losing a race evaluates nothing and the worker goes on.",
  trusted=[FILES, GHOST], assume=[NOMUT],
  bounded="a second worker acting at each step of the loop; four processes on 25 trials")
p("C06", "NePSState.sample_trial is proved for every stored history, optimizer answer, hook list and budget: one new pending trial with "
  "the proposed id, configuration and predecessor, or an exception and no change; the optimizer is shown all stored trials.",
  trusted=[GHOST], assume=["optimizers do not write to the run directory themselves"],
  bounded="ids proposed by every optimizer over simulated histories with failures, parallel workers and resumption (optimizers' own id "
  "arithmetic is only bounded-checked)")
p("C07", "_check_if_should_stop is proved equal to the conjunction of limits for every settings object, history (counts and sums over "
  "unboundedly many trials) and clock; run() is proved to count every evaluation, cost and duration once and to check before each trial.",
  trusted=[GHOST], assume=["sums of costs are mathematical"],
  bounded="random settings and histories against a reference; whole runs at each limit")
p("C08", "parse_user_result, _eval_trial, evaluate_trial, set_complete and report_trial_evaluation are proved for every numeric result, "
  "every shape of result mapping, every default setting and every exception.",
  trusted=[GHOST], assume=["float(x) of a number is its value", "the clock does not run backwards between its two readings"],
  bounded="results of NumPy/Torch/Python types through real workers, read back from disk")
p("C09", "Failure recording and the error policy of run/_check_if_should_stop are proved for every policy, exception and history of "
  "errors; get_loss/get_cost are proved for every report.", trusted=[GHOST],
  assume=["exceptions whose __str__ raises are excluded"],
  bounded="every policy x own/other errors x exception types; later workers")
p("C10", "sample_trial is proved to install the stored generator state before the optimizer draws and to store the state left behind; "
  "SeedSnapshot.set/recapture are proved to cover all generators.",
  trusted=[GHOST, "random/numpy/torch get_state/set_state are inverse to each other"],
  bounded="draws after snapshots round-tripped through disk; proposal sequences under foreign draws, several workers, resumption")
p("C21", "_set_global_trial and run() are proved to expose exactly the evaluated trial and to clear it on every exit, BaseException "
  "included; callbacks once each in a loop of any length; reset is proved field by field.", trusted=[],
  bounded="all pairs of outcomes of two successive evaluations incl. KeyboardInterrupt and SystemExit; nested runs")
p("C11", "Construction, set_value/set_default/load_from, sampling, un-normalising, grids, clone/__eq__, mutation and crossover are proved "
  "for every bound, scale, default, choice list of any length, confidence and random draw; SearchSpace's own operations for up to three "
  "hyperparameters of any kind, using their contracts.",
  trusted=["NumPy's draws lie in the ranges they are asked for; scipy's truncated normal draws some real number",
           "log and exp are monotone, exp(log x) need not be x"],
  assume=["machine arithmetic treated as mathematical; floating point is only exercised by the bounded harness",
          "search spaces of more than three hyperparameters behave as those of three (the loops treat each by itself)"],
  bounded="random hyperparameters and spaces with extreme bounds, values next to the bounds, random draws")
p("C12", "Domain.to_unit/from_unit/cast/translate/cast_one/as_integer_domain are proved for every domain (linear/log, integer/float, "
  "binned or not), every element, and any number of columns.",
  trusted=["torch's elementwise operations act on each element by itself", "log and exp are monotone, strictly so between a domain's bounds"],
  assume=["machine arithmetic treated as mathematical; the order and bounds of rounded results are only exercised by the bounded harness",
          "integers below 2^50"],
  bounded="random domains with values at and next to the bounds, in float32 and float64; mixed columns")
p("C13", "The three transformers are proved for any number of choices, any unbinned domain and any number of configurations (one arbitrary row "
  "stands for all); ConfigEncoder.encode/decode/__post_init__ for any number of configurations, up to three hyperparameters and two "
  "constants, using the transformers' contracts; ConfigEncoder.default for every combination of two kinds.",
  trusted=["torch's elementwise operations act on each element by itself; torch.tensor/tolist keep the order; a column view writes through",
           "exp(log x) = x (floats come back up to rounding)"],
  assume=["encoders of more than three columns behave as those of three",
          "integers on a log scale: only legality and the column's domain are proved, closeness is checked by the bounded harness"],
  bounded="random spaces, configurations, tensors, in single and double precision; 2 to 130 choices")
p("C05", "write followed by read is proved to give equal data for trials (with any configuration and extra information, every state, "
  "every report, exceptions of seven awkward kinds), random-number snapshots, optimizer info, optimizer state and any number of errors, "
  "also over what an earlier write left; the normal form of stored data is proved by cases over the kind of a value.",
  trusted=["yaml.safe_dump/full_load, json.dumps/loads, np.tofile/fromfile and torch.save/load give back plain data that was written "
           "(stated in pyvc/docs.py; exercised with awkward values by the bounded harness)", "dataclasses.asdict copies"],
  assume=["the normal form of nested data follows by induction over its depth from the cases proved",
          "the shared optimizer state has one of two shapes, with arbitrary values"],
  bounded="random nested data with awkward strings, floats, NumPy and Torch values through real files; trials through all stages; workers "
  "whose evaluations raise awkward exceptions; generators read back in another process")
p("C16", "get_summary_dict is proved for any number of stored trials in any state with any report: the counts are sums over all stored "
  "trials, the best loss is a lower bound of all measured losses and belongs to the trial shown as best, the details are exactly the "
  "stored ones, and nothing is written.",
  trusted=["dataclasses.asdict copies the metadata", "load_filebased_neps_state gives the stored run (C17)"],
  assume=["a successful report has a loss (C08); no trial is in the states SUBMITTED or CORRUPTED, which the framework never stores",
          "no trial changes while the summary is being read"],
  bounded="random stored trials on disk incl. infinite, NaN and tied losses; printed status; files before and after")
p("C17", "create_or_load/load_filebased_neps_state are proved over a ghost disk, with the real Synced, FileVersioner, readers and writers "
  "in place: for a stored run (new, or with errors, trials, a later budget and generator state) whatever the caller passes, the files are "
  "afterwards the very same and what is accessed is what was stored; another optimizer description is refused; missing, empty and "
  "half-created directories are completed with the caller's state. _launch_runtime is proved to remove a run on request only, and nothing "
  "beside it.",
  trusted=[FILES, "the normal form of stored data (C05)"],
  assume=["runs with up to two trials and two errors stand for all (reading is per trial; C05 covers any number of errors)"],
  bounded="random runs on disk opened, refused, continued and overwritten; interrupted creations; sibling directories")
p("C19", "_launch_runtime/DefaultWorker.new are proved to hand on every limit, error option and hook (any number of hooks, lists and "
  "generators) with arbitrary values; Settings.__init__/merge/assign/check for every pair of arguments in each of four ways (default, "
  "argument, file, both) with the others in each; neps.run for every argument likewise, deprecated budget, task and stage directories; "
  "get_run_args_from_yaml for entries of any type, grouping, objects and hooks; _run_args and the command line for every option. That "
  "the worker obeys: _check_if_should_stop for every subset of limits and every error policy, hooks in order in sample_trial.",
  trusted=[GHOST, "load_and_return_object, yaml.safe_load"],
  assume=["three arguments given together behave as the pairs do (each is treated by itself in the loops)", "two hooks stand for all in sample_trial"],
  bounded="random combinations of arguments, configuration files and command line options through the real neps.run; whole runs at the limits")
p("C14", "Both promotion rules are proved for any number of rungs and members (arrays are functions of the position, argsort is a sorting "
  "permutation with inverse, the synchronous rule's running total is an inductive loop invariant): promotions are finished members of their "
  "rung, no more than its share, pairwise different, none worse than one left behind; every rung below the top is considered and a due "
  "promotion found. The table of observations is proved by an inductive invariant over the loops that fill it (any number of trials): every "
  "configuration stands at the highest rung reported, with that result, and as unfinished while an evaluation is pending. Rung membership, "
  "the order of the steps of ask (successive halving and Hyperband) and the proposal itself (highest rung first, one rung higher, "
  "predecessor, hyperparameters, fresh number) are contracts of their own; callers are checked against them.",
  trusted=["NumPy argsort sorts ascending, NaN last", "pandas: dropna, drop, selection by a condition, unique, concat of one row"],
  assume=["losses are not NaN", "trial ids are the optimizer's own (<number>_<rung>), numbers without gaps",
          "a bracket never holds more than planned for a rung and above (kept by the rule itself: obligation 'the next rung keeps to its plan')",
          "clear_old_brackets (which slice of the history is a bracket) is not under contract: bounded harness"],
  bounded="random histories of completed, failed and pending evaluations through every optimizer against an independent oracle")
p("C15", "SuccessiveHalvingBase.__init__ with _get_rung_map and _get_config_map is proved for all bounds, factors and stopping rates, any number "
  "of rungs (the loops' recurrences are read off the body, the closed form is proved by induction): rungs from the stopping rate to the "
  "top, fidelities the upper bound over powers of the factor, increasing, inside the bounds, as many rungs as fit; the numbers of "
  "configurations shrink by the factor and leave at least one for the top. get_config_and_ids is proved to give every proposal the "
  "fidelity of the rung in its id.",
  trusted=["log(b**k) = k log b, log strictly increasing, powers as defined by their recurrence (instantiated where used)"],
  assume=["the factor is an integer of at least 2 and the lower bound of the fidelity positive",
          "machine rounding of fidelities is left to the bounded harness"],
  bounded="ladders of every optimizer for awkward bounds (rounding at the lowest rung); fidelity of every proposal in random runs")
p("C20", "GridSearch.ask is proved as a relation between any two calls (by the same or another worker with the same settings): asked with m of n "
  "points stored it proposes a point of the grid that depends on m alone, another point and another id for every other m, and raises "
  "'exhausted' exactly from n on; n different points for the numbers 0..n-1 are all of them. get_search_space_grid is proved for any number "
  "of hyperparameters of any kind: one range each (all choices, the constant, the different values of its own numeric grid), a configuration "
  "for each combination, each hyperparameter with its own value. NumericalParameter.grid and normalized_to_value are proved to give the "
  "evenly spaced values with both bounds, NePSState.sample_trial to show all stored trials and to store the proposal under the same lock.",
  trusted=["random.Random: what sample/shuffle draw is a permutation determined by seed, draws before and arguments",
           "itertools.product yields each combination once", "NumPy clip, astype, unique, linspace", "exp inverts log at the bounds"],
  assume=["at least two values per numeric hyperparameter (with one, the upper end cannot be included)",
          "integers below 2**53 (np.float64 on the way)", "workers of one run use the same settings"],
  bounded="grids of random spaces against the documented values; whole runs by several searches and by several processes")
p("C18", "deduce_type, the four formatting functions and convert_scientific_notation are proved for every value of every key (integers, floats, "
  "texts of numbers with and without exponent, infinite and undefined numbers, other texts, anything else), keys present or absent: the type "
  "stated or told by the keys, the very numbers stated, all other keys kept, everything else refused. Choices: lists of any length. The pattern "
  "that recognises exponent notation is compared with the language of such numbers (Z3 regular expressions). pipeline_space_from_yaml is proved "
  "for any number of entries, as dictionary, file, wrapped or not: each entry becomes the hyperparameter of its type with its own formatted "
  "details under its own name, a refused entry is never passed over, only the documented error is raised. The constructors are C11's.",
  trusted=["Python's re and float() (the language of texts float accepts), yaml.safe_load"],
  assume=["blanks are the only white space around numbers; digits are ASCII", "names are texts, and no entry is alone under the name pipeline_space",
          "numbers with underscores and booleans are not looked at"],
  bounded="random descriptions with every spelling of numbers as dictionaries and files; one mistake each of some fifty kinds; arbitrary values")
NA = {
    "C22": "the guarantee is about the file system after a process dies between two system calls; a contract on Python functions has no "
    "crash points, and a ghost model of partial writes would be a model of the kernel, not the code",
    "C23": "liveness under fair schedules: the contracts are partial-correctness statements and the verifier has no notion of fairness or "
    "of the lock's waiting queue",
    "C24": "the guarantee rests on the numerics of botorch/gpytorch/torch models, whose contracts are not expressible here without "
    "assuming what is to be shown",
}
