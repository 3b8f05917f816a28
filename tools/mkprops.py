import json
P=[]
def p(id,title,st,over,text,why,files,mech,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
p("C01","No update to shared run state is ever lost",
 "A write to a shared resource of a run (a trial, the optimizer state, the seed state, the error log) succeeds only if the writer's copy is the latest stored version; otherwise it is rejected with a version-mismatch error and the stored data and version stay untouched. A successful write stores exactly the given data under a version tag never used before, so no other worker's older copy can pass for current. Creating a resource that already exists is refused and leaves the stored one untouched; create-or-load then returns the stored one.",
 ["schedules","histories"],"every interleaving of creations, loads, syncs and writes by any number of workers, every data value",
 "The tests exercise a handful of hand-written interleavings of two workers; the guarantee is over all histories of writes.",
 ["neps/state/protocols.py","neps/state/filebased.py"],
 [("version check before write, write then fresh tag","neps/state/protocols.py: VersionedResource.put/new/load"),("fresh tag per write","neps/state/filebased.py: FileVersioner")],
 ["result/exception of put/new/new_or_load","stored data and version file"])
p("C02","A synchronised read returns the latest stored value",
 "Reading a shared resource through its synchronised interface, or acquiring it for update, yields exactly the value of the last completed write by any worker, however stale the local copy was. Afterwards the local copy counts as up to date, so a following write is accepted. A resource whose stored version has disappeared is reported as removed, never answered with old data.",
 ["schedules","histories"],"every local copy (any age) and every history of foreign writes",
 "Tests read back values that the same process or one other object has just written.",
 ["neps/state/protocols.py","neps/state/filebased.py"],
 [("re-read when version tag differs","neps/state/protocols.py: VersionedResource.sync, Synced.synced/acquire"),("trial cache","neps/state/filebased.py: TrialRepoInDirectory.get_by_id")],
 ["value returned by synced()/acquire()"])
p("C03","Shared data is touched only under its lock, and locks are always released",
 "Every read or write of a shared resource's stored data or version tag happens while the acting worker exclusively holds the lock of that very resource, and acquire-for-update keeps holding it until the caller is done. The lock is released on every way out, including errors in the caller's block or in reading and writing. No operation of a run asks for a lock that it already holds, and operations that hold several locks take them in one common order, so that no two workers can wait for each other.",
 ["schedules","fault_sequences"],"every operation, every interleaving with other workers, an exception at any point of a critical section",
 "Tests see that a lock exists in a few calm situations; they do not inject a failure at each access or check each access for the lock.",
 ["neps/state/protocols.py","neps/state/filebased.py","neps/state/neps_state.py"],
 [("lock around each access","neps/state/protocols.py: Synced"),("file lock","neps/state/filebased.py: FileLocker.lock"),("nested acquisition when sampling","neps/state/neps_state.py: NePSState.sample_trial")],
 ["order of lock, read, write, unlock events"])
p("C04","A trial is evaluated by at most one worker, exactly once",
 "Whatever the interleaving of workers, a worker runs the user's function on a trial only after it has itself moved that trial from pending to evaluating in the shared state. A worker that lost the race for a trial evaluates nothing for it and carries on. Each trial a worker has claimed is evaluated exactly once and its outcome reported exactly once.",
 ["schedules","histories"],"every interleaving of workers fetching, claiming, evaluating and reporting trials",
 "Tests run two or three workers in fixed orders; the race window between seeing a pending trial and claiming it is never hit.",
 ["neps/runtime.py","neps/state/neps_state.py","neps/state/filebased.py"],
 [("claim by version-checked write","neps/runtime.py: DefaultWorker.run; neps/state/neps_state.py: put_updated_trial"),("next pending trial","neps/state/neps_state.py: get_next_pending_trial; neps/state/filebased.py: TrialRepoInDirectory.pending")],
 ["calls of the user function and stored trial states"])
p("C05","Everything stored about a run survives the round trip through disk",
 "A trial (configuration, metadata, state, report), the optimizer state with its budget, the optimizer info, the recorded errors and the random-number state that have been written to a run's directory are read back equal by any process, including missing values, infinities, NaN, strings that look like other types, and numbers of NumPy or Torch type as the Python numbers they stand for; nothing written earlier shines through. Writing never fails for any outcome an evaluation may have whose extra information is made of such data, whatever exception type it raised.",
 ["inputs"],"every trial, report, budget, error list, random-number state",
 "Tests round-trip a few hand-picked objects.",
 ["neps/state/filebased.py","neps/utils/files.py","neps/state/trial.py","neps/state/seed_snapshot.py","neps/state/err_dump.py"],
 [("reader/writers","neps/state/filebased.py: ReaderWriter*"),("yaml (de)serialisation","neps/utils/files.py")],
 ["object read back"])
p("C06","Sampling stores exactly one new, uniquely named pending trial",
 "A sampling request shows the optimizer every stored trial in its current stored state and a private copy of the budget, and stores exactly one new trial, pending and without report, holding the proposed configuration under the proposed id together with the id and location of its predecessor. It refuses an id that exists already or an unknown predecessor and then leaves all stored trials as they were. The built-in optimizers propose an id no stored trial has, for every history they produced.",
 ["schedules","histories"],"every set of stored trials in any state, every proposal, every history of the built-in optimizers",
 "Tests sample a few trials in one process with one optimizer.",
 ["neps/state/neps_state.py","neps/state/filebased.py","neps/state/trial.py","neps/optimizers/random_search/optimizer.py","neps/optimizers/grid_search/optimizer.py","neps/optimizers/bayesian_optimization/optimizer.py","neps/optimizers/multi_fidelity/successive_halving.py"],
 [("sampling under optimizer-state and seed locks","neps/state/neps_state.py: sample_trial"),("existence check","neps/state/filebased.py: put_new"),("id generation","optimizers: ask")],
 ["trials stored after sampling","proposed ids"])
p("C07","A worker stops exactly when a configured limit is reached",
 "Before each evaluation a worker stops if and only if one of its configured limits is reached: its own count, cost, wall-clock or evaluation time, or the totals over all stored trials of evaluations (counting running ones only if so configured), reported cost and evaluation time, each compared with 'greater or equal'. A limit that is not configured never stops it. The worker's own totals are the exact sums over the evaluations it performed.",
 ["inputs","histories"],"every combination of limits, every set of stored trials, every sequence of evaluations",
 "Tests fix one limit at a time on runs of a few trials; the criteria form a product space with boundary cases.",
 ["neps/runtime.py","neps/state/settings.py"],
 [("stopping decision","neps/runtime.py: DefaultWorker._check_if_should_stop"),("accumulation","neps/runtime.py: DefaultWorker.run")],
 ["number of evaluations performed","stored trials"])
p("C08","A report states exactly what the evaluation returned",
 "For a successful evaluation the report carries the returned loss, cost, learning curve and all remaining returned entries unchanged, with configured defaults only where the user returned nothing; values that are not numbers are refused rather than stored. For a failed one it carries the configured on-error values, the exception and its traceback. In both cases the trial's state, end time and duration agree with the report, the user's configuration is passed through unchanged, and the shared cost budget grows by exactly the reported cost.",
 ["inputs"],"every returned value, every exception, every setting of the defaults",
 "Tests cover a few result shapes; the space of result dictionaries and defaults is open.",
 ["neps/state/_eval.py","neps/state/trial.py","neps/state/neps_state.py"],
 [("result parsing","neps/state/_eval.py: parse_user_result"),("evaluation","neps/state/_eval.py: evaluate_trial"),("report creation","neps/state/trial.py: Trial.set_complete"),("budget","neps/state/neps_state.py: report_trial_evaluation")],
 ["stored report, trial state, optimizer budget"])
p("C09","Failed evaluations are recorded and the error policy is obeyed",
 "An exception raised by the user's function never escapes unrecorded: the trial is stored as crashed with its report, and one entry with trial, worker, error type, message and traceback is appended to the shared error log, keeping all earlier entries. The worker then raises, stops or goes on exactly as its policy says: on its own errors for the worker policies, on anybody's recorded error for the any-error policies, never when errors are to be ignored. Errors of optimizers reading failed results follow the configured on-error loss and cost.",
 ["inputs","histories","fault_sequences"],"every policy, every exception, every history of errors by this and other workers",
 "Tests check four policies with one error type in one order.",
 ["neps/runtime.py","neps/state/_eval.py","neps/state/neps_state.py","neps/state/err_dump.py","neps/optimizers/base_optimizer.py"],
 [("policy","neps/runtime.py: _check_if_should_stop"),("error log","neps/state/neps_state.py: report_trial_evaluation"),("loss/cost on error","neps/optimizers/base_optimizer.py")],
 ["worker exit","stored trial and error log"])
p("C10","Sampling continues the run's shared random streams",
 "Every sampling step first installs the random-number state stored by the run's previous sampling step, by whichever worker, into all generators (Python, NumPy, Torch), before the optimizer draws anything, and afterwards stores the state the optimizer left behind. A snapshot captured and installed again reproduces the same subsequent draws. Hence a run's sequence of proposals does not depend on which worker samples or on random numbers used by evaluations in between.",
 ["schedules","histories"],"every interleaving of sampling and foreign use of the global generators",
 "Tests compare snapshots of one process; they do not interleave workers with foreign draws.",
 ["neps/state/neps_state.py","neps/state/seed_snapshot.py","neps/state/filebased.py"],
 [("restore, sample, recapture, store","neps/state/neps_state.py: sample_trial"),("snapshot","neps/state/seed_snapshot.py")],
 ["proposed configurations; stored seed state"])
p("C11","A hyperparameter never holds or produces an illegal value",
 "A float or integer hyperparameter's value and default always lie within its bounds (and are integral for integers), and a categorical's are among its choices: setting or loading anything else raises and leaves the previous value in place. Every value obtained by sampling (with or without prior), mutation, crossover, un-normalising any number in [0,1], or building a grid is legal, of the declared type, and copies are equal and independent of the original. Sampled, mutated and crossed-over configurations keep exactly the hyperparameters of their space.",
 ["inputs"],"all bounds, scales, choices, defaults, priors, random draws and values to set",
 "Tests use a few parameters and draws; rounding at log-scale bounds is not reached.",
 ["neps/search_spaces/hyperparameters/float.py","neps/search_spaces/hyperparameters/integer.py","neps/search_spaces/hyperparameters/numerical.py","neps/search_spaces/hyperparameters/categorical.py","neps/search_spaces/hyperparameters/constant.py","neps/search_spaces/search_space.py"],
 [("set/sample/mutate/normalise","neps/search_spaces/hyperparameters/*.py"),("configurations","neps/search_spaces/search_space.py")],
 ["value after set_value/sample/mutate/crossover/normalized_to_value/grid"])
p("C12","Numeric domain conversions stay in bounds and preserve values",
 "Converting any value of one numeric domain into another (linear, log, integer, binned, unit interval) yields a value inside the target domain, integral where the target is integral, and order is preserved. Converting to the unit interval and back returns the original value of a linear, unbinned integer domain exactly and of a continuous domain up to rounding error. Conversion between lists of domains treats each column by its own pair of domains.",
 ["inputs"],"all domains and all values inside the source domain",
 "Tests fix a table of domains and points.",
 ["neps/search_spaces/domain.py"],
 [("conversion","neps/search_spaces/domain.py: Domain.to_unit/from_unit/cast/translate")],
 ["converted tensors"])
p("C13","Encoding configurations and decoding them gives the configurations back",
 "For any search space, encoding any list of legal configurations into a tensor and decoding it returns the same configurations (categorical and linear-scale integer values exactly, floats up to rounding, log-scale integers up to the rounding of the log scale), including constants, independent of the order of hyperparameters. Each column belongs to one hyperparameter and lies in that column's declared domain. Decoding any tensor inside the declared domains gives legal configurations.",
 ["inputs","configurations"],"all search spaces, all lists of configurations, all tensors in the declared domains",
 "Tests encode one or two spaces with a few values.",
 ["neps/search_spaces/encoding.py","neps/search_spaces/domain.py"],
 [("transformers","neps/search_spaces/encoding.py")],
 ["decoded configurations"])
p("C14","Successive halving promotes only the best evaluated configurations",
 "A multi-fidelity optimizer promotes a configuration only from a rung at which its evaluation has finished (an ignored failure ranks behind every loss), and only if it is among the best of that rung: the asynchronous rule takes at most a fraction one in eta of the rung's current members, the synchronous rule at most the rung's quota minus those promoted already, once enough evaluations of it and higher rungs exist and none of the rung is unfinished. The promoted trial keeps its hyperparameters, names the evaluated trial of the rung below as predecessor, and runs exactly one rung higher. No configuration is promoted beyond the top rung or twice to the same rung. While a promotion is due, it is proposed instead of a new configuration (oldest bracket and highest rung first).",
 ["histories","inputs"],"every history of completed, failed and pending evaluations at all rungs",
 "Tests run a few fixed short runs of each algorithm.",
 ["neps/optimizers/multi_fidelity/promotion_policy.py","neps/optimizers/multi_fidelity/successive_halving.py","neps/optimizers/multi_fidelity/hyperband.py"],
 [("promotion rules","neps/optimizers/multi_fidelity/promotion_policy.py"),("rung state and proposal","neps/optimizers/multi_fidelity/successive_halving.py")],
 ["proposed configuration, id and predecessor"])
p("C15","Fidelities follow a geometric ladder inside the declared bounds",
 "For any fidelity bounds, reduction factor and early-stopping rate, the fidelities an optimizer may assign form one value per rung, as many rungs as fit between the bounds, strictly increasing, the top rung at the upper bound, each lower rung the next one divided by the factor (rounded down for integers), and every one inside the declared bounds. The number of configurations planned per rung shrinks by the factor from rung to rung and is at least one at the top. Every proposed trial carries the fidelity of the rung named in its id.",
 ["inputs","configurations"],"all bounds, factors, early stopping rates, integer and float fidelities",
 "Tests use a few round bounds; float rounding at the lowest rung is not reached.",
 ["neps/optimizers/multi_fidelity/successive_halving.py","neps/optimizers/multi_fidelity/hyperband.py"],
 [("ladder","neps/optimizers/multi_fidelity/successive_halving.py: _get_rung_map/_get_config_map")],
 ["fidelity value of proposals"])
p("C16","The status summary agrees with the stored trials",
 "The summary of a run counts every stored trial exactly once by what is stored for it: evaluated if it has a report, failed if that report is an error, pending if it is waiting or being evaluated, with-worker if being evaluated. The best loss is the minimum over all successfully reported losses, ignoring failures and NaN, and the best configuration, id and metadata belong to a trial with that loss. Reading the summary changes nothing in the run.",
 ["histories"],"every set of stored trials in every state with every loss",
 "Tests look at runs in which every trial is complete.",
 ["neps/status/status.py"],[("summary","neps/status/status.py: get_summary_dict, status")],["summary dictionary"])
p("C17","Opening a run directory never overwrites the run it holds",
 "Opening a directory that holds a run gives access to exactly the stored trials, optimizer state, seed state and errors, whatever initial state the caller passes, and writes none of them; if the stored optimizer description differs from the caller's it is refused and nothing changes. Opening a new or empty directory creates a run with the caller's initial state. Only an explicit overwrite request deletes an existing run, and only that directory.",
 ["histories","configurations"],"every stored run and every pair of stored and passed optimizer info and state",
 "Tests open one existing directory with one state.",
 ["neps/state/filebased.py","neps/runtime.py"],[("create or load","neps/state/filebased.py: create_or_load_filebased_neps_state, load_filebased_neps_state"),("overwrite","neps/runtime.py: _launch_runtime")],["stored files before and after"])
p("C18","A YAML search space means the same as the Python one",
 "A search space given as YAML or dictionary yields, for each entry, the hyperparameter of the stated or deducible type with exactly the given bounds, scale, fidelity flag, default, confidence and choices, numbers in exponent notation included. An entry with missing, unknown, mistyped or contradictory keys is refused with the documented error rather than guessed.",
 ["inputs"],"all parameter descriptions",
 "Tests have one YAML file per case.",
 ["neps/search_spaces/yaml_search_space_utils.py","neps/search_spaces/search_space.py"],[("type deduction and formatting","neps/search_spaces/yaml_search_space_utils.py"),("construction","neps/search_spaces/search_space.py: pipeline_space_from_yaml")],["constructed hyperparameters"])
p("C19","Settings given to a run reach the worker unchanged",
 "Every limit, error option and hook passed to a run, as arguments or by a configuration file, is the one its worker obeys: total and per-worker evaluation limits, cost limit, whether running evaluations count, ignore-errors versus raise, loss and cost on error, overwrite, and the sampling hooks in order. An option given in neither place has its documented default.",
 ["configurations"],"all combinations of arguments and configuration file entries",
 "Tests check a few combinations of arguments end to end.",
 ["neps/runtime.py","neps/api.py","neps/utils/run_args.py"],[("wiring","neps/runtime.py: _launch_runtime; neps/api.py: run; neps/utils/run_args.py")],["settings of the worker"])
p("C20","Grid search proposes every grid point exactly once",
 "Over a run, however many workers take part and however often it is resumed, grid search proposes each distinct point of the grid of the space exactly once and then declares itself exhausted. The grid is the product of all choices, constants and evenly spaced legal values of each numeric hyperparameter including both ends, without duplicates.",
 ["histories","configurations"],"all spaces, resolutions, numbers of already stored trials, seeds",
 "Tests run a handful of grid points.",
 ["neps/optimizers/grid_search/optimizer.py","neps/search_spaces/search_space.py"],[("proposal by number of stored trials","neps/optimizers/grid_search/optimizer.py: ask"),("grid","neps/search_spaces/search_space.py: get_search_space_grid")],["sequence of proposed configurations"])
p("C21","The trial in progress is visible during its evaluation and never after",
 "While the user's function runs, the process exposes exactly the trial being evaluated and the run it belongs to, with its start time and worker recorded; before the first and after each evaluation, however it ended (including interruption), no trial is exposed, and a later run in the same process works. Trial-end callbacks are each called once per finished evaluation with that trial. Resetting a trial returns it to pending, keeping its identity and forgetting its evaluation.",
 ["histories","fault_sequences"],"every evaluation outcome, including interruption, and every sequence of runs in a process",
 "Tests only look at evaluations that end normally.",
 ["neps/runtime.py","neps/state/trial.py"],[("process-wide trial","neps/runtime.py: _set_global_trial, get_in_progress_trial"),("trial transitions","neps/state/trial.py")],["get_in_progress_trial during and after runs"])
p("C22","A run survives a worker killed at any point",
 "If a worker process is killed at any instant, the remaining and later workers can still read the run, no stored result is corrupted, and at most the trial it was evaluating stays unfinished.",
 ["crash_points"],"every instruction or system call at which a worker may die",
 "No test kills a worker.",
 ["neps/state/filebased.py","neps/state/protocols.py","neps/utils/files.py"],[("lock files released by the OS","neps/state/filebased.py: FileLocker")],["run directory after the kill"])
p("C23","Workers keep making progress",
 "As long as no limit is reached, the optimizer can propose and locks are eventually released, every worker eventually evaluates another trial, and no set of workers waits for each other for ever.",
 ["schedules"],"all fair schedules",
 "Tests are finite runs.",
 ["neps/runtime.py","neps/state/neps_state.py"],[("fixed lock order","neps/state/neps_state.py")],["worker progress"])
p("C24","Model-based proposals optimise their acquisition function",
 "Bayesian and freeze-thaw optimizers fit their surrogate to exactly the reported results and propose a maximiser of the acquisition function, weighted by priors and cost as configured.",
 ["inputs","histories"],"all histories of results",
 "Tests run a few iterations.",
 ["neps/optimizers/bayesian_optimization/optimizer.py","neps/optimizers/bayesian_optimization/models/gp.py","neps/optimizers/multi_fidelity/ifbo.py"],[("surrogate and acquisition","neps/optimizers/bayesian_optimization/models/gp.py")],["proposed configuration"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
    print(x['id'],x['title'], x['statement'].count('. ')+1)
