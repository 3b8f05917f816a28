"""C19 settings given to a run reach the worker unchanged."""
# instrument: neps.runtime neps.utils.run_args neps.state._eval neps.state.trial neps.state.neps_state neps.state.err_dump neps.state.optimizer neps.optimizers.base_optimizer
import argparse
import contextlib
import io
import typing
from pathlib import Path

import neps.api as API
import neps.runtime as R
import neps.utils.cli as CLI
import neps.utils.run_args as A
from neps.optimizers.base_optimizer import BaseOptimizer
from neps.state.settings import OnErrorPossibilities as O
from pyvc.contract import contract
from pyvc.core import Unsupported, cur
from pyvc.rt import Coll, SymSeq
from pyvc.stubs import Ghost, patched
from pyvc import values
from pyvc.values import And, Iff, Not, SymVal, boolval, intval, realval, same, val
from pyvc.z3load import z3
import contracts.c07  # noqa: F401  (the worker obeys its settings: shared with C07)
import contracts.c06  # noqa: F401  (hooks are applied when sampling)

# what neps.run documents, by name of the argument
DEFAULTS = dict(run_pipeline=None, root_directory=None, pipeline_space=None, overwrite_working_directory=False, post_run_summary=True,
                development_stage_id=None, task_id=None, max_evaluations_total=None, max_evaluations_per_run=None,
                continue_until_max_evaluation_completed=False, max_cost_total=None, ignore_errors=False, loss_value_on_error=None,
                cost_value_on_error=None, pre_load_hooks=None, searcher="default")
KEYS = list(DEFAULTS)
# a worker obeys these, by name of the argument of run
FLAGS = ("overwrite_working_directory", "post_run_summary", "continue_until_max_evaluation_completed", "ignore_errors")


class Hook(Ghost):
    def __init__(self, n):
        self.n = n
        self.__name__ = f"hook_{9 - n}" if type(n) is int else n      # not in the order they are given

    def __call__(self, o):
        return o


def pipeline(**k):
    return 0.0


def value_of(key, tag=""):
    """An arbitrary legal value of an argument."""
    n = key + tag
    if key in FLAGS:
        return boolval(n)
    if key in ("max_evaluations_total", "max_evaluations_per_run"):
        x = intval(n)
        cur().assume((x >= 1).z)
        return x
    if key == "max_cost_total":
        x = realval(n)
        cur().assume((x > 0).z)
        return x
    if key in ("loss_value_on_error", "cost_value_on_error"):
        return realval(n)
    if key == "run_pipeline":
        return lambda **k: 1.0
    if key == "pipeline_space":
        return {"x" + tag: object()}
    if key == "pre_load_hooks":
        return [Hook(n + "1"), Hook(n + "2")]
    if key == "root_directory":
        return "/nowhere" + tag
    if key in ("development_stage_id", "task_id"):
        return "id" + tag
    if key == "searcher":
        return "random_search" + tag
    raise AssertionError(key)


def eq(a, b):
    if a is b:
        return True
    if type(a) is dict or type(a) is list or type(a) is str or callable(a) or a is None or b is None or type(a) is bool and type(b) is bool:
        return type(a) is type(b) and a == b
    return same(a, b)


# -- what the worker is made of ----------------------------------------------------------------------------------------
def hook_list(vc):
    """None, an empty list, a generator, or any number of hooks."""
    k = vc.choose(4, "hooks")
    if k == 0:
        return None, None
    if k == 1:
        return [], []
    if k == 2:
        h = [Hook(i) for i in range(3)]
        return iter(h), h
    f = z3.Function(cur().name("hook"), z3.IntSort(), values.V)
    s = SymSeq(Coll("hooks"), lambda i: SymVal(f(i)))
    return s, s


@contract("C19", "neps.runtime._launch_runtime", "neps.runtime.DefaultWorker.new")
def launch(vc):
    """Every setting of the worker is the one the run was given."""
    a = dict(max_cost_total=[None, realval("max_cost")][vc.choose(2, "max_cost")], ignore_errors=boolval("ignore_errors"),
             loss_value_on_error=[None, realval("loss")][vc.choose(2, "loss")],
             cost_value_on_error=[None, realval("cost")][vc.choose(2, "cost")],
             continue_until_max_evaluation_completed=boolval("continue"),
             max_evaluations_total=[None, intval("total")][vc.choose(2, "total")],
             max_evaluations_for_worker=[None, intval("per worker")][vc.choose(2, "per worker")])
    hooks, want = hook_list(vc)
    fn, opt, info, state = pipeline, val("optimizer"), {"a": val("info")}, val("state")
    made, ran = [], []
    path = val("directory")

    def create(**k):
        made.append(k)
        return state

    class Dir(Ghost):
        def exists(self):
            return True

    d = Dir()
    new = R.DefaultWorker.new
    with patched(R, create_or_load_filebased_neps_state=create), patched(R.DefaultWorker, run=lambda self: ran.append(self)):
        st, e = vc.call(R._launch_runtime, evaluation_fn=fn, optimizer=opt, optimizer_info=info, optimization_dir=d,
                        overwrite_optimization_dir=False, pre_load_hooks=hooks, **a)
    vc.prove(st == "ok" and len(ran) == 1 and len(made) == 1, "one worker runs on the opened run")
    if st != "ok" or len(ran) != 1 or len(made) != 1:
        return
    w, s = ran[0], ran[0].settings
    k = made[0]
    vc.prove(w.state is state and w.evaluation_fn is fn and w.optimizer is opt, "the worker has the run's state, function and optimizer")
    vc.prove(k["directory"] is d and k["optimizer_info"].info is info, "the run is opened where and with what was asked for")
    b = k["optimizer_state"].budget
    vc.prove(And(eq(b.max_cost_budget, a["max_cost_total"]), eq(b.max_evaluations, a["max_evaluations_total"]),
                 b.used_cost_budget == 0, b.used_evaluations == 0), "the optimizer's budget is the run's")
    vc.prove(Iff(a["ignore_errors"], s.on_error is O.IGNORE), "errors are ignored if asked for")
    vc.prove(Iff(Not(a["ignore_errors"]), s.on_error is O.RAISE_ANY_ERROR), "errors are raised otherwise")
    v = s.default_report_values
    vc.prove(eq(v.loss_value_on_error, a["loss_value_on_error"]), "loss on error")
    vc.prove(eq(v.cost_value_on_error, a["cost_value_on_error"]), "cost on error")
    vc.prove(v.cost_if_not_provided is None and v.learning_curve_on_error is None and v.learning_curve_if_not_provided == "loss",
             "other report values have their defaults")
    vc.prove(eq(s.max_evaluations_total, a["max_evaluations_total"]), "total evaluation limit")
    vc.prove(eq(s.max_evaluations_for_worker, a["max_evaluations_for_worker"]), "per-worker evaluation limit")
    vc.prove(eq(s.max_cost_total, a["max_cost_total"]), "cost limit")
    vc.prove(Iff(s.include_in_progress_evaluations_towards_maximum, Not(a["continue_until_max_evaluation_completed"])),
             "whether running evaluations count")
    vc.prove(s.max_cost_for_worker is None and s.max_evaluation_time_total_seconds is None
             and s.max_evaluation_time_for_worker_seconds is None and s.max_wallclock_time_for_worker_seconds is None,
             "no limit that was not given")
    h = w._pre_sample_hooks
    if want is None:
        vc.prove(not h, "no hooks")
    elif type(want) is list:
        vc.prove(h is not None and len(h) == len(want) and all(x is y for x, y in zip(h, want)), "the hooks in their order")
    else:
        n = len_of(h)
        vc.prove(n == len_of(want), "as many hooks as given")
        i = intval("i")
        cur().assume(And(i >= 0, i < len_of(want)).z)
        vc.prove(h.ordered and z3.is_true(z3.simplify(h.guard(i.z))) and same(h.elem(i.z), want.elem(i.z)), "the hooks in their order")
    vc.cover("launched")


def len_of(x):
    return x.vc_len() if hasattr(type(x), "vc_len") else len(x)


@contract("C19", "neps.runtime.DefaultWorker.run", "neps.runtime.DefaultWorker._get_next_trial_from_state", "neps.runtime.DefaultWorker.new")
def worker_uses(vc):
    """The worker samples with its own optimizer and hooks."""
    from contracts import workerrun
    workerrun.worker_run(vc)


# -- arguments and configuration file ----------------------------------------------------------------------------------
HOW = ("default", "argument", "file", "both")


def situation(vc, status):
    """Arguments as neps.run has them in locals(), and what the file says."""
    args, file, want = {}, {}, {}
    for k in KEYS:
        h = status[k]
        if h in ("argument", "both"):
            args[k] = want[k] = value_of(k, ".arg")
        else:
            args[k] = A.Default(DEFAULTS[k])
        if h in ("file", "both"):
            file[k] = value_of(k, ".file")
            if h == "file":
                want[k] = file[k]
        if h == "default":
            want[k] = DEFAULTS[k]
    return args, file, want


def essential(status):
    """run refuses to start without these."""
    return (all(status[k] != "default" for k in ("run_pipeline", "root_directory", "pipeline_space"))
            and any(status[k] != "default" for k in ("max_evaluations_total", "max_cost_total")))


def statuses(vc):
    """Two arguments in any of the four ways, the others all in one."""
    pairs = [(a, b) for i, a in enumerate(KEYS) for b in KEYS[i + 1:]]
    a, b = pairs[vc.choose(len(pairs), "which")]
    rest = HOW[vc.choose(4, "others")]
    status = {k: rest for k in KEYS}
    if rest == "default":
        for k in ("run_pipeline", "root_directory", "pipeline_space", "max_evaluations_total"):
            status[k] = "argument"
    status[a] = HOW[vc.choose(4, "first")]
    status[b] = HOW[vc.choose(4, "second")]
    return status


def check_settings(vc, s, want, kwargs):
    for k in KEYS:
        vc.prove(eq(getattr(s, k), want[k]), f"{k}: the argument, else the file's entry, else the documented default")
    vc.prove(s.searcher_kwargs == kwargs, "searcher arguments")


@contract("C19", "neps.utils.run_args.Settings.__init__", "neps.utils.run_args.Settings.merge", "neps.utils.run_args.Settings.assign",
          "neps.utils.run_args.Settings.check", "neps.utils.run_args.check_essential_arguments", max_paths=20000)
def merging(vc):
    """Arguments take precedence over the file, the file over the defaults."""
    status = statuses(vc)
    args, file, want = situation(vc, status)
    use_file = any(h in ("file", "both") for h in status.values())
    how = vc.choose(2, "searcher kwargs")
    args["searcher_kwargs"] = {"a": 1, "b": 2} if how else {}
    kw = dict(args["searcher_kwargs"])
    args["run_args"] = "file.yaml" if use_file else A.Default(None)
    if use_file and how:
        file["searcher_kwargs"] = {"b": 3, "c": 4}
        kw = {"a": 1, "b": 2, "c": 4}
    with patched(A, get_run_args_from_yaml=lambda p: dict(file)):
        st, s = vc.call(A.Settings, args, args["run_args"])
    if essential(status):
        vc.prove(st == "ok", "complete settings are accepted")
        if st == "ok":
            check_settings(vc, s, want, kw)
        vc.cover("file" if use_file else "arguments")
    else:
        vc.prove(st == "exc" and isinstance(s, ValueError), "without the essentials the run is refused")
        vc.cover("refused")


# -- the configuration file --------------------------------------------------------------------------------------------
SIMPLE = {"root_directory": "str", "max_evaluations_total": "int", "max_cost_total": "number", "overwrite_working_directory": "bool",
          "post_run_summary": "bool", "development_stage_id": "any", "task_id": "any", "max_evaluations_per_run": "int",
          "continue_until_max_evaluation_completed": "bool", "loss_value_on_error": "float", "cost_value_on_error": "float",
          "ignore_errors": "bool"}
KINDS = {"str": ("str",), "int": ("int", "bool"), "number": ("int", "float", "bool"), "bool": ("bool",), "float": ("float",),
         "any": ("str", "int", "float", "bool", "list")}


def text(n):
    """Any text but the one that stands for an empty entry."""
    t = val(n, str)
    cur().assume(Not(same(t, "None")).z)
    return t


def of_kind(kind, n):
    return {"str": lambda: text(n), "int": lambda: intval(n), "float": lambda: realval(n), "bool": lambda: boolval(n),
            "list": lambda: [val(n)], "none": lambda: None, "None": lambda: "None"}[kind]()


SPECIAL = {"run_pipeline": {"path": "p.py", "name": "f"}, "pre_load_hooks": {"h1": "a.py", "h2": "b.py", "h0": "c.py"},
           "pipeline_space": {"x": {"lower": 0, "upper": 1}}, "searcher": {"strategy": "random_search", "group": {"n": None}}}


def read_file(vc, doc):
    loaded = []

    def load(path, name, key):
        loaded.append((path, name, key))
        return {"run_pipeline": pipeline, "pre_load_hooks": Hook(name)}.get(key, pipeline)

    def space(d):
        loaded.append(("space", d))
        return {"made from": d}
    with patched(A, config_loader=lambda p: doc, load_and_return_object=load, pipeline_space_from_yaml=space):
        st, s = vc.call(A.get_run_args_from_yaml, "file.yaml")
    return st, s, loaded


def nest(doc, how):
    """The same entries, grouped."""
    if how == 0:
        return dict(doc)
    items = list(doc.items())
    if how == 1:
        return {"group": dict(items)}
    return {**dict(items[::2]), "group": {"inner": dict(items[1::2])}}


@contract("C19", "neps.utils.run_args.get_run_args_from_yaml", "neps.utils.run_args.extract_leaf_keys",
          "neps.utils.run_args.check_run_args", max_paths=20000)
def file_entries(vc):
    """Each entry of the file is taken as it is, or refused; empty ones are as if not there."""
    keys = list(SIMPLE)
    k = keys[vc.choose(len(keys), "which")]
    kind = ("str", "int", "float", "bool", "list", "none", "None")[vc.choose(7, "kind")]
    doc = {}
    if vc.choose(2, "others"):
        doc = {o: of_kind(KINDS[SIMPLE[o]][0], o) for o in keys if o != k}
    v = of_kind(kind, k)
    items = list({**doc, k: v}.items()) if vc.choose(2, "last") else list({k: v, **doc}.items())
    st, s, loaded = read_file(vc, nest(dict(items), vc.choose(3, "grouped")))
    empty = kind in ("none", "None")
    fits = kind in KINDS[SIMPLE[k]]
    if fits or empty:
        vc.prove(st == "ok", "entries of the right type are accepted")
        if st == "ok":
            want = dict(doc) if empty else dict(items)
            vc.prove(set(s) == set(want), "exactly the entries of the file, empty ones apart")
            vc.prove(And(True, *[eq(s[x], want[x]) for x in want if x in s]), "each as it is in the file")
        vc.cover("empty" if empty else "accepted")
    elif kind == "list" or st == "exc":
        vc.prove(st == "exc" and isinstance(s, TypeError), "an entry of another type is refused")
        vc.cover("refused")
    else:
        vc.prove(st == "ok" and eq(s.get(k), v), "an entry of another type is refused, or taken as it is")
    vc.prove(not loaded, "nothing is loaded that the file does not name")


@contract("C19", "neps.utils.run_args.get_run_args_from_yaml", "neps.utils.run_args.handle_special_argument_cases",
          "neps.utils.run_args.load_hooks_from_config", "neps.utils.run_args.process_run_pipeline",
          "neps.utils.run_args.process_pipeline_space", "neps.utils.run_args.process_searcher")
def file_objects(vc):
    """Functions, spaces, searchers and hooks named in the file."""
    import copy
    keys = list(SPECIAL)
    doc = {k: copy.deepcopy(v) for k, v in SPECIAL.items() if vc.choose(2, k)}
    extra = {"max_evaluations_total": intval("n"), "task_id": text("t")} if vc.choose(2, "more") else {}
    st, s, loaded = read_file(vc, nest({**doc, **extra}, vc.choose(3, "grouped")))
    vc.prove(st == "ok", "the file is accepted")
    if st != "ok":
        return
    vc.prove(set(s) == set(doc) | set(extra), "exactly what the file has")
    for x in extra:
        vc.prove(eq(s[x], extra[x]), "simple entries as they are")
    want = []
    if "run_pipeline" in doc:
        vc.prove(s["run_pipeline"] is pipeline, "the function named")
        want.append(("p.py", "f", "run_pipeline"))
    if "pipeline_space" in doc:
        vc.prove(s["pipeline_space"] == {"made from": SPECIAL["pipeline_space"]}, "the space described")
        want.append(("space", SPECIAL["pipeline_space"]))
    if "searcher" in doc:
        vc.prove(s["searcher"] == SPECIAL["searcher"], "the searcher described, entry by entry")
    if "pre_load_hooks" in doc:
        vc.prove([h.n for h in s["pre_load_hooks"]] == ["h1", "h2", "h0"], "the hooks named, in their order")
        want += [("a.py", "h1", "pre_load_hooks"), ("b.py", "h2", "pre_load_hooks"), ("c.py", "h0", "pre_load_hooks")]
    vc.prove(loaded == want or sorted(map(repr, loaded)) == sorted(map(repr, want)), "each object is loaded once, from where the file says")
    vc.cover("read")


@contract("C19", "neps.utils.run_args.get_run_args_from_yaml")
def file_unknown(vc):
    """An entry that is no argument of a run is refused."""
    bad = ("max_evaluation_total", "budget", "working_directory", "Ignore_errors", "max_evaluations_total ", "searcher_kwargs")[vc.choose(6, "bad")]
    doc = {"max_evaluations_total": intval("n"), bad: intval("v")} if vc.choose(2, "with") else {bad: intval("v")}
    st, s, _ = read_file(vc, nest(doc, vc.choose(3, "grouped")))
    vc.prove(st == "exc" and isinstance(s, KeyError), "an unknown entry is refused")
    vc.cover("refused")


# -- neps.run ----------------------------------------------------------------------------------------------------------
class Searcher(BaseOptimizer):
    def __init__(self):
        pass

    def ask(self, trials, budget_info=None):
        raise AssertionError

    def whoami(self):
        return "mine"


@contract("C19", "neps.api.run", "neps.utils.run_args.Settings.__init__", max_paths=20000)
def api_run(vc):
    """What neps.run hands on is the argument, else the file's entry, else the documented default."""
    one = KEYS[vc.choose(len(KEYS), "which")]
    rest = HOW[vc.choose(4, "others")]
    status = {k: rest for k in KEYS}
    if rest == "default":
        for k in ("run_pipeline", "root_directory", "pipeline_space", "max_evaluations_total"):
            status[k] = "argument"
    status[one] = HOW[vc.choose(4, "how")]
    if not essential(status):
        return
    args, file, want = situation(vc, status)
    instance = Searcher() if vc.choose(2, "instance") and status["searcher"] in ("argument", "both") else None
    if instance is not None:
        args["searcher"] = want["searcher"] = instance
    given = {k: v for k, v in args.items() if not isinstance(v, A.Default)}
    if any(h in ("file", "both") for h in status.values()):
        given["run_args"] = "file.yaml"
    kw = {"initial_design_size": 5} if vc.choose(2, "searcher kwargs") else {}
    budget = None
    if vc.choose(2, "deprecated budget"):
        budget = realval("old budget")
        cur().assume((budget > 0).z)
    built, launched, summaries = [], [], []

    def build(**k):
        built.append(k)
        return "the searcher", {"the": "info"}
    with patched(A, get_run_args_from_yaml=lambda p: dict(file)), \
            patched(API, _run_args=build, _launch_runtime=lambda **k: launched.append(k),
                    post_run_csv=lambda d: summaries.append(d) or ("a", "b")):
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            st, e = vc.call(API.run, **given, **kw, **({"budget": budget} if budget is not None else {}))
    vc.prove(st == "ok" and len(launched) == 1, "the run is launched")
    if st != "ok" or len(launched) != 1:
        return
    if budget is not None:
        want["max_cost_total"] = budget
    k = launched[0]
    for a, b in (("run_pipeline", "evaluation_fn"), ("max_cost_total", "max_cost_total"),
                 ("max_evaluations_total", "max_evaluations_total"), ("max_evaluations_per_run", "max_evaluations_for_worker"),
                 ("continue_until_max_evaluation_completed", "continue_until_max_evaluation_completed"),
                 ("loss_value_on_error", "loss_value_on_error"), ("cost_value_on_error", "cost_value_on_error"),
                 ("ignore_errors", "ignore_errors"), ("overwrite_working_directory", "overwrite_optimization_dir")):
        vc.prove(eq(k[b], want[a]), f"{a} is handed on as given")
    h = list(k["pre_load_hooks"] or [])
    vc.prove(h == (want["pre_load_hooks"] or []), "the hooks are handed on in their order")
    root = Path(want["root_directory"])
    if want["task_id"] is not None:
        root = root / f"task_{want['task_id']}"
    if want["development_stage_id"] is not None:
        root = root / f"dev_{want['development_stage_id']}"
    vc.prove(k["optimization_dir"] == root, "the run lives in the directory asked for, task and stage included")
    if instance is None:
        vc.prove(k["optimizer"] == "the searcher" and k["optimizer_info"] == {"the": "info"} and len(built) == 1, "the searcher built is used")
        if len(built) == 1:
            b = built[0]
            for a in ("pipeline_space", "max_cost_total", "ignore_errors", "loss_value_on_error", "cost_value_on_error", "searcher"):
                vc.prove(eq(b[a], want[a]), f"{a} reaches the searcher as given")
            vc.prove({x: y for x, y in b.items() if x in ("initial_design_size", "budget")} == kw, "searcher arguments reach the searcher")
    else:
        vc.prove(k["optimizer"] is instance and not built, "the searcher instance given is used")
    want_summary = want["post_run_summary"]
    vc.prove(Iff(want_summary, len(summaries) == 1) if not isinstance(want_summary, bool) else want_summary == (len(summaries) == 1),
             "the summary is written if asked for")
    vc.prove(all(Path(d) == root for d in summaries), "for this run")
    vc.cover("launched")


class Space(dict):
    pass


@contract("C19", "neps.api._run_args")
def build_searcher(vc):
    """The searcher is built with the run's settings and the arguments given for it."""
    import warnings
    from neps import Float
    how = vc.choose(4, "searcher")
    searcher = ["random_search", "default", None, {"strategy": "random_search", "own": 1}][how]
    kw = [{}, {"p": val("p"), "q": 2}][vc.choose(2, "kwargs")]
    made = []

    def data(name, **k):
        return {"strategy": "random_search", "p": 0}, "from file"

    def mapped(mapping, name, what, as_class=False):
        def cls(**k):
            made.append((name, k))
            return "instance"
        return cls
    cost, ign = [None, realval("cost")][vc.choose(2, "cost")], boolval("ignore")
    loss, oncost = [None, realval("loss")][vc.choose(2, "loss")], [None, realval("on cost")][vc.choose(2, "on cost")]
    info = {"searcher_name": "", "searcher_alg": "", "searcher_selection": "", "neps_decision_tree": True, "searcher_args": {}}
    with patched(API, get_searcher_data=data, instance_from_map=mapped, get_value=lambda x: x), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        st, r = vc.call(API._run_args, searcher_info=info, pipeline_space={"x": Float(0, 1)}, max_cost_total=cost, ignore_errors=ign,
                        loss_value_on_error=loss, cost_value_on_error=oncost, searcher=searcher, **kw)
    vc.prove(st == "ok" and len(made) == 1, "one searcher is built")
    if st != "ok" or len(made) != 1:
        return
    name, k = made[0]
    vc.prove(r[0] == "instance" and name == "random_search", "the one asked for")
    vc.prove(eq(k["budget"], cost) and True, "its budget is the cost limit")
    vc.prove(eq(k["loss_value_on_error"], loss), "loss on error reaches the searcher")
    vc.prove(eq(k["cost_value_on_error"], oncost), "cost on error reaches the searcher")
    vc.prove(eq(k["ignore_errors"], ign), "ignore_errors reaches the searcher")
    vc.prove(list(k["pipeline_space"].hyperparameters) == ["x"], "the space reaches the searcher")
    rest = {x: y for x, y in k.items() if x not in ("budget", "loss_value_on_error", "cost_value_on_error", "ignore_errors", "pipeline_space")}
    want = {"p": 0}
    if how == 3:
        want["own"] = 1
    if how in (0, 3):
        want.update(kw)                     # not when NePS chooses the searcher itself
    vc.prove(rest.keys() == want.keys() and And(True, *[eq(rest[x], want[x]) for x in want]), "the searcher's own arguments")
    vc.cover("built")


@contract("C19", "neps.utils.cli.run_optimization")
def command_line(vc):
    """The command line hands every option on."""
    given = {}
    options = [k for k in KEYS + ["run_args"] if k not in ("run_pipeline", "pre_load_hooks")]
    one, alone, others = options[vc.choose(len(options), "which")], vc.choose(2, "one"), vc.choose(2, "others")
    for k in options:
        use = alone if k == one else others
        given[k] = ("file" if k == "run_args" else value_of(k)) if use else A.Default(DEFAULTS.get(k))
    pipe = vc.choose(2, "function")
    ns = argparse.Namespace(**given, run_pipeline="m.py:fn" if pipe else A.Default(None), searcher_kwargs=None)
    got, loaded = [], []

    class Neps(Ghost):
        def run(self, **k):
            got.append(k)

    class Logging(Ghost):
        INFO = 1

        def basicConfig(self, **k):
            pass

    def load(path, name, key):
        loaded.append((path, name))
        return pipeline
    with patched(CLI, neps=Neps(), load_and_return_object=load, logging=Logging()), \
            contextlib.redirect_stdout(io.StringIO()):
        st, e = vc.call(CLI.run_optimization, ns)
    vc.prove(st == "ok" and len(got) == 1, "a run is started")
    if st != "ok" or len(got) != 1:
        return
    k = got[0]
    for x in given:
        vc.prove(x in k and (k[x] is given[x] or eq(k[x], given[x])), f"{x} is handed on")
    vc.prove(k["run_pipeline"] is pipeline and loaded == [("m.py", "fn")] if pipe else isinstance(k["run_pipeline"], A.Default),
             "the function named")
    vc.prove(set(k) <= set(given) | {"run_pipeline"}, "and nothing else")
    vc.cover("run")
