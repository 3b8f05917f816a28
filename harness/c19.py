from __future__ import annotations

import contextlib
import copy
import io
import logging
import os
import sys
import warnings
from pathlib import Path

import yaml

import neps
import neps.runtime as RT
import runkit as R
from hlib import case
from neps.state.settings import OnErrorPossibilities as O

logging.disable(logging.CRITICAL)
warnings.simplefilter("ignore")
SPACE = {"x": {"lower": 0.0, "upper": 1.0}}
MODULE = '''
calls = []
def fn(x):
    return x
def other(x):
    return -x
def h1(o):
    return o
def h2(o):
    return o
def h3(o):
    return o
'''
DEFAULTS = dict(overwrite_working_directory=False, post_run_summary=True, development_stage_id=None, task_id=None,
                max_evaluations_total=None, max_evaluations_per_run=None, continue_until_max_evaluation_completed=False,
                max_cost_total=None, ignore_errors=False, loss_value_on_error=None, cost_value_on_error=None)


def a_value(rng, k):
    if k in ("overwrite_working_directory", "post_run_summary", "continue_until_max_evaluation_completed", "ignore_errors"):
        return rng.random() < 0.5
    if k in ("max_evaluations_total", "max_evaluations_per_run"):
        return rng.choice([1, 2, 7, 1000])
    if k == "max_cost_total":
        return rng.choice([1, 0.5, 1e-9, 250.0])
    if k in ("loss_value_on_error", "cost_value_on_error"):
        return rng.choice([0.0, 1.0, -3.5, 1e9, 0.1])
    return rng.choice(["a", "B_2", 0, 3])


class Caught(Exception):
    pass


@contextlib.contextmanager
def caught(run=False):
    """The workers started, instead of (or besides) being run."""
    got = []
    old = RT.DefaultWorker.run

    def run_(self):
        got.append(self)
        if run:
            return old(self)
        return None
    RT.DefaultWorker.run = run_
    try:
        yield got
    finally:
        RT.DefaultWorker.run = old


def grouped(rng, doc):
    """The entries of a file, in groups or not."""
    k = rng.randrange(3)
    if k == 0:
        return doc
    items = list(doc.items())
    rng.shuffle(items)
    if k == 1:
        return {"a": dict(items)}
    n = rng.randrange(len(items) + 1)
    return {"g": {**dict(items[:n])}, "h": {"i": dict(items[n:])}} if items[:n] and items[n:] else dict(items)


def check_worker(ctx, w, want, d, **data):
    s = w.settings
    root = Path(d)
    if want["task_id"] is not None:
        root = root / f"task_{want['task_id']}"
    if want["development_stage_id"] is not None:
        root = root / f"dev_{want['development_stage_id']}"
    ctx.eq(Path(w.state.location), root.absolute().resolve(), "the run's directory", **data)
    ctx.eq(s.max_evaluations_total, want["max_evaluations_total"], "max_evaluations_total", **data)
    ctx.eq(s.max_evaluations_for_worker, want["max_evaluations_per_run"], "max_evaluations_per_run", **data)
    ctx.eq(s.max_cost_total, want["max_cost_total"], "max_cost_total", **data)
    ctx.eq(s.include_in_progress_evaluations_towards_maximum, not want["continue_until_max_evaluation_completed"],
           "continue_until_max_evaluation_completed", **data)
    ctx.check(s.on_error is (O.IGNORE if want["ignore_errors"] else O.RAISE_ANY_ERROR), "ignore_errors", got=s.on_error, **data)
    ctx.eq(s.default_report_values.loss_value_on_error, want["loss_value_on_error"], "loss_value_on_error", **data)
    ctx.eq(s.default_report_values.cost_value_on_error, want["cost_value_on_error"], "cost_value_on_error", **data)
    ctx.eq(s.default_report_values.cost_if_not_provided, None, "no default cost", **data)
    for n in ("max_cost_for_worker", "max_evaluation_time_total_seconds", "max_evaluation_time_for_worker_seconds",
              "max_wallclock_time_for_worker_seconds"):
        ctx.eq(getattr(s, n), None, f"{n}: not given", **data)
    b = w.state.optimizer_state().budget
    ctx.eq(b and (b.max_cost_budget, b.max_evaluations), (want["max_cost_total"], want["max_evaluations_total"]), "budget", **data)
    return root


@case
def combinations(ctx):
    """Arguments, configuration files and both, against what the worker has."""
    rng = ctx.rng
    for k in range(ctx.n(70, 700)):
        top = ctx.dir()
        mod = top / f"mod{k}.py"
        mod.write_text(MODULE)
        args, file, want = {}, {}, dict(DEFAULTS)
        density = rng.choice([0.1, 0.5, 0.9])
        for n in DEFAULTS:
            h = rng.randrange(4) if rng.random() < density else 0
            if h & 2:
                file[n] = want[n] = a_value(rng, n)
            if h & 1:
                args[n] = want[n] = a_value(rng, n)
        if want["max_evaluations_total"] is None and want["max_cost_total"] is None:
            (args if rng.random() < 0.5 else file)["max_evaluations_total"] = want["max_evaluations_total"] = 3
        empty = [n for n in DEFAULTS if n not in file and rng.random() < 0.2]
        for n in empty:
            file[n] = None
        d = str(top / "root")
        (args if rng.random() < 0.5 else file)["root_directory"] = d
        hooks = None
        h = rng.randrange(4)
        names = ["h3", "h1", "h2"][:rng.randrange(1, 4)]
        if h & 1:
            file["pre_load_hooks"] = {n: str(mod) for n in names}
            hooks = names
        if h & 2:
            own = [lambda o: o, lambda o: o]
            own[0].__name__, own[1].__name__ = rng.choice([("z", "a"), ("a", "z"), ("h", "h")])
            args["pre_load_hooks"] = rng.choice([own, tuple(own), iter(own)])
            hooks = own
        if rng.random() < 0.5:
            args["run_pipeline"] = fn = lambda x: x
            if rng.random() < 0.5:
                file["run_pipeline"] = {"path": str(mod), "name": "other"}
        else:
            file["run_pipeline"] = {"path": rng.choice([str(mod), str(mod)[:-3]]), "name": "fn"}
            fn = "fn"
        if rng.random() < 0.5:
            args["pipeline_space"] = {"y": neps.Float(0, 1)}
            sp = ["y"]
            if rng.random() < 0.5:
                file["pipeline_space"] = SPACE
        else:
            file["pipeline_space"] = SPACE
            sp = ["x"]
        file["searcher"] = "random_search"
        if rng.random() < 0.3:
            args["searcher"] = "bayesian_optimization"
        kw = dict(args)
        path = top / "args.yaml"
        path.write_text(yaml.safe_dump(grouped(rng, file), sort_keys=False))
        kw["run_args"] = str(path)
        with caught() as got:
            neps.run(**kw)
        ctx.check(len(got) == 1, "one worker per run")
        w = got[0]
        root = check_worker(ctx, w, want, d, args={a: b for a, b in args.items() if a in DEFAULTS}, file=file)
        ctx.check(w.evaluation_fn is fn if fn != "fn" else w.evaluation_fn.__name__ == "fn", "the function evaluated")
        ctx.eq(sorted(w.optimizer.pipeline_space.hyperparameters), sp, "the space searched")
        ctx.check(type(w.optimizer).__name__ == ("BayesianOptimization" if "searcher" in args else "RandomSearch"), "the searcher", got=w.optimizer)
        hs = list(w._pre_sample_hooks or [])
        if hooks is None:
            ctx.check(not hs, "no hooks")
        elif hooks is names:
            ctx.eq([x.__name__ for x in hs], names, "hooks of the file, in order")
        else:
            ctx.check(len(hs) == 2 and hs[0] is own[0] and hs[1] is own[1], "hooks given, in order")
        ctx.eq((root / "summary_csv").exists(), want["post_run_summary"], "post_run_summary", args=args.get("post_run_summary"),
               file=file.get("post_run_summary"))
        ctx.count((k, sorted(args), sorted(file), h))


@case
def refusals(ctx):
    """Entries of a file that are no settings, or not of their type."""
    rng = ctx.rng
    base = {"root_directory": "r", "max_evaluations_total": 2, "searcher": "random_search", "pipeline_space": SPACE}
    bad = [("max_evaluation_total", 3, KeyError), ("budget", 3, KeyError), ("Task_id", 3, KeyError), ("x", 1, KeyError),
           ("max_evaluations_total", "3", TypeError), ("max_evaluations_total", 2.5, TypeError), ("max_cost_total", "1e3x", TypeError),
           ("ignore_errors", "yes", TypeError), ("ignore_errors", 1, TypeError), ("overwrite_working_directory", "no!", TypeError),
           ("post_run_summary", 0, TypeError), ("continue_until_max_evaluation_completed", "x", TypeError),
           ("loss_value_on_error", "high", TypeError), ("cost_value_on_error", [1.0], TypeError), ("root_directory", 3, TypeError),
           ("max_evaluations_per_run", 1.0, TypeError), ("pipeline_space", 3, TypeError), ("run_pipeline", {"path": "a"}, KeyError)]
    for n, v, exc in bad:
        for g in range(3):
            top = ctx.dir()
            doc = {**base, "root_directory": str(top / "r"), n: v}
            path = top / "a.yaml"
            path.write_text(yaml.safe_dump(grouped(rng, doc)))
            with caught() as got:
                ctx.raises(exc, lambda: neps.run(run_pipeline=lambda x: x, run_args=str(path)), "refused", entry=n, value=v)
            ctx.check(not got, "nothing is run")
            ctx.count((n, v, g))


@case
def obeyed(ctx):
    """Whole runs: the limits, error options and hooks given are obeyed."""
    rng = ctx.rng
    for k in range(ctx.n(25, 200)):
        top = ctx.dir()
        d = top / "r"
        total, per = rng.choice([None, 2, 4]), rng.choice([None, 1, 3])
        cost = rng.choice([None, 2.5, 5.0])
        if total is None and cost is None:
            total = 3
        ignore = rng.random() < 0.6
        fail_at = rng.choice([None, 1, 2])
        loss, oncost = rng.choice([(None, None), (7.5, 1.25), (0.0, 0.0), (3.0, None)])
        order = []
        hooks = [lambda o, i=i: order.append(i) or o for i in range(rng.randrange(4))]
        for f in hooks:
            f.__name__ = rng.choice("abc")
        ran = []

        def fn(x):
            ran.append(x)
            if len(ran) == fail_at:
                raise ValueError("no")
            return {"loss": x, "cost": 1.0}
        kw = dict(max_evaluations_total=total, max_evaluations_per_run=per, max_cost_total=cost, ignore_errors=ignore,
                  loss_value_on_error=loss, cost_value_on_error=oncost)
        kw = {a: b for a, b in kw.items() if b is not None}
        file = {}
        for a in list(kw):
            if rng.random() < 0.5:
                file[a] = kw.pop(a)
        if file:
            p = top / "a.yaml"
            p.write_text(yaml.safe_dump(file))
            kw["run_args"] = str(p)
        raised = None
        try:
            neps.run(run_pipeline=fn, pipeline_space={"x": neps.Float(0, 1)}, root_directory=d, searcher="random_search",
                     post_run_summary=False, pre_load_hooks=hooks, **kw)
        except Exception as e:
            raised = e
        # what should have happened
        n, c, fails = 0, 0.0, False
        while True:
            if fails and not ignore:
                break
            if per is not None and n >= per or total is not None and n >= total or cost is not None and c >= cost:
                break
            n += 1
            if n == fail_at:
                fails = True
                c += oncost or 0.0
            else:
                c += 1.0
        data = dict(args=kw, file=file, fail_at=fail_at)
        ctx.check(len(ran) == n, "as many evaluations as the limits allow", ran=len(ran), want=n, **data)
        ctx.check((raised is not None) == (fails and not ignore), "errors are raised unless ignored", raised=raised, **data)
        ctx.eq(order, list(range(len(hooks))) * n, "hooks are applied at each sampling, in order", **data)
        if fails:
            t = next(t for t in R.trials_at(d).values() if t.report.err is not None)
            ctx.eq((t.report.loss, t.report.cost), (loss, oncost), "loss and cost on error", **data)
        ctx.count((k, n, fails, total, per, cost, ignore))


@case
def command_line(ctx):
    """Options of the command line."""
    from neps.utils import cli
    rng = ctx.rng
    flags = {"overwrite_working_directory": "--overwrite-working-directory", "ignore_errors": "--ignore-errors",
             "continue_until_max_evaluation_completed": "--continue-until-max-evaluation-completed"}
    for k in range(ctx.n(25, 250)):
        top = ctx.dir()
        mod = top / f"cli{k}.py"
        mod.write_text(MODULE)
        sp = top / "space.yaml"
        sp.write_text(yaml.safe_dump(SPACE))
        want = dict(DEFAULTS)
        d = str(top / "r")
        argv = ["neps", "run", "--run-pipeline", f"{mod}:fn", "--pipeline-space", str(sp), "--root-directory", d, "--searcher", "random_search"]
        file = {}
        for n in DEFAULTS:
            h = rng.randrange(4)
            if n == "post_run_summary":
                if h == 1:
                    argv.append("--post-run-summary")
                elif h == 2:
                    argv.append("--no-post-run-summary")
                    want[n] = False
                continue
            if h == 0:
                continue
            if h == 2:
                file[n] = want[n] = a_value(rng, n)
                continue
            if n in flags:
                argv.append(flags[n])
                want[n] = True
            else:
                v = a_value(rng, n)
                v = str(v) if n in ("task_id", "development_stage_id") else v
                argv += ["--" + n.replace("_", "-"), str(v)]
                want[n] = v
        if want["max_evaluations_total"] is None and want["max_cost_total"] is None:
            argv += ["--max-evaluations-total", "3"]
            want["max_evaluations_total"] = 3
        if file:
            p = top / "a.yaml"
            p.write_text(yaml.safe_dump(file))
            argv += ["--run-args", str(p)]
        old = sys.argv
        sys.argv = argv
        try:
            with caught() as got, contextlib.redirect_stdout(io.StringIO()):
                cli.main()
        finally:
            sys.argv = old
        ctx.check(len(got) == 1, "one worker per run", argv=argv)
        root = check_worker(ctx, got[0], want, d, argv=argv[10:], file=file)
        ctx.check(got[0].evaluation_fn.__name__ == "fn", "the function evaluated")
        ctx.eq((root / "summary_csv").exists(), want["post_run_summary"], "post_run_summary", argv=argv)
        ctx.count((k, len(argv), sorted(file)))
