"""Runs on disk: states, scripted optimizers, workers."""
from __future__ import annotations

import copy
import os
import random
from pathlib import Path

import numpy as np

from neps.optimizers.base_optimizer import BaseOptimizer, SampledConfig
from neps.runtime import DefaultWorker
from neps.state.filebased import create_or_load_filebased_neps_state, load_filebased_neps_state
from neps.state.optimizer import BudgetInfo, OptimizationState, OptimizerInfo
from neps.state.settings import DefaultReportValues, OnErrorPossibilities, WorkerSettings
from neps.state.trial import Trial

O = OnErrorPossibilities


def state_at(d, budget="default", info=None, shared=None):
    b = BudgetInfo(max_cost_budget=1e9, used_cost_budget=0) if budget == "default" else budget
    return create_or_load_filebased_neps_state(directory=d, optimizer_info=OptimizerInfo(info or {"a": 1}),
                                               optimizer_state=OptimizationState(budget=b, shared_state=shared or {}))


class Scripted(BaseOptimizer):
    """Proposes config k under the next free id; records what it was shown."""

    def __init__(self, propose=None, record=True):
        super().__init__(pipeline_space=None)
        self.propose = propose
        self.record = record
        self.seen = []

    def ask(self, trials, budget_info=None):
        if self.record:
            self.seen.append((copy.deepcopy(dict(trials)), copy.deepcopy(budget_info)))
        if self.propose is not None:
            return self.propose(trials, budget_info)
        n = len(trials) + 1
        return SampledConfig(id=str(n), config={"x": float(n)}, previous_config_id=None)


def settings(**k):
    d = dict(on_error=O.RAISE_WORKER_ERROR, default_report_values=DefaultReportValues(), max_evaluations_total=None,
             include_in_progress_evaluations_towards_maximum=False, max_cost_total=None,
             max_evaluation_time_total_seconds=None, max_evaluations_for_worker=None, max_cost_for_worker=None,
             max_evaluation_time_for_worker_seconds=None, max_wallclock_time_for_worker_seconds=None)
    d.update(k)
    return WorkerSettings(**d)


def worker(state, fn, opt=None, wid="w", hooks=None, **k):
    return DefaultWorker.new(state=state, optimizer=opt or Scripted(record=False), settings=settings(**k),
                             evaluation_fn=fn, worker_id=wid, _pre_sample_hooks=hooks)


def trials_at(d):
    return load_filebased_neps_state(Path(d)).get_all_trials()


def errors_at(d):
    return load_filebased_neps_state(Path(d)).get_errors().errs


def tree(d):
    """Every file of a run but the locks."""
    return {str(p.relative_to(d)): p.read_bytes() for p in sorted(Path(d).rglob("*"))
            if p.is_file() and "lock" not in p.name}


def reseed(rng):
    random.seed(rng.randrange(2 ** 31))
    np.random.seed(rng.randrange(2 ** 31))
    import torch
    torch.manual_seed(rng.randrange(2 ** 31))


def draws():
    """Consume the global generators and return what came out."""
    import torch
    return (random.random(), random.gauss(0, 1), float(np.random.rand()), float(np.random.randn()),
            float(torch.rand(())), float(torch.randn(())))


class Fork:
    """Run f(*args) in a child process; result or exception text through a pipe."""

    def __init__(self, f, *args):
        import multiprocessing as mp
        c = mp.get_context("fork")
        self.q = c.Queue()
        self.p = c.Process(target=self._main, args=(f, args))
        self.p.start()

    def _main(self, f, args):
        try:
            self.q.put(("ok", f(*args)))
        except BaseException as e:
            self.q.put(("exc", f"{type(e).__name__}: {e}"))

    def result(self, timeout=120):
        try:
            r = self.q.get(timeout=timeout)
        except Exception:
            r = ("hang", None)
        self.p.join(10)
        if self.p.is_alive():
            self.p.kill()
        return r
