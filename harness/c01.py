from __future__ import annotations

import copy
import multiprocessing as mp
import random
import threading

from hlib import case
import synckit as K
from neps.state.filebased import FileVersioner, create_or_load_filebased_neps_state, load_filebased_neps_state
from neps.state.optimizer import BudgetInfo, OptimizationState, OptimizerInfo
from neps.state.protocols import Synced
from neps.state.trial import Trial


@case
def histories(ctx):
    for kind in K.KINDS:
        for _ in range(ctx.n(6, 60)):
            K.history(ctx, kind, 40, check_writes=True, check_reads=False)


@case
def version_tags(ctx):
    """Tags never repeat, whatever the state of the random generators, clocks or content."""
    d = ctx.dir()
    seen = set()
    for k in range(ctx.n(3000, 30000)):
        if k % 50 == 0:
            random.seed(1)
            import numpy as np
            np.random.seed(1)
        v = FileVersioner(version_file=d / f"v{k % 3}")
        t = v.bump()
        ctx.check(t not in seen, "a version tag was used twice", tag=t, after=k)
        seen.add(t)
        ctx.check(v.current() == t and FileVersioner(version_file=d / f"v{k % 3}").current() == t,
                  "the stored version tag is the one returned")
        ctx.count(k)
    ctx.check(FileVersioner(version_file=d / "none").current() is None, "no version before the first write")


def _bumper(d, k, q):
    random.seed(0)
    q.put([FileVersioner(version_file=d / f"p{k}").bump() for _ in range(200)])


def _incr(d, n, use_put, q):
    s = Synced.load(**K.parts("optimizer_state", d))
    ok = 0
    while ok < n:
        if use_put:
            cur = copy.deepcopy(s.synced())
            cur.shared_state["k"] += 1
            try:
                s.put(cur)
                ok += 1
            except Synced.VersionMismatchError:
                pass
        else:
            with s.acquire() as (cur, put):
                cur.shared_state["k"] += 1
                put(cur)
                ok += 1
    q.put(ok)


@case
def processes(ctx):
    """Increments by several processes are all there in the end."""
    mpc = mp.get_context("fork")
    for use_put in (False, True):
        d = ctx.dir() / "res"
        d.mkdir()
        Synced.new(data=OptimizationState(budget=None, shared_state={"k": 0}), **K.parts("optimizer_state", d))
        q = mpc.Queue()
        ps = [mpc.Process(target=_incr, args=(d, ctx.n(15, 60), use_put, q)) for _ in range(4)]
        [p.start() for p in ps]
        tot = 0
        for _ in ps:
            try:
                tot += q.get(timeout=100)
            except Exception:
                break
        for p in ps:
            p.join(20)
            if p.is_alive():
                p.kill()
        ctx.check(all(p.exitcode == 0 for p in ps), "a worker process updating shared state failed",
                  exitcodes=[p.exitcode for p in ps])
        got = Synced.load(**K.parts("optimizer_state", d)).synced().shared_state["k"]
        ctx.eq(got, tot, "an update of a worker process was lost", use_put=use_put)
        ctx.count(("processes", use_put))
    q = mpc.Queue()
    d = ctx.dir()
    ps = [mpc.Process(target=_bumper, args=(d, k, q)) for k in range(4)]
    [p.start() for p in ps]
    tags = [t for _ in ps for t in q.get(timeout=60)]
    [p.join() for p in ps]
    ctx.check(len(set(tags)) == len(tags), "two processes made the same version tag")


def state_at(d, **k):
    return create_or_load_filebased_neps_state(
        directory=d, optimizer_info=OptimizerInfo({"a": 1}),
        optimizer_state=OptimizationState(budget=BudgetInfo(max_cost_budget=10, used_cost_budget=0), shared_state={}), **k)


@case
def run_level(ctx):
    """Two workers' views of one run: only the one holding the latest version of a trial may update it."""
    rng = ctx.rng
    for _ in range(ctx.n(25, 250)):
        d = ctx.dir() / "run"
        a, b = state_at(d), None
        ids = [str(i) for i in range(3)]
        for i in ids:
            a._trials.put_new(K.new_trial(rng, i))
        b = load_filebased_neps_state(d)
        views = [a, b, load_filebased_neps_state(d)]
        copies = [{i: copy.deepcopy(v.get_trial_by_id(i)) for i in ids} for v in views]
        ver = {i: 0 for i in ids}
        have = [{i: 0 for i in ids} for _ in views]
        trace = []
        for _ in range(12):
            w, i = rng.randrange(3), rng.choice(ids)
            op = rng.choice(["put", "put", "get", "report", "all"])
            trace.append((op, w, i))
            before = K.disk(d / "configs" / f"config_{i}")
            if op == "get":
                copies[w][i] = copy.deepcopy(views[w].get_trial_by_id(i))
                have[w][i] = ver[i]
            elif op == "all":
                for k, t in views[w].get_all_trials().items():
                    copies[w][k] = copy.deepcopy(t)
                    have[w][k] = ver[k]
            else:
                t = copies[w][i]
                try:
                    if op == "put":
                        t.set_evaluating(time_started=rng.random(), worker_id=str(w))
                        views[w].put_updated_trial(copy.deepcopy(t))
                    else:
                        rep = t.set_complete(report_as="success", time_end=1.0, loss=rng.random(), cost=0.5,
                                             learning_curve=None, err=None, tb=None, extra={}, evaluation_duration=1.0)
                        views[w].report_trial_evaluation(copy.deepcopy(t), rep, worker_id=str(w))
                        t.report = rep
                    ok = True
                except Synced.VersionMismatchError:
                    ok = False
                ctx.check(ok == (have[w][i] == ver[i]), "a trial update is accepted exactly from its latest version",
                          accepted=ok, trace=trace)
                if ok:
                    ver[i] += 1
                    have[w][i] = ver[i]
                    got = load_filebased_neps_state(d).get_trial_by_id(i)
                    ctx.check(got == t, "an accepted trial update stores the given trial", got=got, want=t)
                else:
                    ctx.check(K.disk(d / "configs" / f"config_{i}") == before,
                              "a rejected trial update leaves the stored trial untouched", trace=trace)
                    copies[w][i] = copy.deepcopy(views[w].get_trial_by_id(i))
                    have[w][i] = ver[i]
            ctx.count((op, have[w][i] == ver[i]))


@case
def create_existing(ctx):
    """A trial id can be created once, by whichever worker."""
    rng = ctx.rng
    d = ctx.dir() / "run"
    a = state_at(d)
    b = load_filebased_neps_state(d)
    for i in range(5):
        t = K.new_trial(rng, f"{i}")
        rng.choice([a, b])._trials.put_new(t)
        before = K.disk(d / "configs" / f"config_{i}")
        for s in (a, b):
            ctx.raises(Exception, lambda: s._trials.put_new(K.new_trial(rng, f"{i}")),
                       "creating a trial under an existing id is refused")
        ctx.eq(K.disk(d / "configs" / f"config_{i}"), before, "a refused creation leaves the stored trial untouched")
        ctx.count(i)


@case
def racing_creators(ctx):
    """Several creators at once: one creates, the others load what it created."""
    for r in range(ctx.n(6, 40)):
        d = ctx.dir() / "res"
        d.mkdir()
        out = []
        bar = threading.Barrier(4)

        def work(k):
            bar.wait()
            try:
                s = Synced.new_or_load(data=OptimizationState(budget=None, shared_state={"k": k}),
                                       **K.parts("optimizer_state", d))
                out.append((k, s.synced().shared_state["k"]))
            except Exception as e:
                out.append((k, repr(e)))
        ts = [threading.Thread(target=work, args=(k,)) for k in range(4)]
        [t.start() for t in ts]
        [t.join(60) for t in ts]
        ctx.check(len({v for _, v in out}) == 1 and out[0][1] in range(4),
                  "create-or-load by several workers yields the one that was created", got=out)
        ctx.count(("race", r))


@case
def concurrent_reports(ctx):
    import concurrent_ops
    concurrent_ops.concurrent_reports(ctx)
