from __future__ import annotations

import copy
import itertools
import os
import random
import time

from hlib import case
import runkit as R
from neps.exceptions import VersionMismatchError
from neps.state.filebased import load_filebased_neps_state
from neps.state.trial import Trial

S = Trial.State


def claim(state, i, who):
    t = state.get_trial_by_id(i)
    t.set_evaluating(time_started=time.time(), worker_id=who)
    state.put_updated_trial(t)
    return t


def finish(state, t, who, loss=0.5):
    rep = t.set_complete(report_as="success", time_end=time.time(), loss=loss, cost=None, learning_curve=None, err=None,
                         tb=None, extra={}, evaluation_duration=0.1)
    state.report_trial_evaluation(t, rep, worker_id=who)


class Interposed:
    """A view of the run in which another worker acts at chosen moments."""

    def __init__(self, state, act):
        self.__dict__.update(state=state, act=act)

    def __getattr__(self, n):
        v = getattr(self.state, n)
        if n in ("get_next_pending_trial", "sample_trial", "put_updated_trial", "report_trial_evaluation"):
            def f(*a, **k):
                self.act("before " + n, a)
                r = v(*a, **k)
                self.act("after " + n, r)
                return r
            return f
        return v


@case
def interposed(ctx):
    """At every moment of a worker's loop another worker may claim (and finish) the trial it is about to take."""
    points = ["before get_next_pending_trial", "after get_next_pending_trial", "before put_updated_trial",
              "after sample_trial"]
    for point, how, nth, pre in itertools.product(points, ("claim", "finish"), (1, 2), (0, 3)):
        d = ctx.dir() / "run"
        a, b = R.state_at(d), R.state_at(d)
        for k in range(pre):
            b.sample_trial(R.Scripted(record=False), worker_id="sampler")
        mine, theirs, seen = [], [], {"n": 0}

        def act(p, x):
            if p != point:
                return
            seen["n"] += 1
            if seen["n"] > nth:
                return
            ts = b.get_all_trials()
            pend = sorted((i for i, t in ts.items() if t.state == S.PENDING), key=lambda i: ts[i].metadata.time_sampled)
            for i in pend[:1]:
                t = claim(b, i, "other")
                theirs.append(i)
                if how == "finish":
                    finish(b, t, "other", 0.25)

        def fn(x):
            mine.append(str(int(x)))
            return x
        w = R.worker(Interposed(a, act), fn, max_evaluations_for_worker=4)
        w.run()
        ts = R.trials_at(d)
        ctx.check(len(mine) == len(set(mine)) == 4, "each trial is evaluated once, and the worker carries on",
                  mine=mine, theirs=theirs, point=point)
        ctx.check(not set(mine) & set(theirs), "a trial claimed by another worker is not evaluated", mine=mine,
                  theirs=theirs, point=point, how=how)
        for i in mine:
            t = ts[i]
            ctx.check(t.state == S.SUCCESS and t.report is not None and t.report.loss == float(i)
                      and t.metadata.evaluating_worker_id == "w", "an evaluated trial is reported by its worker", trial=t)
        for i in theirs:
            t = ts[i]
            ctx.check(t.metadata.evaluating_worker_id == "other" and (t.state == S.SUCCESS if how == "finish"
                                                                      else t.state == S.EVALUATING)
                      and (t.report is None or t.report.loss == 0.25),
                      "a trial of another worker is left alone", trial=t, point=point)
        ctx.count((point, how, nth, pre))


@case
def claimed_before_run(ctx):
    """When the user's function starts, the shared state already says that this worker evaluates this trial."""
    for pre in (0, 3):
        d = ctx.dir() / "run"
        a = R.state_at(d)
        for _ in range(pre):
            a.sample_trial(R.Scripted(record=False), worker_id="s")
        n = []

        def fn(x):
            t = load_filebased_neps_state(d).get_trial_by_id(str(int(x)))
            ctx.check(t.state == S.EVALUATING and t.metadata.evaluating_worker_id == "me"
                      and t.metadata.time_started is not None and t.report is None,
                      "a trial under evaluation is stored as evaluating by its worker", trial=t)
            n.append(x)
            ctx.count(x)
            if len(n) == 2:
                raise ValueError("user")
            return x
        R.worker(a, fn, wid="me", max_evaluations_for_worker=5, on_error=R.O.IGNORE).run()
        ctx.check(len(n) == len(set(n)) == 5, "each claimed trial is evaluated once", n=n)
        ts = R.trials_at(d)
        done = [t for t in ts.values() if t.report is not None]
        ctx.check(len(done) == 5 and sum(t.state == S.CRASHED for t in done) == 1, "each evaluated trial is reported once")


@case
def only_pending(ctx):
    """Whatever the states of the stored trials, only pending ones are handed out, the oldest first."""
    rng = ctx.rng
    for _ in range(ctx.n(20, 200)):
        d = ctx.dir() / "run"
        a = R.state_at(d)
        b = load_filebased_neps_state(d)
        ids = []
        for k in range(6):
            ids.append(a.sample_trial(R.Scripted(record=False), worker_id="s").id)
        if rng.random() < 0.5:
            b.get_all_trials()              # caches
        for i in ids:
            st = rng.choice(list(S))
            t = copy.deepcopy(a.get_trial_by_id(i))
            if st == S.EVALUATING:
                t.set_evaluating(time_started=1.0, worker_id="x")
            elif st == S.SUBMITTED:
                t.set_submitted(time_submitted=1.0)
            elif st in (S.SUCCESS, S.FAILED, S.CRASHED):
                t.report = t.set_complete(report_as=st.value, time_end=1.0, loss=1.0, cost=None, learning_curve=None,
                                          err=None, tb=None, extra={}, evaluation_duration=1.0)
            else:
                t.state = st
            a.put_updated_trial(t)
        want = [i for i in ids if a.get_trial_by_id(i).state == S.PENDING]
        for v in (a, b, load_filebased_neps_state(d)):
            t = v.get_next_pending_trial()
            ctx.check((t is None) == (not want), "a pending trial is handed out if there is one", want=want)
            if t is not None:
                ctx.check(t.id in want and t.state == S.PENDING, "what is handed out is pending", got=t.id, want=want)
            got = v.get_next_pending_trial(n=10)
            ctx.check(sorted(x.id for x in got) == sorted(want), "all pending trials are handed out", want=want,
                      got=[x.id for x in got])
            ctx.check(all(x.state == S.PENDING for x in got), "what is handed out is pending")
        ctx.count((tuple(want),))


def _work(d, log, n, k, crash):
    random.seed(k)
    s = R.state_at(d)

    def fn(x):
        fd = os.open(log, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
        os.write(fd, f"{int(x)} {k}\n".encode())
        os.close(fd)
        time.sleep(0.005 * random.random())
        if crash and int(x) % 5 == 0:
            raise ValueError("user")
        return x
    R.worker(s, fn, wid=f"p{k}", max_evaluations_total=n, include_in_progress_evaluations_towards_maximum=True,
             on_error=R.O.IGNORE).run()
    return True


@case
def processes(ctx):
    for rnd in range(ctx.n(2, 8)):
        d = ctx.dir() / "run"
        a = R.state_at(d)
        for _ in range(25):
            a.sample_trial(R.Scripted(record=False), worker_id="s")
        log = str(d.parent / "log")
        ws = [R.Fork(_work, d, log, 25, k, rnd % 2 == 1) for k in range(4)]
        rs = [w.result() for w in ws]
        # losing races over and over makes a worker give up; that it says so is all right, evaluating twice is not
        for r in rs:
            ctx.check(r[0] == "ok" or "WorkerFailed" in str(r[1]), "a worker process failed", results=rs)
        lines = [l.split() for l in open(log).read().splitlines()]
        ev = {}
        for x, k in lines:
            ctx.check(x not in ev, "a trial was evaluated twice", trial=x, by=(ev.get(x), k))
            ev[x] = k
        ts = R.trials_at(d)
        for x, k in ev.items():
            ctx.check(ts[x].report is not None and ts[x].metadata.evaluating_worker_id == f"p{k}",
                      "an evaluated trial is reported by the worker that evaluated it", trial=ts[x], by=k)
        for i, t in ts.items():
            ctx.check((t.report is not None) == (i in ev), "only evaluated trials are reported", trial=t)
        ctx.check(any(r[0] == "ok" for r in rs) or len(ev) >= 20, "workers carry on", results=rs)
        ctx.count((rnd, len(ev)))
        # no pending trial left over while workers finished normally
        if all(r[0] == "ok" for r in rs):
            ctx.check(len(ev) >= 25, "all trials are evaluated", n=len(ev))


@case
def resumed_after_reset(ctx):
    """A trial that was reset is pending again and evaluated once more, by one worker."""
    d = ctx.dir() / "run"
    a = R.state_at(d)
    R.worker(a, lambda x: x, max_evaluations_for_worker=2).run()
    t = a.get_trial_by_id("1")
    t.reset()
    a.put_updated_trial(t)
    got = []
    R.worker(load_filebased_neps_state(d), lambda x: got.append(x) or x, max_evaluations_for_worker=2).run()
    ctx.check(got[0] == 1.0 and len(set(got)) == 2, "the reset trial is taken up again, once", got=got)
    ctx.count(got)
