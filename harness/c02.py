from __future__ import annotations

import copy

from hlib import case
import runkit as R
import synckit as K
from neps.state.filebased import load_filebased_neps_state
from neps.state.protocols import Synced


@case
def histories(ctx):
    for kind in K.KINDS:
        for _ in range(ctx.n(6, 60)):
            K.history(ctx, kind, 40, check_writes=False, check_reads=True)


@case
def stale_handles(ctx):
    """However many writes a handle has missed, and whatever they stored (also the value it already has)."""
    rng = ctx.rng
    for kind, (mk, vary, _) in K.KINDS.items():
        for missed in (1, 2, 7):
            d = ctx.dir() / "res"
            d.mkdir()
            a = Synced.new(data=mk(rng), **K.parts(kind, d))
            b = Synced.load(**K.parts(kind, d))
            v0 = copy.deepcopy(b.synced())
            v = v0
            for _ in range(missed):
                v = vary(rng, v)
                a.put(copy.deepcopy(v))
            ctx.check(b._is_stale(), f"{kind}: a handle that missed a write is stale")
            ctx.check(K.same(kind, b.synced(), v), f"{kind}: a stale handle reads the latest value", missed=missed)
            ctx.check(not b._is_stale(), f"{kind}: afterwards the handle counts as up to date")
            b.put(copy.deepcopy(v0))
            ctx.check(K.same(kind, a.synced(), v0), f"{kind}: the other handle reads the value written back")
            with a.acquire() as (got, put):
                ctx.check(K.same(kind, got, v0), f"{kind}: acquiring yields the latest value")
                put(copy.deepcopy(v))
            with b.acquire() as (got, put):
                ctx.check(K.same(kind, got, v), f"{kind}: acquiring yields the latest value")
                put(copy.deepcopy(v0))
                put(copy.deepcopy(v))
            ctx.check(K.same(kind, a.synced(), v), f"{kind}: of two writes during one acquire the last is read")
            # a failing block stores nothing new; the next read is still right
            try:
                with a.acquire() as (got, put):
                    raise ZeroDivisionError
            except ZeroDivisionError:
                pass
            ctx.check(K.same(kind, b.synced(), v) and K.same(kind, a.synced(), v), f"{kind}: read after a failed block")
            ctx.count((kind, missed))


@case
def lost_races(ctx):
    """A rejected write does not make the local copy current: the next synchronised read gives the stored value."""
    rng = ctx.rng
    for kind, (mk, vary, _) in K.KINDS.items():
        d = ctx.dir() / "res"
        d.mkdir()
        a = Synced.new(data=mk(rng), **K.parts(kind, d))
        b = Synced.load(**K.parts(kind, d))
        v = vary(rng, a.synced())
        a.put(copy.deepcopy(v))
        w = vary(rng, v)
        try:
            b.put(copy.deepcopy(w))
        except Synced.VersionMismatchError:
            pass
        ctx.check(K.same(kind, b.synced(), v), f"{kind}: after a rejected write the stored value is read")
        b.put(copy.deepcopy(w))
        ctx.check(K.same(kind, a.synced(), w), f"{kind}: a write after a read is accepted")
        ctx.count(kind)


@case
def run_views(ctx):
    """Several views of one run, each with its own caches."""
    rng = ctx.rng
    for _ in range(ctx.n(15, 150)):
        d = ctx.dir() / "run"
        views = [R.state_at(d)]
        views += [load_filebased_neps_state(d) for _ in range(2)]
        truth = {}
        nerr = 0
        cost = 0.0
        for k in range(20):
            v = rng.choice(views)
            op = rng.choice(["new", "new", "claim", "report", "crash"])
            if op == "new" or not truth:
                t = v.sample_trial(R.Scripted(record=False), worker_id="w")
                truth[t.id] = copy.deepcopy(t)
            else:
                i = rng.choice(sorted(truth))
                t = copy.deepcopy(v.get_trial_by_id(i))
                ctx.check(t == truth[i], "a trial is read in its latest state", got=t, want=truth[i])
                if op == "claim":
                    t.set_evaluating(time_started=rng.random(), worker_id="w")
                    v.put_updated_trial(t)
                else:
                    rep = t.set_complete(report_as="success" if op == "report" else "crashed", time_end=1.0,
                                         loss=rng.random(), cost=1.0, learning_curve=None,
                                         err=None if op == "report" else Exception("e"), tb=None, extra={},
                                         evaluation_duration=1.0)
                    v.report_trial_evaluation(t, rep, worker_id="w")
                    t.report = rep
                    nerr += op == "crash"
                    cost += 1.0
                truth[i] = copy.deepcopy(t)
            r = rng.choice(views)
            got = r.get_all_trials()
            ctx.check(set(got) == set(truth) and all(got[i] == truth[i] for i in truth),
                      "all trials are read in their latest state", op=op, k=k)
            ctx.check(r.all_trial_ids() == set(truth), "all trial ids are listed")
            ctx.eq(len(r.get_errors().errs), nerr, "all recorded errors are read")
            ctx.eq(r.optimizer_state().budget.used_cost_budget, cost, "the latest budget is read")
            ctx.count((op, k))


@case
def failing_reads(ctx):
    """A read that fails half way is repeated later: the later one gives the latest value."""
    rng = ctx.rng
    for kind, (mk, vary, _) in K.KINDS.items():
        for how in ("synced", "acquire"):
            d = ctx.dir() / "res"
            d.mkdir()
            a = Synced.new(data=mk(rng), **K.parts(kind, d))
            p = K.parts(kind, d)
            rw = p["reader_writer"]
            boom = []

            class RW:
                def read(self, loc):
                    if boom:
                        raise OSError("transient")
                    return rw.read(loc)

                def write(self, v, loc):
                    return rw.write(v, loc)
            p["reader_writer"] = RW()
            b = Synced.load(**p)
            v = copy.deepcopy(b.synced())
            for _ in range(3):
                v = vary(rng, v)
                a.put(copy.deepcopy(v))
                boom.append(1)
                try:
                    if how == "synced":
                        b.synced()
                    else:
                        with b.acquire():
                            pass
                except OSError:
                    pass
                boom.clear()
                ctx.check(K.same(kind, b.synced(), v), f"{kind}: the read after a failed one gives the latest value", how=how)
                with b.acquire() as (got, put):
                    ctx.check(K.same(kind, got, v), f"{kind}: so does acquiring", how=how)
                ctx.count((kind, how))
