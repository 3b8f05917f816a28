from __future__ import annotations

import runkit as R
from neps.state.filebased import load_filebased_neps_state


def concurrent_reports(ctx):
    """Another worker reports just before any of the lock acquisitions of this one's report or sampling."""
    from neps.state.filebased import FileLocker
    orig = FileLocker.lock

    def prepare(st, i):
        t = st.sample_trial(R.Scripted(record=False), worker_id=i)
        t.set_evaluating(time_started=1.0, worker_id=i)
        st.put_updated_trial(t)
        return t

    def report(st, t, cost, err=None):
        r = t.set_complete(report_as="success" if err is None else "crashed", time_end=1.0, loss=1.0, cost=cost, learning_curve=None,
                           err=err, tb=None if err is None else "tb", extra={}, evaluation_duration=1.0)
        st.report_trial_evaluation(t, r, worker_id="w")
    for what in ("report", "report error", "sample"):
        n, k, done = 1, 0, False
        while k <= n and k < 40:
            d = ctx.dir() / "run"
            a, b = R.state_at(d), R.state_at(d)
            ta, tb = prepare(a, "a"), prepare(b, "b")
            mine = {id(x._locker) for x in (a._optimizer_state, a._seed_state, a._shared_errors, *a._trials._cache.values())}
            seen = [0]

            def lock(self, **kw):
                if id(self) in mine:
                    seen[0] += 1
                    if seen[0] == k and busy_free(self):
                        mine_, seen_ = set(mine), seen[0]
                        mine.clear()
                        report(b, tb, 2.0, ValueError("b"))
                        mine.update(mine_)
                return orig(self, **kw)

            def busy_free(self):
                import synckit as K
                return not any(K.held(p) for p in (d / ".optimizer_state" / ".lock", d / ".errors" / ".all.lock", d / "configs" / f"config_{tb.id}" / ".lock"))
            FileLocker.lock = lock
            try:
                if what == "sample":
                    a.sample_trial(R.Scripted(record=False), worker_id="a")
                else:
                    report(a, ta, 1.0, ValueError("a") if what == "report error" else None)
            finally:
                FileLocker.lock = orig
            fresh = load_filebased_neps_state(d)
            other = fresh.get_trial_by_id(tb.id).report is not None
            want = (2.0 if other else 0.0) + (1.0 if what != "sample" else 0.0)
            ctx.eq(float(fresh.optimizer_state().budget.used_cost_budget), want,
                   "the used budget is the sum of the reported costs", during=what, before_lock=k)
            ctx.check(sorted(e.err for e in fresh.get_errors().errs) == ["a"] * (what == "report error") + ["b"] * other,
                      "every error is in the log", during=what, before_lock=k, errs=fresh.get_errors().errs)
            ctx.count((what, k, other))
            n = max(n, seen[0])
            k += 1
