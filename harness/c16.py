from __future__ import annotations

import contextlib
import importlib
import io
import math

from hlib import case
import runkit as R
from neps.state.trial import Trial

ST = importlib.import_module("neps.status.status")
S = Trial.State
INF = float("inf")


def fill(rng, s, n):
    """n stored trials; what is stored for each."""
    out = []
    losses = rng.choice([[0.0, 1.0, 1.0, -2.5], [INF, -INF, float("nan"), 3.0], [float("nan")], [INF], [5, 7, 1.5, 1.5],
                         [1e300, -1e300, 1e-300, 0.0]])
    for _ in range(n):
        t = s.sample_trial(R.Scripted(record=False), worker_id="s")
        st = rng.choice([S.PENDING, S.EVALUATING, S.SUCCESS, S.SUCCESS, S.FAILED, S.CRASHED])
        loss = rng.choice(losses)
        if st != S.PENDING:
            t.set_evaluating(time_started=1.0, worker_id="x")
        if st in (S.SUCCESS, S.FAILED, S.CRASHED):
            t.report = t.set_complete(report_as=st.value, time_end=2.0,
                                      loss=loss if st == S.SUCCESS else rng.choice([None, -1e9, loss]),
                                      cost=rng.choice([None, 0.0, 2.0]), learning_curve=rng.choice([None, [1.0, 2.0]]),
                                      err=None if st != S.CRASHED else ValueError("x"), tb=None,
                                      extra=rng.choice([{}, {"a": 1}, {"info_dict": {"z": 2}}]), evaluation_duration=1.0)
        s.put_updated_trial(t)
        out.append((t.id, dict(t.config), st, loss))
    return out


def check_summary(ctx, d, ts, sm, details):
    n = lambda *ss: sum(t[2] in ss for t in ts)
    ctx.eq(sm["num_evaluated_configs"], n(S.SUCCESS, S.FAILED, S.CRASHED), "evaluated trials are counted once", stored=ts)
    ctx.eq(sm["num_error"], n(S.FAILED, S.CRASHED), "failed evaluations are counted once", stored=ts)
    ctx.eq(sm["num_pending_configs"], n(S.PENDING, S.EVALUATING), "waiting and running trials are counted once", stored=ts)
    ctx.eq(sm["num_pending_configs_with_worker"], n(S.EVALUATING), "running trials are counted once", stored=ts)
    known = [t for t in ts if t[2] == S.SUCCESS and not math.isnan(t[3])]
    if not known:
        ctx.eq((sm["best_loss"], sm["best_config"], sm["best_config_id"], sm["best_config_metadata"]), (INF, None, None, None),
               "nothing is best without a loss", stored=ts)
    else:
        best = min(t[3] for t in known)
        ctx.check(sm["best_loss"] == best, "the best loss is the least of the successful ones", got=sm["best_loss"], stored=ts)
        w = [t for t in known if t[0] == sm["best_config_id"]]
        ctx.check(len(w) == 1 and w[0][3] == best, "the best configuration is one with the best loss",
                  got=sm["best_config_id"], stored=ts)
        ctx.eq(dict(sm["best_config"]), w[0][1], "with its configuration")
        ctx.eq(sm["best_config_metadata"]["id"], w[0][0], "and its metadata")
    if details:
        ctx.eq(set(sm["previous_results"]), {t[0] for t in ts if t[2] in (S.SUCCESS, S.FAILED, S.CRASHED)},
               "the results shown are those with a report")
        ctx.eq({k: dict(v) for k, v in sm["pending_configs"].items()},
               {t[0]: t[1] for t in ts if t[2] in (S.PENDING, S.EVALUATING)}, "the pending ones are those without")
        ctx.eq(set(sm["pending_configs_free"]), {t[0] for t in ts if t[2] == S.PENDING}, "the free ones are those waiting")
        for t in ts:
            if t[0] in sm["previous_results"]:
                r = sm["previous_results"][t[0]]
                ctx.eq(dict(r.config), t[1], "a result shows its configuration")
                if t[2] == S.SUCCESS:
                    ctx.check(R_eq(r.result["loss"], t[3]) and R_eq(r.loss, t[3]), "and its loss", got=r.result, stored=t)
                else:
                    ctx.eq((r.result, r.loss), ("error", "error"), "or that it failed")


def R_eq(a, b):
    return a == b or (a != a and b != b)


@case
def summaries(ctx):
    """Arbitrary stored trials; summary, printed status, files before and after."""
    rng = ctx.rng
    for _ in range(ctx.n(60, 500)):
        d = ctx.dir() / "run"
        s = R.state_at(d)
        ts = fill(rng, s, rng.choice([0, 1, 2, 3, 5, 9]))
        before = R.tree(d)
        details = rng.random() < 0.5
        sm = ST.get_summary_dict(d if rng.random() < 0.5 else str(d), add_details=details)
        check_summary(ctx, d, ts, sm, details)
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            prev, pend = ST.status(d)
        for line, v in (("#Evaluated configs", sm["num_evaluated_configs"]), ("#Pending configs", sm["num_pending_configs"]),
                        ("#Pending configs with worker", sm["num_pending_configs_with_worker"]),
                        ("#Crashed configs", sm["num_error"])):
            ctx.check(f"{line}: {v}\n" in out.getvalue(), "the printed status shows the same counts", printed=out.getvalue())
        if prev:
            ctx.check(f"Best loss: {sm['best_loss']}\n" in out.getvalue(), "and the same best loss", printed=out.getvalue())
        ctx.eq(len(prev), sm["num_evaluated_configs"], "status returns the evaluated ones")
        ctx.eq(len(pend), sm["num_pending_configs"], "and the pending ones")
        ctx.check(R.tree(d) == before, "looking at a run changes nothing in it")
        ctx.count(tuple((t[2].value, repr(t[3])) for t in ts))


@case
def csv_summaries(ctx):
    """The summary written after a run."""
    import pandas as pd
    rng = ctx.rng
    for k in range(ctx.n(30, 250)):
        d = ctx.dir() / "run"
        s = R.state_at(d)
        ts = fill(rng, s, rng.choice([0, 1, 2, 4, 7]))
        before = {p: b for p, b in R.tree(d).items()}
        conf, run = ST.post_run_csv(d if rng.random() < 0.5 else str(d))
        after = R.tree(d)
        ctx.check(all(after.get(p) == b for p, b in before.items()), "the run itself is left alone")
        v = pd.read_csv(run).set_index("description")["value"]
        n = lambda *ss: sum(t[2] in ss for t in ts)
        for name, want in (("num_evaluated_configs", n(S.SUCCESS, S.FAILED, S.CRASHED)), ("num_error", n(S.FAILED, S.CRASHED)),
                           ("num_pending_configs", n(S.PENDING, S.EVALUATING)), ("num_pending_configs_with_worker", n(S.EVALUATING))):
            ctx.check(float(v[name]) == want, f"csv: {name}", got=v[name], stored=ts)
        known = [t[3] for t in ts if t[2] == S.SUCCESS and not math.isnan(t[3])]
        ctx.check(float(v["best_loss"]) == min(known, default=INF), "csv: best loss", got=v["best_loss"], stored=ts)
        ids = [str(x) for x in pd.read_csv(conf)["config_id"]]
        ctx.check(sorted(ids) == sorted(t[0] for t in ts), "csv: one row per trial", got=ids, stored=ts)
        ctx.count((k, tuple((t[2].value, repr(t[3])) for t in ts)))


@case
def worker_runs(ctx):
    """What workers leave behind."""
    rng = ctx.rng
    for _ in range(ctx.n(8, 60)):
        d = ctx.dir() / "run"
        s = R.state_at(d)
        plan = [rng.choice(["raise", 1.0, 0.0, -1.0, INF, float("nan"), {"loss": 0.5, "cost": 2.0},
                            {"loss": -3.0, "info_dict": {"learning_curve": [1.0]}}]) for _ in range(6)]

        def fn(x):
            p = plan[int(x) - 1]
            if p == "raise":
                raise RuntimeError("no")
            return p
        R.worker(s, fn, on_error=R.O.IGNORE, max_evaluations_for_worker=len(plan)).run()
        s.sample_trial(R.Scripted(record=False), worker_id="s")
        ts = [(str(i + 1), {"x": float(i + 1)}, S.CRASHED if p == "raise" else S.SUCCESS,
               None if p == "raise" else float(p["loss"] if isinstance(p, dict) else p)) for i, p in enumerate(plan)]
        ts.append((str(len(plan) + 1), {"x": float(len(plan) + 1)}, S.PENDING, None))
        before = R.tree(d)
        check_summary(ctx, d, ts, ST.get_summary_dict(d, add_details=True), True)
        ctx.check(R.tree(d) == before, "looking at a run changes nothing in it")
        ctx.count(tuple(map(repr, plan)))
