from __future__ import annotations

import copy
import random

import runkit as R
from hlib import case
from neps.runtime import _launch_runtime
from neps.state.err_dump import ErrDump
from neps.state.filebased import create_or_load_filebased_neps_state as create, load_filebased_neps_state as load
from neps.state.neps_state import NePSState
from neps.state.optimizer import BudgetInfo, OptimizationState, OptimizerInfo
from neps.state.protocols import VersionedResourceDoesNotExistsError
from neps.state.seed_snapshot import SeedSnapshot

NO = (NePSState,)


def content(d):
    """Every file of a directory but the locks, with what is in it."""
    return R.tree(d) if d.exists() else None


def an_info(rng):
    k = rng.randrange(5)
    return OptimizerInfo([{}, {"a": 1}, {"searcher_name": "x", "args": {"l": [1, 2.5, None], "t": "text"}}, {"a": None},
                          {"a": rng.choice([0.1, "s", True, [1], {"b": {"c": 1}}])}][k])


def a_budget(rng):
    k = rng.randrange(4)
    if k == 0:
        return None
    return BudgetInfo(max_cost_budget=rng.choice([None, 1.5, 10.0]), used_cost_budget=rng.choice([0, 2.25]),
                      max_evaluations=rng.choice([None, 3]), used_evaluations=rng.randrange(4))


def a_state(rng):
    return OptimizationState(budget=a_budget(rng), shared_state=rng.choice([{}, {"k": 1}, {"k": [1, {"z": None}]}]))


def go_on(ctx, d, rng, k):
    """A run of some worker: some trials, some failing."""
    n = [0]

    def fn(x):
        n[0] += 1
        if rng.random() < 0.3:
            raise ValueError(f"no {n[0]}")
        return {"loss": float(x), "cost": 1.0, "extra": rng.choice([None, "y"])}
    s = load(d)
    R.worker(s, fn, wid=f"w{rng.randrange(99)}", on_error=R.O.IGNORE, max_evaluations_for_worker=k).run()
    if rng.random() < 0.5:
        s.sample_trial(optimizer=R.Scripted(), worker_id="p")


def seen(s):
    return {"info": s.optimizer_info(), "state": s.optimizer_state(), "seed": s._seed_state.synced(), "errors": s.get_errors().errs,
            "trials": s.get_all_trials()}


def same_view(ctx, a, b, what):
    for k in ("info", "state", "errors", "trials"):
        ctx.eq(a[k], b[k], f"{what}: {k}")
    x, y = a["seed"], b["seed"]
    ctx.check(x == y, f"{what}: seed state")


@case
def stored_runs(ctx):
    """Whatever is passed, an existing run is what one gets, untouched."""
    rng = ctx.rng
    for k in range(ctx.n(25, 250)):
        d = ctx.dir() / "run"
        info, st = an_info(rng), a_state(rng)
        R.reseed(rng)
        s = create(directory=d, optimizer_info=copy.deepcopy(info), optimizer_state=copy.deepcopy(st))
        ctx.eq(s.optimizer_info(), info, "a new run has the caller's optimizer info")
        ctx.eq(s.optimizer_state(), st, "a new run has the caller's optimizer state")
        ctx.eq(s.get_all_trials(), {}, "a new run has no trials")
        ctx.eq(s.get_errors().errs, [], "a new run has no errors")
        want = SeedSnapshot.new_capture()
        ctx.check(s._seed_state.synced() == want, "a new run has the present seed state")
        if rng.random() < 0.7:
            go_on(ctx, d, rng, rng.randrange(1, 4))
        ref = seen(load(d))
        files = content(d)
        for j in range(3):
            R.reseed(rng)
            other = a_state(rng)
            how = rng.randrange(3)
            if how == 0:
                t = load(d)
            elif how == 1:
                t = create(directory=d, optimizer_info=copy.deepcopy(info), optimizer_state=other)
            else:
                i2 = an_info(rng)
                if i2 == info:
                    continue
                try:
                    create(directory=d, optimizer_info=i2, optimizer_state=other)
                    ctx.check(False, "another optimizer description is refused", stored=info, passed=i2)
                except Exception as e:
                    ctx.check(type(e).__module__.startswith("neps"), "refused with the package's own error", got=e)
                ctx.eq(content(d), files, "a refused opening changes nothing")
                t = load(d)
            ctx.eq(content(d), files, "opening a stored run changes nothing", how=how)
            same_view(ctx, seen(t), ref, "what is opened is what was stored")
            ctx.eq(content(d), files, "looking at it changes nothing")
            ctx.count((k, j, how, len(ref["trials"]), len(ref["errors"])))


@case
def new_runs(ctx):
    """Missing and empty directories, and creations that were interrupted."""
    rng = ctx.rng
    for k in range(ctx.n(20, 200)):
        root = ctx.dir()
        d = root / rng.choice(["run", "a/b"])
        (root / "user").write_text("mine")
        info, st = an_info(rng), a_state(rng)
        what = rng.randrange(3)
        if what == 1:
            d.mkdir(parents=True)
        if what < 2:
            ctx.raises((FileNotFoundError, VersionedResourceDoesNotExistsError), lambda: seen(load(d)), "there is no run to load")
            ctx.check(not content(d), "loading creates no run", files=sorted(content(d) or ()))
        kept = None
        if what == 2:
            create(directory=d, optimizer_info=copy.deepcopy(info), optimizer_state=a_state(rng))
            keep = rng.choice([None, ".optimizer_state", ".seed_state", ".errors"])
            kept = (keep, seen(load(d)))
            import shutil
            for n in (".optimizer_state", ".seed_state", ".errors"):
                if n != keep:
                    shutil.rmtree(d / n, ignore_errors=True)
                    for p in d.glob(n + "*"):
                        p.unlink()
        before = R.tree(root)
        R.reseed(rng)
        s = create(directory=d, optimizer_info=copy.deepcopy(info), optimizer_state=copy.deepcopy(st))
        after = R.tree(root)
        ctx.check(all(after.get(p) == b for p, b in before.items()), "nothing that was there changes",
                  changed=[p for p, b in before.items() if after.get(p) != b], what=what)
        v = seen(s)
        ctx.eq(v["info"], info, "the optimizer info of the caller")
        w = kept[1] if kept else {}
        ctx.eq(v["state"], w["state"] if kept and kept[0] == ".optimizer_state" else st, "the optimizer state")
        ctx.eq(v["errors"], [], "no errors yet")
        ctx.eq(v["trials"], {}, "no trials yet")
        now = SeedSnapshot.new_capture()
        ctx.check(v["seed"] == (w["seed"] if kept and kept[0] == ".seed_state" else now), "the seed state")
        same_view(ctx, seen(load(d)), v, "others find the same")
        ctx.count((k, what, kept and kept[0]))


@case
def launches(ctx):
    """Runs launched again: only the explicit request removes the stored trials, and nothing beside them."""
    rng = ctx.rng
    for k in range(ctx.n(12, 100)):
        root = ctx.dir()
        d = root / "run"
        for n in ("run2", "ru", "other"):
            (root / n / "configs").mkdir(parents=True)
            (root / n / "configs" / "x").write_text(n)
        (root / "file").write_text("f")
        beside = R.tree(root)
        ran = []

        def launch(n, overwrite, info={"a": 1}):
            def fn(x):
                ran.append(x)
                return float(x)
            _launch_runtime(evaluation_fn=fn, optimizer=R.Scripted(), optimizer_info=copy.deepcopy(info), optimization_dir=d,
                            max_cost_total=None, loss_value_on_error=None, cost_value_on_error=None,
                            continue_until_max_evaluation_completed=rng.random() < 0.5, overwrite_optimization_dir=overwrite,
                            max_evaluations_total=n, max_evaluations_for_worker=None, pre_load_hooks=None)
        first = rng.randrange(0, 4)
        more = rng.randrange(0, 3)
        launch(first, rng.random() < 0.5)
        ref = load(d).get_all_trials()
        if rng.random() < 0.5:
            (d / "notes.txt").write_text("of the user")
        overwrite = rng.random() < 0.5
        launch(first + more, overwrite)
        now = load(d).get_all_trials()
        if overwrite:
            ctx.check(len(now) == first + more and (not (d / "notes.txt").exists()), "an overwritten run starts anew")
            ctx.check(all(now[i].metadata.time_sampled > t.metadata.time_sampled for i, t in ref.items() if i in now),
                      "no trial of the old run is left")
            if first:
                launch(1, True, info={"other": 2})
                ctx.check(len(load(d).get_all_trials()) == 1 and load(d).optimizer_info().info == {"other": 2},
                          "an overwritten run may have another optimizer")
        else:
            for i, t in ref.items():
                ctx.eq(now[i], t, "stored trials stay as they were")
            ctx.check(len(now) == first + more, "the run is continued")
            if first:
                files = content(d)
                try:
                    launch(first + more + 2, False, info={"other": 2})
                    ctx.check(False, "another optimizer is refused")
                except Exception as e:
                    ctx.check(type(e).__module__.startswith("neps"), "refused with the package's own error", got=e)
                ctx.eq(content(d), files, "and changes nothing")
        after = R.tree(root)
        ctx.check(all(after.get(p) == b for p, b in beside.items()), "other directories are left alone")
        ctx.count((k, first, more, overwrite))
