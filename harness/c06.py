from __future__ import annotations

import copy
import itertools
import time

from hlib import case
import optkit as OK
import runkit as R
from neps.optimizers.base_optimizer import SampledConfig
from neps.state.filebased import load_filebased_neps_state
from neps.state.optimizer import BudgetInfo
from neps.state.trial import Trial

S = Trial.State
IDS = ["1", "0", "a", "1_0", "1_1", "config_", "config_1", "config_config_2", "x.y", "-1", "0001", "UPPER", "3_config_4"]


@case
def one_new_trial(ctx):
    """A sampling step stores exactly the proposal as one new pending trial and leaves the rest of the run alone."""
    rng = ctx.rng
    for rnd in range(ctx.n(10, 60)):
        d = ctx.dir() / "run"
        a = R.state_at(d, budget=rng.choice([None, BudgetInfo(max_cost_budget=3.0, used_cost_budget=1.0)]), shared={"k": 1})
        b = load_filebased_neps_state(d)
        ids = list(IDS)
        rng.shuffle(ids)
        known = {}
        for n, i in enumerate(ids):
            prev = rng.choice([None, *known]) if known else None
            cfg = {"x": rng.random(), "y": rng.choice(["a", "b"]), "z": rng.randrange(9)}
            new_state = {"m": n} if rng.random() < 0.3 else None

            def propose(trials, budget):
                if budget is not None:
                    budget.used_cost_budget += 100           # the optimizer's copy only
                s = SampledConfig(id=i, config=dict(cfg), previous_config_id=prev)
                return (s, new_state) if new_state is not None else s
            st = rng.choice([a, b, load_filebased_neps_state(d)])
            before, tree0 = R.trials_at(d), R.tree(d)
            os0 = load_filebased_neps_state(d).optimizer_state()
            opt = R.Scripted(propose)
            t0 = time.time()
            t = st.sample_trial(opt, worker_id=f"w{n}")
            t1 = time.time()
            after = R.trials_at(d)
            ctx.check(set(after) == set(before) | {i} and i not in before, "exactly one trial is new", new=set(after) - set(before), id=i)
            ctx.check(set(opt.seen[0][0]) == set(before) and all(opt.seen[0][0][k] == before[k] for k in before),
                      "the optimizer is shown every stored trial as stored", shown=sorted(opt.seen[0][0]), stored=sorted(before))
            shown_b = opt.seen[0][1]
            ctx.check(shown_b == os0.budget, "and the stored budget", shown=shown_b, stored=os0.budget)
            u = after[i]
            ctx.check(u == t and u.id == i and u.metadata.id == i, "what is returned is what is stored", got=t, stored=u)
            ctx.check(u.state == S.PENDING and u.report is None and dict(u.config) == cfg, "a pending trial with the proposed configuration", t=u)
            m = u.metadata
            ctx.check(m.sampling_worker_id == f"w{n}" and t0 - 1 <= m.time_sampled <= t1 + 1 and m.evaluating_worker_id is None
                      and m.time_started is None and m.time_end is None, "sampled by this worker now, not evaluated", t=u)
            loc = (d / "configs" / f"config_{i}").resolve()
            ctx.check(m.location == str(loc) and loc.is_dir(), "with its own directory", t=u)
            ctx.check(m.previous_trial_id == prev and m.previous_trial_location ==
                      (None if prev is None else before[prev].metadata.location), "with its predecessor", t=u, prev=prev)
            tree1 = R.tree(d)
            rel = str(loc.relative_to(d.resolve())) + "/"
            changed = {k for k in set(tree0) | set(tree1) if tree0.get(k) != tree1.get(k) and not k.startswith(rel)}
            ctx.check(all(not k.startswith("configs/") for k in changed) and all("error" not in k and "info" not in k.split("/")[0]
                                                                               for k in changed),
                      "no other trial, error or description is touched", changed=sorted(changed))
            os1 = load_filebased_neps_state(d).optimizer_state()
            ctx.check(os1.budget == os0.budget, "the budget is not changed by sampling", before=os0, after=os1)
            ctx.check(os1.shared_state == (new_state if new_state is not None else os0.shared_state), "the optimizer's state is kept",
                      before=os0, after=os1)
            known[i] = t
            ctx.count((i, prev, new_state is not None))
            if rng.random() < 0.4:                             # trials in every state
                v = a.get_trial_by_id(i)
                v.state = rng.choice(list(S))
                a.put_updated_trial(v)
            elif rng.random() < 0.4:                           # some get evaluated
                v = a.get_trial_by_id(i)
                v.set_evaluating(time_started=1.0, worker_id="e")
                a.put_updated_trial(v)
                a.report_trial_evaluation(v, v.set_complete(report_as="success", time_end=1.0, loss=1.0, cost=None, learning_curve=None,
                                                            err=None, tb=None, extra={}, evaluation_duration=1.0), worker_id="e")


@case
def refused(ctx):
    """A proposal with a used id or an unknown predecessor is refused and nothing stored changes."""
    for how, pre in itertools.product(("used", "used evaluated", "unknown", "raise", "both"), (1, 4)):
        d = ctx.dir() / "run"
        a, b = R.state_at(d), R.state_at(d)
        for _ in range(pre):
            a.sample_trial(R.Scripted(record=False), worker_id="s")
        if how == "used evaluated":
            R.worker(a, lambda x: x, max_evaluations_for_worker=1).run()

        def propose(trials, budget):
            if how.startswith("used"):
                return SampledConfig(id="1", config={"x": 99.0})
            if how == "unknown":
                return SampledConfig(id="new", config={"x": 99.0}, previous_config_id="nope")
            if how == "both":
                return SampledConfig(id="1", config={"x": 99.0}, previous_config_id="nope")
            raise RuntimeError("optimizer")
        for st in (a, b, load_filebased_neps_state(d)):
            before, t0 = R.trials_at(d), R.tree(d)
            e = ctx.raises(Exception, lambda: st.sample_trial(R.Scripted(propose), worker_id="w"), "refused: " + how)
            ctx.check(R.trials_at(d) == before, "no trial is changed", how=how)
            ctx.eq(R.tree(d), t0, "nothing stored is changed", how=how)
            n = len(before)
            t = st.sample_trial(R.Scripted(record=False), worker_id="w")
            ctx.check(len(R.trials_at(d)) == n + 1 and t.id == str(n + 1), "sampling goes on afterwards", how=how)
        ctx.count((how, pre))


@case
def hooks(ctx):
    """Hooks are applied in order, once per sampling step, and the optimizer they give is asked."""
    d = ctx.dir() / "run"
    a = R.state_at(d)
    log = []

    def mk(n):
        def hook(o):
            log.append((n, o))
            new = R.Scripted(record=True)
            new.tag = n
            return new
        return hook
    first = R.Scripted()
    hs = [mk(1), mk(2), mk(3)]
    for k in range(3):
        log.clear()
        a.sample_trial(first, worker_id="w", _sample_hooks=hs)
        ctx.check([n for n, _ in log] == [1, 2, 3] and log[0][1] is first and log[1][1].tag == 1 and log[2][1].tag == 2,
                  "hooks in order, each on the result of the one before", log=[n for n, _ in log])
        ctx.check(not first.seen, "the optimizer given by the hooks is asked")
        ctx.count(k)
    ctx.check(len(R.trials_at(d)) == 3, "one trial each")


@case
def optimizers(ctx):
    """Every optimizer proposes fresh ids and known, suitable predecessors over arbitrary histories, also when resumed."""
    from neps.search_spaces import SearchSpace
    for name in OK.names():
        slow = name in ("bayesian_optimization", "pibo")
        for seed, fid, err, par in itertools.product(range(ctx.n(1, 6)), ("int", "float"), (0.0, 0.3), (1, 4)):
            if not ctx.thorough and err * 10 // 3 != par // 4:
                continue
            if slow and (fid == "float" or (err, par) == (0.0, 1)) and not ctx.thorough:
                continue
            rng = __import__("random").Random(f"{ctx.seed}{name}{seed}{fid}{err}{par}")
            R.reseed(rng)
            fidelity = None if name in ("random_search", "grid_search", "regularized_evolution") or slow else fid
            if name == "grid_search" and err:
                continue
            sp = OK.space(fidelity)

            def see(opt, before, s):
                ctx.check(isinstance(s.id, str) and s.id and s.id not in before, "a fresh id", optimizer=name, id=s.id)
                ctx.check(s.previous_config_id is None or s.previous_config_id in before, "a known predecessor", optimizer=name,
                          id=s.id, prev=s.previous_config_id)
                ctx.check(set(s.config) == set(sp.hyperparameters), "every hyperparameter has a value", optimizer=name, got=sorted(s.config))
                ctx.count((name, s.id, seed))
            n = 9 if slow else (12 if name == "grid_search" else ctx.n(45, 120))
            try:
                OK.drive(lambda: OK.make(name, sp.clone()), n, rng, err, par, see=see, need=3 if slow else 0)
            except Exception as e:
                if isinstance(e, __import__("hlib").Violation):
                    raise
                ctx.check(False, f"the optimizer failed: {type(e).__name__}: {e}", optimizer=name, fid=fid, err=err, par=par, seed=seed)
