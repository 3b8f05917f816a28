"""The contract of NePSState.sample_trial; parts of it carry C03, C06 and C10."""
import neps.state.neps_state as N
from neps.state.trial import Trial
from pyvc import rt
from pyvc.core import Unsupported, cur
from pyvc.run_ghost import Run, T_ID, T_LOC, fields, same_fields
from pyvc.stubs import owns, patched
from pyvc.values import And, Implies, Not, Or, SymBool, SymVal, realval, same, val
from pyvc.z3load import z3


class AskFailed(Exception):
    pass


class Clock:
    def __init__(self):
        self.now = realval("now")

    def time(self):
        return self.now

    monotonic = time


def P(vc, prop, cond, name):
    if owns(*prop.split()):
        vc.prove(cond, name)


def sample_trial_contract(vc):
    run = Run(vc)
    clock = Clock()
    asked = []
    n_hooks = vc.choose(4, "hooks") - 1          # no hook list, an empty one, one hook, two
    hooked = []

    class Sampled:
        pass

    class Optimizer:
        def __init__(self, tag):
            self.tag = tag

        def ask(self, trials, budget_info):
            asked.append(self)
            run.repo._at("ask")
            if owns("C06", "C20"):
                check_view(vc, run, trials, budget_info)
            self.installed = run.rng.state
            P(vc, "C10", run.seed.held == 1 and same(run.rng.state, run.seed.before),
              "the stored generator state is installed before the optimizer draws")
            if budget_info is not None:
                budget_info.used_cost_budget = realval("scribble")      # its copy is private
            run.rng.draw("ask")
            self.left = run.rng.state
            how = vc.choose(3, "ask")
            if how == 0:
                raise AskFailed()
            s = Sampled()
            s.config = val("config", dict)
            s.id = val("new.id", str)
            s.previous_config_id = val("prev.id", str) if vc.choose(2, "previous") else None
            self.answer = s
            self.new_opt = val("new_opt_state", dict) if how == 2 else None
            return (s, self.new_opt) if how == 2 else s

    opt0 = Optimizer("plain")
    hooks = None

    def hook(k):
        def h(o):
            hooked.append((k, o))
            made.append(Optimizer(f"hooked {k}"))
            return made[-1]
        return h
    made = [opt0]
    if n_hooks >= 0:
        hooks = [hook(k) for k in range(n_hooks)]
    worker = val("worker", str)
    with patched(N, time=clock):
        st, r = vc.call(run.state.sample_trial, opt0, worker_id=worker, _sample_hooks=hooks)
    if owns("C03"):
        run.locks_free()
    vc.prove(len(asked) == 1, "the optimizer is asked exactly once") if owns("C06") else None
    if not asked:
        return
    o = asked[0]
    P(vc, "C06 C19", [k for k, _ in hooked] == list(range(n_hooks)) and all(x is y for (_, x), y in zip(hooked, made)),
      "each hook is applied once, in order, to what the one before it returned")
    P(vc, "C06 C19", o is made[-1], "the optimizer returned by the last hook is the one that is asked")
    if not hasattr(o, "answer"):
        P(vc, "C06", st == "exc" and isinstance(r, AskFailed) and not run.repo.new and not run.repo.puts,
          "a failing optimizer stores nothing")
        P(vc, "C10", not run.seed.puts, "a failed sampling stores no generator state")
        vc.cover("ask failed")
        return
    a = o.answer
    # facts about the stored trials, decided on this path
    prev = None if a.previous_config_id is None else run.repo.map.find(a.previous_config_id)
    exists = run.repo.map.find(a.id) is not None
    refused = exists or (a.previous_config_id is not None and prev is None)
    if refused:
        P(vc, "C06", st == "exc" and not run.repo.new and not run.repo.puts,
          "an existing id or an unknown predecessor is refused and no trial stored")
        vc.cover("refused")
        return
    P(vc, "C06", st == "ok", "a legal proposal is stored")
    if st != "ok":
        return
    P(vc, "C06 C20", bool(frozenset.intersection(*[h for _, h in cur().state["sessions"]])),
      "the trials are read, the optimizer is asked and its proposal is stored under one and the same lock")
    P(vc, "C06 C20", len(run.repo.new) == 1 and not run.repo.puts, "exactly one new trial is stored, the others untouched")
    if len(run.repo.new) == 1 and owns("C20"):
        vc.prove(same(run.repo.new[0].config, a.config), "the new trial holds the proposed configuration")
    if len(run.repo.new) == 1 and owns("C06"):
        t = run.repo.new[0]
        vc.prove(t.state is Trial.State.PENDING, "the new trial is pending")
        vc.prove(t.report is None, "the new trial has no report")
        vc.prove(same(t.config, a.config), "the new trial holds the proposed configuration")
        vc.prove(same(t.metadata.id, a.id), "the new trial has the proposed id")
        if prev is None:
            vc.prove(t.metadata.previous_trial_id is None and t.metadata.previous_trial_location is None,
                     "no predecessor unless proposed")
        else:
            vc.prove(same(t.metadata.previous_trial_id, a.previous_config_id), "the predecessor's id is recorded")
            vc.prove(same(t.metadata.previous_trial_location, SymVal(T_LOC(prev), str)),
                     "the predecessor's location is recorded")
            vc.cover("with predecessor")
        vc.prove(same(t.metadata.time_sampled, clock.now), "the sampling time is recorded")
        vc.prove(same(t.metadata.sampling_worker_id, worker), "the sampling worker is recorded")
        vc.prove(t.metadata.evaluating_worker_id is None and t.metadata.time_started is None
                 and t.metadata.time_end is None and t.metadata.evaluation_duration is None, "nothing about an evaluation")
        vc.prove(r is t or same(r.metadata.id, t.metadata.id), "the stored trial is returned")
    if owns("C01", "C06"):
        for (b0, sh0), (b1, sh1) in run.opt.log:
            vc.prove(same_fields(b1, b0), "the stored budget is unchanged")
            if o.new_opt is None:
                vc.prove(same(sh1, sh0), "the optimizer's shared state is as before unless it returned one")
        if o.new_opt is not None:
            vc.prove(bool(run.opt.log) and same(run.opt.log[-1][1][1], o.new_opt), "the optimizer's shared state is the one it returned")
    P(vc, "C10", len(run.seed.log) == 1 and same(run.seed.log[-1][1], o.left),
      "the generator state the optimizer left behind is stored")
    if len(run.seed.log) == 1:
        P(vc, "C10", same(run.seed.log[-1][0], o.installed), "in the session whose state it continued")
    vc.cover("sampled")


def check_view(vc, run, trials, budget_info):
    P(vc, "C06", same_fields(fields(budget_info), run.opt.before[0]), "the optimizer sees the stored budget")
    P(vc, "C06", budget_info is None or budget_info is not run.opt.value.budget, "the budget is a private copy")
    # the mapping shown to the optimizer is exactly the stored trials
    if isinstance(trials, rt.SymMap):
        p = cur()
        vc.prove(trials.coll is run.repo.coll, "the trials shown are the stored ones")
        k = p.const("any", z3.IntSort())
        vc.assume(SymBool(z3.And(k >= 0, k < run.repo.coll.n)))
        vc.prove(SymBool(trials.guard(k)), "every stored trial is shown")
        vc.prove(SymBool(trials.key(k).z == T_ID(k)), "under its own id")
        t = trials.elem(k)
        vc.prove(SymBool(t.metadata.id.z == T_ID(k)), "in its own stored state")
    else:
        vc.prove(len(trials) == 0 and SymBool(run.repo.coll.n == 0), "every stored trial is shown")
