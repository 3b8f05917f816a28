"""C16 the status summary agrees with the stored trials."""
# instrument: neps.status.status neps.state.neps_state neps.state.trial neps.utils.types
import importlib

from neps.state.trial import Trial
from pyvc import run_ghost as G
from pyvc.contract import contract
from pyvc.core import Unsupported, cur
from pyvc.rt import SymMap, fold_sum
from pyvc.run_ghost import Run
from pyvc.stubs import patched
from pyvc.values import INF, SymBool, SymNum, SymObj, SymVal
from pyvc.z3load import z3

S = importlib.import_module("neps.status.status")     # neps.status is the function
STATES = {s: k for k, s in enumerate(Trial.State)}


def is_state(*names):
    return lambda i: z3.Or(*[G.T_STATE(i) == STATES[Trial.State[n]] for n in names])


def count(run, cond):
    return fold_sum(run.repo.coll, lambda i: z3.If(cond(i), z3.IntVal(1), z3.IntVal(0)), "int")


def success(i):
    return z3.And(G.T_REPORTED(i), G.R_KIND(i) == 0)


def failed(i):
    return z3.And(G.T_REPORTED(i), G.R_KIND(i) != 0)


def measured(i):
    """Reported successfully, with a loss that is a number."""
    return z3.And(success(i), z3.Not(G.R_NAN["loss"](i)))


def facts(i):
    """What reporting guarantees of every stored trial (C08, C09)."""
    return z3.And(G.T_STATE(i) >= 0, G.T_STATE(i) < len(STATES), G.R_KIND(i) >= 0, G.R_KIND(i) < 3,
                  z3.Implies(success(i), G.R_HAS["loss"](i)),
                  G.R_NUM["loss"](i) <= INF, G.R_NUM["loss"](i) >= -INF, G.T_IDX(G.T_ID(i)) == i)


def the_run(vc):
    p = cur()
    p.state["inf"] = INF
    p.assume(INF > 0)
    run = Run(vc, nan=True, with_budget=False)
    p.state["trial facts"] = run.repo.coll.facts = [facts]
    return run


def asdict_(m, **k):
    if isinstance(m, Trial.MetaData) and type(m) is SymObj and m._tag[0] is G.meta_at:
        return SymVal(G.T_META(m._tag[1][0]), dict)
    raise Unsupported("asdict of something else")


def holds_of_every(vc, run, cond, name):
    j = cur().const("trial", z3.IntSort())
    cur().assume(z3.And(j >= 0, j < run.repo.coll.n))
    cur().assume(facts(j))
    vc.prove(SymBool(cond(j)), name)


def entries(vc, run, m, guard, check, name):
    """The mapping has exactly the trials satisfying guard, under their ids."""
    p = cur()
    if type(m) is dict and not m:
        holds_of_every(vc, run, lambda j: z3.Not(guard(j)), name)
        return
    if not (isinstance(m, SymMap) and type(m) is SymMap and m.coll is run.repo.coll):
        vc.fail(name)
        return
    j = p.const("entry", z3.IntSort())
    p.assume(z3.And(j >= 0, j < run.repo.coll.n))
    p.assume(facts(j))
    vc.prove(SymBool(m.guard(j) == guard(j)), name)
    if p.fork(m.guard(j)):
        vc.prove(SymBool(m.key(j).z == G.T_ID(j)), name + ": under its id")
        check(j, m.elem(j))


def summary_facts(vc, run, d):
    for k, g in (("num_evaluated_configs", G.T_REPORTED), ("num_error", failed),
                 ("num_pending_configs", is_state("PENDING", "EVALUATING")),
                 ("num_pending_configs_with_worker", is_state("EVALUATING"))):
        spec = count(run, g) if k != "num_pending_configs" else \
            count(run, is_state("PENDING")) + count(run, is_state("EVALUATING"))
        vc.prove(k in d and d[k] == spec, f"{k} counts the stored trials of that kind")
    best, who = d["best_loss"], d["best_config_id"]
    best = SymNum(INF, "float") if type(best) is float and best == float("inf") else best
    n = run.repo.coll.n
    holds_of_every(vc, run, lambda j: z3.Implies(measured(j), best.z <= G.R_NUM["loss"](j)),
                   "no trial has a smaller loss than the best")
    if who is None:
        holds_of_every(vc, run, lambda j: z3.Not(measured(j)), "there is a best configuration if any loss is known")
        vc.prove(d["best_config"] is None and d["best_config_metadata"] is None, "nothing is shown as best otherwise")
        vc.prove(SymBool(best.z == INF), "with an infinite best loss")
        vc.cover("nothing measured")
        return
    w = G.T_IDX(who.z)
    cur().assume(facts(w))
    vc.prove(SymBool(z3.And(w >= 0, w < n, G.T_ID(w) == who.z, measured(w))), "the best trial is a stored, measured one")
    vc.prove(SymBool(z3.And(z3.Not(best.nan), G.R_NUM["loss"](w) == best.z)), "the best loss is that of the best trial")
    vc.prove(isinstance(d["best_config"], dict) and SymBool(d["best_config"].z == G.T_CONFIG(w)),
             "the best configuration is that of the best trial")
    vc.prove(isinstance(d["best_config_metadata"], dict) and SymBool(d["best_config_metadata"].z == G.T_META(w)),
             "the best metadata is that of the best trial")
    vc.cover("best")


def detail_facts(vc, run, d):
    def prev(j, e):
        vc.prove(SymBool(z3.And(e.id.z == G.T_ID(j), e.config.z == G.T_CONFIG(j), e.metadata.z == G.T_META(j))),
                 "a previous result has the stored id, configuration and metadata")
        if e.result == "error":
            vc.prove(SymBool(failed(j)), "an error stands for a failed evaluation")
        else:
            loss = e.result["loss"]
            vc.prove(SymBool(success(j)), "a result stands for a successful evaluation")
            vc.prove(SymBool(z3.And(loss.z == G.R_NUM["loss"](j), loss.nan == G.R_NAN["loss"](j))), "with its loss")

    def config(j, e):
        vc.prove(SymBool(e.z == G.T_CONFIG(j)), "a pending entry has the stored configuration")
    entries(vc, run, d["previous_results"], G.T_REPORTED, prev, "previous results are the trials with a report")
    entries(vc, run, d["pending_configs"], is_state("PENDING", "EVALUATING"), config,
            "pending configurations are those waiting or being evaluated")
    entries(vc, run, d["pending_configs_free"], is_state("PENDING"), config,
            "free pending configurations are those waiting")


def untouched(vc, run):
    vc.prove(not run.repo.puts and not run.repo.new and not any(s.puts for s in (run.opt, run.seed, run.errs, run.info)),
             "reading the summary writes nothing")


@contract("C16", "neps.status.status.get_summary_dict", "neps.state.neps_state.NePSState.get_all_trials",
          "neps.state.trial.Report.to_deprecate_result_dict", "neps.utils.types._ConfigResultForStats.loss")
def summary(vc):
    run = the_run(vc)
    details = bool(vc.choose(2, "add_details"))
    root = "somewhere"
    opened = []

    def load(d):
        opened.append(d)
        return run.state
    with patched(S, load_filebased_neps_state=load, asdict=asdict_):
        st, d = vc.call(S.get_summary_dict, root, add_details=details)
    vc.prove(st == "ok", "the summary of a run is produced")
    if st != "ok":
        return
    vc.prove(len(opened) >= 1 and all(str(x) == root for x in opened), "from the directory asked for")
    untouched(vc, run)
    vc.prove(("previous_results" in d) == details, "details only if asked for")
    if details:
        detail_facts(vc, run, d)
    summary_facts(vc, run, d)
