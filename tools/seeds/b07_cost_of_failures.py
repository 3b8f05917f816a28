PROP = "C07"
NEEDS = "evaluations that fail while cost_value_on_error and a total cost limit are set"
BREAKS = "the cost of failed evaluations is not counted, the run goes on beyond its total cost limit"
EDITS = [("neps/runtime.py", '''                if trial.report is not None and trial.report.cost is not None
            )
            if cost >=''', '''                if trial.state == Trial.State.SUCCESS and trial.report.cost is not None
            )
            if cost >=''')]
DEMO = '''
import tempfile, pathlib, sys
from neps.state.filebased import *
from neps.state.optimizer import *
from neps.state.settings import *
from neps.runtime import DefaultWorker
from neps.optimizers.base_optimizer import SampledConfig
class Opt:
    def ask(self, trials, budget_info=None):
        return SampledConfig(id=str(len(trials)), config={"x": float(len(trials))})
with tempfile.TemporaryDirectory() as d:
    st = create_or_load_filebased_neps_state(pathlib.Path(d) / "r", optimizer_info=OptimizerInfo({"a": 1}), optimizer_state=OptimizationState(None, {}))
    n = []
    def fn(x):
        n.append(x)
        if x < 3:
            raise ValueError("no")
        return {"loss": x, "cost": 1.0}
    DefaultWorker.new(state=st, optimizer=Opt(), evaluation_fn=fn, worker_id="a", settings=WorkerSettings(
        on_error=OnErrorPossibilities.IGNORE, default_report_values=DefaultReportValues(loss_value_on_error=1.0, cost_value_on_error=1.0),
        max_evaluations_total=None, include_in_progress_evaluations_towards_maximum=False, max_cost_total=4.0,
        max_evaluations_for_worker=20, max_evaluation_time_total_seconds=None, max_wallclock_time_for_worker_seconds=None,
        max_evaluation_time_for_worker_seconds=None, max_cost_for_worker=None)).run()
    if len(n) != 4:
        sys.exit(f"{len(n)} evaluations of cost 1 each with a limit of 4")
'''
