PROP = "C05"
NEEDS = "an optimizer state whose budget is entirely unused with a zero limit"
BREAKS = "the budget is read back as absent, so that a budget of zero becomes an unlimited one"
EDITS = [("neps/state/filebased.py", "        budget = BudgetInfo(**budget_info) if budget_info is not None else None\n",
          "        budget = BudgetInfo(**budget_info) if budget_info and any(budget_info.values()) else None\n")]
DEMO = '''
import sys, tempfile, pathlib, shutil
from neps.state.filebased import ReaderWriterOptimizationState
from neps.state.optimizer import BudgetInfo, OptimizationState
d = pathlib.Path(tempfile.mkdtemp())
try:
    rw = ReaderWriterOptimizationState()
    for b in (BudgetInfo(max_cost_budget=0.0), BudgetInfo(), BudgetInfo(max_evaluations=0), BudgetInfo(max_cost_budget=3.0)):
        rw.write(OptimizationState(budget=b, shared_state={}), d)
        if rw.read(d).budget != b:
            sys.exit(f"{b} read back as {rw.read(d).budget}")
finally:
    shutil.rmtree(d)
'''
