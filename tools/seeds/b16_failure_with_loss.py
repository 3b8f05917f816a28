PROP = "C16"
NEEDS = "a failed evaluation for which a loss on error is configured, lower than the losses reported by successes"
BREAKS = "the failure is counted as a success and shown as the best configuration"
EDITS = [("neps/state/trial.py", 'if self.reported_as == "success":\n            d =', 'if self.loss is not None:\n            d =')]
DEMO = '''
import sys, tempfile, os, logging
logging.disable(logging.CRITICAL)
import neps
from neps.status.status import get_summary_dict
with tempfile.TemporaryDirectory() as d:
    calls = []
    def f(x):
        calls.append(x)
        if len(calls) % 2:
            raise ValueError("no")
        return 5.0 + x
    neps.run(f, root_directory=d + "/r", pipeline_space={"x": neps.Float(0, 1)}, max_evaluations_total=4, ignore_errors=True,
             loss_value_on_error=0.5, searcher="random_search", post_run_summary=False)
    s = get_summary_dict(d + "/r")
    if s["num_error"] != 2 or s["best_loss"] < 5:
        sys.exit(f"{s}")
'''
