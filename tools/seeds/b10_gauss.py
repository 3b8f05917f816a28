PROP = "C10"
NEEDS = "the sampling step before drew an odd number of Gaussian numbers from Python's generator"
BREAKS = "the next sampling step does not continue the stored stream"
EDITS = [("neps/state/filebased.py", '''                seed_info["py_guass_next"],
            ),''', '''                seed_info["py_guass_next"] or None if seed_info["np_has_gauss"] else None,
            ),''')]
DEMO = '''
import tempfile, pathlib, sys, random
from neps.state.filebased import *
from neps.state.optimizer import *
from neps.optimizers.base_optimizer import SampledConfig
class Opt:
    def ask(self, trials, budget_info=None):
        return SampledConfig(id=str(len(trials)), config={"x": random.gauss(0, 1)})
def go(views):
    random.seed(1)
    with tempfile.TemporaryDirectory() as d:
        mk = lambda: create_or_load_filebased_neps_state(pathlib.Path(d) / "r", optimizer_info=OptimizerInfo({"a": 1}), optimizer_state=OptimizationState(None, {}))
        st = [mk() for _ in range(views)]
        return [st[k % views].sample_trial(Opt(), worker_id="w").config["x"] for k in range(6)]
if go(1) != go(2):
    sys.exit("the proposals depend on who samples")
'''
