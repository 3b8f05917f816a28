PROP = "C06"
NEEDS = "a trial of the run is marked corrupted"
BREAKS = "the optimizer is not shown all stored trials, proposes an id in use and sampling fails for good"
EDITS = [("neps/state/neps_state.py", '''                trial = shared_trial.synced()
                trials[trial_id] = trial
''', '''                trial = shared_trial.synced()
                if trial.state == Trial.State.CORRUPTED:
                    # Nothing an optimizer could learn from
                    continue
                trials[trial_id] = trial
''')]
DEMO = '''
import tempfile, pathlib, sys
from neps.state.filebased import *
from neps.state.optimizer import *
from neps.optimizers.base_optimizer import SampledConfig
seen = []
class Opt:
    def ask(self, trials, budget_info=None):
        seen.append(set(trials))
        return SampledConfig(id=str(len(trials)), config={"x": 1.0})
with tempfile.TemporaryDirectory() as d:
    st = create_or_load_filebased_neps_state(pathlib.Path(d) / "r", optimizer_info=OptimizerInfo({"a": 1}), optimizer_state=OptimizationState(None, {}))
    for _ in range(3):
        t = st.sample_trial(Opt(), worker_id="w")
    t.set_corrupted()
    st.put_updated_trial(t)
    t = st.sample_trial(Opt(), worker_id="w")
    if seen[-1] != {"0", "1", "2"} or t.id != "3":
        sys.exit(f"shown {seen[-1]}")
'''
