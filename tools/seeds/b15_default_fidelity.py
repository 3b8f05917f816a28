PROP = "C15"
NEEDS = "a prior-based successive halving asked to evaluate the default first and at the target fidelity"
BREAKS = "the first trial is named after the top rung but carries the fidelity of the lowest one"
EDITS = [("neps/optimizers/multi_fidelity/successive_halving.py", "            fidelity_value = self.rung_map[rung_id]\n", "            fidelity_value = self.rung_map[self.min_rung]\n")]
DEMO = '''
import sys
from neps.search_spaces import FloatParameter, IntegerParameter, SearchSpace
from neps.optimizers.multi_fidelity.successive_halving import SuccessiveHalvingWithPriors
sp = SearchSpace(x=FloatParameter(0, 1, default=0.5, default_confidence="low"), f=IntegerParameter(1, 27, is_fidelity=True))
o = SuccessiveHalvingWithPriors(pipeline_space=sp, budget=100, sample_default_first=True, sample_default_at_target=True)
s = o.ask({}, None)
want = o.rung_map[int(s.id.split("_")[1])]
if s.config["f"] != want:
    sys.exit(f"{s.id} runs at {s.config['f']}, not {want}")
'''
