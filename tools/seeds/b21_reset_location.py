PROP = "C21"
NEEDS = "a trial that continues another one is reset"
BREAKS = "the reset trial forgets where its predecessor is stored"
EDITS = [("neps/state/trial.py", '''            previous_trial_location=self.metadata.previous_trial_location,
            time_sampled=self''', '''            previous_trial_location=None,
            time_sampled=self''')]
DEMO = '''
import sys
from neps.state.trial import Trial
t = Trial.new(trial_id="1_1", config={"x": 1}, location="/a", previous_trial="1_0", previous_trial_location="/b", time_sampled=0, worker_id="w")
t.set_evaluating(time_started=1.0, worker_id="w")
t.reset()
if t.metadata.previous_trial_location != "/b":
    sys.exit("predecessor lost")
'''
