PROP = "C11"
NEEDS = "a number near 0 un-normalised by an integer hyperparameter with a positive lower bound"
BREAKS = "the value lies below the lower bound"
EDITS = [("neps/search_spaces/hyperparameters/integer.py", "        return int(np.rint(self.float_hp.normalized_to_value(normalized_value)))",
          "        return int(self.float_hp.normalized_to_value(normalized_value))")]
DEMO = '''
import sys
from neps.search_spaces import IntegerParameter
for log in (False, True):
    hp = IntegerParameter(3, 300, log=log)
    for k in range(2001):
        v = hp.normalized_to_value(k / 2000)
        if not (isinstance(v, int) and 3 <= v <= 300):
            sys.exit(f"illegal value {v} at {k / 2000}")
'''
