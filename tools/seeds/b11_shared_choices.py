PROP = "C11"
NEEDS = "the choices of a copy (or of the list the hyperparameter was made from) are changed afterwards"
BREAKS = "a copy is not independent: the original's choices change with it, its default and value may no longer be choices"
EDITS = [("neps/search_spaces/hyperparameters/categorical.py", "        choices = list(choices)\n",
          "        choices = choices if isinstance(choices, list) else list(choices)\n"),
         ("neps/search_spaces/hyperparameters/categorical.py", "        self.choices = list(choices)\n", "        self.choices = choices\n")]
DEMO = '''
import sys
from neps.search_spaces import CategoricalParameter
hp = CategoricalParameter(["a", "b", "c"], default="c")
c = hp.clone()
c.choices.remove("c")
if hp.choices != ["a", "b", "c"]:
    sys.exit("changing the copy changed the original")
'''
