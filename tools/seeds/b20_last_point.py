PROP = "C20"
NEEDS = "a run that is carried to the end of the grid"
BREAKS = "the last point of the order is never proposed; the search declares itself exhausted one point early"
ALSO = []
EDITS = [("neps/optimizers/grid_search/optimizer.py", """        if _num_previous_configs > len(self.configs_list) - 1:
            raise""", """        if _num_previous_configs >= max(len(self.configs_list) - 1, 1):
            raise""")]
DEMO = '''
import sys
from neps.optimizers.grid_search.optimizer import GridSearch
from neps.search_spaces import CategoricalParameter, SearchSpace
o = GridSearch(SearchSpace(a=CategoricalParameter([1, 2, 3]), b=CategoricalParameter(["x", "y"])))
trials, seen = {}, set()
try:
    while True:
        s = o.ask(dict(trials), None)
        trials[s.id] = object()
        seen.add(tuple(sorted(s.config.items())))
except ValueError:
    pass
if len(seen) != 6:
    sys.exit(f"{len(seen)} of 6 points were proposed")
'''
