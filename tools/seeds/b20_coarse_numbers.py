PROP = "C20"
NEEDS = "an integer hyperparameter with bounds beyond 2**24, or a float whose bounds single precision cannot hold"
BREAKS = "numeric grid values are rounded to single precision: the ends of the range are missed"
ALSO = ["C11"]
EDITS = [("neps/search_spaces/search_space.py", """                _grid = np.clip(grid, hp.lower, hp.upper).astype(np.float64)
""", """                _grid = np.clip(np.asarray(grid, dtype=np.float32), hp.lower, hp.upper)
""")]
DEMO = '''
import sys
from neps.search_spaces import FloatParameter, IntegerParameter, SearchSpace
for hp in (IntegerParameter(1, 16777217 + 2), FloatParameter(0.1, 0.7)):
    vals = [c.hp_values()["x"] for c in SearchSpace(x=hp).get_search_space_grid(size_per_numerical_hp=5)]
    if abs(max(vals) - hp.upper) > 1e-9 or abs(min(vals) - hp.lower) > 1e-9:
        sys.exit(f"{hp} has the grid {vals}")
'''
