PROP = "C12"
NEEDS = "a log domain whose log bounds are integers, converted into the integer domain with those bounds, in a floating tensor"
BREAKS = "the converted value is not integral"
EDITS = [("neps/search_spaces/domain.py", "if (self.lower, self.upper) == frm.log_bounds and self.cardinality is None:",
          "if (self.lower, self.upper) == frm.log_bounds and self.bins is None:")]
DEMO = '''
import torch, sys, math
from neps.search_spaces.domain import Domain
x = torch.tensor([1.0, 1.3, 2.0, 2.5, math.e], dtype=torch.float64)
y = Domain.integer(0, 1).cast(x, frm=Domain.floating(1.0, math.e, log=True), dtype=torch.float64)
if not bool((y == y.round()).all()):
    sys.exit(f"not integral: {y}")
'''
