PROP = "C13"
NEEDS = "a categorical encoded to the unit interval whose number of choices makes k/(n-1)*(n-1) fall below k in floating point (50 choices)"
BREAKS = "the last choice decodes to the one before it"
EDITS = [("neps/search_spaces/encoding.py", "x = torch.round(x * (len(self.choices) - 1)).type(torch.int64)", "x = torch.floor(x * (len(self.choices) - 1)).type(torch.int64)")]
DEMO = '''
import sys
from neps.search_spaces.encoding import CategoricalToUnitNorm
for n in range(2, 130):
    cs = [f"c{i}" for i in range(n)]
    t = CategoricalToUnitNorm(cs)
    if t.decode(t.encode(cs)) != cs:
        sys.exit(f"{n} choices do not come back")
'''
