PROP = "C12"
NEEDS = "a binned float domain converted into an integer domain with the same bounds and as many values, in a floating tensor"
BREAKS = "the converted value is not integral"
EDITS = [("neps/search_spaces/domain.py", '''            if self.round:
                x = torch.round(x)
            return x.type(dtype)
''', '''            if self.round and not frm.bins:
                x = torch.round(x)
            return x.type(dtype)
''')]
DEMO = '''
import torch, sys
from neps.search_spaces.domain import Domain
x = torch.tensor([[0.2, 3.0], [6.6, 9.9], [10.0, 4.4]], dtype=torch.float64)
y = Domain.translate(x, frm=[Domain.floating(0, 10, bins=11), Domain.floating(0, 10)], to=[Domain.integer(0, 10), Domain.floating(0, 1)], dtype=torch.float64)
if not bool((y[:, 0] == y[:, 0].round()).all()):
    sys.exit(f"not integral: {y}")
'''
