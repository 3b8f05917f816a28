PROP = "C13"
NEEDS = "a categorical with four or more choices of which two read the same as text (1 and \"1\")"
BREAKS = "one of the two choices is encoded as the other and decodes to it"
EDITS = [("neps/search_spaces/encoding.py", "self._lookup = {c: i for i, c in enumerate(self.choices)}", "self._lookup = {str(c): i for i, c in enumerate(self.choices)}"),
         ("neps/search_spaces/encoding.py", "[self._lookup[c] for c in x]", "[self._lookup[str(c)] for c in x]")]
DEMO = '''
import sys
from neps.search_spaces.encoding import CategoricalToIntegerTransformer
cs = [1, "1", "a", 2.5, 7]
t = CategoricalToIntegerTransformer(cs)
got = t.decode(t.encode(cs))
if got != cs or [type(a) for a in got] != [type(a) for a in cs]:
    sys.exit(f"{cs} came back as {got}")
'''
