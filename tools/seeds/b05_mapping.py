PROP = "C05"
NEEDS = "a configuration or extra information that is a mapping but not a dict"
BREAKS = "it is stored as the list of its keys"
EDITS = [("neps/utils/files.py", "    if isinstance(data, Mapping):\n", "    if type(data) is dict:\n"),
         ("neps/utils/files.py", "from collections.abc import Iterable, Mapping\n", "from collections.abc import Iterable\n")]
DEMO = '''
import sys, tempfile, pathlib, shutil, types, collections
from neps.utils.files import serialize, deserialize
d = pathlib.Path(tempfile.mkdtemp())
try:
    for m in (types.MappingProxyType({"a": 1}), collections.OrderedDict(a=1), collections.UserDict(a=1)):
        serialize({"extra": m}, d / "x.yaml")
        if deserialize(d / "x.yaml") != {"extra": {"a": 1}}:
            sys.exit(f"{type(m).__name__} read back as {deserialize(d / 'x.yaml')}")
finally:
    shutil.rmtree(d)
'''
