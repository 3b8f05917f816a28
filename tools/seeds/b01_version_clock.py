PROP = "C01"
NEEDS = "two writes of one resource within the same millisecond, with another process reading in between"
BREAKS = "version tags repeat, so a write based on outdated data is accepted and the other process's write is lost"
ALSO = ["C02"]
EDITS = [("neps/state/filebased.py", '    """Generate a str hex sha."""\n    return uuid4().hex', '    """Generate a version tag, time ordered so that it can be read by a human."""\n    return f"{time.time_ns() // 1_000_000:x}"'),
         ("neps/state/filebased.py", "import pprint\n", "import pprint\nimport time\n"),
         ("neps/state/filebased.py", "from uuid import uuid4\n", "")]
DEMO = '''
import tempfile, pathlib, sys
from neps.state.filebased import *
from neps.state.optimizer import *
from neps.exceptions import VersionMismatchError
with tempfile.TemporaryDirectory() as d:
    mk = lambda: create_or_load_filebased_neps_state(pathlib.Path(d) / "r", optimizer_info=OptimizerInfo({"a": 1}), optimizer_state=OptimizationState(None, {}))
    a, b = mk()._optimizer_state, mk()._optimizer_state
    for k in range(2000):
        a.synced(); a.put(OptimizationState(None, {"k": 2 * k}))
        mine = b.synced()
        a.put(OptimizationState(None, {"k": 2 * k + 1}))
        try:
            b.put(OptimizationState(None, {"k": -1}))
        except VersionMismatchError:
            continue
        sys.exit("a stale write was accepted, the update before it is lost")
'''
