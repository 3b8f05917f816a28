PROP = "C02"
NEEDS = "reading the resource fails once (a transient I/O error) right after another process changed it"
BREAKS = "later reads return outdated data as if it was the latest"
ALSO = ["C01"]
EDITS = [("neps/state/protocols.py", '''            self._current = self._reader_writer.read(self._location)
            self._version = current_version''', '''            self._version = current_version
            self._current = self._reader_writer.read(self._location)''')]
DEMO = '''
import tempfile, pathlib, sys
from neps.state.filebased import *
from neps.state.optimizer import *
with tempfile.TemporaryDirectory() as d:
    mk = lambda: create_or_load_filebased_neps_state(pathlib.Path(d) / "r", optimizer_info=OptimizerInfo({"a": 1}), optimizer_state=OptimizationState(None, {"k": 0}))
    a, b = mk()._optimizer_state, mk()._optimizer_state
    b.synced()
    a.put(OptimizationState(None, {"k": 1}))
    orig = ReaderWriterOptimizationState.read
    def boom(*args): raise OSError("transient")
    ReaderWriterOptimizationState.read = boom
    try:
        b.synced()
    except OSError:
        pass
    ReaderWriterOptimizationState.read = orig
    got = b.synced().shared_state
    if got != {"k": 1}:
        sys.exit(f"stale read: {got}")
'''
