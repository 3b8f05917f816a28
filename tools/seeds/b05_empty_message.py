PROP = "C05"
NEEDS = "an evaluation that raises an exception without a message"
BREAKS = "the report's error is read back as an empty string instead of an exception"
EDITS = [("neps/state/trial.py", "        if isinstance(self.err, str):\n", "        if self.err and isinstance(self.err, str):\n")]
DEMO = '''
import sys, tempfile, pathlib
from neps.state.filebased import ReaderWriterTrial
from neps.state.trial import Trial
d = pathlib.Path(tempfile.mkdtemp())
try:
    t = Trial.new(trial_id="1", location="", config={}, previous_trial=None, previous_trial_location=None, time_sampled=0.0, worker_id="w")
    t.report = t.set_complete(report_as="crashed", time_end=1.0, loss=None, cost=None, learning_curve=None, err=RuntimeError(), tb="tb",
                              extra=None, evaluation_duration=1.0)
    ReaderWriterTrial().write(t, d)
    r = ReaderWriterTrial().read(d).report
    if not isinstance(r.err, Exception):
        sys.exit(f"error read back as {r.err!r}")
finally:
    import shutil
    shutil.rmtree(d)
'''
