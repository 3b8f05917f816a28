PROP = "C17"
NEEDS = "overwrite requested for a run with a sibling directory whose name starts with the run's name (run, run_2)"
BREAKS = "overwriting a run also deletes siblings that share its name as a prefix"
EDITS = [("neps/runtime.py", """        shutil.rmtree(optimization_dir)
""", """        # Also anything kept right beside it, e.g. backups of the run
        for stale in sorted(optimization_dir.parent.glob(f"{optimization_dir.name}*")):
            shutil.rmtree(stale, ignore_errors=stale != optimization_dir)
""")]
DEMO = '''
import sys, tempfile, logging
from pathlib import Path
logging.disable(logging.CRITICAL)
import neps
with tempfile.TemporaryDirectory() as t:
    def go(name, **k):
        neps.run(lambda x: x, root_directory=Path(t) / name, pipeline_space={"x": neps.Float(0, 1)}, max_evaluations_total=1,
                 searcher="random_search", post_run_summary=False, **k)
    go("run_2")
    go("run")
    go("run", overwrite_working_directory=True)
    if not (Path(t) / "run_2" / "configs").exists():
        sys.exit("run_2 is gone")
'''
