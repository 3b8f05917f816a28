PROP = "C19"
NEEDS = "more than one pre-load hook whose order matters, given as something other than a list"
BREAKS = "hooks given as a tuple or generator are applied in another order"
EDITS = [("neps/runtime.py", """        _pre_sample_hooks=list(pre_load_hooks) if pre_load_hooks is not None else None,
""", """        _pre_sample_hooks=(
            pre_load_hooks
            if pre_load_hooks is None or isinstance(pre_load_hooks, list)
            else sorted(pre_load_hooks, key=lambda hook: getattr(hook, "__name__", ""))
        ),
""")]
DEMO = '''
import sys, tempfile, logging
logging.disable(logging.CRITICAL)
import neps
order = []
def warm(o):
    order.append("warm")
    return o
def early(o):
    order.append("early")
    return o
with tempfile.TemporaryDirectory() as d:
    neps.run(lambda x: x, root_directory=d + "/r", pipeline_space={"x": neps.Float(0, 1)}, max_evaluations_total=1,
             searcher="random_search", post_run_summary=False, pre_load_hooks=(warm, early))
if order != ["warm", "early"]:
    sys.exit(f"{order}")
'''
