"""C17 opening a run directory never overwrites the run it holds."""
# instrument: neps.runtime neps.state.protocols neps.utils.files neps.state.filebased neps.state.trial neps.state.optimizer neps.state.err_dump neps.state.seed_snapshot neps.state.neps_state
import copy
import dataclasses

import neps.runtime as R
import neps.state.filebased as FB
from neps.exceptions import VersionedResourceDoesNotExistsError
from neps.state.err_dump import ErrDump
from neps.state.neps_state import NePSState
from neps.state.optimizer import OptimizerInfo
from neps.state.trial import Trial
from pyvc import docs
from pyvc.contract import contract
from pyvc.core import Unsupported
from pyvc.stubs import patched
from pyvc.values import And, realval, same, val
import contracts.c01  # noqa: F401  (Synced.new_or_load under interference)
from contracts.c05 import equal, fields
from contracts.diskkit import ghost_disk, info, opt_state, snapshot

MISSING = VersionedResourceDoesNotExistsError


def eq_fields(a, b):
    x, y = fields(a), fields(b)
    return x.keys() == y.keys() and And(True, *[eq_any(x[k], y[k]) for k in x])


def eq_any(a, b):
    if dataclasses.is_dataclass(a) and not isinstance(a, type):
        return b is not None and eq_fields(a, b)
    if type(a) in (list, tuple):
        return len(a) == len(b) and And(True, *[eq_any(x, y) for x, y in zip(a, b)])
    if isinstance(a, docs.Arr) and isinstance(b, docs.Arr):
        return equal(a.seq, b.seq)
    return equal(a, b)


def held(state):
    """What a state gives access to."""
    return {"optimizer info": state._optimizer_info.synced(), "optimizer state": state._optimizer_state.synced(),
            "seed state": state._seed_state.synced(), "errors": state._shared_errors.synced()}


def a_trial(vc, tid):
    return Trial.new(trial_id=tid, config={"x": val("x")}, location="", previous_trial=None, previous_trial_location=None,
                     time_sampled=realval("t"), worker_id=val("w", str))


def error():
    return ErrDump.SerializableTrialError(trial_id=val("e.trial", str), worker_id=val("e.worker", str), err_type=val("e.type", str),
                                          err=val("e.err", str), tb=val("e.tb", str))


def run_of_before(vc, g, d, history):
    """Creates the run with other arguments and lets it go on."""
    first, st0 = info("first"), opt_state(vc, 1)
    st, s = vc.call(FB.create_or_load_filebased_neps_state, directory=d, optimizer_info=first, optimizer_state=st0)
    if st != "ok":
        return None
    now = {"optimizer info": first, "optimizer state": st0, "seed state": g.captured[-1], "errors": ErrDump()}
    trials = []
    if history == 1:
        now["optimizer state"] = opt_state(vc, vc.choose(2, "budget later"))
        with s._optimizer_state.acquire() as (_, put):
            put(now["optimizer state"])
        now["seed state"] = snapshot(vc, 0, 1)
        with s._seed_state.acquire() as (_, put):
            put(now["seed state"])
        now["errors"] = ErrDump([error(), error()])
        with s._shared_errors.acquire() as (_, put):
            put(now["errors"])
        for k in range(2):
            t = a_trial(vc, f"{k}")
            trials.append(t)
            s._trials.put_new(t)
    return now, trials


def check_contents(vc, s, now, trials, what):
    got = held(s)
    for k, v in now.items():
        vc.prove(eq_fields(v, got[k]), f"{what}: {k}")
    ts = s.get_all_trials()
    vc.prove(set(ts) == {t.metadata.id for t in trials}, f"{what}: the trials")
    for t in trials:
        u = ts.get(t.metadata.id)
        vc.prove(u is not None and u is not t and equal(t.config, u.config) and eq_fields(t.metadata, u.metadata),
                 f"{what}: each trial")


@contract("C17", "neps.state.filebased.create_or_load_filebased_neps_state", "neps.state.filebased.load_filebased_neps_state",
          "neps.state.protocols.Synced.new_or_load", "neps.state.filebased.TrialRepoInDirectory.put_new",
          "neps.state.filebased.TrialRepoInDirectory.all")
def open_stored(vc):
    """A directory with a run."""
    with ghost_disk(vc) as g:
        d = g.root / "run"
        r = run_of_before(vc, g, d, vc.choose(2, "history"))
        vc.prove(r is not None, "a run can be created")
        if r is None:
            return
        now, trials = r
        before, dirs = g.fs.contents(), set(g.fs.dirs)
        how = vc.choose(3, "how")
        if how == 0:
            st, s = vc.call(FB.load_filebased_neps_state, d)
            refuse = False
        else:
            mine = OptimizerInfo(copy.copy(now["optimizer info"].info)) if how == 1 else info("second")
            st, s = vc.call(FB.create_or_load_filebased_neps_state, directory=d, optimizer_info=mine, optimizer_state=opt_state(vc))
            refuse = how == 2 and not bool(eq_fields(mine, now["optimizer info"]))
        after = g.fs.contents()
        vc.prove(after.keys() == before.keys() and all(after[k] is before[k] for k in before) and dirs == g.fs.dirs,
                 "opening a stored run writes nothing")
        vc.prove(not g.pl.held, "no lock is left behind")
        if refuse:
            vc.prove(st == "exc" and isinstance(s, FB.NePSError), "another optimizer description is refused")
            vc.cover("refused")
            return
        vc.prove(st == "ok", "a stored run can be opened")
        if st != "ok":
            return
        check_contents(vc, s, now, trials, "the stored one is accessed")
        vc.prove(g.fs.contents().keys() == before.keys() and all(g.fs.contents()[k] is before[k] for k in before),
                 "looking at it writes nothing")
        vc.cover("loaded" if how == 0 else "opened")


@contract("C17", "neps.state.filebased.create_or_load_filebased_neps_state", "neps.state.filebased.load_filebased_neps_state")
def open_new(vc):
    """A directory that is missing or empty, or whose creation was interrupted."""
    with ghost_disk(vc) as g:
        d = g.root / "run"
        what = vc.choose(3, "what")
        other = {}
        g.fs.put(g.root / "note", ["of the user"])
        kept = {}
        if what == 1:
            d.mkdir()
        elif what == 2:
            # of an interrupted creation only the optimizer info and perhaps one more resource are there
            r = run_of_before(vc, g, d, 0)
            if r is None:
                return
            other = r[0]
            names = {".seed_state": "seed state", ".errors": "errors", ".optimizer_state": "optimizer state"}
            keep = [None, *names][vc.choose(4, "keep")]
            for k in list(g.fs.files):
                if len(k) > 2 and k[2] in names and k[2] != keep:
                    g.fs.files[k] = None
            kept = {"optimizer info": other["optimizer info"]}
            if keep:
                kept[names[keep]] = other[names[keep]]
        before = g.fs.contents()
        if what != 2 and vc.choose(2, "load"):
            st, e = vc.call(FB.load_filebased_neps_state, d)
            vc.prove(st == "exc" and isinstance(e, FileNotFoundError if what == 0 else MISSING), "there is no run to load")
            vc.prove(g.fs.contents().keys() == before.keys(), "loading creates no run")
            vc.cover("nothing to load")
            return
        mine, state = (kept["optimizer info"] if kept else info("mine")), opt_state(vc)
        st, s = vc.call(FB.create_or_load_filebased_neps_state, directory=d, optimizer_info=mine, optimizer_state=state)
        vc.prove(st == "ok", "a run is created")
        if st != "ok":
            return
        want = {"optimizer info": mine, "optimizer state": state, "seed state": g.captured[-1], "errors": ErrDump(), **kept}
        after = g.fs.contents()
        vc.prove(all(k in after and after[k] is before[k] for k in before), "nothing that was there is overwritten")
        vc.prove(all(k[:2] == ("results", "run") for k in after if k not in before), "nothing is written elsewhere")
        check_contents(vc, s, want, [], "the run starts with the caller's initial state")
        st, s2 = vc.call(FB.load_filebased_neps_state, d)
        vc.prove(st == "ok", "others can open it")
        if st == "ok":
            check_contents(vc, s2, want, [], "and find the same")
        vc.cover("completed" if what == 2 else "created")


@contract("C17", "neps.runtime._launch_runtime")
def launch(vc):
    """Only an explicit request removes a run, and only that run."""
    with ghost_disk(vc) as g:
        d = g.root / "run"
        for k in ("run", "run2", "other"):
            p = g.root / k
            if k != "run" or vc.choose(2, "exists"):
                p.mkdir()
                g.fs.put(p / "file", [k])
                (p / "configs").mkdir()
                g.fs.put(p / "configs" / "x", [k])
        existed = d.exists()
        overwrite = bool(vc.choose(2, "overwrite"))
        before = g.fs.contents()
        seen = []

        def create(**k):
            seen.append((k, g.fs.contents(), d.exists()))
            return "state"

        class Worker:
            @classmethod
            def new(cls, **k):
                seen.append(("worker", k))
                return cls()

            def run(self):
                seen.append(("run", g.fs.contents()))

        class Shutil:
            rmtree = staticmethod(g.fs.rmtree)

            def __getattr__(self, n):
                raise Unsupported(f"shutil.{n}")
        with patched(R, shutil=Shutil(), create_or_load_filebased_neps_state=create, DefaultWorker=Worker):
            st, e = vc.call(R._launch_runtime, evaluation_fn=None, optimizer=None, optimizer_info={"a": val("a")}, optimization_dir=d,
                            max_cost_total=None, ignore_errors=False, loss_value_on_error=None, cost_value_on_error=None,
                            continue_until_max_evaluation_completed=False, overwrite_optimization_dir=overwrite,
                            max_evaluations_total=None, max_evaluations_for_worker=None, pre_load_hooks=None)
        vc.prove(st == "ok" and len(seen) == 3, "the run is opened and a worker started")
        if st != "ok" or len(seen) != 3:
            return
        k, files, there = seen[0]
        vc.prove(k["directory"] == d, "the run is opened in the directory asked for")
        after = g.fs.contents()
        vc.prove(all(after.get(k) is before[k] for k in before if k[1] != "run"), "other directories are left alone")
        if overwrite:
            vc.prove(not any(k[:2] == ("results", "run") for k in files), "an overwritten run is gone when the new one is created")
            vc.cover("overwritten" if existed else "nothing to overwrite")
        else:
            vc.prove(all(after.get(k) is before[k] for k in before), "without the request nothing is removed")
            vc.cover("kept")
