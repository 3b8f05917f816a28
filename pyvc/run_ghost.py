"""A run as its contracts describe it: abstract Synced resources, an abstract trial repository holding any number of
trials, the process's random generators and clocks.  Used to verify NePSState and DefaultWorker function by function:
the callees (Synced, TrialRepoInDirectory, SeedSnapshot) are represented by the contracts proved for them elsewhere."""
from __future__ import annotations

from contextlib import contextmanager

from . import rt, values
from .core import Unsupported, cur
from .rt import Coll, LazyIter, SymMap, SymSeq
from .stubs import Ghost, owns
from .values import (And, Implies, Not, Or, SymBool, SymEnum, SymNum, SymObj, SymVal, V, enumval, optional, realval,
                     same, val)
from .z3load import z3

I = z3.IntSort()


class Rng(Ghost):
    """State of all global generators of the process as one value."""

    def __init__(self, vc):
        self.vc = vc
        self.state = val("rng0")
        cur().state.setdefault("ghosts", []).append(self)

    def draw(self, what="draw"):
        self.state = val("rng-after-" + what)

    def digest(self):
        return id(self.state)


class Seed(Ghost):
    """SeedSnapshot by contract: holds a generator state; install / recapture."""

    def __init__(self, rng, snap=None):
        self.rng = rng
        self.snap = snap if snap is not None else val("snap")
        self.installs = 0

    def set_as_global_seed_state(self):
        self.rng.state = self.snap
        self.installs += 1

    def recapture(self):
        self.snap = self.rng.state


LOCK_EDGES = set()       # (held, requested) kinds of locks over all paths explored by this process


def lock_requested(kind):
    for h in cur().state.setdefault("held locks", []):
        LOCK_EDGES.add((h, kind))
    cur().state["held locks"].append(kind)


def lock_released(kind):
    cur().state["held locks"].remove(kind)


class ASynced(Ghost):
    """Synced by contract (C01-C03): one lock, latest value on acquire, put accepted while acquired.

    rely: whenever this worker does not hold the lock, others may store another value (`fresh`, if given).
    `log` has, for every session in which this worker wrote, what was stored before (at acquiring) and after (at the last put)."""

    def __init__(self, vc, name, value, fresh=None, snap=None):
        self.vc, self.name, self.value = vc, name, value
        self.fresh, self.snap = fresh, snap or (lambda v: v)
        self.held = 0
        self.puts = []
        self.acquired = 0
        self.log = []
        self.before = None
        cur().state.setdefault("ghosts", []).append(self)
        cur().state.setdefault("asynced", []).append(self)

    def digest(self):
        return (self.name, self.held, len(self.puts))

    def _lock(self):
        if owns("C03"):
            self.vc.prove(self.held == 0, f"{self.name}: lock is not requested while held")
        if self.acquired and self.held == 0 and self.fresh is not None:
            self.value = self.fresh()
        lock_requested(self.name)
        self.held += 1
        self.acquired += 1
        self.before = self.snap(self.value)
        self.session = None

    def _unlock(self):
        self.held -= 1
        lock_released(self.name)

    @contextmanager
    def acquire(self):
        self._lock()
        try:
            yield self.value, self._put
        finally:
            self._unlock()

    def _store(self, v):
        self.value = v
        self.puts.append(v)
        if self.session is None:
            self.session = [self.before, None]
            self.log.append(self.session)
        self.session[1] = self.snap(v)

    def _put(self, v):
        if owns("C03"):
            self.vc.prove(self.held == 1, f"{self.name}: is written only while acquired")
        self._store(v)

    def put(self, v):
        from neps.exceptions import VersionMismatchError
        seen = self.before
        self._lock()
        try:
            if self.acquired > 1 and self.fresh is not None and cur().choose(2, self.name + "-changed"):
                raise VersionMismatchError("changed since")
            if seen is not None:
                self.before = seen          # nobody wrote since this worker looked
            self._store(v)
        finally:
            self._unlock()

    def synced(self):
        self._lock()
        self._unlock()
        return self.value

    def _unsynced(self):
        raise Unsupported("unsynchronised access")


# ---------------------------------------------------------------- any number of stored trials
T_ID = z3.Function("t.id", I, V)
T_LOC = z3.Function("t.location", I, V)
T_STATE = z3.Function("t.state", I, I)
T_CONFIG = z3.Function("t.config", I, V)
T_REPORTED = z3.Function("t.has_report", I, z3.BoolSort())
T_SAMPLED = z3.Function("t.time_sampled", I, z3.RealSort())
R_KIND = z3.Function("r.reported_as", I, I)
R_HAS = {f: z3.Function(f"r.has_{f}", I, z3.BoolSort()) for f in ("loss", "cost", "evaluation_duration")}
R_NUM = {f: z3.Function(f"r.{f}", I, z3.RealSort()) for f in ("loss", "cost", "evaluation_duration")}
R_NAN = {f: z3.Function(f"r.{f}.nan", I, z3.BoolSort()) for f in ("loss", "cost", "evaluation_duration")}
KINDS = ("success", "failed", "crashed")


T_IDX = z3.Function("t.index_of_id", V, I)


def trial_id(i):
    """Ids are pairwise different: the id determines the trial (instantiated at every index in play)."""
    cur().assume(T_IDX(T_ID(i)) == i)
    return SymVal(T_ID(i), str)


def _opt_num(f, i, nan):
    def make():
        return SymNum(R_NUM[f](i), "float", R_NAN[f](i) if nan else values.FALSE)
    return optional(R_HAS[f](i), make)


R_EXTRA = z3.Function("r.extra", I, I)
R_MORE = z3.Function("r.extra.entry", I, V)
R_CURVE = z3.Function("r.learning_curve", I, V)
T_META = z3.Function("t.metadata", I, V)


def report_at(i, nan=False):
    from neps.state.trial import Trial

    def extra():
        """Nothing, something, or something with an info dict."""
        p = cur()
        if p.fork(R_EXTRA(i) == 0):
            return {}
        if p.fork(R_EXTRA(i) == 1):
            return {"more": SymVal(R_MORE(i))}
        return {"more": SymVal(R_MORE(i)), "info_dict": {"entry": SymVal(R_MORE(i))}}

    def kind():
        p = cur()
        p.assume(z3.And(R_KIND(i) >= 0, R_KIND(i) < 3))
        for k, n in enumerate(KINDS[:-1]):
            if p.fork(R_KIND(i) == k):
                return n
        return KINDS[-1]
    return SymObj(Trial.Report, {
        "trial_id": lambda: trial_id(i), "reported_as": kind,
        "loss": _opt_num("loss", i, nan), "cost": _opt_num("cost", i, nan),
        "evaluation_duration": _opt_num("evaluation_duration", i, nan),
        "extra": extra, "learning_curve": lambda: SymVal(R_CURVE(i), list),
    }, tag=(report_at, (i, nan)))


def meta_at(i):
    from neps.state.trial import Trial
    return SymObj(Trial.MetaData, {
        "id": lambda: trial_id(i), "location": lambda: SymVal(T_LOC(i), str),
        "time_sampled": lambda: SymNum(T_SAMPLED(i), "float")}, tag=(meta_at, (i,)))


def trial_at(i, nan=False):
    from neps.state.trial import Trial
    p = cur()
    p.assume(z3.And(T_STATE(i) >= 0, T_STATE(i) < len(Trial.State)))
    for fact in p.state.get("trial facts", ()):
        p.assume(fact(i))
    meta = meta_at(i)
    return SymObj(Trial, {
        "config": lambda: SymVal(T_CONFIG(i), dict), "metadata": lambda: meta,
        "state": lambda: SymEnum(Trial.State, T_STATE(i)),
        "report": optional(T_REPORTED(i), lambda: report_at(i, nan)),
    }, tag=(trial_at, (i, nan)))


class GSynced(Ghost):
    """The handle of stored trial i."""

    def __init__(self, repo, i):
        self.repo, self.i = repo, i

    @contextmanager
    def _locked(self):
        self.repo.lock_free()
        lock_requested("trial")
        try:
            yield
        finally:
            lock_released("trial")

    @property
    def _locker(self):
        class L:
            def lock(_, **k):
                return self._locked()
        return L()

    def synced(self):
        with self._locked():
            return trial_at(self.i, self.repo.nan)

    @contextmanager
    def acquire(self):
        with self._locked():
            yield trial_at(self.i, self.repo.nan), self._put_unsafe

    def _unsynced(self):
        raise Unsupported("unsynchronised access to a trial")

    def __vc_subst__(self, frm, to):
        return GSynced(self.repo, z3.substitute(self.i, (frm, to)))

    def put(self, data):
        with self._locked():
            self._put_unsafe(data)

    def _put_unsafe(self, data):
        self.repo.puts.append((self.i, data))


class Repo(Ghost):
    """TrialRepo by contract: trials under pairwise different ids; put_new stores a new one or refuses."""

    def __init__(self, vc, nan=False):
        p = cur()
        self.vc = vc
        self.nan = nan
        self.coll = Coll("trials")
        self.new = []
        self.puts = []
        self.map = SymMap(self.coll, trial_id, lambda i: GSynced(self, i), inv=T_IDX)
        p.state.setdefault("ghosts", []).append(self)

    def lock_free(self):
        pass

    def digest(self):
        return ("repo", len(self.new), len(self.puts))

    def _at(self, what):
        """The lock sessions during which something happened."""
        cur().state.setdefault("sessions", []).append((what, frozenset((s.name, s.acquired) for s in cur().state.get("asynced", ()) if s.held)))

    def all(self):
        self._at("read")
        return self.map

    def all_trial_ids(self):
        return self.map.keys()

    def get_by_id(self, trial_id, **k):
        from neps.exceptions import TrialNotFoundError
        j = self.map.find(trial_id)
        if j is None:
            raise TrialNotFoundError(trial_id)
        return GSynced(self, j)

    def put_new(self, trial, **k):
        from neps.exceptions import TrialAlreadyExistsError
        if self.map.find(trial.metadata.id) is not None:
            raise TrialAlreadyExistsError(trial.metadata.id)
        trial.metadata.location = val("new.location", str)
        self._at("store")
        lock_requested("trial")
        self.new.append(trial)
        lock_released("trial")
        return GSynced(self, None)

    def pending(self):
        from neps.state.trial import Trial
        repo = self

        def make():
            p = cur()
            k = p.const("pend", I)
            p.assume(z3.And(k >= 0, k < repo.coll.n))
            # it was pending when listed; by now another worker may have claimed it
            return trial_id(k), GSynced(repo, k)
        return LazyIter(make)


def budget(vc):
    from neps.state.optimizer import BudgetInfo
    if vc.choose(2, "budget") == 0:
        return None
    return BudgetInfo(max_cost_budget=realval("max_cost") if vc.choose(2, "max_cost") else None,
                      used_cost_budget=realval("used_cost"),
                      max_evaluations=values.intval("max_evals") if vc.choose(2, "max_evals") else None,
                      used_evaluations=values.intval("used_evals"))


def fields(b):
    return None if b is None else (b.max_cost_budget, b.used_cost_budget, b.max_evaluations, b.used_evaluations)


def same_fields(a, b):
    if a is None or b is None:
        return a is b
    return And(*[same(x, y) for x, y in zip(a, b)])


class Run:
    """A NePSState over ghosts."""

    def __init__(self, vc, nan=False, errs=None, with_budget=True, other_errs=None, snap_errs=None):
        from neps.state.neps_state import NePSState
        from neps.state.optimizer import OptimizationState
        self.vc = vc
        self.rng = Rng(vc)
        self.repo = Repo(vc, nan)
        self.budget0 = budget(vc) if with_budget else None
        self.shared0 = val("shared_state", dict)

        def other_opt():
            return OptimizationState(budget=budget(vc) if with_budget else None, shared_state=val("shared_state", dict))
        self.opt = ASynced(vc, "optimizer state", OptimizationState(budget=self.budget0, shared_state=self.shared0), other_opt,
                           lambda o: (fields(o.budget), o.shared_state))
        self.budget_fields0 = fields(self.budget0)
        self.seed_obj = Seed(self.rng)
        self.snap0 = self.seed_obj.snap
        self.seed = ASynced(vc, "seed state", self.seed_obj, lambda: Seed(self.rng), lambda s: s.snap)
        self.errs = ASynced(vc, "error log", errs, other_errs, snap_errs)
        self.info = ASynced(vc, "optimizer info", val("info"))
        self.state = NePSState(location=val("loc", str), _trials=self.repo, _optimizer_info=self.info,
                               _seed_state=self.seed, _optimizer_state=self.opt, _shared_errors=self.errs)

    def locks_free(self):
        for s in (self.opt, self.seed, self.errs, self.info):
            self.vc.prove(s.held == 0, f"{s.name}: the lock is released on the way out")
