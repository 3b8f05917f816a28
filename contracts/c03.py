"""C03 lock discipline."""
# instrument: neps.state.protocols neps.state.filebased neps.state.neps_state neps.state.neps_state neps.state.trial neps.state.err_dump neps.state.optimizer
from contextlib import contextmanager

from pyvc.contract import contract
from pyvc.core import cur
from pyvc.stubs import GFS, IOFailure, LockError, Snapshot, Store, patched
from pyvc.values import And, Not, same, val, realval

import neps.state.filebased as F
from neps.state.protocols import Synced, VersionedResource

BOOM = ZeroDivisionError


def free(vc, *stores):
    for s in stores:
        vc.prove(s.held == 0, f"{s.name}: the lock is released on the way out")


def handle(vc, s):
    st, r = vc.call(Synced.load, locker=s.locker, location=s.loc, versioner=s.versioner, reader_writer=s.rw)
    free(vc, s)
    return r if st == "ok" else None


# Every access obligation ("... happens under the lock") and "lock is not requested while held" are raised by the
# ghost versioner, reader-writer and locker inside these calls, on every path including failing reads and writes.
@contract("C03", "neps.state.protocols.Synced.new", "neps.state.protocols.Synced.load",
          "neps.state.protocols.Synced.new_or_load")
def creation(vc):
    s = Store(vc, may_fail=True)
    f = (Synced.new, Synced.new_or_load)[vc.choose(2, "f")]
    st, r = vc.call(f, locker=s.locker, data=val("d"), location=s.loc, versioner=s.versioner, reader_writer=s.rw)
    free(vc, s)
    vc.prove(s.acquired > 0 or (st == "exc" and isinstance(r, LockError)), "works under its lock or not at all")
    vc.cover("created" if st == "ok" else "failed")


@contract("C03", "neps.state.protocols.Synced.synced", "neps.state.protocols.Synced.put")
def read_and_put(vc):
    s = Store(vc, exists=True, may_fail=True)
    r = handle(vc, s)
    if r is None:
        return
    n = s.acquired
    if vc.choose(2, "op"):
        st, e = vc.call(r.synced)
    else:
        st, e = vc.call(r.put, val("mine"))
    free(vc, s)
    vc.prove(s.acquired == n + 1 or (st == "exc" and isinstance(e, LockError)), "one lock acquisition per operation")
    vc.cover("ok" if st == "ok" else "failed")


@contract("C03", "neps.state.protocols.Synced.acquire")
def acquire(vc):
    s = Store(vc, exists=True, may_fail=True)
    r = handle(vc, s)
    if r is None:
        return
    ran = []

    def use():
        with r.acquire() as (v, put):
            ran.append(1)
            vc.prove(s.held == 1, "the lock is held while the caller works")
            how = vc.choose(3, "caller")
            if how == 1:
                put(val("mine"))
                vc.prove(s.held == 1, "the lock is still held after a write")
            elif how == 2:
                raise BOOM()
    st, e = vc.call(use)
    free(vc, s)
    if ran and st == "exc":
        vc.prove(isinstance(e, (BOOM, IOFailure)), "the caller's error comes through")
    vc.cover("ok" if st == "ok" else "failed")


@contract("C03", "neps.state.filebased.FileLocker.lock", "neps.state.filebased.FileLocker.__post_init__")
def file_locker(vc):
    """The lock is an exclusive lock on the lock file, held exactly for the duration of the block."""
    fs = GFS(vc)
    path = fs.path("dir", ".lock")
    st = {"held": 0, "args": []}
    LockException = F.pl.exceptions.LockException

    class PL:
        LOCK_EX, LOCK_NB = F.pl.LOCK_EX, F.pl.LOCK_NB
        exceptions = F.pl.exceptions

        class Lock:
            def __init__(self, filename, *a, **k):
                self.filename, self.a, self.k = filename, a, k

            def acquire(self, *a, **k):
                st["args"].append((self.filename, self.a, {**self.k, **k}))
                if vc.choose(2, "busy"):
                    raise LockException("busy")
                st["held"] += 1
                return self

            def release(self):
                st["held"] -= 1

            def __enter__(self):
                return self.acquire()

            def __exit__(self, *a):
                self.release()
                return None
    poll, timeout = realval("poll"), realval("timeout")
    with patched(F, pl=PL):
        lk = F.FileLocker(lock_path=path, poll=poll, timeout=timeout)
        ran = []

        def use():
            with lk.lock():
                ran.append(1)
                vc.prove(st["held"] == 1, "the file lock is held while the block runs")
                if vc.choose(2, "caller-raises"):
                    raise BOOM()
        r, e = vc.call(use)
    vc.prove(st["held"] == 0, "the file lock is released on every way out")
    for (f, a, k) in st["args"]:
        vc.prove(f == path, "the lock is taken on the resource's own lock file")
        fl = k.get("flags", None)
        vc.prove(fl is not None and bool(fl & F.pl.LOCK_EX) and bool(fl & F.pl.LOCK_NB), "the lock is exclusive")
    if r == "exc" and not isinstance(e, BOOM):
        vc.prove(isinstance(e, LockException) and not ran, "without the lock the block does not run")
        vc.cover("busy")
    elif r == "exc":
        vc.prove(len(ran) == 1, "the caller's error comes through")
        vc.cover("caller error")
    else:
        vc.prove(len(ran) == 1, "the block runs once")
        vc.cover("held")


@contract("C03", "neps.state.neps_state.NePSState.sample_trial")
def sampling_locks(vc):
    """Sampling never asks for a lock it holds, writes only what it has acquired, and releases on every way out."""
    from contracts.sampling import sample_trial_contract
    sample_trial_contract(vc)


@contract("C03", "neps.state.neps_state.NePSState.report_trial_evaluation")
def reporting_locks(vc):
    from contracts.reporting import report_contract
    report_contract(vc)


@contract("C03", "neps.state.neps_state.NePSState.get_errors", "neps.state.neps_state.NePSState.optimizer_info",
          "neps.state.neps_state.NePSState.optimizer_state", "neps.state.neps_state.NePSState.get_all_trials",
          "neps.state.neps_state.NePSState.get_trial_by_id")
def reading_locks(vc):
    from pyvc.run_ghost import Run
    from pyvc.values import val
    run = Run(vc, errs=val("errs"))
    s = run.state
    k = vc.choose(5, "which")
    if k == 0:
        st, r = vc.call(s.get_errors)
        vc.prove(st == "ok" and r is run.errs.value and run.errs.acquired == 1, "errors are read under their lock")
    elif k == 1:
        st, r = vc.call(s.optimizer_info)
        vc.prove(st == "ok" and r is run.info.value and run.info.acquired == 1, "the optimizer info is read under its lock")
    elif k == 2:
        st, r = vc.call(s.optimizer_state)
        vc.prove(st == "ok" and r is run.opt.value and run.opt.acquired == 1, "the optimizer state is read under its lock")
    elif k == 3:
        st, r = vc.call(s.get_all_trials)
        vc.prove(st == "ok", "all trials are read")
    else:
        st, r = vc.call(s.get_trial_by_id, val("id", str))
    run.locks_free()
    vc.cover("read")


@contract("C03", "neps.state.neps_state.NePSState.sample_trial", "neps.state.neps_state.NePSState.report_trial_evaluation")
def lock_order(vc):
    """Over all paths of the operations above: whoever holds one lock while asking for another does so in one order."""
    from pyvc.run_ghost import LOCK_EDGES
    reach = {a: {b for x, b in LOCK_EDGES if x == a} for a, _ in LOCK_EDGES}
    for _ in reach:
        for a in reach:
            reach[a] |= {c for b in reach[a] for c in reach.get(b, ())}
    cyc = sorted(a for a in reach if a in reach[a])
    vc.prove(not cyc, "locks are taken in one order by all operations" + (f" (cycle through {', '.join(cyc)})" if cyc else ""))
    if LOCK_EDGES:
        vc.cover("nested locks")
