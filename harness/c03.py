from __future__ import annotations

import os
import sys

for _n in ("TRIAL", "SEED_SNAPSHOT", "OPTIMIZER_INFO", "OPTIMIZER_STATE", "GLOBAL_ERR"):
    os.environ.setdefault(f"NEPS_{_n}_FILELOCK_TIMEOUT", "6")
    os.environ.setdefault(f"NEPS_{_n}_FILELOCK_POLL", "0.01")

import copy
import threading
from pathlib import Path

from hlib import case
import runkit as R
import synckit as K
from neps.state.filebased import FileLocker, load_filebased_neps_state
from neps.state.protocols import Synced

WATCH = {"dir": None, "bad": [], "n": 0, "busy": False}


def _hook(event, args):
    if event != "open" or WATCH["dir"] is None or WATCH["busy"]:
        return
    p = args[0]
    if isinstance(p, (bytes, int)):
        return
    p = os.fspath(p)
    if not p.startswith(WATCH["dir"]) or "lock" in os.path.basename(p):
        return
    WATCH["busy"] = True
    try:
        d = os.path.dirname(p)
        if os.path.isdir(p):
            return
        WATCH["n"] += 1
        locks = [q for q in os.listdir(d) if "lock" in q]
        if not any(K.held(os.path.join(d, q)) for q in locks):
            WATCH["bad"].append((p[len(WATCH["dir"]):], args[1]))
    except FileNotFoundError:
        pass
    finally:
        WATCH["busy"] = False


_installed = []


class watching:
    """Every access to a stored file below d must happen while the lock of its resource is held."""

    def __init__(self, ctx, d, what):
        self.ctx, self.d, self.what = ctx, d, what

    def __enter__(self):
        if not _installed:
            sys.addaudithook(_hook)
            _installed.append(1)
        WATCH.update(dir=str(Path(self.d).resolve()), bad=[], n=0)

    def __exit__(self, et, e, tb):
        bad, n = WATCH["bad"], WATCH["n"]
        WATCH["dir"] = None
        if et is None:
            self.ctx.check(not bad, "a stored file is accessed without its lock", during=self.what, accesses=bad[:5])
            self.ctx.count((self.what, n > 0))


def locks_below(d):
    return [p for p in Path(d).rglob("*lock*") if p.is_file()]


def all_free(ctx, d, what):
    for p in locks_below(d):
        ctx.check(not K.held(p), "a lock is still held after the operation", operation=what, lock=p.name, of=p.parent.name)


@case
def resource_operations(ctx):
    rng = ctx.rng
    for kind, (mk, vary, _) in K.KINDS.items():
        d = ctx.dir().resolve() / "res"
        d.mkdir()
        with watching(ctx, d, f"{kind} new"):
            a = Synced.new(data=mk(rng), **K.parts(kind, d, 5))
        with watching(ctx, d, f"{kind} load"):
            b = Synced.load(**K.parts(kind, d, 5))
        with watching(ctx, d, f"{kind} new_or_load"):
            c = Synced.new_or_load(data=mk(rng), **K.parts(kind, d, 5))
        with watching(ctx, d, f"{kind} put"):
            a.put(vary(rng, a._unsynced()))
        with watching(ctx, d, f"{kind} rejected put"):
            ctx.raises(Synced.VersionMismatchError, lambda: b.put(vary(rng, b._unsynced())), "stale")
        all_free(ctx, d, "rejected put")
        with watching(ctx, d, f"{kind} synced"):
            b.synced()
        for blk in (b, c, a):
            with watching(ctx, d, f"{kind} acquire"):
                with blk.acquire() as (v, put):
                    ctx.check(K.held(d / ".lock"), f"{kind}: the lock is held during acquire")
                    put(vary(rng, v))
                    ctx.check(K.held(d / ".lock"), f"{kind}: the lock is held after a put during acquire")
                    put(vary(rng, v))
                    ctx.check(K.held(d / ".lock"), f"{kind}: the lock is held after a second put during acquire")
            all_free(ctx, d, f"{kind} acquire")
        with watching(ctx, d, f"{kind} refused new"):
            ctx.raises(Synced.VersionedResourceAlreadyExistsError, lambda: Synced.new(data=mk(rng), **K.parts(kind, d, 5)),
                       "exists")
        all_free(ctx, d, f"{kind} refused new")


class Boom(Exception):
    pass


class Kill(BaseException):
    pass


class Wrapped:
    def __init__(self, inner, fail):
        self.inner, self.fail = inner, fail

    def __getattr__(self, n):
        f = getattr(self.inner, n)

        def g(*a, **k):
            if self.fail.get(n):
                raise self.fail[n]("injected")
            return f(*a, **k)
        return g


@case
def failures(ctx):
    """Whatever fails inside, the lock is free afterwards."""
    rng = ctx.rng
    for kind, (mk, vary, _) in K.KINDS.items():
        for exc in (Boom, Kill, OSError):
            for where in ("read", "write", "current", "bump"):
                d = ctx.dir() / "res"
                d.mkdir()
                a = Synced.new(data=mk(rng), **K.parts(kind, d, 5))
                fail = {}
                p = K.parts(kind, d, 5)
                p["reader_writer"] = Wrapped(p["reader_writer"], fail)
                p["versioner"] = Wrapped(p["versioner"], fail)
                b = Synced.load(**p)
                a.put(vary(rng, a._unsynced()))
                ops = [("synced", lambda: b.synced()), ("put", lambda: b.put(mk(rng))), ("acquire", lambda: _acq(b, vary, rng)),
                       ("load", lambda: Synced.load(**p)), ("new", lambda: Synced.new(data=mk(rng), **p)),
                       ("new_or_load", lambda: Synced.new_or_load(data=mk(rng), **p))]
                for n, op in ops:
                    fail[where] = exc
                    try:
                        op()
                    except (Exception, Kill):
                        pass
                    fail.clear()
                    ctx.check(not K.held(d / ".lock"), f"{kind}: the lock is still held after a failure", operation=n,
                              failing=where, exception=exc.__name__)
                    ctx.count((kind, n, where, exc.__name__))
        d = ctx.dir() / "res"
        d.mkdir()
        a = Synced.new(data=mk(rng), **K.parts(kind, d, 5))
        for exc in (Boom, Kill, KeyboardInterrupt, GeneratorExit):
            for after_put in (False, True):
                try:
                    with a.acquire() as (v, put):
                        if after_put:
                            put(vary(rng, v))
                        raise exc("caller")
                except (Exception, Kill, KeyboardInterrupt, GeneratorExit):
                    pass
                ctx.check(not K.held(d / ".lock"), f"{kind}: the lock is still held after an error in the caller's block",
                          exception=exc.__name__, after_put=after_put)
                ctx.count((kind, "caller", exc.__name__))


def _acq(b, vary, rng):
    with b.acquire() as (v, put):
        put(vary(rng, v))


@case
def locker(ctx):
    """Exclusive between threads and processes, reported correctly, released on every way out."""
    d = ctx.dir()
    l = FileLocker(lock_path=d / "sub" / ".lock", poll=0.01, timeout=0.2)
    other = FileLocker(lock_path=d / "sub" / ".lock", poll=0.01, timeout=0.2)
    ctx.check(not l.is_locked(), "a fresh lock is free")

    def grab():
        with FileLocker(lock_path=d / "sub" / ".lock", poll=0.01, timeout=0.2).lock():
            return "got it"
    for k in range(ctx.n(3, 20)):
        with l.lock():
            ctx.check(other.is_locked() and K.held(d / "sub" / ".lock"), "a held lock is reported as locked")
            ctx.raises(Exception, grab, "a held lock cannot be acquired by another holder in the process")
            r = R.Fork(grab).result()
            ctx.check(r[0] == "exc", "a held lock cannot be acquired by another process", got=r)
            ctx.check(K.held(d / "sub" / ".lock"), "a failed attempt does not release somebody else's lock")
        ctx.check(not other.is_locked() and grab() == "got it", "a released lock is free")
        for exc in (Boom, Kill):
            try:
                with l.lock():
                    raise exc()
            except (Boom, Kill):
                pass
            ctx.check(not K.held(d / "sub" / ".lock"), "the lock is released when the block fails", exception=exc.__name__)
        ctx.check(R.Fork(grab).result() == ("ok", "got it"), "a released lock is free for other processes")
        ctx.count(k)


@case
def run_operations(ctx):
    """A whole run: every access below the run directory is under the right lock, nothing deadlocks on itself."""
    rng = ctx.rng
    root = ctx.dir().resolve()
    d = root / "run"
    with watching(ctx, d, "create run"):
        s = R.state_at(d)
    with watching(ctx, d, "load run"):
        s2 = load_filebased_neps_state(d)
    with watching(ctx, d, "create-or-load run"):
        s3 = R.state_at(d)
    for k in range(ctx.n(4, 30)):
        for st in (s, s2, s3):
            def propose(trials, budget):
                for n in (".optimizer_state", ".seed_state"):
                    ctx.check(any(K.held(p) for p in locks_below(d / n)),
                              "sampling keeps what it acquired locked until it is done", resource=n)
                n = len(trials) + 1
                return R.SampledConfig(id=str(n), config={"x": n}, previous_config_id="1" if n > 3 else None)
            with watching(ctx, d, "sample"):
                st.sample_trial(R.Scripted(propose), worker_id="w")
            all_free(ctx, d, "sample")
            with watching(ctx, d, "next pending"):
                t = st.get_next_pending_trial()
                st.get_next_pending_trial(n=2)
            with watching(ctx, d, "claim"):
                t.set_evaluating(time_started=0.0, worker_id="w")
                st.put_updated_trial(t)
            all_free(ctx, d, "claim")
            err = None if k % 2 else Boom("x")
            rep = t.set_complete(report_as="success" if err is None else "crashed", time_end=0.0, loss=1.0, cost=1.0,
                                 learning_curve=None, err=err, tb="tb", extra={}, evaluation_duration=0.1)
            with watching(ctx, d, "report"):
                st.report_trial_evaluation(t, rep, worker_id="w")
            all_free(ctx, d, "report")
            with watching(ctx, d, "read all"):
                st.get_all_trials()
                st.get_errors()
                st.optimizer_info()
                st.optimizer_state()
                st.get_trial_by_id(t.id)
            all_free(ctx, d, "read all")

            def failing(trials, budget):
                raise Boom("optimizer")
            for bad in (failing, lambda t, b: R.SampledConfig(id="1", config={}, previous_config_id=None),
                        lambda t, b: R.SampledConfig(id="new", config={}, previous_config_id="nobody")):
                ctx.raises(Exception, lambda: st.sample_trial(R.Scripted(bad), worker_id="w"), "a bad proposal is refused")
                all_free(ctx, d, "failed sample")
            ctx.raises(Exception, lambda: st.get_trial_by_id("nobody"), "an unknown trial is refused")
            all_free(ctx, d, "unknown trial")


@case
def whole_worker(ctx):
    """A worker's run from begin to end under watch; the locks are free while the user's function runs."""
    d = ctx.dir().resolve() / "run"
    s = R.state_at(d)

    def fn(x):
        all_free(ctx, d, "during the user's function")
        if x == 3.0:
            raise Boom("user")
        return {"loss": x, "cost": 1.0}
    with watching(ctx, d, "worker"):
        R.worker(s, fn, on_error=R.O.IGNORE, max_evaluations_total=6, max_cost_total=100.0).run()
    all_free(ctx, d, "worker")
    # stop and raise policies leave no lock behind either
    for pol in (R.O.RAISE_ANY_ERROR, R.O.STOP_ANY_ERROR):
        try:
            R.worker(load_filebased_neps_state(d), fn, on_error=pol, max_evaluations_for_worker=2).run()
        except Exception:
            pass
        all_free(ctx, d, str(pol))


@case
def status_and_post(ctx):
    """Reading a summary takes its locks one at a time and gives them back."""
    from neps.status.status import get_summary_dict
    d = ctx.dir().resolve() / "run"
    s = R.state_at(d)
    R.worker(s, lambda x: x, max_evaluations_total=3).run()
    with watching(ctx, d / "configs", "status"):
        get_summary_dict(d)
    all_free(ctx, d, "status")


@case
def lock_order(ctx):
    """While holding one lock, operations ask for others in one common order."""
    d = ctx.dir().resolve() / "run"
    s = R.state_at(d)
    held, edges, orig = [], {}, FileLocker.lock
    op = [""]
    import contextlib

    def kind(l):
        p = Path(l.lock_path).parent
        return "trial" if p.parent.name == "configs" else p.name

    @contextlib.contextmanager
    def lock(self, **k):
        me = kind(self)
        for h in held:
            edges.setdefault((h, me), op[0])
        with orig(self, **k):
            held.append(me)
            try:
                yield
            finally:
                held.remove(me)
    FileLocker.lock = lock
    try:
        def run(name, f):
            op[0] = name
            try:
                return f()
            except Boom:
                pass
        from neps.status.status import get_summary_dict
        run("create", lambda: R.state_at(d))
        run("load", lambda: load_filebased_neps_state(d))
        for k in range(4):
            t = run("sample", lambda: s.sample_trial(R.Scripted(lambda tr, b: R.SampledConfig(
                id=str(len(tr)), config={}, previous_config_id="0" if tr else None)), worker_id="w"))
            run("next pending", lambda: s.get_next_pending_trial())
            run("next pending", lambda: s.get_next_pending_trial(n=3))
            t.set_evaluating(time_started=0.0, worker_id="w")
            run("claim", lambda: s.put_updated_trial(t))
            err = None if k % 2 else Boom("x")
            rep = t.set_complete(report_as="success" if err is None else "crashed", time_end=0.0, loss=1.0, cost=1.0,
                                 learning_curve=None, err=err, tb="tb", extra={}, evaluation_duration=0.1)
            run("report", lambda: s.report_trial_evaluation(t, rep, worker_id="w"))
            run("read", lambda: (s.get_all_trials(), s.get_errors(), s.optimizer_info(), s.optimizer_state(), s.get_trial_by_id(t.id)))
            run("summary", lambda: get_summary_dict(d))
            ctx.count(k)
        run("worker", lambda: R.worker(s, lambda **k: 1.0, opt=R.Scripted(lambda tr, b: R.SampledConfig(id=str(len(tr)), config={})),
                                       max_evaluations_for_worker=2, max_evaluations_total=50, max_cost_total=1e9).run())
    finally:
        FileLocker.lock = orig
    reach = {a: {b for x, b in edges if x == a} for a, _ in edges}
    for _ in reach:
        for a in reach:
            reach[a] |= {c for b in list(reach[a]) for c in reach.get(b, ())}
    cyc = [a for a in reach if a in reach[a]]
    ctx.check(not cyc, "operations take locks in opposite orders and can block each other", through=cyc,
              edges={f"{a} then {b}": o for (a, b), o in edges.items()})
