"""Shared resources of every kind on disk, and random histories of handles working on them."""
from __future__ import annotations

import copy
import fcntl
import os
import random
import time
from pathlib import Path

import numpy as np

from hlib import deep_eq
from neps.state.err_dump import ErrDump
from neps.state.filebased import (FileLocker, FileVersioner, ReaderWriterErrDump, ReaderWriterOptimizationState,
                                  ReaderWriterOptimizerInfo, ReaderWriterSeedSnapshot, ReaderWriterTrial)
from neps.state.optimizer import BudgetInfo, OptimizationState, OptimizerInfo
from neps.state.protocols import Synced
from neps.state.seed_snapshot import SeedSnapshot
from neps.state.trial import Trial

STATES = list(Trial.State)


def new_trial(rng, i="1"):
    t = Trial.new(trial_id=str(i), location="", config={"x": rng.random(), "n": rng.randrange(10), "c": rng.choice("abc")},
                  previous_trial=None, previous_trial_location=None, time_sampled=rng.random() * 1e9, worker_id="w0")
    return t


def vary_trial(rng, t):
    t = copy.deepcopy(t)
    k = rng.randrange(3)
    if k == 0:
        t.set_evaluating(time_started=rng.random() * 1e9, worker_id=f"w{rng.randrange(1000)}")
    elif k == 1:
        t.set_submitted(time_submitted=rng.random() * 1e9)
    else:
        t.report = t.set_complete(report_as=rng.choice(["success", "failed", "crashed"]), time_end=rng.random(),
                                  loss=rng.choice([rng.random(), float("inf")]), cost=rng.choice([None, rng.random()]),
                                  learning_curve=rng.choice([None, [rng.random(), 1.0]]), err=None,
                                  tb=rng.choice([None, "tb"]), extra={"k": rng.randrange(100)},
                                  evaluation_duration=rng.random())
    t.metadata.time_sampled = rng.random() * 1e9
    return t


def _err(rng):
    return ErrDump.SerializableTrialError(trial_id=str(rng.randrange(10)), worker_id="w", err_type="E",
                                          err=f"m{rng.random()}", tb=None)


def vary_err(rng, d):
    d = copy.deepcopy(d)
    d.append(_err(rng))
    return d


def new_opt(rng, _=None):
    return OptimizationState(budget=rng.choice([None, BudgetInfo(max_cost_budget=rng.random(), used_cost_budget=rng.random(),
                                                               max_evaluations=rng.randrange(9))]),
                             shared_state={"k": rng.randrange(10 ** 6)})


def new_seed(rng, _=None):
    st = (random.getstate(), np.random.get_state())
    random.seed(rng.random())
    np.random.seed(rng.randrange(2 ** 31))
    import torch
    ts = torch.random.get_rng_state()
    torch.manual_seed(rng.randrange(2 ** 31))
    s = SeedSnapshot.new_capture()
    random.setstate(st[0])
    np.random.set_state(st[1])
    torch.random.set_rng_state(ts)
    return s


KINDS = {
    "trial": (new_trial, vary_trial, ReaderWriterTrial),
    "optimizer_state": (new_opt, new_opt, ReaderWriterOptimizationState),
    "optimizer_info": (lambda r: OptimizerInfo({"a": r.random()}), lambda r, _: OptimizerInfo({"a": r.random()}),
                       ReaderWriterOptimizerInfo),
    "seed": (new_seed, new_seed, ReaderWriterSeedSnapshot),
    "errors": (lambda r: ErrDump([_err(r)]), vary_err, lambda: ReaderWriterErrDump("all")),
}


def parts(kind, d, timeout=20.0):
    return dict(locker=FileLocker(lock_path=d / ".lock", poll=0.002, timeout=timeout), location=d,
                versioner=FileVersioner(version_file=d / ".version"), reader_writer=KINDS[kind][2]())


def same(kind, a, b):
    if type(a) is not type(b):
        return False
    return a == b


def stored(kind, d):
    """What is on disk, through a fresh reader, without going through Synced."""
    return KINDS[kind][2]().read(d)


def disk(d):
    return {p.name: p.read_bytes() for p in sorted(d.iterdir()) if p.is_file() and "lock" not in p.name}


def history(ctx, kind, steps, check_writes, check_reads):
    """Random operations of several handles on one resource against a reference: the list of values written."""
    rng = random.Random(ctx.rng.random())
    d = ctx.dir() / "res"
    d.mkdir()
    mk, vary, _ = KINDS[kind]
    trace = []
    first = mk(rng)
    h = [Synced.new(data=copy.deepcopy(first), **parts(kind, d))]
    seen = [0]                       # number of the write each handle has seen last
    latest, n = first, 0
    tags = {disk(d).get(".version")}
    for _ in range(steps):
        i = rng.randrange(len(h))
        op = rng.choice(["put", "put", "acquire-put", "acquire", "synced", "load", "new", "new_or_load", "deepcopy",
                         "acquire-put-put", "acquire-raise", "put-put"])
        trace.append((op, i, seen[i], n))
        before = disk(d)

        def wrote(v):
            nonlocal latest, n
            latest, n = v, n + 1
            seen[i] = n
            if check_writes:
                ctx.check(same(kind, stored(kind, d), v), f"{kind}: a successful write stores the given data",
                          trace=trace[-6:], stored=stored(kind, d), given=v)
                tag = disk(d).get(".version")
                ctx.check(tag is not None and tag not in tags, f"{kind}: the version tag of a write is new",
                          trace=trace[-6:], tag=tag)
                tags.add(tag)

        if op in ("put", "put-put"):
            v = vary(rng, latest)
            try:
                h[i].put(copy.deepcopy(v))
                ok = True
            except Synced.VersionMismatchError:
                ok = False
            if check_writes:
                ctx.check(ok == (seen[i] == n), f"{kind}: a write is accepted exactly from the latest version",
                          accepted=ok, seen=seen[i], latest=n, trace=trace[-6:])
                if not ok:
                    ctx.check(disk(d) == before, f"{kind}: a rejected write leaves the stored files untouched",
                              trace=trace[-6:])
            if ok:
                wrote(v)
                if op == "put-put":
                    v = vary(rng, v)
                    h[i].put(copy.deepcopy(v))
                    wrote(v)
        elif op.startswith("acquire"):
            v = vary(rng, latest)
            try:
                with h[i].acquire() as (val, put):
                    if check_reads:
                        ctx.check(same(kind, val, latest), f"{kind}: acquiring yields the last completed write",
                                  got=val, want=latest, trace=trace[-6:])
                    seen[i] = n
                    if op == "acquire-raise":
                        raise ZeroDivisionError
                    if op != "acquire":
                        put(copy.deepcopy(v))
                        wrote(v)
                    if op == "acquire-put-put":
                        v = vary(rng, v)
                        put(copy.deepcopy(v))
                        wrote(v)
            except ZeroDivisionError:
                pass
        elif op == "synced":
            val = h[i].synced()
            if check_reads:
                ctx.check(same(kind, val, latest), f"{kind}: a synchronised read returns the last completed write",
                          got=val, want=latest, trace=trace[-6:])
            seen[i] = n
        elif op == "load":
            h.append(Synced.load(**parts(kind, d)))
            seen.append(n)
            if check_reads:
                ctx.check(same(kind, h[-1]._unsynced(), latest), f"{kind}: loading yields the last completed write",
                          trace=trace[-6:])
        elif op == "new":
            if check_writes:
                ctx.raises(Synced.VersionedResourceAlreadyExistsError,
                           lambda: Synced.new(data=vary(rng, latest), **parts(kind, d)),
                           f"{kind}: creating an existing resource is refused", trace=trace[-6:])
                ctx.check(disk(d) == before, f"{kind}: a refused creation leaves the stored files untouched",
                          trace=trace[-6:])
        elif op == "new_or_load":
            h.append(Synced.new_or_load(data=vary(rng, latest), **parts(kind, d)))
            seen.append(n)
            ctx.check(disk(d) == before, f"{kind}: create-or-load of an existing resource writes nothing",
                      trace=trace[-6:])
            ctx.check(same(kind, h[-1].synced(), latest), f"{kind}: create-or-load returns the stored one",
                      trace=trace[-6:])
        elif op == "deepcopy":
            h.append(h[i].deepcopy())
            seen.append(seen[i])
        if len(h) > 6:
            k = rng.randrange(len(h))
            del h[k], seen[k]
        ctx.count((kind, op, seen == n))
    if check_reads:
        # afterwards the copy counts as up to date
        hh = h[rng.randrange(len(h))]
        hh.synced()
        hh.put(vary(rng, latest))
        # a removed resource is reported as removed
        hh.synced()
        (d / ".version").unlink()
        ctx.raises(Synced.VersionedResourceRemovedError, hh.synced, f"{kind}: a removed resource is reported as removed")

        def acq():
            with hh.acquire() as (v, _):
                return v
        ctx.raises(Synced.VersionedResourceRemovedError, acq, f"{kind}: a removed resource cannot be acquired")


def held(lock_path):
    """Whether somebody holds an exclusive lock on the file."""
    try:
        fd = os.open(lock_path, os.O_RDWR)
    except FileNotFoundError:
        return False
    try:
        fcntl.flock(fd, fcntl.LOCK_EX | fcntl.LOCK_NB)
        fcntl.flock(fd, fcntl.LOCK_UN)
    except OSError:
        return True
    finally:
        os.close(fd)
    # POSIX locks of the own process are not seen this way: ask the kernel's table
    try:
        ino = os.stat(lock_path).st_ino
        for line in open("/proc/locks"):
            if line.split()[5].endswith(f":{ino}") and "WRITE" in line:
                return True
    except OSError:
        pass
    return False
