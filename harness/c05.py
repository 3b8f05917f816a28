from __future__ import annotations

import dataclasses
import enum
import json
import math
import random
import threading
from types import MappingProxyType

import numpy as np
import torch

from hlib import Violation, case, deep_eq
from neps.state.err_dump import ErrDump
from neps.state.filebased import (ReaderWriterErrDump, ReaderWriterOptimizationState, ReaderWriterOptimizerInfo,
                                  ReaderWriterSeedSnapshot, ReaderWriterTrial)
from neps.state.optimizer import BudgetInfo, OptimizationState, OptimizerInfo
from neps.state.seed_snapshot import SeedSnapshot
from neps.state.trial import Report, Trial
from neps.utils.files import deserialize, serializable_format, serialize
from runkit import O, Fork, draws, errors_at, reseed, state_at, trials_at, worker

STRINGS = ["", " ", "a", "1", "1.0", "1e5", "1e-5", ".5", "nan", ".nan", "inf", "-.inf", "null", "~", "None", "true", "True", "yes", "no",
           "on", "off", "0x10", "0o7", "1_000", "12:30:45", "2020-01-01", "2001-12-14t21:59:43.10-05:00", "- a", "a: b", "#c", "'q'",
           '"q"', "a\nb", "a\n", "\n", "\ta", "a\r\nb", "a\\nb", "\x00", "\x07\x85", "\u2028", "\ufeff", "ü€😀", "\ud800", "!!python/object:x",
           "&a", "*a", "{a: 1}", "[1]", "|", ">", "%", "@", "`", "=", "<<", "x" * 300, "a  b   c " * 40, "?", "-", ":", "---", "..."]


def scalar(rng):
    """(value, what it stands for)"""
    k = rng.randrange(12)
    if k == 0:
        v = rng.choice([None, True, False])
        return v, v
    if k == 1:
        v = rng.choice([0, 1, -1, 2 ** 31, 2 ** 63, -2 ** 70, 10 ** 30, rng.randrange(10 ** 6)])
        return v, v
    if k in (2, 3):
        v = rng.choice([0.0, -0.0, 1e-5, 1e5, 1e16, 1e22, 1.5e300, 5e-324, math.inf, -math.inf, math.nan, 0.1, 1 / 3, rng.random(),
                        rng.uniform(-1, 1) * 10 ** rng.randrange(-300, 300), float(rng.randrange(1000))])
        return v, v
    if k in (4, 5, 6):
        v = rng.choice(STRINGS)
        return v, v
    if k == 7:
        t = rng.choice([np.float64, np.float32, np.float16, np.longdouble])
        v = t(rng.choice([0.5, 1.25, -3.0, math.nan, math.inf]))
        return v, float(v)
    if k == 8:
        v = rng.choice([np.int64, np.int32, np.uint8, np.int8])(rng.randrange(100))
        return v, int(v)
    if k == 9:
        v = rng.choice([np.bool_(True), np.bool_(False)])
        return v, bool(v)
    if k == 10:
        x = rng.choice([0.5, -2.0, math.nan, math.inf])
        v = torch.tensor(x, dtype=rng.choice([torch.float32, torch.float64, torch.float16, torch.bfloat16]))
        return v, x
    n = rng.randrange(100)
    return (torch.tensor(n), n) if rng.random() < 0.5 else (np.str_("s" + str(n)), "s" + str(n))


class Color(enum.Enum):
    RED = "red"
    ONE = 1


@dataclasses.dataclass
class Rec:
    a: object
    b: object


def tree(rng, depth):
    k = rng.random()
    if depth == 0 or k < 0.35:
        return scalar(rng)
    if k < 0.55:
        vs = [tree(rng, depth - 1) for _ in range(rng.randrange(5))]
        return rng.choice([list, tuple])(v for v, _ in vs), [w for _, w in vs]
    if k < 0.8:
        vs = {key(rng): tree(rng, depth - 1) for _ in range(rng.randrange(5))}
        d = {n: v for n, (v, _) in vs.items()}
        return rng.choice([dict, MappingProxyType])(d), {n: w for n, (_, w) in vs.items()}
    if k < 0.86:
        x = np.array([rng.choice([0.5, math.nan, 2.0]) for _ in range(rng.randrange(5))], dtype=rng.choice([np.float64, np.float32]))
        return (x, [float(v) for v in x]) if rng.random() < 0.5 else (torch.tensor(x), [float(v) for v in x])
    if k < 0.9:
        x = np.arange(rng.randrange(4) * 2).reshape(-1, 2)
        return x, [[int(u) for u in r] for r in x]
    if k < 0.95:
        (a, x), (b, y) = tree(rng, depth - 1), tree(rng, 0)
        return _rec(a, x, b, y)
    return rng.choice([(Color.RED, "red"), (Color.ONE, 1)])


def _rec(a, x, b, y):
    # dataclasses are copied deeply before being stored: only copyable parts
    return (Rec(1, "b"), {"a": 1, "b": "b"}) if isinstance(a, MappingProxyType) or "mappingproxy" in repr(a) else (Rec(a, b), {"a": x, "b": y})


def key(rng):
    return rng.choice([rng.choice(STRINGS), "k" + str(rng.randrange(100)), rng.choice([1, 2, 1.5, True, None])])


def typed(a):
    """A value together with the types in it."""
    if isinstance(a, dict):
        return {(type(k).__name__, k): typed(v) for k, v in a.items()}
    if isinstance(a, list):
        return [typed(v) for v in a]
    return (type(a).__name__, "nan" if isinstance(a, float) and a != a else repr(a))


@case
def values(ctx):
    rng, p = ctx.rng, ctx.dir() / "v.yaml"
    for _ in range(ctx.n(1500, 15000)):
        vs = {key(rng): tree(rng, rng.randrange(4)) for _ in range(rng.randrange(1, 4))}
        want = {k: w for k, (_, w) in vs.items()}
        ctx.count(repr(want))
        serialize({k: v for k, (v, _) in vs.items()}, p)
        got = deserialize(p)
        ctx.eq(typed(got), typed(want), "stored data are read back as the plain data they stand for")
    for s in STRINGS:
        for wrap in (lambda s: s, lambda s: [s, s], lambda s: {"k": {s: s}}):
            serialize({"v": wrap(s)}, p)
            ctx.eq(deserialize(p)["v"], wrap(s), "a string is read back", s=s)


class It(Exception):
    def __iter__(self):
        return iter([threading.Lock()])


class Ser(Exception):
    def serialize(self):
        return threading.Lock()


class NoCopy(Exception):
    def __init__(self, a, *, b):
        super().__init__(f"{a} {b}")
        self.lock = threading.Lock()

    def __reduce__(self):
        raise TypeError("no")


@dataclasses.dataclass
class DC(Exception):
    code: int
    lock: object = dataclasses.field(default_factory=threading.Lock)


class Str(str):
    pass


class LongStr(Exception):
    def __str__(self):
        return "line\n\ttwo: \x00 \ud800 '\"" + "x" * 500


def exceptions(rng):
    return rng.choice([
        lambda: ValueError(rng.choice(STRINGS)), lambda: KeyError("k"), lambda: RuntimeError(), lambda: OSError(2, "no"), It, Ser,
        lambda: NoCopy(1, b=2), lambda: DC(3), LongStr, lambda: UnicodeDecodeError("utf8", b"\xff", 0, 1, "bad"),
        lambda: AssertionError((1, 2)), lambda: Exception(np.float64(1.0), torch.tensor(1)), lambda: ExceptionGroup("g", [ValueError(1)]),
        lambda: Exception({"a": threading.Lock()}), lambda: StopIteration(3), lambda: type("Local", (Exception,), {})("local")])()


def trial(rng, i):
    vs = {k: tree(rng, 1) for k in rng.sample("abcdefgh", rng.randrange(1, 5))}
    prev = rng.random() < 0.4
    t = Trial.new(trial_id=str(i), location="", config={k: v for k, (v, _) in vs.items()}, previous_trial="0_1" if prev else None,
                  previous_trial_location="/somewhere" if prev else None, time_sampled=rng.random() * 1e9, worker_id=rng.choice(["w", 3]))
    return t, {k: w for k, (_, w) in vs.items()}


def finish(rng, t):
    as_ = rng.choice(["success", "failed", "crashed"])
    ex, tb = (None, None) if as_ == "success" else (exceptions(rng), rng.choice([None, "Traceback:\n  x: 'y'\n\ud800"]))
    ev = {k: tree(rng, 2) for k in rng.sample(["info", "a", "loss2", "1"], rng.randrange(3))}
    loss = rng.choice([None, math.nan, math.inf, -math.inf, 0, 0.0, 1, np.float32(0.5), np.float64(math.nan), torch.tensor(0.25), rng.random()])
    cost = rng.choice([None, 0, 1.5, math.nan, np.int64(3)])
    lc = rng.choice([None, [], [1, math.nan, 0.5], [np.float32(0.5), torch.tensor(2.0)], np.array([1.0, 2.0])])
    t.set_evaluating(time_started=rng.random(), worker_id="w2")
    t.report = t.set_complete(report_as=as_, time_end=rng.random(), loss=loss, cost=cost, learning_curve=lc, err=ex, tb=tb,
                              extra={k: v for k, (v, _) in ev.items()}, evaluation_duration=rng.choice([None, 0.0, rng.random()]))
    num = lambda v: None if v is None else float(v)
    return dict(trial_id=t.id, loss=num(loss), cost=num(cost), learning_curve=None if lc is None else [float(v) for v in lc],
                extra={k: w for k, (_, w) in ev.items()}, err=None if ex is None else str(ex), tb=tb, reported_as=as_,
                evaluation_duration=t.report.evaluation_duration)


def compare(ctx, got, meta, config, state, rep):
    ctx.eq(typed(dict(got.config)), typed(config), "configuration")
    ctx.eq(dataclasses.asdict(got.metadata), meta, "metadata")
    ctx.check(got.state is state, "state", got=got.state, want=state)
    ctx.eq(got.report is None, rep is None, "a report exists exactly if there was one")
    if rep is not None:
        r = dict(vars(got.report))
        err = r.pop("err")
        ctx.check(err is None if rep["err"] is None else isinstance(err, Exception) and str(err) == rep["err"], "error", got=err, want=rep["err"])
        ctx.eq(typed(r), typed({k: v for k, v in rep.items() if k != "err"}), "report")


@case
def trials(ctx):
    """A trial through all its stages, stored and read back by another handle each time."""
    rng = ctx.rng
    for n in range(ctx.n(100, 1000)):
        d = ctx.dir()
        rw = ReaderWriterTrial()
        t, config = trial(rng, n)
        for _ in range(rng.randrange(1, 4)):
            rep = None
            k = rng.random()
            if k < 0.5:
                rep = finish(rng, t)
            elif k < 0.7:
                t.reset()
            elif k < 0.8 and t.report is None:
                t.set_corrupted()
            elif t.report is None:
                t.set_submitted(time_submitted=1.5)
            else:
                t.reset()
            meta, state = dict(vars(t.metadata)), t.state
            ctx.count((n, repr(rep), state))
            rw.write(t, d)
            compare(ctx, ReaderWriterTrial().read(d), meta, config, state, rep)


@case
def evaluations(ctx):
    """Whatever an evaluation does, the worker stores the outcome and goes on."""
    rng = ctx.rng
    for n in range(ctx.n(6, 60)):
        d = ctx.dir() / "run"
        outs = []

        def ev(**c):
            if rng.random() < 0.6:
                e = exceptions(rng)
                outs.append(e)
                raise e
            r = rng.choice([1.0, math.nan, np.float32(0.5), {"loss": math.inf, "cost": np.float64(1.5), "info_dict": {"a": np.arange(3), "b": (1, "1e5")}},
                            {"loss": torch.tensor(2.0), "info_dict": {"learning_curve": [1, 2.0]}}])
            outs.append(r)
            return r
        st = state_at(d)
        w = worker(st, ev, wid="w", on_error=O.IGNORE, max_evaluations_total=8)
        try:
            w.run()
        except Exception as e:
            raise Violation(f"storing an outcome failed: {type(e).__name__}: {e} after {outs[-1:]!r}") from e
        ctx.count(repr(outs))
        ts = trials_at(d)
        ctx.eq(len(ts), 8, "every trial is stored")
        ctx.eq(len(errors_at(d)), sum(isinstance(o, Exception) for o in outs), "every error is stored")
        for i, o in enumerate(outs):
            r = ts[str(i + 1)].report
            ctx.check(r is not None, "every outcome is stored")
            if isinstance(o, Exception):
                ctx.eq((r.reported_as, str(r.err)), ("crashed", str(o)), "the error is stored")
            else:
                ctx.eq(r.loss, float(o["loss"] if isinstance(o, dict) else o), "the loss is stored")
        for e, o in zip(errors_at(d), [o for o in outs if isinstance(o, Exception)]):
            ctx.eq((e.err_type, e.err), (type(o).__name__, str(o)), "the recorded error is read back")


@case
def errors(ctx):
    rng = ctx.rng
    for n in range(ctx.n(200, 2000)):
        d = ctx.dir()
        rw = ReaderWriterErrDump("all")
        for _ in range(2):
            es = [ErrDump.SerializableTrialError(trial_id=rng.choice(STRINGS), worker_id=rng.choice(STRINGS), err_type="E",
                                                 err=rng.choice(STRINGS), tb=rng.choice([None, *STRINGS])) for _ in range(rng.randrange(5))]
            ctx.count(repr(es))
            rw.write(ErrDump(list(es)), d)
            got = ReaderWriterErrDump("all").read(d)
            ctx.check(got.errs == es, "the recorded errors are read back in order", got=got, want=es)


@case
def optimizer(ctx):
    rng = ctx.rng
    for n in range(ctx.n(150, 1500)):
        d = ctx.dir()
        v, w = {}, {}
        for k in rng.sample(STRINGS, rng.randrange(4)):
            v[k], w[k] = tree(rng, 2)
            if "mappingproxy" in repr(v[k]):
                v[k] = w[k]
        ReaderWriterOptimizerInfo().write(OptimizerInfo(v), d)
        ctx.count(repr(w))
        ctx.eq(typed(dict(ReaderWriterOptimizerInfo().read(d).info)), typed(w), "optimizer info")
        opt = lambda *a: rng.choice([None, *a])
        for _ in range(2):
            b = None if rng.random() < 0.3 else BudgetInfo(opt(1.5, 0, math.inf, np.float64(3)), rng.choice([0.0, 2.5, math.nan, 1e-9]), opt(0, 5), rng.randrange(5))
            ReaderWriterOptimizationState().write(OptimizationState(budget=b, shared_state=v), d)
            g = ReaderWriterOptimizationState().read(d)
            ctx.eq(typed(g.shared_state), typed(w), "optimizer state")
            ctx.eq(g.budget is None, b is None, "budget")
            if b is not None:
                ctx.eq(typed(vars(g.budget)), typed(serializable_format(vars(b))), "budget")


def _snap(d):
    s = ReaderWriterSeedSnapshot().read(d)
    s.set_as_global_seed_state()
    return draws()


@case
def generators(ctx):
    rng = ctx.rng
    outer = SeedSnapshot.new_capture()
    try:
        for n in range(ctx.n(60, 600)):
            d = ctx.dir()
            reseed(rng)
            for _ in range(rng.randrange(4)):
                draws()
            for _ in range(rng.randrange(3)):
                rng.choice([lambda: random.gauss(0, 1), lambda: np.random.randn(), lambda: torch.randn(3)])()
            rw = ReaderWriterSeedSnapshot()
            s = SeedSnapshot.new_capture()
            if rng.random() < 0.5:
                rw.write(SeedSnapshot(s.np_rng, s.py_rng, torch.zeros(3), [torch.ones(3), torch.zeros(2)]), d)
            k = rng.randrange(4)
            s.torch_cuda_rng = [torch.arange(4, dtype=torch.uint8), torch.zeros(2)] if k == 1 else None
            if k == 2:
                s.torch_rng = None
            ctx.count((n, k))
            rw.write(s, d)
            g = ReaderWriterSeedSnapshot().read(d)
            ctx.eq(g.py_rng, s.py_rng, "Python generator")
            ctx.check(g.py_rng[1] == s.py_rng[1] and type(g.py_rng[1]) is tuple, "Python generator")
            ctx.eq([x for i, x in enumerate(g.np_rng) if i != 1], [x for i, x in enumerate(s.np_rng) if i != 1], "NumPy generator")
            ctx.check(np.array_equal(g.np_rng[1], s.np_rng[1]) and g.np_rng[1].dtype == s.np_rng[1].dtype, "NumPy generator")
            for a, b in ((g.torch_rng, s.torch_rng), (g.torch_cuda_rng, s.torch_cuda_rng)):
                ctx.check((a is None) == (b is None), "a generator's state is there exactly if it was stored")
                for x, y in zip(a if isinstance(a, list) else [] if a is None else [a], b if isinstance(b, list) else [] if b is None else [b], strict=True):
                    ctx.check(torch.equal(x, y), "Torch generator")
            want = draws()
            s.set_as_global_seed_state() if k != 2 else None
            if k != 2:
                want = draws()
                ctx.eq(_snap(d), want, "drawing continues where it was stored")
                if n % 20 == 0:
                    r = Fork(_snap, d).result()
                    ctx.eq(r, ("ok", want), "another process continues where it was stored")
    finally:
        outer.set_as_global_seed_state()
