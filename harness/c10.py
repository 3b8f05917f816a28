from __future__ import annotations

import itertools
import random

import numpy as np
import torch

from hlib import case
import optkit as OK
import runkit as R
from neps.optimizers.base_optimizer import SampledConfig
from neps.state.filebased import ReaderWriterSeedSnapshot, load_filebased_neps_state
from neps.state.seed_snapshot import SeedSnapshot


def burn(rng, k=None):
    for _ in range(rng.randrange(4) if k is None else k):
        rng.choice([random.random, lambda: random.gauss(0, 1), np.random.rand, np.random.randn, lambda: torch.rand(3),
                    lambda: np.random.randint(9), lambda: random.shuffle([1, 2, 3]), lambda: torch.randn(1)])()


def some(rng):
    """One draw of a random kind; reproducible given the generators and rng."""
    k = rng.randrange(8)
    return [lambda: random.random(), lambda: random.gauss(0, 1), lambda: float(np.random.rand()), lambda: float(np.random.randn()),
            lambda: float(torch.rand(())), lambda: float(torch.randn(())), lambda: int(np.random.randint(1 << 30)),
            lambda: random.randrange(1 << 30)][k]()


@case
def snapshots(ctx):
    """Installing a snapshot reproduces the draws that followed its capture, in memory and from disk."""
    rng = ctx.rng
    rw = ReaderWriterSeedSnapshot()
    for k in range(ctx.n(60, 600)):
        R.reseed(rng)
        burn(rng)
        if rng.random() < 0.5:
            random.gauss(0, 1)               # leaves a cached second value behind
        if rng.random() < 0.5:
            np.random.randn()
        s = SeedSnapshot.new_capture()
        plan = rng.random()
        want = [some(random_plan) for random_plan in [random.Random(plan)] for _ in range(12)]
        d = ctx.dir()
        rw.write(s, d)
        r = rw.read(d)
        ctx.check(r == s, "a snapshot read back equals the one written")
        for which in (s, r, s):
            R.reseed(rng)
            burn(rng)
            which.set_as_global_seed_state()
            got = [some(random_plan) for random_plan in [random.Random(plan)] for _ in range(12)]
            ctx.eq(got, want, "the same draws after installing the snapshot")
        s.recapture()
        plan2 = rng.random()
        want2 = [some(p) for p in [random.Random(plan2)] for _ in range(6)]
        R.reseed(rng)
        s.set_as_global_seed_state()
        ctx.eq([some(p) for p in [random.Random(plan2)] for _ in range(6)], want2, "a recaptured snapshot continues the stream")
        ctx.count((k, plan))


def proposer():
    def propose(trials, b):
        return SampledConfig(id=str(len(trials) + 1), config={"x": list(R.draws())})
    return propose


def proposals(ctx, d, seed, workers, foreign, rng, n=8, opt=None):
    random.seed(seed)
    np.random.seed(seed)
    torch.manual_seed(seed)
    views = [R.state_at(d)]
    for _ in range(workers - 1):
        views.append(load_filebased_neps_state(d))
    out = []
    for k in range(n):
        if foreign:
            burn(rng, 3)
        if foreign > 1:
            R.reseed(rng)
        st = rng.choice(views) if workers > 1 else views[0]
        if workers > 2 and rng.random() < 0.3:
            st = load_filebased_neps_state(d)
        t = st.sample_trial(opt() if opt else R.Scripted(proposer(), record=False), worker_id="w")
        out.append(dict(t.config))
    return out


@case
def interleavings(ctx):
    """The proposals do not depend on who samples or on foreign draws in between."""
    rng = ctx.rng
    for seed in range(ctx.n(3, 20)):
        ref = proposals(ctx, ctx.dir() / "r", seed, 1, 0, rng)
        ctx.check(len({repr(x) for x in ref}) == len(ref), "the stream advances", ref=ref[:2])
        for workers, foreign in itertools.product((1, 2, 4), (0, 1, 2)):
            got = proposals(ctx, ctx.dir() / "r", seed, workers, foreign, rng)
            ctx.eq(got, ref, "same proposals", seed=seed, workers=workers, foreign=foreign)
            ctx.count((seed, workers, foreign))


@case
def real_optimizers(ctx):
    rng = ctx.rng
    for name in OK.names(slow=ctx.thorough):
        if name == "grid_search":
            continue
        sp = OK.space(None if name in ("random_search", "regularized_evolution", "bayesian_optimization", "pibo") else "int")
        mk = lambda: OK.make(name, sp.clone())
        ref = proposals(ctx, ctx.dir() / "r", 3, 1, 0, rng, n=6, opt=mk)
        got = proposals(ctx, ctx.dir() / "r", 3, 3, 2, rng, n=6, opt=mk)
        ctx.eq(got, ref, "same proposals", optimizer=name)
        ctx.count(name)


@case
def runs(ctx):
    """Whole workers whose evaluations draw random numbers and fail."""
    rng = ctx.rng

    def go(foreign, resumes, fail):
        R.reseed(random.Random(5))
        d = ctx.dir() / "run"
        R.state_at(d)
        out = []

        def fn(x):
            out.append(x)
            if foreign:
                burn(rng, 5)
                R.reseed(rng)
            if fail and len(out) % 3 == 0:
                raise ValueError
            return 1.0
        left = 9
        while left:
            k = min(left, rng.randrange(1, 4)) if resumes else left
            R.worker(load_filebased_neps_state(d), fn, opt=R.Scripted(proposer(), record=False), max_evaluations_for_worker=k,
                     on_error=R.O.IGNORE).run()
            left -= k
        return out
    ref = go(False, False, False)
    for f, r, e in itertools.product((False, True), repeat=3):
        ctx.eq(go(f, r, e), ref, "same proposals", foreign=f, resumed=r, failing=e)
        ctx.count((f, r, e))


@case
def refused_step(ctx):
    """A refused sampling step leaves the stored stream where it was."""
    rng = ctx.rng
    R.reseed(random.Random(9))
    d1, d2 = ctx.dir() / "a", ctx.dir() / "b"
    outs = []
    for d, bad in ((d1, False), (d2, True)):
        R.reseed(random.Random(9))
        st = R.state_at(d)
        out = []
        for k in range(5):
            if bad:
                try:
                    st.sample_trial(R.Scripted(lambda t, b: (R.draws(), SampledConfig(id="n", config={}, previous_config_id="no"))[1]),
                                    worker_id="w")
                except Exception:
                    pass
            out.append(dict(st.sample_trial(R.Scripted(proposer(), record=False), worker_id="w").config))
            ctx.count((bad, k))
        outs.append(out)
    ctx.eq(outs[0], outs[1], "same proposals")
