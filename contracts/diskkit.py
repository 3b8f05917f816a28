"""A run in a ghost directory: the real state, readers, writers, versioners and lockers over files and directories with
assumed semantics (a file holds what was last written to it, a directory what was put into it)."""
from __future__ import annotations

import neps.state.filebased as FB
import neps.state.seed_snapshot as SS
import neps.utils.files as F
from neps.state.optimizer import BudgetInfo, OptimizationState, OptimizerInfo
from neps.state.seed_snapshot import SeedSnapshot
from pyvc import docs
from pyvc.core import Unsupported, cur
from pyvc.rt import Coll, SymSeq
from pyvc.stubs import DirFS, Ghost, GPath, patched
from pyvc.values import SymNum, intval, realval, val
from pyvc.z3load import z3
from contracts.c10 import fake_torch


def gpath(p):
    if not isinstance(p, GPath):
        raise Unsupported("a path that is not one of the ghost directory")
    return p


def locks():
    """portalocker: an exclusive lock per path, free when asked for."""
    held = []

    class Lock:
        def __init__(self, filename, *a, **k):
            self.filename = filename

        def __enter__(self):
            if self.filename in held:
                raise FB.pl.exceptions.LockException("held by this process")
            held.append(self.filename)
            return self

        def __exit__(self, *a):
            held.remove(self.filename)
            return None
        acquire = __enter__

        def release(self):
            self.__exit__()

    class PL(Ghost):
        LOCK_EX, LOCK_NB = FB.pl.LOCK_EX, FB.pl.LOCK_NB
        exceptions = FB.pl.exceptions
    PL.Lock = Lock
    PL.held = held
    return PL


def snapshot(vc, torch=None, gauss=None):
    """The states of the generators as SeedSnapshot holds them."""
    k = z3.Function(cur().name("py.key"), z3.IntSort(), z3.IntSort())
    m = z3.Function(cur().name("np.key"), z3.IntSort(), z3.IntSort())

    def words(f):
        def at(i):
            vc.assume(z3.And(f(i) >= 0, f(i) < 1 << 32))
            return SymNum(f(i), "int")
        return at
    torch = vc.choose(2, "torch") if torch is None else torch
    gauss = vc.choose(2, "gauss") if gauss is None else gauss
    return SeedSnapshot(
        np_rng=("MT19937", docs.Arr(SymSeq(Coll("np"), words(m)), "uint32"), intval("pos"),
                intval("has_gauss"), realval("cached")),
        py_rng=(intval("version"), SymSeq(Coll("py"), words(k)), realval("gauss") if gauss else None),
        torch_rng=val("torch") if torch else None,
        torch_cuda_rng=[val("cuda")] if torch else None)


class ghost_disk:
    """with ghost_disk(vc) as g: g.fs, g.root (an existing directory), g.captured (snapshots captured meanwhile)."""

    def __init__(self, vc):
        self.vc = vc
        self.fs = DirFS(vc)
        self.root = self.fs.path("results")
        self.fs.dirs.add(("results",))
        self.captured = []

    def __enter__(self):
        g = self

        class Snap(SeedSnapshot):
            @classmethod
            def new_capture(cls):
                s = snapshot(g.vc, 1, 0)
                g.captured.append(s)
                return s
        cur().state["join"] = docs.join
        self.pl = locks()
        self.ps = [patched(F, yaml=docs.yaml, Path=gpath), patched(FB, json=docs.json, np=docs.np_shim(), pl=self.pl, SeedSnapshot=Snap),
                   fake_torch(docs.torch_shim)]
        for p in self.ps:
            p.__enter__()
        return self

    def __exit__(self, *a):
        for p in reversed(self.ps):
            p.__exit__(*a)
        return False


def budget(vc, which=None):
    which = vc.choose(2, "budget") if which is None else which
    if not which:
        return None
    return BudgetInfo(max_cost_budget=realval("max_cost"), used_cost_budget=realval("used"), max_evaluations=None,
                      used_evaluations=intval("used_evals"))


def opt_state(vc, which=None):
    return OptimizationState(budget=budget(vc, which), shared_state={"s": val("shared")})


def info(base="info"):
    return OptimizerInfo({"searcher": val(base + ".searcher", str), "args": {"eta": val(base + ".eta"), "seed": None}})
