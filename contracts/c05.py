"""C05 what is stored about a run survives the round trip through disk."""
# instrument: neps.utils.files neps.state.filebased neps.state.trial neps.state.optimizer neps.state.err_dump neps.state.seed_snapshot
import dataclasses
import enum
import math
import threading
from collections import OrderedDict
from types import MappingProxyType

import numpy as np

from pyvc import docs
from pyvc.contract import contract
from pyvc.core import Unsupported, cur
from pyvc.rt import Coll, SymMap, SymSeq
from pyvc.stubs import GFS, patched
from pyvc.values import And, SymNum, SymVal, boolval, intval, is_sym, realval, same, val
from pyvc.z3load import z3
from contracts.c10 import fake_torch

import neps.state.filebased as FB
import neps.utils.files as F
from neps.state.err_dump import ErrDump
from neps.state.optimizer import BudgetInfo, OptimizationState, OptimizerInfo
from neps.state.seed_snapshot import SeedSnapshot
from neps.state.trial import MetaData, Report, State, Trial
from neps.utils.types import ERROR  # noqa: F401


def identity(p):
    return p


class disk:
    """A ghost directory; yaml, json, numpy and torch file access by their assumed contracts."""

    def __init__(self, vc):
        self.fs = GFS(vc)
        self.dir = self.fs.path("run")

    def __enter__(self):
        cur().state["join"] = docs.join
        self.ps = [patched(F, yaml=docs.yaml, Path=identity), patched(FB, json=docs.json, np=docs.np_shim()),
                   fake_torch(docs.torch_shim)]
        for p in self.ps:
            p.__enter__()
        return self.dir

    def __exit__(self, *a):
        for p in reversed(self.ps):
            p.__exit__(*a)
        return False


def mapping(base, elem):
    """Any number of entries under different names."""
    c = Coll(base)
    p = cur()
    k = z3.Function(p.name(base + ".key"), z3.IntSort(), val("x").z.sort())
    inv = z3.Function(p.name(base + ".inv"), val("x").z.sort(), z3.IntSort())
    return SymMap(c, lambda i: SymVal(k(i), str), elem(base), inv=inv)


def opaque(base):
    f = z3.Function(cur().name(base + ".val"), z3.IntSort(), val("x").z.sort())
    return lambda i: SymVal(f(i))


def numbers(base):
    f = z3.Function(cur().name(base + ".num"), z3.IntSort(), z3.RealSort())
    n = z3.Function(cur().name(base + ".nan"), z3.IntSort(), z3.BoolSort())
    return lambda i: SymNum(f(i), "float", n(i))


def equal(a, b):
    """Equal as data: mappings by entries, sequences by elements, NaN equal to NaN, exceptions by message."""
    if a is b:
        return True
    if is_sym(a) and isinstance(a, (SymMap, SymSeq)) and type(a) in (SymMap, SymSeq):
        if not is_sym(b) or type(b) is not type(a) or not a.coll.n.eq(b.coll.n):
            return False
        i = cur().const("at", z3.IntSort())
        rng = z3.And(i >= 0, i < a.coll.n)
        cur().assume(rng) if cur().check(rng) == z3.sat else None
        if cur().check(rng) != z3.sat:
            return True
        cs = [same(a.elem(i), b.elem(i)), _b(a.guard(i)), _b(b.guard(i))]
        if type(a) is SymMap:
            cs.append(same(a.key(i), b.key(i)))
        return And(*cs)
    if type(a) is dict and type(b) is dict:
        return a.keys() == b.keys() and And(True, *[equal(a[k], b[k]) for k in a])
    if type(a) in (list, tuple) and type(b) in (list, tuple):
        return len(a) == len(b) and And(True, *[equal(x, y) for x, y in zip(a, b)])
    if isinstance(a, BaseException) or isinstance(b, BaseException):
        return isinstance(a, Exception) and isinstance(b, Exception) and same(text(a), text(b))
    return same(a, b)


def _b(z):
    from pyvc.values import SymBool
    return SymBool(z)


def text(e):
    return e.__vc_str__() if hasattr(type(e), "__vc_str__") else e.args[0] if len(e.args) == 1 else str(e)


class Plain(Exception):
    """An exception with any message."""

    def __init__(self):
        self.msg = val("message", str)

    def __vc_str__(self):
        return self.msg


class Iterable_(Plain):
    def __iter__(self):
        return iter((threading.Lock(),))


class WithSerialize(Plain):
    def serialize(self):
        return threading.Lock()


class Uncopyable(Plain):
    def __deepcopy__(self, memo):
        raise TypeError("cannot be copied")

    def __reduce_ex__(self, p):
        raise TypeError("cannot be pickled")


class NeedsArguments(Plain):
    def __init__(self, a, b, *, c):
        super().__init__()
        self.lock = threading.Lock()


@dataclasses.dataclass
class Dataclass_(Plain):
    code: int = 3
    lock: object = dataclasses.field(default_factory=threading.Lock)

    def __post_init__(self):
        Plain.__init__(self)


class Mod(Plain):
    __module__ = "numpy"


ERRS = [Plain, Iterable_, WithSerialize, Uncopyable, lambda: NeedsArguments(1, 2, c=3), Dataclass_, Mod]


def opt(vc, make, label):
    return make() if vc.choose(2, label) else None


def report(vc, full=True):
    e = vc.choose(len(ERRS) + 1, "err") if full else 0
    has = vc.choose(2, "numbers") if full else 1
    return Report(trial_id=val("id", str), loss=realval("loss", nan=True) if has else None,
                  cost=realval("cost", nan=True) if vc.choose(2, "cost") else None,
                  learning_curve=SymSeq(Coll("curve"), numbers("curve")) if has else None,
                  extra=mapping("extra", opaque), err=ERRS[e - 1]() if e else None,
                  tb=val("tb", str) if e else None, reported_as=["success", "failed", "crashed"][vc.choose(3, "as")] if full else "success",
                  evaluation_duration=realval("duration") if has else None)


def metadata(vc):
    o = vc.choose(2, "optional")
    m = dict(id=val("id", str), location=val("loc", str), sampling_worker_id=val("w", str), time_sampled=realval("t"),
             previous_trial_id=val("prev", str) if o else None, previous_trial_location=val("prevloc", str) if o else None)
    if vc.choose(2, "evaluated"):
        m.update(evaluating_worker_id=val("w", str), evaluation_duration=realval("d"), time_submitted=realval("t"),
                 time_started=realval("t"), time_end=realval("t"))
    return MetaData(**m)


def fields(o):
    return {f.name: getattr(o, f.name) for f in dataclasses.fields(o)}


def same_fields(vc, got, want, what):
    g, w = fields(got), fields(want)
    vc.prove(type(got) is type(want) and g.keys() == w.keys(), f"{what}: same kind of record")
    for k in w:
        vc.prove(equal(w[k], g[k]), f"{what}: {k} is read back equal")


@contract("C05", "neps.state.filebased.ReaderWriterTrial.write", "neps.state.filebased.ReaderWriterTrial.read",
          "neps.utils.files.serialize", "neps.utils.files.deserialize", "neps.utils.files.serializable_format",
          "neps.state.trial.Report.__post_init__")
def trial(vc):
    with disk(vc) as d:
        rw = FB.ReaderWriterTrial()
        if vc.choose(2, "rewritten"):
            # what was stored before must not shine through
            old = Trial(config=mapping("oldconfig", opaque), metadata=MetaData(
                id=val("id", str), location=val("loc", str), previous_trial_id=val("prev", str), previous_trial_location=None,
                sampling_worker_id=val("w", str), time_sampled=realval("t")), state=State.CRASHED, report=report(vc, False))
            vc.call(rw.write, old, d)
            rep = opt(vc, lambda: report(vc, False), "report")
            state = State.PENDING
            meta = metadata(vc)
        elif vc.choose(2, "focus"):
            rep, state = report(vc), State.SUCCESS
            meta = MetaData(id=val("id", str), location=val("loc", str), previous_trial_id=None, previous_trial_location=None,
                            sampling_worker_id=val("w", str), time_sampled=realval("t"))
        else:
            rep, state = None, list(State)[vc.choose(len(State), "state")]
            meta = metadata(vc)
        t = Trial(config=mapping("config", opaque), metadata=meta, state=state, report=rep)
        want = Trial(config=t.config, metadata=dataclasses.replace(meta), state=state,
                     report=None if rep is None else Report(**vars(rep)))
        st, e = vc.call(rw.write, t, d)
        vc.prove(st == "ok", "writing a trial never fails")
        same_fields(vc, t.metadata, want.metadata, "writing leaves the trial alone")
        if st != "ok":
            return
        st, got = vc.call(FB.ReaderWriterTrial().read, d)
        vc.prove(st == "ok", "a written trial can be read")
        if st != "ok":
            return
        vc.prove(equal(want.config, got.config), "the configuration is read back equal")
        same_fields(vc, got.metadata, want.metadata, "metadata")
        vc.prove(got.state is want.state, "the state is read back equal")
        vc.prove((got.report is None) == (want.report is None), "there is a report exactly if one was written")
        if got.report is not None and want.report is not None:
            same_fields(vc, got.report, want.report, "report")
            vc.cover("report")
        else:
            vc.cover("no report")


@contract("C05", "neps.state.filebased.ReaderWriterSeedSnapshot.write", "neps.state.filebased.ReaderWriterSeedSnapshot.read")
def seed_snapshot(vc):
    with disk(vc) as d:
        rw = FB.ReaderWriterSeedSnapshot()

        def snapshot(n):
            k = z3.Function(cur().name("py.key"), z3.IntSort(), z3.IntSort())
            m = z3.Function(cur().name("np.key"), z3.IntSort(), z3.IntSort())

            def words(f):
                def at(i):
                    vc.assume(z3.And(f(i) >= 0, f(i) < 1 << 32))
                    return SymNum(f(i), "int")
                return at
            py = SymSeq(Coll("py"), words(k))
            return SeedSnapshot(
                np_rng=("MT19937", docs.Arr(SymSeq(Coll("np"), words(m)), "uint32"), intval("pos"),
                        intval("has_gauss"), realval("cached")),
                py_rng=(intval("version"), py, realval("gauss") if vc.choose(2, "gauss") else None),
                torch_rng=val("torch") if vc.choose(2, "torch") else None,
                torch_cuda_rng=[val("cuda")] if vc.choose(2, "cuda") else None)
        if vc.choose(2, "rewritten"):
            vc.call(rw.write, snapshot("old"), d)
        s = snapshot("new")
        st, e = vc.call(rw.write, s, d)
        vc.prove(st == "ok", "writing a snapshot never fails")
        st, g = vc.call(FB.ReaderWriterSeedSnapshot().read, d)
        vc.prove(st == "ok", "a written snapshot can be read")
        if st != "ok":
            return
        for i in (0, 2):
            vc.prove(equal(s.py_rng[i], g.py_rng[i]), "Python generator: version and Gauss value are read back equal")
        vc.prove(equal(s.py_rng[1], g.py_rng[1]), "Python generator: the state is read back equal")
        vc.prove(len(g.py_rng) == 3 and len(g.np_rng) == 5, "complete generator states")
        vc.prove(g.np_rng[0] == "MT19937", "NumPy generator: the kind is read back")
        vc.prove(equal(s.np_rng[1].seq, g.np_rng[1].seq), "NumPy generator: the keys are read back equal")
        for i in (2, 3, 4):
            vc.prove(equal(s.np_rng[i], g.np_rng[i]), "NumPy generator: position and Gauss value are read back equal")
        vc.prove(equal(s.torch_rng, g.torch_rng), "Torch generator is read back equal, and absent if it was")
        vc.prove(equal(s.torch_cuda_rng, g.torch_cuda_rng), "CUDA generators are read back equal, and absent if they were")
        vc.cover("read")


@contract("C05", "neps.state.filebased.ReaderWriterOptimizerInfo.write", "neps.state.filebased.ReaderWriterOptimizerInfo.read")
def optimizer_info(vc):
    with disk(vc) as d:
        info = OptimizerInfo(info=mapping("info", opaque))
        st, _ = vc.call(FB.ReaderWriterOptimizerInfo().write, info, d)
        vc.prove(st == "ok", "writing succeeds")
        st, g = vc.call(FB.ReaderWriterOptimizerInfo().read, d)
        vc.prove(st == "ok", "reading succeeds")
        if st == "ok":
            vc.prove(type(g) is OptimizerInfo and equal(info.info, g.info), "the optimizer info is read back equal")
            vc.cover("read")


@contract("C05", "neps.state.filebased.ReaderWriterOptimizationState.write",
          "neps.state.filebased.ReaderWriterOptimizationState.read")
def optimization_state(vc):
    with disk(vc) as d:
        def state():
            b = None
            if vc.choose(2, "budget"):
                b = BudgetInfo(max_cost_budget=realval("max") if vc.choose(2, "max") else None, used_cost_budget=realval("used", nan=True),
                               max_evaluations=intval("maxe") if vc.choose(2, "maxe") else None, used_evaluations=intval("usede"))
            # asdict copies a dict key by key: the number of entries is fixed here, their values are arbitrary
            sh = [{}, {"a": val("a"), "b": [realval("x", nan=True), None, {"c": val("c")}]}][vc.choose(2, "shared")]
            return OptimizationState(budget=b, shared_state=sh)
        if vc.choose(2, "rewritten"):
            vc.call(FB.ReaderWriterOptimizationState().write, OptimizationState(BudgetInfo(1.0, 2.0, 3, 4), {"old": 1}), d)
        s = state()
        st, _ = vc.call(FB.ReaderWriterOptimizationState().write, s, d)
        vc.prove(st == "ok", "writing succeeds")
        st, g = vc.call(FB.ReaderWriterOptimizationState().read, d)
        vc.prove(st == "ok", "reading succeeds")
        if st != "ok":
            return
        vc.prove(equal(s.shared_state, g.shared_state), "the shared state is read back equal")
        vc.prove((s.budget is None) == (g.budget is None), "there is a budget exactly if one was written")
        if s.budget is not None and g.budget is not None:
            same_fields(vc, g.budget, s.budget, "budget")
        vc.cover("read")


@contract("C05", "neps.state.filebased.ReaderWriterErrDump.write", "neps.state.filebased.ReaderWriterErrDump.read")
def err_dump(vc):
    """Any number of recorded errors, in order."""
    with disk(vc) as d:
        fs = [f.name for f in dataclasses.fields(ErrDump.SerializableTrialError)]
        fn = {f: opaque(f) for f in fs}

        def error(i):
            return ErrDump.SerializableTrialError(**{f: fn[f](i) for f in fs})
        rw = FB.ReaderWriterErrDump("all")
        if vc.choose(2, "rewritten"):
            vc.call(rw.write, ErrDump([error(z3.IntVal(-1))]), d)
        how = vc.choose(3, "how many")
        if how == 2:
            errs = SymSeq(Coll("errs"), error)
        else:
            errs = [error(z3.IntVal(7 + i)) for i in range(how * 2)]
        st, _ = vc.call(rw.write, ErrDump(errs), d)
        vc.prove(st == "ok", "writing succeeds")
        st, g = vc.call(FB.ReaderWriterErrDump("all").read, d)
        vc.prove(st == "ok", "reading succeeds")
        if st != "ok":
            return
        vc.prove(type(g) is ErrDump, "a record of errors is read")
        if how == 2:
            ok = is_sym(g.errs) and type(g.errs) is SymSeq and g.errs.coll.n.eq(errs.coll.n) and g.errs.ordered
            vc.prove(ok, "as many errors are read back, in order")
            if not ok:
                return
            i = cur().const("at", z3.IntSort())
            vc.assume(z3.And(i >= 0, i < errs.coll.n))
            vc.prove(_b(g.errs.guard(i)), "every error is read back")
            got = g.errs.elem(i)
            vc.prove(type(got) is ErrDump.SerializableTrialError, "errors are read back as such")
            for f in fs:
                vc.prove(same(getattr(got, f), fn[f](i)), f"error: {f} is read back equal")
            vc.cover("any number")
        else:
            vc.prove(type(g.errs) is list and len(g.errs) == len(errs), "as many errors are read back, in order")
            for a, b in zip(errs, g.errs):
                same_fields(vc, b, a, "error")
            vc.cover("few")


class Child:
    """Any value whose normal form is `norm`; its own kind does not matter here."""

    def __init__(self):
        self.norm = val("norm")

    def serialize(self):
        return self.norm


class NumpyLike:
    __module__ = "numpy"

    def __init__(self, v):
        self.v = v

    def tolist(self):
        return self.v

    def item(self):
        return self.v

    def __iter__(self):
        raise TypeError("iteration over a 0-d array")

    __float__ = __int__ = __iter__


class TorchLike(NumpyLike):
    __module__ = "torch"


class Color(enum.Enum):
    A = "a"
    B = 2


class IntColor(enum.IntEnum):
    A = 1


@dataclasses.dataclass
class Record:
    x: object
    y: object


@contract("C05", "neps.utils.files.serializable_format")
def normal_form(vc):
    """By cases over the kind of a value, given that its parts (of any kind) come out in their normal form."""
    real = F.serializable_format

    def recursive(x, *a, **k):
        return x.norm if isinstance(x, Child) else real(x, *a, **k)
    kind = vc.choose(16, "kind")
    with patched(F, serializable_format=recursive):
        if kind == 0:
            x = [None, True, False, "text", "1", "", "nan", 3, 0.5, math.inf][vc.choose(10, "const")]
            want = x
        elif kind == 1:
            x = want = [intval("n"), realval("x", nan=True), boolval("b"), val("s", str)][vc.choose(4, "sym")]
        elif kind == 2:
            v = [intval("n"), realval("x", nan=True), boolval("b"), val("s", str), None][vc.choose(5, "item")]
            x, want = (NumpyLike, TorchLike)[vc.choose(2, "lib")](v), v
        elif kind == 3:
            seq = SymSeq(Coll("array"), numbers("array"))
            x, want = (NumpyLike, TorchLike)[vc.choose(2, "lib")](seq), seq
        elif kind == 4:
            a, b = Child(), Child()
            x, want = {"a": a, "b": b, 3: None}, {"a": a.norm, "b": b.norm, 3: None}
            if vc.choose(2, "proxy"):
                x = MappingProxyType(x)
        elif kind == 5:
            a, b = Child(), Child()
            x = [[a, b, None], (a, b, None), {"k": a, "l": b, "m": None}.values()][vc.choose(3, "seq")]
            want = [a.norm, b.norm, None]
        elif kind == 6:
            x = want = [SymSeq(Coll("list"), opaque("list")), SymSeq(Coll("tuple"), opaque("t"), cls=tuple)][vc.choose(2, "c")]
        elif kind == 7:
            x = want = mapping("map", opaque)
        elif kind == 8:
            a, b = val("x"), realval("y", nan=True)
            x, want = Record(a, b), {"x": a, "y": b}
        elif kind == 9:
            x, want = [(Color.A, "a"), (Color.B, 2), (IntColor.A, 1)][vc.choose(3, "enum")]
        elif kind == 10:
            x = ERRS[vc.choose(len(ERRS), "err")]()
            want = x.msg
        elif kind == 11:
            x, want = [], []
        elif kind == 12:
            x, want = {}, {}
        elif kind == 13:
            x, want = [(np.longdouble("1.5"), 1.5), (np.array([1.5, 2], dtype=np.longdouble), [1.5, 2.0]),
                       (np.float32(0.5), 0.5), (np.int64(3), 3), (np.bool_(True), True), (np.str_("a"), "a")][vc.choose(6, "np")]
        elif kind == 14:
            x = Child()
            want = x.norm
        else:
            a = Child()
            x, want = {"k": [{"l": (a, [a])}]}, {"k": [{"l": [a.norm, [a.norm]]}]}
        st, got = vc.call(real, x)
        vc.prove(st == "ok", "every kind of value has a normal form")
        if st == "ok":
            vc.prove(equal(want, got), "the normal form is the plain value it stands for")
            if not is_sym(want):
                vc.prove(type(got) is type(want), "the normal form is plain")
        vc.cover(f"kind {kind}")
