"""C13 encoding configurations and decoding them gives the configurations back."""
# instrument: neps.search_spaces.domain neps.search_spaces.encoding
from pyvc import nonlinear, rt, values
from pyvc.contract import contract
from pyvc.core import Unsupported, cur
from pyvc.stubs import patched
from pyvc.tensor import Math, Row, T, Torch
from pyvc.values import And, Implies, Not, Or, SymBool, SymNum, SymVal, V, intval, lift_num, realval, same, val
from pyvc.z3load import z3
from contracts.c12 import make
from contracts.hpkit import choices

import neps.search_spaces.domain as D
import neps.search_spaces.encoding as E

M = "neps.search_spaces.encoding."
Domain = D.Domain


def env():
    nonlinear.on()
    ps = [patched(D, torch=Torch(), math=Math()), patched(E, torch=Torch())]

    class Env:
        def __enter__(self):
            for q in ps:
                q.__enter__()

        def __exit__(self, *a):
            for q in reversed(ps):
                q.__exit__(*a)
    return Env()


def rows(vc):
    """Any number of configurations, and one arbitrary one of them."""
    co = rt.Coll("configs")
    vc.assume(SymNum(co.n, "int") >= 1)
    row = Row(co)
    cur().state["row"] = row
    return co, row


def picks(co, cs, tag="pos"):
    """Any sequence of choices: position pos(i) of the choices in row i."""
    pos = z3.Function(cur().name(tag), z3.IntSort(), z3.IntSort())

    def elem(i):
        cur().assume(z3.And(pos(i) >= 0, pos(i) < cs.coll.n))
        return cs.elem(pos(i))
    return rt.SymSeq(co, elem)


def numbers(co, d, k, tag="v"):
    f = z3.Function(cur().name(tag), z3.IntSort(), z3.IntSort() if k[0] else z3.RealSort())

    def elem(i):
        v = SymNum(f(i), "int" if k[0] else "float")
        cur().assume(And(v >= d.lower, v <= d.upper).z)
        return v
    return rt.SymSeq(co, elem)


def outs(vc, row):
    """No tensor to write into, or one in double precision."""
    return T(realval("before"), Torch.float64, 1, None, row) if vc.choose(2, "out") else None


def in_domain(t, d):
    return And(t.v >= d.lower, t.v <= d.upper)


def categorical_case(vc, cls, integers):
    with env():
        co, row = rows(vc)
        cs = choices("choices")
        vc.assume(SymNum(cs.coll.n, "int") >= 2)
        st, tr = vc.call(cls, cs)
        vc.prove(st == "ok", "a transformer of choices can be made")
        if st != "ok":
            return
        vc.prove(tr.domain.is_categorical is True and same(tr.domain.cardinality, SymNum(cs.coll.n, "int")),
                 "the column's domain is categorical with one value per choice")
        xs = picks(co, cs)
        out = outs(vc, row)
        st, t = vc.call(tr.encode, xs, out=out, dtype=Torch.float64 if vc.choose(2, "double") else None)
        vc.prove(st == "ok", "choices can be encoded")
        if st != "ok":
            return
        if out is not None:
            vc.prove(t is out, "the given tensor is filled and returned")
        vc.prove(in_domain(t, tr.domain), "an encoded choice lies in the column's domain")
        if integers:
            vc.prove(SymBool(z3.IsInt(z3.ToReal(lift_num(t.v).z) if lift_num(t.v).kind == "int" else lift_num(t.v).z)), "a choice is encoded as a whole number")
        st, back = vc.call(tr.decode, t)
        vc.prove(st == "ok", "encoded choices can be decoded")
        if st != "ok":
            return
        vc.prove(same(back.vc_len(), xs.vc_len()), "as many values come back")
        vc.prove(same(back.elem(row.at), xs.elem(row.at)), "decoding an encoded choice gives the choice")
        u = realval("u") if vc.choose(2, "float tensor") else intval("u")
        vc.assume(And(u >= tr.domain.lower, u <= tr.domain.upper))
        st, back = vc.call(tr.decode, T(u, None, 1, None, row))
        vc.prove(st == "ok" and cs.find(back.elem(row.at)) is not None, "anything in the column's domain decodes to a choice")
        vc.cover("with out" if out is not None else "without out")


@contract("C13", M + "CategoricalToIntegerTransformer.__post_init__", M + "CategoricalToIntegerTransformer.encode",
          M + "CategoricalToIntegerTransformer.decode")
def categorical_integers(vc):
    categorical_case(vc, E.CategoricalToIntegerTransformer, True)


@contract("C13", M + "CategoricalToUnitNorm.__post_init__", M + "CategoricalToUnitNorm.encode", M + "CategoricalToUnitNorm.decode")
def categorical_unit(vc):
    categorical_case(vc, E.CategoricalToUnitNorm, False)


@contract("C13", M + "MinMaxNormalizer.__post_init__", M + "MinMaxNormalizer.encode", M + "MinMaxNormalizer.decode")
def numeric(vc):
    with env():
        co, row = rows(vc)
        d, k = make(vc, "d", (vc.choose(2, "int"), vc.choose(2, "log"), 0))
        bins = None
        if vc.choose(2, "bins"):
            bins = intval("bins")
            vc.assume(bins >= 2)
        st, tr = vc.call(E.MinMaxNormalizer, d, bins)
        vc.prove(st == "ok", "a normalizer can be made")
        if st != "ok":
            return
        vc.prove(And(same(tr.domain.lower, 0.0), same(tr.domain.upper, 1.0), tr.domain.is_categorical is False),
                 "the column's domain is the unit interval")
        xs = numbers(co, d, k)
        out = outs(vc, row)
        v = xs.elem(row.at)
        if k[1]:
            vc.assume(values.exp(values.log(v)) == v)
        st, t = vc.call(tr.encode, xs, out=out, dtype=Torch.float64 if vc.choose(2, "double") else None)
        vc.prove(st == "ok", "values can be encoded")
        if st != "ok":
            return
        if out is not None:
            vc.prove(t is out, "the given tensor is filled and returned")
        vc.prove(in_domain(t, tr.domain), "an encoded value lies in the column's domain")
        st, back = vc.call(tr.decode, t)
        vc.prove(st == "ok", "encoded values can be decoded")
        if st != "ok":
            return
        if bins is None and k != (1, 1, 0):       # integers on a log scale are encoded by one of as many levels as there are integers
            vc.prove(same(back.elem(row.at), v), "decoding an encoded value gives the value")
        u = realval("u")
        vc.assume(And(u >= 0, u <= 1))
        st, back = vc.call(tr.decode, T(u, None, 1, None, row))
        w = back.elem(row.at) if st == "ok" else None
        vc.prove(st == "ok" and And(w >= d.lower, w <= d.upper), "anything in the column's domain decodes to a value within the bounds")
        if st == "ok":
            vc.prove(lift_num(w).kind == ("int" if k[0] else "float"), "a decoded value has the hyperparameter's type")
        vc.cover(f"kind {k}")


# ---- the encoder: any number of configurations, up to three hyperparameters and two constants

class GT:
    """A transformer by contract: what it encodes, it decodes to the same values; its column is known by its name."""
    __vc_ghost__ = True

    def __init__(self, vc, name):
        self.vc, self.name = vc, name
        self.domain = Domain.indices(3, is_categorical=True) if vc.choose(2, "categorical " + name) else Domain.floating(0.0, 1.0)
        self.enc = z3.Function("enc_" + name, V, z3.RealSort())
        self.dec = z3.Function("dec_" + name, z3.RealSort(), V)

    def encode(self, x, *, out=None, dtype=None, device=None):
        row = cur().state["row"]
        v = row.of(x)
        z = self.enc(v.z)
        cur().assume(self.dec(z) == v.z)
        t = T(SymNum(z, "float"), Torch.float64, 1, None, row)
        if out is None:
            return t
        self.vc.prove(out.dtype == (dtype or out.dtype), "the dtype asked for is the one of the tensor")
        return out.copy_(t)

    def decode(self, x):
        return cur().state["row"].seq(SymVal(self.dec(lift_num(x.v).z), str))


class Matrix:
    """A tensor with a known number of columns, each known at the arbitrary row."""
    __vc_ghost__ = True

    def __init__(self, row, cols, dtype):
        self.row, self.cols, self.dtype = row, cols, dtype
        self.ndim = 2

    def vc_len(self):
        return SymNum(self.row.coll.n, "int")

    @property
    def shape(self):
        return (self.vc_len(), len(self.cols))

    def __getitem__(self, k):
        if isinstance(k, tuple) and len(k) == 2 and k[0] in (Ellipsis, slice(None)) and isinstance(k[1], int):
            return self.cols[k[1]]
        raise Unsupported("tensor index")

    def __setitem__(self, k, v):
        self[k].copy_(v)


@contract("C13", M + "ConfigEncoder.encode", M + "ConfigEncoder.decode", M + "ConfigEncoder.__post_init__")
def encoder(vc):
    co, row = rows(vc)
    names = ("b", "a", "c")[:1 + vc.choose(3, "hyperparameters")]
    consts = {k: val("const_" + k, str) for k in ("k", "aa")[:vc.choose(3, "constants")]}
    trs = {n: GT(vc, n) for n in names}
    st, enc = vc.call(E.ConfigEncoder, dict(trs), consts)
    vc.prove(st == "ok", "an encoder can be made")
    if st != "ok":
        return
    srt = sorted(names)
    vc.prove(list(enc.transformers) == srt and enc.index_of == {n: i for i, n in enumerate(srt)} and enc.ncols == len(srt),
             "columns are in the order of the names, whatever order they are given in")
    vc.prove(all(enc.transformers[n] is trs[n] for n in names) and all(enc.domain_of[n] is trs[n].domain for n in names)
             and all(x is trs[n].domain for x, n in zip(enc.domains, srt)), "each column has its own hyperparameter's domain")
    cats = sum(1 for n in names if trs[n].domain.is_categorical)
    vc.prove((enc.n_categorical, enc.n_numerical) == (cats, len(names) - cats), "the numbers of categorical and other columns")
    f = {n: z3.Function("conf_" + n, z3.IntSort(), V) for n in names}
    extra = list(consts) + ["ignored"]

    def elem(i):
        return {**{n: SymVal(f[n](i), str) for n in reversed(names)}, **{e: val("x", str) for e in extra}}
    dt = Torch.float32 if vc.choose(2, "single") else None
    made = []

    class TT(Torch):
        @staticmethod
        def empty(shape, dtype=None, device=None):
            vc.prove(isinstance(shape, tuple) and len(shape) == 2 and same(shape[0], SymNum(co.n, "int")) and shape[1] == len(names),
                     "one row per configuration, one column per hyperparameter")
            made.append(Matrix(row, [T(realval("empty"), dtype, 1, None, row) for _ in range(shape[1])], dtype))
            return made[-1]
        zeros = empty
    with patched(E, torch=TT()):
        st, x = vc.call(enc.encode, rt.SymSeq(co, elem), dtype=dt)
        vc.prove(st == "ok" and x in made, "configurations can be encoded")
        if st != "ok":
            return
        vc.prove(x.dtype == (dt or Torch.float64), "the tensor has the dtype asked for, double precision by default")
        for i, n in enumerate(srt):
            vc.prove(same(x.cols[i].v, SymNum(trs[n].enc(f[n](row.at)), "float")), "each column holds its own hyperparameter's values, encoded")
        st, back = vc.call(enc.decode, x)
    vc.prove(st == "ok", "the tensor can be decoded")
    if st != "ok":
        return
    vc.prove(same(back.vc_len(), SymNum(co.n, "int")), "as many configurations come back")
    c = back.elem(row.at)
    vc.prove(set(c) == set(names) | set(consts), "a decoded configuration has the hyperparameters and the constants")
    for n in names:
        vc.prove(n in c and same(c[n], SymVal(f[n](row.at), str)), "each hyperparameter has the value it was encoded with")
    for n in consts:
        vc.prove(n in c and same(c[n], consts[n]), "each constant has its value")
    vc.cover("decoded")


@contract("C13", M + "ConfigEncoder.default")
def default(vc):
    """The default encoder: one transformer per hyperparameter, made for it."""
    from neps.search_spaces import CategoricalParameter, ConstantParameter, FloatParameter, IntegerParameter
    hps = {}
    for n in ("b", "a")[:1 + vc.choose(2, "hyperparameters")]:
        k = vc.choose(4, "kind " + n)
        hps[n] = (FloatParameter(0.5, 2.5), IntegerParameter(-3, 5), CategoricalParameter(["x", "y"]), ConstantParameter(1))[k]
    names = list(hps)
    consts = [None, {}, {"k": val("const", str)}, {"a": 1}][vc.choose(4, "constants")]
    custom = [None, {"b": GT(vc, "b")}, {"k": GT(vc, "k")}][vc.choose(3, "custom")]
    kept = dict(consts) if consts is not None else {}
    st, e = vc.call(E.ConfigEncoder.default, dict(hps), consts, custom_transformers=custom)
    bad = (consts is not None and (set(consts) & set(hps) or custom and set(custom) & set(consts))) \
        or any(isinstance(h, ConstantParameter) and n not in (custom or {}) for n, h in hps.items())
    if st == "exc":
        vc.prove(isinstance(e, ValueError) and bool(bad), "only constants among the hyperparameters are refused, with a ValueError")
        vc.cover("refused")
        return
    vc.prove(not bad, "constants among the hyperparameters are refused")
    vc.prove(list(e.transformers) == sorted(names), "one column per hyperparameter")
    vc.prove(list(e.constants) == list(kept) and all(same(e.constants[k], kept[k]) for k in kept), "the constants are kept")
    for n, h in hps.items():
        t = e.transformers[n]
        if custom and n in custom:
            vc.prove(t is custom[n], "a custom transformer is used")
        elif isinstance(h, CategoricalParameter):
            vc.prove(type(t) is E.CategoricalToIntegerTransformer and list(t.choices) == h.choices, "a categorical is encoded by its choices")
        else:
            vc.prove(type(t) is E.MinMaxNormalizer and t.original_domain == h.domain and t.bins is None, "a number is encoded by its domain")
    vc.cover("made")
