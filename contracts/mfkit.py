"""Ladders of fidelities, powers and logarithms; what the multi-fidelity contracts share."""
from pyvc.core import Obligation, Unsupported, cur
from pyvc.rt import Coll, SymMap, SymSeq
from pyvc.stubs import Ghost, patched
from pyvc.values import IPOW, LOG, And, Or, SymBool, SymNum, _real, intval, is_sym, lift_num, realval
from pyvc.z3load import z3

from neps.search_spaces import FloatParameter, IntegerParameter


def fidelity_of(vc):
    """A fidelity hyperparameter with arbitrary bounds."""
    integer = bool(vc.choose(2, "integer"))
    lo, hi = (intval("lower"), intval("upper")) if integer else (realval("lower"), realval("upper"))
    f = object.__new__(IntegerParameter if integer else FloatParameter)
    f.lower, f.upper, f.is_fidelity = lo, hi, True
    vc.assume(And(lo > 0, lo < hi))
    return f


class Space(Ghost):
    """The search space, as far as a ladder needs it."""

    def __init__(self, fidelity):
        self.fidelity = fidelity


def powers(base):
    """base ** k for an integer base >= 2, at the exponents in play: what powers are, instantiated."""
    p = cur()
    b = base.z

    def at(b_, k):
        ks = p.state.setdefault("exponents", [])
        k = z3.simplify(k.z)
        if any(x.eq(k) for x in ks):
            return
        ks.append(k)
        p.assume(IPOW(b, z3.IntVal(0)) == 1)
        for k_ in (k, k - 1):
            p.assume(z3.Implies(k_ >= 0, z3.And(IPOW(b, k_) >= 1, IPOW(b, k_ + 1) == b * IPOW(b, k_))))
        for x in ks[:-1]:
            p.assume(z3.And(z3.Implies(z3.And(x >= 0, x <= k), IPOW(b, x) <= IPOW(b, k)),
                            z3.Implies(z3.And(k >= 0, k <= x), IPOW(b, k) <= IPOW(b, x))))
    p.state["pow"] = at

    def pw(k):
        k = lift_num(k) if not isinstance(k, z3.ArithRef) else SymNum(k, "int")
        at(base, k)
        return IPOW(b, z3.simplify(k.z))
    return pw


def induct(vc, n, name, claim, facts):
    """claim(0) and claim(k) => claim(k+1), proved; returns whether they are, and then makes the claim available."""
    p = cur()
    k = p.const("k", z3.IntSort())
    base = p.entails(claim(z3.IntVal(0)))
    if base != z3.unsat:
        return None
    hyp = [k >= 0, k < n, claim(k), *[f(k) for f in facts]]
    goal = claim(k + 1)
    step = p.entails(goal, *hyp)
    if step != z3.unsat:
        return None
    p.ex.obligations.append(Obligation("induction: " + name, "proved", "z3", p.decisions))
    return lambda i: p.assume(z3.Implies(z3.And(i >= 0, i <= n), claim(i)))


def known(coll, *idx):
    """What is known of the elements at these indices."""
    for i in idx:
        for f in coll.facts:
            cur().assume(f(i))


def is_number(x):
    return x is not None and not isinstance(x, (str, bool)) and lift_num(x) is not None
