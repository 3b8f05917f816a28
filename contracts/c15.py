"""C15 fidelities follow a geometric ladder inside the declared bounds."""
# instrument: neps.optimizers.multi_fidelity.successive_halving neps.optimizers.multi_fidelity.promotion_policy neps.optimizers.base_optimizer
from pyvc.contract import contract
from pyvc.core import Unsupported, cur
from pyvc.rt import SymMap
from pyvc.stubs import Ghost, patched
from pyvc.values import LOG, And, Implies, Not, Or, SymBool, SymNum, _real, floor, intval, lift_num, to_int
from pyvc.z3load import z3
from contracts.proposing import proposal
from contracts.mfkit import Space, fidelity_of, induct, known, powers

import neps.optimizers.multi_fidelity.successive_halving as SH


class Anything(Ghost):
    def __init__(self, *a, **k):
        pass


def build(vc, space, eta, s, **other):
    """An optimizer; what the contract at hand is not about is replaced."""
    stand_in = {k: (lambda self, *a, v=v, **kw: v) for k, v in other.items()}
    stand_in["_get_rung_trace"] = classmethod(lambda cls, *a: Anything())
    with patched(SH.SuccessiveHalvingBase, **stand_in):
        return vc.call(SH.SuccessiveHalvingBase, pipeline_space=space, eta=eta, early_stopping_rate=s,
                       sampling_policy=Anything, promotion_policy=Anything)


def settings(vc):
    p = cur()
    p.state["recur"] = lambda loop, n, v: True
    p.state["abstract"] = True
    f = fidelity_of(vc)
    eta, s = intval("eta"), intval("early_stopping_rate")
    vc.assume(And(eta >= 2, s >= 0))
    p.assume(LOG(_real(eta)) > 0)
    return f, eta, s, powers(eta)


def outcome(vc, st, o, s):
    if st == "exc":
        vc.prove(isinstance(o, AssertionError), "a ladder is built, or the early stopping rate is refused")
        vc.cover("refused")
        return None
    L = z3.simplify(lift_num(o.stopping_rate_limit).z)
    vc.prove(s <= SymNum(L, "int"), "the early stopping rate is within the ladder")
    return L


def entries(vc, m, nm, s, L, rungs):
    if not isinstance(m, SymMap) or m.inv is None:
        raise Unsupported("rungs are not kept in a mapping filled rung by rung")
    out = []
    vc.prove(SymBool(m.coll.n == L - s.z + 1), f"the {nm} has one entry per rung")
    for k in rungs:
        i = z3.simplify(m.inv(k))
        vc.prove(SymBool(z3.Implies(z3.And(k >= s.z, k <= L), z3.And(i >= 0, i < m.coll.n, m.guard(i), m.key(i).z == k))),
                 f"the {nm} has every rung from the lowest to the top")
        known(m.coll, i)
        out.append(m.elem(i))
    return out


def carried(m, entry):
    """The variables that the loop filling the map carries along, starting from a given number."""
    p = cur()
    for lp, rec in p.state.get("recurrences", ()):
        if lp.coll is m.coll:
            for n, (f, at, e) in rec.items():
                if entry is None or p.check(_real(e) != _real(lift_num(entry))) == z3.unsat:
                    yield lambda i, at=at: at(i).z


@contract("C15", "neps.optimizers.multi_fidelity.successive_halving.SuccessiveHalvingBase.__init__",
          "neps.optimizers.multi_fidelity.successive_halving.SuccessiveHalvingBase._get_rung_map")
def fidelities(vc):
    p = cur()
    f, eta, s, pw = settings(vc)
    st, o = build(vc, Space(f), eta, s, _get_config_map=Anything())
    L = outcome(vc, st, o, s)
    if L is None:
        return
    # log(base ** k) = k * log(base), and log is strictly increasing: instantiated where the ladder ends
    ratio, b = p.state["log"][0], z3.ToReal(eta.z)
    for k in (L, L + 1):
        z = z3.ToReal(pw(k))
        p.assume(z3.Implies(k >= 0, z3.And(LOG(z) == z3.ToReal(k) * LOG(b), (LOG(z) <= LOG(ratio)) == (z <= ratio))))
    vc.prove(And(o.min_rung == s, o.max_rung == SymNum(L, "int")), "the rungs go from the stopping rate to the top")
    r = p.const("rung", z3.IntSort())
    p.assume(z3.And(r >= s.z, r < L))
    m = o.rung_map
    lo, hi, top = entries(vc, m, "rung map", s, L, (r, r + 1, L))
    up, low = _real(lift_num(f.upper)), _real(lift_num(f.lower))
    vc.lemma(SymBool(low * z3.ToReal(pw(L)) <= up), "the ladder has no more rungs than fit between the bounds")
    vc.prove(SymBool(low * z3.ToReal(pw(L + 1)) > up), "and no fewer")
    for g in carried(m, f.upper):
        use = induct(vc, m.coll.n, "fidelities are the upper bound divided by powers of the factor",
                     lambda i: g(i) * z3.ToReal(pw(i)) == up, m.coll.facts)
        if use is not None:
            for k in (r, r + 1, L):
                i = z3.simplify(m.inv(k))
                use(i)
                pw(i)
    vc.prove(And(top == f.upper), "the top rung is at the upper bound")
    for k, x in ((r, lo), (r + 1, hi)):
        d = SymNum(pw(L - k), "int")
        vc.prove(And(x * d <= f.upper, (x + 1) * d > f.upper) if isinstance(f, SH.IntegerParameter) else And(x * d == f.upper),
                 "each fidelity is the next one divided by the factor (rounded down for integers)")
    vc.prove(And(lo < hi), "fidelities are strictly increasing")
    vc.prove(And(lo >= f.lower, hi <= f.upper), "fidelities are inside the declared bounds")
    if isinstance(f, SH.IntegerParameter):
        vc.prove(lift_num(lo).kind == lift_num(hi).kind == lift_num(top).kind == "int", "fidelities of an integer are integers")
    vc.cover("done")


@contract("C15", "neps.optimizers.multi_fidelity.successive_halving.SuccessiveHalvingBase.__init__",
          "neps.optimizers.multi_fidelity.successive_halving.SuccessiveHalvingBase._get_config_map")
def configurations(vc):
    p = cur()
    f, eta, s, pw = settings(vc)
    st, o = build(vc, Space(f), eta, s, _get_rung_map={0: 1})
    L = outcome(vc, st, o, s)
    if L is None:
        return
    r = p.const("rung", z3.IntSort())
    p.assume(z3.And(r >= s.z, r < L))
    m = o.config_map
    q, c, last = entries(vc, m, "config map", s, L, (r, r + 1, L))
    rest = L - s.z
    for x in carried(m, None):
        use = induct(vc, m.coll.n, "a rung has room for at least as many as the power of the factor says",
                     lambda i: z3.Implies(i <= rest, x(i) >= pw(rest - i)), m.coll.facts)
        for k in (r, r + 1, L) if use is not None else ():
            use(z3.simplify(m.inv(k)))
    vc.prove(And(c * eta <= q, q < (c + 1) * eta), "each rung has room for one in eta of the configurations of the rung below")
    vc.prove(And(last >= 1), "at least one configuration reaches the top")
    vc.cover("done")


contract("C15", "neps.optimizers.multi_fidelity.successive_halving.SuccessiveHalvingBase.get_config_and_ids",
         "neps.optimizers.multi_fidelity.successive_halving.SuccessiveHalvingBase.is_promotable",
         "neps.optimizers.multi_fidelity.successive_halving.SuccessiveHalvingBase._generate_new_config_id")(proposal)
