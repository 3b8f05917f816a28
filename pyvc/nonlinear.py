"""Products and quotients of two unknowns, as fresh unknowns with instances of the lemmas the proofs need.

Every lemma below is a theorem about the reals (`selfcheck` has Z3 prove each one for actual multiplication), so
adding its instances is sound; leaving the rest of arithmetic out keeps the obligations linear.
"""
from __future__ import annotations

from .core import cur
from .z3load import z3

R = z3.RealSort()


def on():
    cur().state["nl"] = True


def active():
    return cur().state.get("nl")


def _num(t):
    t = z3.simplify(t)
    return z3.is_rational_value(t) or z3.is_int_value(t)


def mul_lemmas(a, c, P):
    return [z3.Implies(z3.And(a >= 0, c >= 0), P >= 0), z3.Implies(z3.And(a <= 0, c >= 0), P <= 0),
            z3.Implies(z3.And(a >= 0, c <= 0), P <= 0), z3.Implies(z3.And(a <= 0, c <= 0), P >= 0),
            z3.Implies(z3.And(a > 0, c > 0), P > 0),
            z3.Implies(a == 1, P == c), z3.Implies(c == 1, P == a),
            z3.Implies(z3.And(a <= 1, c >= 0), P <= c), z3.Implies(z3.And(c <= 1, a >= 0), P <= a),
            z3.Implies(z3.And(a >= 1, c >= 0), P >= c), z3.Implies(z3.And(c >= 1, a >= 0), P >= a)]


def mul_pair(a, b, c, P, Q):
    """P = a*c, Q = b*c"""
    return [z3.Implies(z3.And(c >= 0, a <= b), P <= Q), z3.Implies(z3.And(c >= 0, b <= a), Q <= P),
            z3.Implies(z3.And(c > 0, a < b), P < Q), z3.Implies(z3.And(c > 0, b < a), Q < P),
            z3.Implies(z3.And(c <= 0, a <= b), P >= Q), z3.Implies(z3.And(c <= 0, b <= a), Q >= P)]


def mul_of_div(x, e, k, D, P):
    """D = x/e, P = D*(e+k)"""
    return [z3.Implies(e != 0, P == x + k * D)]


def div_lemmas(a, c, Q):
    return [z3.Implies(z3.And(a >= 0, c > 0), Q >= 0), z3.Implies(z3.And(a <= 0, c > 0), Q <= 0),
            z3.Implies(z3.And(a > 0, c > 0), Q > 0), z3.Implies(z3.And(a < 0, c > 0), Q < 0),
            z3.Implies(z3.And(c != 0, a == c), Q == 1), z3.Implies(z3.And(c != 0, a == 0), Q == 0),
            z3.Implies(z3.And(c > 0, a <= c), Q <= 1),
            z3.Implies(z3.And(c > 0, a >= c), Q >= 1), z3.Implies(z3.And(c > 0, a < c), Q < 1),
            z3.Implies(c == 1, Q == a),
            z3.Implies(z3.And(c >= 1, a >= 0), Q <= a)]


def div_pair(a, b, c, P, Q):
    """P = a/c, Q = b/c"""
    return [z3.Implies(z3.And(c > 0, a <= b), P <= Q), z3.Implies(z3.And(c > 0, b <= a), Q <= P),
            z3.Implies(z3.And(c > 0, a < b), P < Q), z3.Implies(z3.And(c > 0, b < a), Q < P)]


def div_pair_den(a, c, e, P, Q):
    """P = a/c, Q = a/e"""
    return [z3.Implies(z3.And(a >= 0, c > 0, c <= e), Q <= P), z3.Implies(z3.And(a >= 0, e > 0, e <= c), P <= Q)]


def mul(a, c):
    if _num(a) or _num(c):
        return a * c
    p = cur()
    a, c = z3.simplify(a), z3.simplify(c)
    if a.get_id() > c.get_id():
        a, c = c, a
    seen = p.state.setdefault("nl.mul", [])
    for b, d, q in seen:
        if a.eq(b) and c.eq(d):
            return q
    P = p.const("prod", R)
    for f in mul_lemmas(a, c, P):
        p.assume(f)
    for (b, d, Q) in seen:
        for x, s, y, t in ((a, c, b, d), (a, c, d, b), (c, a, b, d), (c, a, d, b)):
            if s.eq(t):
                for f in mul_pair(x, y, s, P, Q):
                    p.assume(f)
    for (x, e, D) in p.state.get("nl.div", ()):
        for u, w in ((a, c), (c, a)):
            if u.eq(D) and _num(w - e):
                for f in mul_of_div(x, e, z3.simplify(w - e), D, P):
                    p.assume(f)
    seen.append((a, c, P))
    return P


def div(a, c):
    if _num(c):
        return a / c
    p = cur()
    a, c = z3.simplify(a), z3.simplify(c)
    seen = p.state.setdefault("nl.div", [])
    for b, d, q in seen:
        if a.eq(b) and c.eq(d):
            return q
    Q = p.const("quot", R)
    for f in div_lemmas(a, c, Q):
        p.assume(f)
    for (b, d, S) in seen:
        if c.eq(d):
            for f in div_pair(a, b, c, Q, S):
                p.assume(f)
        if a.eq(b):
            for f in div_pair_den(a, c, d, Q, S):
                p.assume(f)
    for (x, y, P) in p.state.get("nl.mul", ()):
        if a.eq(P):
            if y.eq(c):
                p.assume(z3.Implies(c != 0, Q == x))
            elif x.eq(c):
                p.assume(z3.Implies(c != 0, Q == y))
    seen.append((a, c, Q))
    return Q


def as_int(t):
    """The integer term a real term is the image of, if that can be seen from its form."""
    if z3.is_app_of(t, z3.Z3_OP_TO_REAL):
        return t.arg(0)
    if z3.is_rational_value(t):
        return z3.IntVal(t.numerator_as_long()) if t.denominator_as_long() == 1 else None
    if z3.is_add(t) or z3.is_mul(t) or z3.is_sub(t):
        xs = [as_int(x) for x in t.children()]
        if any(x is None for x in xs):
            return None
        r = xs[0]
        for x in xs[1:]:
            r = r + x if z3.is_add(t) else r * x if z3.is_mul(t) else r - x
        return r
    return None


def clip(z, a, b):
    iz, ia, ib = as_int(z), as_int(a), as_int(b)
    if iz is not None and ia is not None and ib is not None:
        z, a, b = iz, ia, ib
        return z3.ToReal(name(z3.If(z3.If(z < a, a, z) > b, b, z3.If(z < a, a, z)), "clip"))
    return name(z3.If(z3.If(z < a, a, z) > b, b, z3.If(z < a, a, z)), "clip")


def name(t, base="t"):
    """A short name for a term."""
    if z3.is_const(t) or _num(t):
        return t
    p = cur()
    tab = p.state.setdefault("nl.names", {})
    t = z3.simplify(t)
    k = t.get_id()
    if k not in tab:
        c = p.const(base, t.sort())
        p.assume(c == t)
        tab[k] = (c, t)
    return tab[k][0]


def unary(kind, x, make):
    """A non-decreasing function of x (floor, nearest integer, clip to fixed bounds): the same for equal arguments,
    ordered for ordered ones."""
    p = cur()
    x = z3.simplify(x)
    seen = p.state.setdefault(("nl", kind), [])
    for (y, r) in seen:
        if x.eq(y):
            return r
    r = make(x)
    for (y, s) in seen:
        p.assume(z3.And(z3.Implies(x <= y, r <= s), z3.Implies(y <= x, s <= r)))
    seen.append((x, r))
    return r


LAST = [None]


def confirm(p, goal):
    """Is the goal satisfiable with actual multiplication and division?"""
    s = z3.Solver()
    s.set("timeout", 8000)
    s.add(*p.pc)
    s.add(goal)
    for a, c, P in p.state.get("nl.mul", ()):
        s.add(P == a * c)
    for a, c, Q in p.state.get("nl.div", ()):
        s.add(Q * c == a)
    r = s.check()
    if r == z3.sat:
        LAST[0] = s.model()
    return r


def selfcheck():
    """Z3 proves every lemma with multiplication and division themselves in place of the unknowns."""
    a, b, c, x, e, k = z3.Reals("a b c x e k")
    fs = mul_lemmas(a, c, a * c) + mul_pair(a, b, c, a * c, b * c) + mul_of_div(x, e, k, x / e, x / e * (e + k)) \
        + div_lemmas(a, c, a / c) + div_pair(a, b, c, a / c, b / c) + div_pair_den(a, c, e, a / c, a / e) \
        + [z3.Implies(c != 0, a * c / c == a)]
    bad = []
    for f in fs:
        s = z3.Solver()
        s.set("timeout", 20000)
        s.add(z3.Not(f))
        if s.check() != z3.unsat:
            bad.append(f)
    return len(fs), bad
