"""Run-time support called by instrumented code (`__vc__`), and collections of unknown size.

On concrete values every hook does exactly what the construct it replaces does.
"""
from __future__ import annotations

import builtins
import dataclasses
import sys
import types

from . import core, values
from .core import Unsupported, cur
from .values import (FALSE, Sym, SymBool, SymEnum, SymNum, SymObj, SymVal, concat, is_sym, lift_num, to_float,
                     to_int, to_str)
from .z3load import z3

TRUE = z3.BoolVal(True)


# ---------------------------------------------------------------- substitution
def subst(v, frm, to):
    """Replace the index constant `frm` by `to` in a Python value."""
    h = getattr(type(v), "__vc_subst__", None) if isinstance(v, SymSeq) else None
    if h is not None:
        return h(v, frm, to)
    for cls, h in core.CUR.state.get("reindex", ()) if core.CUR is not None else ():
        if type(v) is cls:
            return h(v, frm, to)
    if isinstance(v, SymNum):
        return SymNum(z3.substitute(v.z, (frm, to)), v.kind, z3.substitute(v.nan, (frm, to)))
    if isinstance(v, SymBool):
        return SymBool(z3.substitute(v.z, (frm, to)))
    if isinstance(v, SymVal):
        return SymVal(z3.substitute(v.z, (frm, to)), v.cls,
                      None if v.truth is None else z3.substitute(v.truth, (frm, to)))
    if isinstance(v, SymEnum):
        return SymEnum(v.cls, z3.substitute(v.z, (frm, to)))
    if isinstance(v, SymObj):
        if v._tag is None:
            raise Unsupported("symbolic object cannot be re-indexed")
        ctor, args = v._tag
        return ctor(*[subst(a, frm, to) for a in args])
    if isinstance(v, z3.ExprRef):
        return z3.substitute(v, (frm, to))
    if type(v) in (tuple, list):
        return type(v)(subst(x, frm, to) for x in v)
    if type(v) is dict:
        return {k: subst(x, frm, to) for k, x in v.items()}
    if v is None or isinstance(v, (int, float, str, bool, bytes)) or not is_sym(v):
        if hasattr(v, "__vc_subst__"):
            return v.__vc_subst__(frm, to)
        if dataclasses.is_dataclass(v) and not isinstance(v, type):
            old = vars(v)
            new = {k: subst(x, frm, to) for k, x in old.items()}
            if any(new[k] is not old[k] and not _unchanged(old[k], new[k]) for k in old):
                w = object.__new__(type(v))
                for k, x in new.items():
                    object.__setattr__(w, k, x)
                return w
        return v
    raise Unsupported(f"cannot re-index {type(v).__name__}")


def _unchanged(a, b):
    if type(a) is type(b) and isinstance(a, (SymNum, SymVal, SymBool, SymEnum)):
        return a.z.eq(b.z)
    if type(a) in (list, tuple):
        return len(a) == len(b) and all(_unchanged(x, y) for x, y in zip(a, b))
    if type(a) is dict:
        return all(_unchanged(x, b[k]) for k, x in a.items())
    return a is b


# ---------------------------------------------------------------- collections
class Coll:
    """An index space 0..n-1 with n arbitrary."""

    def __init__(self, base, n=None):
        p = cur()
        self.base = base
        self.facts = []           # what is known of every element, instantiated where an index comes into play
        self.n = n if n is not None else p.const(base + ".n", z3.IntSort())
        p.assume(self.n >= 0)


class SymSeq(Sym):
    """The values value(i) for those i in 0..n-1 with guard(i), in order of i (or in some order)."""
    __slots__ = ("coll", "guard", "elem", "cls", "ordered", "keys")

    def __init__(self, coll, elem, guard=None, cls=list, ordered=True, keys=None):
        self.keys = keys            # (key, inverse of key) if the elements come from a mapping
        self.coll = coll
        self.elem = elem
        self.guard = guard or (lambda i: TRUE)
        self.cls = cls
        self.ordered = ordered

    @property
    def __class__(self):
        return self.cls

    def vc_len(self):
        if z3.is_true(z3.simplify(self.guard(z3.Int("probe_i")))):
            return SymNum(self.coll.n, "int")
        return fold_sum(self.coll, lambda i: z3.If(self.guard(i), z3.IntVal(1), z3.IntVal(0)), "int")

    def __bool__(self):
        return bool(self.vc_len() > 0)

    def sort(self, **k):
        self.ordered = False

    def __eq__(self, o):
        raise Unsupported("== of SymSeq")

    __hash__ = Sym.__hash__

    def copy(self):
        return SymSeq(self.coll, self.elem, self.guard, self.cls, self.ordered, self.keys)


class SymMap(Sym):
    """A mapping key(i) -> value(i) for guarded i; keys pairwise different."""
    __slots__ = ("coll", "key", "elem", "guard", "cls", "inv")

    def __init__(self, coll, key, elem, guard=None, cls=dict, inv=None):
        self.coll = coll
        self.inv = inv
        self.key = key
        self.elem = elem
        self.guard = guard or (lambda i: TRUE)
        self.cls = cls

    @property
    def __class__(self):
        return self.cls

    def items(self):
        r = SymSeq(self.coll, lambda i: (self.key(i), self.elem(i)), self.guard)
        r.keys = (self.key, self.inv)
        return r

    def values(self):
        return SymSeq(self.coll, self.elem, self.guard, keys=(self.key, self.inv))

    def keys(self):
        r = SymSeq(self.coll, self.key, self.guard)
        r.keys = (self.key, self.inv)
        return r

    def vc_len(self):
        return self.values().vc_len()

    def __bool__(self):
        return bool(self.vc_len() > 0)

    def find(self, k):
        """Branch on whether key k is present; returns its index or None.  inv is the inverse of key (keys are
        pairwise different): the only index that can have key k is inv(k)."""
        p = cur()
        if self.inv is None:
            raise Unsupported("lookup in a mapping whose keys are not known to be distinct")
        n = None if isinstance(k, (str, SymVal)) else lift_num(k)
        kz = n.z if n is not None else k.z if isinstance(k, SymVal) else values.lit(k)
        j = self.inv(kz)
        if not p.fork(z3.And(j >= 0, j < self.coll.n, self.guard(j))):
            return None
        return j if p.fork(self.key(j).z == kz) else None

    def get(self, k, default=None):
        j = self.find(k)
        return default if j is None else self.elem(j)

    def __getitem__(self, k):
        j = self.find(k)
        if j is None:
            raise KeyError(k)
        return self.elem(j)

    def __setitem__(self, k, v):
        h = cur().state.get("map_store")
        if h is None:
            raise Unsupported("assignment into an unbounded mapping")
        h(self, k, v)

    def __contains__(self, k):
        return self.find(k) is not None

    def __eq__(self, o):
        raise Unsupported("== of SymMap")

    __hash__ = Sym.__hash__


def fold_sum(coll, f, kind):
    """Sum over the index space, as a term with the lemmas about sums that the proofs use:
    equal summands give equal sums, smaller summands smaller sums, non-negative summands a non-negative sum,
    an empty index space zero."""
    p = cur()
    srt = z3.IntSort() if kind == "int" else z3.RealSort()
    for (c2, g, S2, k2) in p.folds:
        if c2 is coll and k2 == kind:
            i = z3.Int("fold_probe")
            if z3.simplify(f(i)).eq(z3.simplify(g(i))):
                return SymNum(S2, kind)
    S = p.const("sum", srt)
    sk = p.const("sk", z3.IntSort())
    rng = z3.And(sk >= 0, sk < coll.n)
    for fact in coll.facts:
        p.assume(fact(sk))
    p.assume(z3.Or(z3.And(rng, f(sk) < 0), S >= 0))
    p.assume(z3.Implies(coll.n == 0, S == 0))
    for (c2, g, S2, k2) in p.folds:
        if c2 is not coll:
            continue
        for rel in ("eq", "le", "ge"):
            s = p.const("sk", z3.IntSort())
            r = z3.And(s >= 0, s < coll.n)
            for fact in coll.facts:
                p.assume(fact(s))
            a, b, A, B = f(s), g(s), S, S2
            if a.sort() != b.sort():
                a, b = (z3.ToReal(a) if a.is_int() else a), (z3.ToReal(b) if b.is_int() else b)
            if A.sort() != B.sort():
                A, B = (z3.ToReal(A) if A.is_int() else A), (z3.ToReal(B) if B.is_int() else B)
            if rel == "eq":
                p.assume(z3.Or(z3.And(r, a != b), A == B))
            elif rel == "le":
                p.assume(z3.Or(z3.And(r, a > b), A <= B))
            else:
                p.assume(z3.Or(z3.And(r, a < b), A >= B))
    p.folds.append((coll, f, S, kind))
    return SymNum(S, kind)


class SymPoison(Sym):
    """A variable whose value after an arbitrary number of iterations is not tracked."""
    __slots__ = ("why",)

    def __init__(self, why):
        self.why = why

    def _u(self, *a, **k):
        raise Unsupported(f"use of untracked loop variable {self.why}")

    __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __bool__ = __add__ = __radd__ = __sub__ = __mul__ = _u

    def __getattr__(self, n):
        self._u()

    __hash__ = Sym.__hash__


def _seq(it):
    return it.__vc_iter__() if hasattr(type(it), "__vc_iter__") and not is_sym(it) else it


class SymMaybe(SymPoison):
    """A variable that was None before the loop: None still, or something an earlier iteration put there."""
    __slots__ = ("none",)

    def __init__(self, why, none):
        self.why = why
        self.none = none


class SlotDict(dict):
    """A dict whose entries an arbitrary iteration replaces: entries hold arbitrary earlier values."""
    __hash__ = None

    def _u(self, *a, **k):
        raise Unsupported("entries added to or removed from a dict in an unbounded loop")

    pop = popitem = clear = setdefault = __delitem__ = __ior__ = _u

    def __setitem__(self, k, v):
        if k not in self:
            self._u()
        dict.__setitem__(self, k, v)

    def update(self, *a, **k):
        for n, v in dict(*a, **k).items():
            self[n] = v


def _consts_of(v):
    """The z3 terms in a value of a variable."""
    if isinstance(v, SymNum):
        return [v.z, v.nan]
    if isinstance(v, (SymVal, SymBool, SymEnum)) and is_sym(v):
        return [v.z]
    if type(v) in (list, tuple):
        return [c for x in v for c in _consts_of(x)]
    if type(v) is dict:
        return [c for x in v.values() for c in _consts_of(x)]
    if isinstance(v, SymMaybe):
        return [v.none]
    return []


def _index_of(it):
    if isinstance(it, SymSeq):
        return it.coll, it.guard, it.elem
    if isinstance(it, SymMap):
        return it.coll, it.guard, it.key
    raise Unsupported(f"iteration over {type(it).__name__}")


def _digest():
    p = cur()
    return tuple(g.digest() for g in p.state.get("ghosts", ()))


class GrowList(list):
    """A list being filled by an arbitrary iteration: what earlier iterations added is unknown, so it can only grow."""
    def _u(self, *a, **k):
        raise Unsupported("read of a list being filled by an unbounded loop")
    __iter__ = __len__ = __getitem__ = __contains__ = __eq__ = __bool__ = __add__ = copy = index = pop = sort = _u
    insert = remove = clear = reverse = extend = __setitem__ = __delitem__ = __iadd__ = _u
    __hash__ = None

    def __init__(self):
        self.new = []

    def append(self, x):
        self.new.append(x)


class GrowDict(dict):
    def _u(self, *a, **k):
        raise Unsupported("read of a dict being filled by an unbounded loop")
    __iter__ = __len__ = __getitem__ = __contains__ = __eq__ = __bool__ = copy = pop = get = items = keys = values = _u
    update = setdefault = clear = popitem = __delitem__ = __or__ = __ior__ = _u
    __hash__ = None

    def __init__(self):
        self.new = []

    def __setitem__(self, k, v):
        self.new.append((k, v))


class Loop:
    """`for` over a collection of unknown size: one generic iteration (explored on all its paths, from an
    arbitrary state of the variables the body assigns), then the state after all iterations as a fold."""

    def __init__(self, it, site, names):
        p = cur()
        it = _seq(it)
        self.coll, self.guard, self.elem = _index_of(it)
        self.ordered = getattr(it, "ordered", True)
        self.keys = it.keys if isinstance(it, SymSeq) else (it.key, it.inv)
        self.site = site
        self.names = names
        self.mode = None
        self.index = None
        self.out = {}
        self.key = (site, tuple(p.decisions))

    def __iter__(self):
        return self

    def __next__(self):
        return self.step(sys._getframe(1))

    def step(self, frame):
        p = cur()
        if self.mode is None:
            loc = frame.f_locals
            self.entry = {n: loc[n] for n in self.names if n in loc}
            self.boxes = {n: v for n, v in self.entry.items() if type(v) is list or type(v) is dict and not _keyed(v)}
            self.keyed = {n: v for n, v in self.entry.items() if _keyed(v)}
            d = p.decide(2, lambda i: True)
            if d == 0:
                self.mode = "gen"
                idx = z3.Int(p.name("i"))
                p.assume(z3.And(idx >= 0, idx < self.coll.n))
                for fact in self.coll.facts:
                    p.assume(fact(idx))
                p.assume(self.guard(idx))
                self.index = idx
                self.old = _reachable(frame)
                p.loops.append(self)
                self.havoc = {}
                self._recur()
                for n in self.names:
                    if n in self.entry:
                        self.havoc[n] = self._havoc(n, self.entry[n]) if n not in self.rec else self.rec[n][1](idx)
                self._invariant(idx, self.havoc, False)
                self.out = dict(self.havoc)
                self.start = {}
                for n, h in self.havoc.items():
                    if n in self.keyed:
                        for k, x in h.items():
                            self.start[n, k] = x
                    elif n not in self.boxes:
                        self.start[n, None] = h
                self.dig = _digest()
                self.pc0 = len(p.pc)
                self.br0 = len(p.branches)
                self._past(idx)
                if p.state.get("loop_begin"):
                    p.state["loop_begin"](self, idx)
                return self.elem(idx)
            self.mode = "exit"
            self._past(self.coll.n)
            if p.state.get("loop_begin"):
                p.state["loop_begin"](self, self.coll.n)
            self._exit()
            raise StopIteration
        # generic iteration completed
        self._record(frame.f_locals)
        p.kill()

    def _past(self, bound):
        """What every iteration that went on left behind (a claim of the contract about the iteration's element, proved at
        the end of each, see _record) holds of those before `bound`."""
        p = cur()
        h = p.state.get("loop_post")
        if h is not None and self.ordered and p.ex.invariants.get(("post", self.key)) is not False:
            p.state.setdefault("past", []).append((self, bound, h))

    def _went_on(self):
        p = cur()
        h = p.state.get("loop_post")
        if h is None or p.ex.invariants.get(("post", self.key)) is False:
            return
        c = h(self, self.index)
        if c is None:
            return
        if p.entails(c) == z3.unsat:
            p.ex.obligations.append(core.Obligation("every iteration that goes on", "proved", "z3", p.decisions))
            return
        p.ex.invariants["post", self.key] = False
        p.ex.restart = True
        p.kill()

    def _recur(self):
        """Numbers carried from iteration to iteration, as functions of the iteration: their recurrence is read off the
        body (where the contract asks for it; otherwise sums and latches are recognised, see _final)."""
        p = cur()
        self.rec = {}
        h = p.state.get("recur")
        if h is None or not self.ordered or not z3.is_true(z3.simplify(self.guard(z3.Int("probe_i")))):
            return
        for n, v in self.entry.items():
            if n in self.boxes or n in self.keyed or isinstance(v, (bool, SymBool)) or not _is_number(v) or not h(self, n, v):
                continue
            e = lift_num(v)
            if p.ex.invariants.get(("rec", self.key, n)) is not None:
                e = to_float(e)
            kind = e.kind
            if (self.key, n, kind, e.z.is_int()) not in p.ex.recs:
                p.ex.recs[self.key, n, kind, e.z.is_int()] = z3.Function(f"rec:{n}:{self.site}:{len(p.ex.recs)}", z3.IntSort(), e.z.sort())
            f = p.ex.recs[self.key, n, kind, e.z.is_int()]
            p.assume(f(z3.IntVal(0)) == e.z)
            self.rec[n] = (f, (lambda i, f=f, kind=kind: SymNum(f(i), kind)), e)

    def _invariant(self, i, vals, prove):
        p = cur()
        h = p.state.get("loop_invariant")
        if h is None or not self.rec:
            return
        zero = {n: lift_num(self.entry[n]) for n in self.rec}
        for name, c in h(self, i, {n: lift_num(vals[n]) for n in self.rec}):
            if not prove:
                b = dict(h(self, z3.IntVal(0), zero))[name]
                if p.check(z3.Not(core._tobool(b))) != z3.unsat:
                    raise Unsupported(f"loop invariant does not hold at entry: {name}")
                p.assume(core._tobool(c))
            elif p.check(z3.Not(core._tobool(c))) != z3.unsat:
                raise Unsupported(f"loop invariant not preserved: {name}")
            else:
                p.ex.obligations.append(core.Obligation("loop invariant: " + name, "proved", "z3", p.decisions))

    def _havoc(self, n, v):
        p = cur()
        if isinstance(v, bool) or isinstance(v, SymBool):
            return SymBool(z3.Bool(p.name("h_" + n)))
        ln = lift_num(v) if _is_number(v) else None
        if ln is not None:
            return SymNum(z3.Const(p.name("h_" + n), ln.z.sort()), ln.kind)
        if type(v) is list:
            return GrowList()
        if type(v) is dict and _keyed(v):
            return SlotDict({k: self._havoc(f"{n}.{k}", x) if not isinstance(x, (list, dict, set)) else x for k, x in v.items()})
        if type(v) is dict:
            return GrowDict()
        if v is None:
            return SymMaybe(n, z3.Bool(p.name("none_" + n)))
        if getattr(type(v), "__vc_ghost__", False):
            return v
        return SymPoison(n)

    def _record(self, loc):
        p = cur()
        if _digest() != self.dig:
            raise Unsupported("an iteration over an unbounded collection changes the environment")
        if self.rec:
            for n in self.rec:
                if not _is_number(loc.get(n)):
                    raise Unsupported(f"loop variable {n} is no longer a number")
                e, v = self.rec[n][2], lift_num(loc[n])
                if e.kind == "int" and v.kind != "int" or e.z.is_int() and not v.z.is_int():
                    p.ex.invariants[("rec", self.key, n)] = True
                    p.ex.restart = True
                    p.kill()
            self._invariant(self.index + 1, loc, True)
        self._went_on()
        if p.state.get("loop_end"):
            p.state["loop_end"](self)
        rec = {"pc": list(p.branches[self.br0:]), "facts": list(p.pc[self.pc0:]), "idx": self.index, "vars": {}, "boxes": {}, "havoc": self.havoc}
        rec["slots"] = {}
        for n in self.names:
            if n in self.keyed:
                if loc.get(n) is not self.havoc[n]:
                    raise Unsupported("container rebound in a loop")
                for k, v in self.havoc[n].items():
                    rec["slots"][n, k] = v
            elif n in loc:
                rec["slots"][n, None] = loc[n]
        rec["start"] = self.start
        for n in self.boxes:
            if loc.get(n) is not self.havoc[n]:
                raise Unsupported("container rebound in a loop")
            rec["boxes"][n] = list(self.havoc[n].new)
        p.ex.summaries.setdefault(self.key, []).append(rec)

    def _exit(self):
        p = cur()
        recs = p.ex.summaries.get(self.key, [])
        self.out = {}
        def guards(i):
            return [z3.substitute(z3.And(*r["pc"]) if r["pc"] else TRUE, (r["idx"], i)) for r in recs]
        self._recur()
        self._follow(recs, guards)
        vals = self._final(recs, guards)
        for n in self.rec:
            vals[n, None] = self.rec[n][1](self.coll.n)
        for (n, k), v in vals.items():
            if k is None:
                self.out[n] = v
            else:
                self.keyed[n][k] = v
                self.out[n] = self.keyed[n]
        for n, box in self.boxes.items():
            if not any(r["boxes"].get(n) for r in recs):
                self.out[n] = box
                continue
            if len(box):
                raise Unsupported("container filled before and during an unbounded loop")
            if any(len(r["boxes"].get(n, ())) > 1 for r in recs):
                raise Unsupported("several elements added per iteration")
            emit = [(r, r["boxes"][n][0]) for r in recs if r["boxes"].get(n)]
            coll, outer = self.coll, self.guard
            def guard(i, emit=emit, every=len(emit) == len(recs)):
                if every:       # each iteration took one of these paths
                    return outer(i)
                return z3.And(outer(i), z3.Or(*[z3.substitute(z3.And(*r["pc"]) if r["pc"] else TRUE, (r["idx"], i))
                                                for r, _ in emit]))
            if type(box) is list:
                self.out[n] = SymSeq(coll, _pick(emit, lambda v: v), guard, ordered=self.ordered)
            else:
                inv = None
                if self.keys is not None and self.keys[1] is not None:
                    if all(isinstance(v[0], SymVal) and v[0].z.eq(self.keys[0](r["idx"]).z) for r, v in emit):
                        inv = self.keys[1]
                if inv is None:
                    inv = _affine(_pick(emit, lambda kv: kv[0]))
                if inv is None and any(not is_sym(v[0]) or isinstance(v[0], SymVal) for _, v in emit):
                    raise Unsupported("dict built from keys not known to be distinct")
                self.out[n] = SymMap(coll, _pick(emit, lambda kv: kv[0]), _pick(emit, lambda kv: kv[1]), guard, inv=inv)

    def _follow(self, recs, guards):
        """The recurrences, available at every index that comes into play."""
        p = cur()
        if not self.rec:
            return
        if any(not z3.is_false(z3.simplify(lift_num(r["slots"][n, None]).nan)) for r in recs for n in self.rec):
            raise Unsupported("NaN in a recurrence")
        hz = _distinct(c for r in recs for s, v in r["start"].items() if s[1] is not None or s[0] not in self.rec
                       for c in _consts_of(v) if not z3.is_false(c))
        if any(_mentions(t, c) for c in hz for r in recs for t in
               [*r["facts"], *r["pc"], *[lift_num(r["slots"][n, None]).z for n in self.rec]]):
            raise Unsupported("a recurrence depends on a variable that is not a number")

        def fact(i):
            cs = []
            for n, (f, _, e) in self.rec.items():
                for g, r in zip(guards(i), recs):
                    v = lift_num(r["slots"][n, None])
                    v = to_float(v) if not e.z.is_int() else v
                    cs.append(z3.Implies(g, f(i + 1) == z3.substitute(v.z, (r["idx"], i))))
            # what holds on every path of the body holds at every index
            for r, g in zip(recs, guards(i)):
                for c in r["facts"]:
                    if not _is_branch(c, r):
                        cs.append(z3.Implies(g, z3.substitute(c, (r["idx"], i))))
            return z3.Implies(z3.And(i >= 0, i < self.coll.n), z3.And(z3.Or(*guards(i)), *cs))
        self.coll.facts = [*self.coll.facts, fact]
        p.state.setdefault("recurrences", []).append((self, dict(self.rec)))

    def _final(self, recs, guards):
        """The variables after all iterations."""
        p = cur()
        entry = {}
        for n in self.names:
            if n in self.keyed:
                for k, v in self.keyed[n].items():
                    entry[n, k] = v
            elif n in self.entry and n not in self.boxes and n not in self.rec:
                entry[n, None] = self.entry[n]
        out = {}
        rest = {}
        hz = _distinct(c for r in recs for v in r["start"].values() for c in _consts_of(v) if not z3.is_false(c))
        for s, e in entry.items():
            changed = frozenset(k for k, r in enumerate(recs) if s not in r["slots"] or r["slots"][s] is not r["start"].get(s))
            if not changed:
                out[s] = e
                continue
            if any(s not in recs[k]["slots"] for k in changed):
                out[s] = SymPoison(s[0])
                continue
            v = self._additive(s, e, recs, guards, hz)
            if v is not None:
                out[s] = v
            else:
                rest.setdefault(changed, []).append(s)
        for changed, slots in rest.items():
            self._latch(changed, slots, recs, entry, out)
        return out

    def _additive(self, s, e, recs, guards, hz):
        """Sum of what the iterations add, if what each adds does not depend on the others."""
        p = cur()
        ln = lift_num(e) if _is_number(e) else None
        if ln is None:
            return None
        kind = ln.kind
        vs = []
        for r in recs:
            v = r["slots"].get(s)
            if not _is_number(v):
                return None
            v = lift_num(v)
            if v.kind == "float":
                kind = "float"
            vs.append((v, r["start"][s]))
        ds = []
        for v, h in vs:
            vz, h_ = (to_float(v).z, to_float(h).z) if kind == "float" else (v.z, h.z)
            d = z3.simplify(vz - h_, som=True)
            if any(_mentions(d, c) for c in hz) or not z3.is_false(z3.simplify(v.nan)):
                return None
            ds.append(d)
        zero = z3.RealVal(0) if kind == "float" else z3.IntVal(0)

        def f(i):
            t = zero
            for g, d, r in reversed(list(zip(guards(i), ds, recs))):
                t = z3.If(g, z3.substitute(d, (r["idx"], i)), t)
            return z3.If(self.guard(i), t, zero)
        i = z3.Int("additive_probe")
        t = z3.simplify(f(i))
        used = [c for c in hz if _mentions(t, c)]
        sub = ()
        if used:
            other = [(c, z3.Const(p.name("other"), c.sort())) for c in used]
            sol = z3.Solver()
            sol.set("timeout", core.QUERY_TIMEOUT_MS)
            sol.add(*p.pc)
            for r in recs:
                sol.add(*[z3.substitute(z3.substitute(c, (r["idx"], i)), *o) for c in r["facts"] for o in ([], other)
                          if not _is_branch(c, r)])
            sol.add(t != z3.substitute(t, *other))
            if sol.check() != z3.unsat:
                return None
            sub = [(c, z3.BoolVal(False) if z3.is_bool(c) else z3.RealVal(0) if c.is_real() else z3.IntVal(0)) for c in used]
            g0 = f
            f = lambda i: z3.simplify(z3.substitute(g0(i), *sub))
        return ln + fold_sum(self.coll, f, kind)

    def _latch(self, changed, slots, recs, entry, out):
        """Variables that keep their value or are all replaced by what the current element gives.  After the loop either
        nothing was ever replaced, or the values are those of one element (the last replacement).  If an element just
        processed is not (or no longer) eligible to replace, and stays so while others are processed (both are proved
        here, for arbitrary elements and values), then no element of the collection is eligible at the end."""
        p = cur()
        r_up = [recs[k] for k in sorted(changed)]
        names = _distinct(c for r in recs for s in slots for c in _consts_of(r["start"][s]) if not z3.is_false(c))
        foreign = _distinct(c for r in recs for s, v in r["start"].items() if s not in slots for c in _consts_of(v) if not z3.is_false(c))
        for r in r_up:
            for s in slots:
                v = r["slots"][s]
                if is_sym(v) and isinstance(v, SymPoison) or any(_mentions(c, h) for c in _consts_of(v) for h in names + foreign):
                    for s in slots:
                        out[s] = SymPoison(s[0])
                    return
        base = recs[0]["start"]
        st = {}
        for s in slots:
            c = [c for c in _consts_of(base[s]) if not z3.is_false(c)]
            if len(c) != 1 or any(len([x for x in _consts_of(r["start"][s]) if not z3.is_false(x)]) != 1 for r in recs):
                st = None
                break
            st[s] = z3.Const(p.name("st"), c[0].sort())

        def norm(t, r, i):
            """A condition of record r over the common state constants and index i."""
            ps = [(r["idx"], i)]
            for s in slots:
                ps += [(c, st[s]) for c in _consts_of(r["start"][s]) if not z3.is_false(c)]
            return z3.substitute(t, *ps)

        def cond(r, i):
            return norm(z3.And(*r["pc"]) if r["pc"] else TRUE, r, i)

        def rng(i):
            return z3.And(i >= 0, i < self.coll.n, self.guard(i))

        def zval(s, v):
            srt = st[s].sort()
            if base[s] is not None and isinstance(base[s], SymMaybe):
                return z3.BoolVal(v is None)
            if isinstance(v, (SymNum, int, float)) and not isinstance(v, bool):
                v = lift_num(v)
                if not z3.is_false(z3.simplify(v.nan)):
                    # the loop must have excluded NaN on this path
                    self.nans.append(v.nan)
                z = v.z
                return z3.ToReal(z) if srt == z3.RealSort() and z.is_int() else z
            if isinstance(v, bool):
                return z3.BoolVal(v)
            if isinstance(v, (SymBool, SymVal)):
                return v.z
            return None
        self.nans = []
        maximal = False
        U = None
        if st is not None and not any(_mentions(c, h) for r in r_up for c in r["pc"] for h in foreign):
            def U(i):
                return z3.Or(*[cond(r, i) for r in r_up])
            i, k = z3.Int(p.name("li")), z3.Int(p.name("lk"))
            facts = [norm(c, r, j) for r in recs for c in r["facts"] if not _is_branch(c, r) for j in (i, k)]
            maximal = True
            for r in recs:
                new = []
                for s in slots:
                    v = r["slots"][s]
                    if v is not r["start"][s]:
                        z = zval(s, v)
                        if z is None or z.sort() != st[s].sort():
                            maximal = False
                            break
                        new.append((st[s], norm(z, r, i)))
                if not maximal:
                    break
                sol = z3.Solver()
                sol.set("timeout", core.QUERY_TIMEOUT_MS)
                sol.add(*p.pc, *facts, rng(i), rng(k), cond(r, i))
                nn = [norm(c, r, i) for c in self.nans]
                self.nans = []
                after = (lambda t: z3.substitute(t, *new)) if new else (lambda t: t)
                sol.add(z3.Or(*nn, after(U(i)), z3.And(z3.Not(U(k)), after(U(k)))))
                if sol.check() != z3.unsat:
                    maximal = False
                    break

        def at_end(vals):
            if not maximal:
                return
            sub = []
            for s in slots:
                z = zval(s, vals[s])
                if z is None or z.sort() != st[s].sort():
                    return
                sub.append((st[s], z))
            j = p.const("any", z3.IntSort())
            p.assume(z3.ForAll([j], z3.Implies(rng(j), z3.Not(z3.substitute(U(j), *sub)))))
        if not p.fork(p.const("replaced", z3.BoolSort())):
            vals = {s: entry[s] for s in slots}
            at_end(vals)
            out.update(vals)
            return
        for n, r in enumerate(r_up):
            if n == len(r_up) - 1 or p.fork(p.const("by", z3.BoolSort())):
                break
        w = p.const("last", z3.IntSort())
        p.assume(rng(w))
        for c in r["facts"]:
            p.assume(z3.substitute(c, (r["idx"], w)))
        if p.check() == z3.unsat:
            p.kill()
        vals = {s: subst(r["slots"][s], r["idx"], w) for s in slots}
        at_end(vals)
        if p.check() == z3.unsat:
            p.kill()
        out.update(vals)

    def left(self):
        """The loop was left by break, return or an exception (or by exhaustion)."""
        p = core.CUR
        if p is not None and self in p.loops:
            p.loops.remove(self)

    def has(self, n):
        return n in self.out

    def get(self, n):
        return self.out[n]


def _distinct(terms):
    """Constants, each once."""
    return list({c.get_id(): c for c in terms if c.num_args() == 0}.values())


def _keyed(v):
    return type(v) is dict and bool(v) and all(type(k) is str for k in v)


def _is_branch(c, r):
    if "pc ids" not in r:
        r["pc ids"] = {b.get_id() for b in r["pc"]}
    return c.get_id() in r["pc ids"]


def _pick(emit, sel):
    def at(i):
        p = cur()
        for k, (r, v) in enumerate(emit):
            g = z3.substitute(z3.And(*r["pc"]) if r["pc"] else TRUE, (r["idx"], i))
            # the summary is read where its guard holds; facts recorded with it hold for every element
            if k == len(emit) - 1 or p.fork(g):
                if k == len(emit) - 1:
                    p.assume(g)
                for c in r["facts"]:
                    p.assume(z3.substitute(c, (r["idx"], i)))
                return subst(sel(v), r["idx"], i)
        raise Unsupported("empty summary")
    return at


_CONSTS = {}


def _constants(t):
    """Ids of the constants in a term (the term is kept so that its id stays its own)."""
    k = t.get_id()
    if k in _CONSTS:
        return _CONSTS[k][1]
    out, seen, todo = set(), set(), [t]
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        ch = x.children()
        if not ch:
            out.add(i)
        todo.extend(ch)
    if len(_CONSTS) > 20000:
        _CONSTS.clear()
    _CONSTS[k] = (t, out)
    return out


def _mentions(t, c):
    if c.num_args():
        raise Unsupported("occurrence of a compound term")
    return c.get_id() in _constants(t)


class While:
    """Loop heads of `while`: variables assigned in the body are widened until the head state recurs."""

    def __init__(self, site, names):
        self.site = site
        self.names = names
        self.visits = 0
        self.prev = []
        self.last = None
        if core.active():
            self.key = (site, tuple(cur().decisions))

    def head(self, loc):
        if not core.active():
            return {}
        p = cur()
        out = {}
        now = {n: loc[n] for n in self.names if n in loc}
        for cb in p.state.get("on_head", ()):
            cb(self.site, self.visits)
        inv = p.ex.invariants
        if self.visits == 0:
            self.visits = 1
            self.last = now
            self.prev.append((self._exact(now), _digest(), p.heap))
            for n, v in now.items():
                if _is_number(v):
                    self._candidate(n, v)
            return out
        self.visits += 1
        for n, v in now.items():
            if _is_number(v):
                self._candidate(n, v)
        ex = (self._exact(now), _digest(), p.heap)
        if ex in self.prev:
            p.kill()              # an iteration without effect: adds nothing to what is explored already
        self.prev.append(ex)
        if not p.state.get("widen"):
            if self.visits > 60:
                raise Unsupported("while loop without a recurring state")
            return out
        shape = []
        for n in sorted(now):
            v, old = now[n], self.last.get(n, _MISSING)
            if type(v) in (list, dict, set) and self.prev[-1][0] != self.prev[-2][0]:
                v = SymPoison(n)         # may have been changed in place
                out[n] = v
            elif v is old:
                pass
            elif _is_number(v):
                ln = lift_num(v)
                v = SymNum(z3.Const(p.name("w_" + n), ln.z.sort()), ln.kind)
                if inv.get((self.site, n)):
                    p.assume(v.z >= 0)
                out[n] = v
            elif v is None or isinstance(v, (bool, str)) and not is_sym(v):
                pass
            elif isinstance(v, BaseException):
                pass
            else:
                v = SymPoison(n)
                out[n] = v
            shape.append((n, self._kind(v)))
        shape = (tuple(shape), _digest())      # ghost history is part of the state
        self.last = {**now, **out}
        seen = p.ex.summaries.setdefault(("while",) + self.key, set())
        if shape in seen:
            p.kill()
        seen.add(shape)
        if len(seen) > 64:
            raise Unsupported("too many loop head shapes")
        return out

    def _candidate(self, n, v):
        """Candidate invariant n >= 0: kept while it holds whenever the head is reached (checked inductively: the
        widened state assumes it, every iteration has to re-establish it), dropped with a restart otherwise."""
        p = cur()
        key = (self.site, n)
        if p.ex.invariants.get(key) is False:
            return
        z = lift_num(v).z
        if p.check(z3.Not(z >= 0)) == z3.unsat:
            p.ex.invariants.setdefault(key, True)
        else:
            p.ex.invariants[key] = False
            p.ex.restart = True

    @staticmethod
    def _kind(v):
        if v is None or (isinstance(v, (bool, str, int, float)) and not is_sym(v)):
            return repr(v)
        if isinstance(v, BaseException):
            return "exc:" + type(v).__name__
        return type(v).__name__

    @staticmethod
    def _exact(now):
        r = []
        for n in sorted(now):
            v = now[n]
            if type(v) in (list, tuple, set, dict):
                r.append((n, type(v).__name__, tuple(id(x) for x in v)))
            elif v is None or (isinstance(v, (bool, str, int, float)) and not is_sym(v)):
                r.append((n, repr(v)))
            else:
                r.append((n, id(v)))
        return tuple(r)


_MISSING = object()


def _is_number(v):
    if isinstance(v, bool) or v is None or isinstance(v, (str, SymVal, SymBool)):
        return False
    if is_sym(v):
        return isinstance(v, SymNum)
    if isinstance(v, float) and (v != v or v in (float("inf"), float("-inf")) and cur().state.get("inf") is None):
        return False
    return lift_num(v) is not None


class LazyIter:
    """An iterator over an arbitrary sequence: ends, or yields an arbitrary element.  When the consumer skips an
    element without any effect it is as if the sequence began later, so one generic element stands for all."""

    def __init__(self, make, limit=1):
        self.make = make
        self.k = 0
        self.limit = limit
        self.dig = None

    def __iter__(self):
        return self

    def __next__(self):
        p = cur()
        if self.k >= self.limit:
            if _digest() != self.dig:
                raise Unsupported("skipping an element of an unbounded iterator has effects")
            p.kill()
        if p.choose(2, "iter-more") == 0:
            raise StopIteration
        self.k += 1
        v = self.make()
        self.dig = _digest()
        return v


# ---------------------------------------------------------------- hooks for instrumented code
class RT:
    """The object bound to `__vc__` in instrumented modules."""

    @staticmethod
    def is_iter(x):
        return isinstance(x, (SymSeq, SymMap)) or hasattr(type(x), "__vc_iter__") and is_sym(x.__vc_iter__())

    loop = Loop
    while_ = While

    @staticmethod
    def join(sep, x):
        """sep.join(x)"""
        if type(sep) is str and core.active():
            if isinstance(x, SymSeq):
                return cur().state["join"](sep, x) if "join" in cur().state else _uns_join()
            if not isinstance(x, str) and not is_sym(x):
                x = list(x)
                if any(type(v) is not str for v in x):
                    if "join" in cur().state:
                        return cur().state["join"](sep, x)
                    if all(isinstance(v, str) for v in x):
                        parts = []
                        for v in x:
                            parts += [sep, v] if parts else [v]
                        return concat(parts) if parts else ""
        return sep.join(x)

    @staticmethod
    def dict_display(*parts):
        """{k: v, **m, ...}"""
        if not any(isinstance(v, SymMap) for one, _, v in parts if not one):
            d = {}
            for one, k, v in parts:
                if one:
                    d[k] = v
                else:
                    d.update({**v})
            return d
        if any(one for one, _, _ in parts):
            raise Unsupported("dict display of an unbounded mapping with further entries")
        return _union([v for _, _, v in parts])

    @staticmethod
    def call(f, args, kw):
        """f(a, *b, k=v, **m)"""
        if core.active() and any(star and isinstance(v, (SymSeq, SymMap)) for star, v in args) or \
                any(n is None and (isinstance(v, SymMap) or getattr(type(v), "__vc_star__", False)) for n, v in kw):
            h = next((h for g, h in cur().state.get("star", ()) if g is f), None)
            if h is None:
                raise Unsupported("call with an unbounded number of arguments")
            return h(args, kw)
        a, k = [], {}
        for star, v in args:
            if star:
                a.extend(v)
            else:
                a.append(v)
        for n, v in kw:
            for x, y in ({**v}.items() if n is None else ((n, v),)):
                if x in k:
                    raise TypeError(f"got multiple values for keyword argument {x!r}")
                k[x] = y
        return f(*a, **k)

    @staticmethod
    def is_none(a):
        if type(a) is SymMaybe:
            return cur().fork(a.none)
        return a is None

    @staticmethod
    def is_(a, b):
        if a is b:
            return True
        if core.active():
            if isinstance(a, SymEnum) or isinstance(b, SymEnum):
                return bool(a == b)
            if isinstance(a, SymBool) and type(b) is bool:
                return bool(a == b)
            if isinstance(b, SymBool) and type(a) is bool:
                return bool(a == b)
        return False

    @staticmethod
    def fstr(*parts):
        vals = []
        sym = False
        for q in parts:
            if type(q) is str:
                vals.append(q)
                continue
            v, conv, spec = q
            if is_sym(v):
                sym = True
                vals.append(v if not isinstance(v, (SymObj, SymEnum, SymSeq, SymMap, SymPoison)) else _text(v))
            elif getattr(v, "__vc_str__", None) is not None and core.active():
                sym = True
                vals.append(v.__vc_str__())
            else:
                if conv == 115:
                    v = str(v)
                elif conv == 114:
                    v = repr(v)
                elif conv == 97:
                    v = ascii(v)
                vals.append(format(v, spec))
        if not sym:
            return "".join(vals)
        return concat(vals)

    @staticmethod
    def store(obj, own=False):
        """Called before an attribute or item assignment."""
        if core.CUR is not None:
            core.CUR.heap += 1
        if core.CUR is not None and core.CUR.loops:
            _check_mutation(obj, own)

    @staticmethod
    def mutate(obj, own=False):
        """Called on the receiver of a method that changes containers in place."""
        if core.CUR is not None and core.CUR.loops and isinstance(obj, (list, dict, set)) and not is_sym(obj):
            _check_mutation(obj, own)
        return obj

    @staticmethod
    def target(obj):
        """The object an assignment stores into, where it is not a plain name or attribute."""
        if core.CUR is not None:
            core.CUR.heap += 1
            if core.CUR.loops:
                _check_mutation(obj)
        return obj

    # builtins ---------------------------------------------------------------
    @staticmethod
    def b_float(*a):
        if len(a) == 1 and getattr(type(a[0]), "__vc_float__", None) is not None:
            return a[0].__vc_float__()
        if a and is_sym(a[0]):
            x = a[0]
            if isinstance(x, (SymNum, SymBool)):
                return to_float(x)
            if isinstance(x, SymVal) and getattr(x, "cls", None) is not None:
                h = cur().state.get("float_of")
                if h:
                    return h(x)
            raise Unsupported(f"float({type(x).__name__})")
        return float(*a)

    @staticmethod
    def b_int(*a):
        if a and is_sym(a[0]):
            x = a[0]
            if isinstance(x, (SymNum, SymBool)):
                return to_int(x)
            if isinstance(x, SymVal) and x.cls is str:
                return SymNum(values.IntOfStr(x.z), "int")
            raise Unsupported(f"int({type(x).__name__})")
        return int(*a)

    @staticmethod
    def b_str(*a):
        if a and core.active():
            x = a[0]
            if is_sym(x):
                return to_str(x) if isinstance(x, (SymVal, SymNum, SymBool)) else _text(x)
            if getattr(type(x), "__vc_str__", None) is not None:
                return x.__vc_str__()
        return str(*a)

    @staticmethod
    def b_isinstance(x, c):
        if type(x) in (SymVal, SymNum, SymBool):
            return issubclass(x.__class__, c)
        return isinstance(x, c)

    @staticmethod
    def b_bool(*a):
        return bool(*a)

    @staticmethod
    def b_type(*a):
        if len(a) == 1 and (is_sym(a[0]) or getattr(type(a[0]), "__vc_typed__", False)):
            return a[0].__class__
        return type(*a)

    @staticmethod
    def b_len(x):
        if is_sym(x):
            if isinstance(x, (SymSeq, SymMap)):
                return x.vc_len()
            raise Unsupported(f"len({type(x).__name__})")
        if hasattr(type(x), "vc_len"):
            return x.vc_len()
        return len(x)

    @staticmethod
    def b_sum(x, *start):
        if isinstance(x, SymSeq):
            return _sum_loop(x, start[0] if start else 0)
        it = list(x) if not isinstance(x, (list, tuple)) else x
        if any(is_sym(v) for v in it):
            acc = start[0] if start else 0
            for v in it:
                acc = acc + v
            return acc
        return sum(it, *start)

    @staticmethod
    def _minmax(pick, native, a, k):
        if len(a) >= 2 and not k and any(is_sym(v) for v in a):
            r = a[0]
            for v in a[1:]:
                r = pick(r, v)
            return r
        if len(a) == 1 and not is_sym(a[0]):
            seq = list(a[0])
            if any(is_sym(v) for v in seq) and not k:
                r = seq[0]
                for v in seq[1:]:
                    r = pick(r, v)
                return r
            return native(seq, **k)
        if a and is_sym(a[0]):
            m = _monotone(a[0]) if len(a) == 1 and not k else None
            if not m:
                raise Unsupported("min/max of an unbounded collection")
            x = _full(a[0])
            if not cur().fork(x.coll.n > 0):
                raise ValueError("empty sequence")
            first = (m == 1) == (native is min)
            return x.elem(z3.IntVal(0) if first else x.coll.n - 1)
        return native(*a, **k)

    @staticmethod
    def b_min(*a, **k):
        return RT._minmax(values.vmin, min, a, k)

    @staticmethod
    def b_max(*a, **k):
        return RT._minmax(values.vmax, max, a, k)

    @staticmethod
    def b_abs(x):
        return abs(x)

    @staticmethod
    def b_round(x, *a):
        if is_sym(x) and isinstance(x, SymNum) and a:
            raise Unsupported("round to digits")
        return round(x, *a)

    @staticmethod
    def b_reversed(x):
        x = _seq(x)
        if is_sym(x):
            return _backwards(_full(x))
        return reversed(x)

    @staticmethod
    def b_sorted(x, **k):
        if is_sym(x) and set(k) <= {"reverse"}:
            m = _monotone(x)
            if m:
                x = x.keys() if isinstance(x, SymMap) else x.copy()
                return x if m == (-1 if k.get("reverse") else 1) else _backwards(x)
        if isinstance(x, SymSeq):
            r = x.copy()
            r.ordered = False
            return r
        if isinstance(x, SymMap):
            return RT.b_sorted(x.keys())
        return sorted(x, **k)

    @staticmethod
    def b_list(*a):
        a = tuple(_seq(x) for x in a)
        if a and isinstance(a[0], SymSeq):
            return a[0].copy()
        if a and isinstance(a[0], SymMap):
            return a[0].keys()
        return list(*a)

    @staticmethod
    def b_tuple(*a):
        a = tuple(_seq(x) for x in a)
        if a and isinstance(a[0], SymSeq):
            return a[0].copy()
        return tuple(*a)

    @staticmethod
    def b_iter(*a):
        a = tuple(_seq(x) for x in a)
        if a and isinstance(a[0], SymSeq):
            return a[0].copy()
        return iter(*a)

    @staticmethod
    def b_dict(*a, **k):
        if a and isinstance(a[0], SymMap) and not k:
            return SymMap(a[0].coll, a[0].key, a[0].elem, a[0].guard, inv=a[0].inv)
        if a and is_sym(a[0]):
            h = cur().state.get("dict_of")
            if h:
                return h(a[0])
            raise Unsupported("dict(symbolic)")
        return dict(*a, **k)

    @staticmethod
    def b_range(*a):
        if any(is_sym(v) for v in a):
            if len(a) == 1:
                n = lift_num(a[0])
                return SymSeq(Coll("range", _size(n.z)), lambda i: SymNum(i, "int"))
            if len(a) == 2:
                lo, hi = lift_num(a[0]), lift_num(a[1])
                return SymSeq(Coll("range", _size(hi.z - lo.z)), lambda i: SymNum(i + lo.z, "int"))
            if type(a[2]) is int and a[2] == 1:
                return RT.b_range(*a[:2])
            if type(a[2]) is int and a[2] == -1:
                hi, lo = lift_num(a[0]), lift_num(a[1])
                return SymSeq(Coll("range", _size(hi.z - lo.z)), lambda i: SymNum(hi.z - i, "int"))
            raise Unsupported("range with a step")
        return range(*a)

    @staticmethod
    def b_any(x):
        if isinstance(x, (SymSeq, SymMap)):
            return _exists(x, True)
        return any(x)

    @staticmethod
    def b_all(x):
        if isinstance(x, (SymSeq, SymMap)):
            return not _exists(x, False)
        return all(x)

    @staticmethod
    def b_next(*a):
        if isinstance(a[0], SymSeq):
            raise Unsupported("next over an unbounded collection")
        return next(*a)

    @staticmethod
    def b_zip(*a, **k):
        if any(is_sym(v) or hasattr(v, "__vc_seq__") for v in a):
            return _zip(a, k.get("strict", False))
        return zip(*a, **k)

    @staticmethod
    def b_enumerate(*a, **k):
        if a and is_sym(a[0]):
            start = a[1] if len(a) > 1 else k.get("start", 0)
            x = _full(a[0])
            return SymSeq(x.coll, lambda i: (SymNum(i, "int") + start, x.elem(i)), x.guard, ordered=x.ordered, keys=x.keys)
        return enumerate(*a, **k)

    @staticmethod
    def b_set(*a):
        if a and is_sym(a[0]):
            raise Unsupported("set of an unbounded collection")
        return set(*a)


def _union(ms):
    """{**a, **b}: mappings over the same index space under the same keys; later ones win."""
    ms = [m for m in ms if isinstance(m, SymMap) or m]
    a = ms[0]
    i = z3.Int("union_probe")
    for m in ms:
        if not isinstance(m, SymMap) or m.coll is not a.coll or not m.key(i).z.eq(a.key(i).z):
            raise Unsupported("union of unrelated mappings")

    def elem(i):
        for m in reversed(ms[1:]):
            if cur().fork(m.guard(i)):
                return m.elem(i)
        return a.elem(i)
    return SymMap(a.coll, a.key, elem, lambda i: z3.Or(*[m.guard(i) for m in ms]), inv=a.inv)


def _uns_join():
    raise Unsupported("join of an unbounded collection")


def _exists(x, want):
    """Whether some element's truth is `want`: either one such element is named, or every element is known to differ."""
    if isinstance(x, SymMap):
        x = x.keys()
    p = cur()
    i = p.const("some", z3.IntSort())
    v = x.elem(i)
    if isinstance(v, (bool, values.SymBool)):
        z = values.lift_bool(v)
    elif isinstance(v, SymNum):
        z = (v != 0).z
    else:
        raise Unsupported("any/all of values that are not conditions")
    if not want:
        z = z3.Not(z)
    z = z3.And(i >= 0, i < x.coll.n, x.guard(i), z)
    if p.fork(p.const("exists", z3.BoolSort())):
        p.assume(z)
        if p.check() == z3.unsat:
            p.kill()
        return True
    p.assume(z3.ForAll([i], z3.Not(z)))
    return False


def _full(x):
    """A sequence whose positions are its indices: nothing filtered out, in order."""
    if isinstance(x, SymMap):
        x = x.keys()
    if not isinstance(x, SymSeq) or not x.ordered or not z3.is_true(z3.simplify(x.guard(z3.Int("probe_i")))):
        raise Unsupported("positions in a filtered or unordered collection")
    return x


def _size(n):
    n = z3.simplify(n)
    return n if cur().check(n < 0) == z3.unsat else z3.If(n > 0, n, 0)


def _affine(key):
    """The inverse of a key that moves by one from index to index."""
    i = z3.Int("affine_probe")
    try:
        a, b = key(i), key(i + 1)
    except Unsupported:
        return None
    if not (isinstance(a, SymNum) and a.z.is_int()):
        return None
    d = z3.simplify(b.z - a.z, som=True)
    c = z3.simplify(key(z3.IntVal(0)).z)
    if z3.is_int_value(d) and d.as_long() in (1, -1) and \
            z3.is_int_value(z3.simplify(a.z - d * i - c, som=True)) and \
            z3.simplify(a.z - d * i - c, som=True).as_long() == 0:
        return (lambda k: k - c) if d.as_long() == 1 else (lambda k: c - k)
    return None


def _backwards(x):
    n = x.coll.n
    keys = None
    if x.keys is not None:
        key, inv = x.keys
        keys = (lambda i: key(n - 1 - i)), (None if inv is None else lambda k: n - 1 - inv(k))
    return SymSeq(x.coll, lambda i: x.elem(n - 1 - i), x.guard, x.cls, True, keys)


def _monotone(x):
    """1 or -1 if the numbers in x are strictly ascending or descending, else None."""
    try:
        x = _full(x)
    except Unsupported:
        return None
    p = cur()
    i = p.const("at", z3.IntSort())
    if not isinstance(x.elem(i), SymNum):
        return None
    a, b = x.elem(i), x.elem(i + 1)
    rng = z3.And(i >= 0, i + 1 < x.coll.n)
    for m, c in ((1, a < b), (-1, b < a)):
        if p.check(rng, z3.Not(c.z)) == z3.unsat:
            return m
    return None


def _zip(a, strict):
    """zip of sequences that provably have the same length."""
    xs = [_full(v) for v in a]
    n = xs[0].coll.n
    for x in xs[1:]:
        if x.coll.n.eq(n):
            continue
        if cur().check(x.coll.n != n) != z3.unsat:
            raise Unsupported("zip of collections of different length")
    keys = next((x.keys for x in xs if x.keys is not None and x.keys[1] is not None), None)
    return SymSeq(xs[0].coll, lambda i: tuple(x.elem(i) for x in xs), ordered=True, keys=keys)


def _check_mutation(obj, own=False):
    """Inside a generic iteration only the loop's own accumulators and what the iteration itself made may change:
    anything that was there before is shared between the iterations, and changing it would be an effect whose repetition
    over all elements is not summarised."""
    if type(obj) in (GrowList, GrowDict, SlotDict) or getattr(type(obj), "__vc_ghost__", False):
        return
    if type(obj) is SymMap and "map_store" in cur().state:
        return
    if is_sym(obj):
        raise Unsupported(f"assignment into {type(obj).__name__} in a generic iteration")
    for lp in cur().loops:
        if id(obj) in lp.old:
            raise Unsupported(f"assignment into {type(obj).__name__} in a generic iteration")


def _reachable(frame):
    """Everything the frames up to the contract can reach, by id (and kept, so that ids stay theirs)."""
    todo = []
    while frame is not None and not frame.f_globals.get("__name__", "").startswith("pyvc.core"):
        todo.extend(frame.f_locals.values())
        todo.extend(v for v in frame.f_globals.values() if type(v) in (list, dict, set) and frame.f_globals.get("__vc__") is not None)
        frame = frame.f_back
    seen = {}
    while todo:
        x = todo.pop()
        if id(x) in seen or x is None or isinstance(x, (str, int, float, bytes, type, core.Path, core.Explorer, z3.AstRef)) \
                or isinstance(x, _OPAQUE) or is_sym(x) and not isinstance(x, SymObj):
            continue
        seen[id(x)] = x
        if isinstance(x, SymObj):
            continue
        if type(x) in (GrowList, GrowDict):
            todo.append(x.new)
        elif isinstance(x, dict):
            todo.extend(dict.values(x))
        elif isinstance(x, (list, tuple, set, frozenset)):
            todo.extend(x)
        elif hasattr(x, "__dict__"):
            todo.extend(vars(x).values())
        if len(seen) > 20000:
            raise Unsupported("too much reachable at a loop")
    return seen


_OPAQUE = (types.ModuleType, types.FunctionType, types.BuiltinFunctionType, types.MethodType, types.FrameType, property)


def _text(x):
    return values.val("text", str)


def _sum_loop(x, acc):
    lp = Loop(x, "sum", ("acc",))
    try:
        for v in lp:
            if lp.has("acc"):
                acc = lp.get("acc")
            acc = acc + v
        if lp.has("acc"):
            acc = lp.get("acc")
    finally:
        lp.left()
    return acc


HOOKED = {n[2:] for n in dir(RT) if n.startswith("b_")}
