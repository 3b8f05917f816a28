"""Path exploration and obligations.

A contract is a Python function that builds an arbitrary pre-state from symbols, calls the real function and
states what must hold.  `Explorer.run` executes it once per feasible combination of branch outcomes; every
`prove` on every path is one verification condition, handed to Z3 together with the path condition.
"""
from __future__ import annotations

import sys
import time
import traceback

from .z3load import z3

QUERY_TIMEOUT_MS = 8000


class Control(BaseException):
    """Engine control flow; a BaseException so that `except Exception` in verified code cannot catch it."""


class Abort(Control):
    """This path is infeasible, or summarised elsewhere."""


class Unsupported(Control):
    """The code did something with a symbolic value that the engine has no semantics for."""


class Stop(Control):
    """Budget used up."""


class Path:
    def __init__(self, ex, prefix, ns=""):
        self.ex = ex
        self.prefix = prefix
        self.decisions = []
        self.pc = []
        self.branches = []       # the branch conditions among pc (the others are facts that hold on every path)
        self.solver = z3.Solver()
        self.solver.set("timeout", QUERY_TIMEOUT_MS)
        self.n_fresh = 0
        self.dead = False
        self.notes = []
        self.loops = []          # stack of generic-iteration contexts
        self.folds = []          # sums over symbolic collections
        self.heap = 0            # number of attribute and item assignments so far
        self.state = {}          # per-path storage for stubs
        self.shared = False
        self.inputs = []

    # -- symbols -----------------------------------------------------------
    def name(self, base):
        # names are unique per branch prefix, so that terms carried over by loop summaries never clash
        self.n_fresh += 1
        pre = self.ex.prefix_ids.setdefault(tuple(self.decisions), len(self.ex.prefix_ids))
        return f"{base}!{self.n_fresh}.{pre}"

    def const(self, base, sort):
        """A fresh constant; inside a generic loop iteration a fresh function of the iteration index."""
        nm = self.name(base)
        idx = [l.index for l in self.loops if l.index is not None]
        if idx:
            f = z3.Function(nm, *([i.sort() for i in idx] + [sort]))
            return f(*idx)
        return z3.Const(nm, sort)

    # -- assumptions and branching ------------------------------------------
    def assume(self, c):
        if c is True:
            return
        if c is False:
            self.kill()
        c = z3.simplify(c) if not isinstance(c, bool) else z3.BoolVal(c)
        if z3.is_true(c):
            return
        if z3.is_false(c):
            self.kill()
        self.pc.append(c)
        self.solver.add(c)

    def kill(self):
        self.dead = True
        raise Abort()

    def check(self, *extra):
        t = time.time()
        r = self.solver.check(*extra)
        self.ex.solver_time += time.time() - t
        self.ex.queries += 1
        return r

    def entails(self, goal, *hyps):
        """Does goal follow?  Where the solver gives up on everything known, parts of it that are about the same terms
        are tried (leaving facts out cannot make anything provable that is not)."""
        r = self.check(*hyps, z3.Not(goal))
        if r != z3.unknown:
            return r
        facts = [*self.pc, *hyps]
        ats = [_atoms(c) for c in facts]
        freq = {}
        for a in ats:
            for x in a:
                freq[x] = freq.get(x, 0) + 1
        common = {x for x, k in freq.items() if k > max(6, len(facts) // 3)}
        have = _atoms(goal)
        chosen = set()
        for _ in range(4):
            new = {k for k, a in enumerate(ats) if k not in chosen and (a - common) & have}
            if not new:
                break
            chosen |= new
            for k in new:
                have |= ats[k] - common
            for nl in (False, True):
                s = z3.Solver() if not nl else z3.Then("simplify", "solve-eqs", "smt").solver()
                s.set("timeout", QUERY_TIMEOUT_MS // 2)
                s.add(*[facts[k] for k in sorted(chosen)], z3.Not(goal))
                self.ex.queries += 1
                t = time.time()
                q = s.check()
                self.ex.solver_time += time.time() - t
                if q == z3.unsat:
                    return q
        return r

    def decide(self, n, feasible):
        """n-ary decision point; feasible(i) says whether option i may be taken."""
        if self.dead:
            return 0
        k = len(self.decisions)
        if k < len(self.prefix):
            d = self.prefix[k]
        else:
            opts = [i for i in range(n) if feasible(i)]
            if not opts:
                self.kill()
            d = opts[0]
            for o in reversed(opts[1:]):
                self.ex.stack.append(self.decisions + [o])
        self.decisions.append(d)
        if len(self.decisions) > self.ex.max_depth:
            raise Unsupported(f"more than {self.ex.max_depth} branch points on one path")
        return d

    def fork(self, cond):
        """Branch on a z3 Boolean; returns a Python bool."""
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond) or self.dead:
            return False
        k = len(self.decisions)
        if k < len(self.prefix):
            d = self.prefix[k]
            self.decisions.append(d)
        else:
            ts = self.check(cond)
            fs = self.check(z3.Not(cond)) if ts != z3.unsat else z3.sat
            if ts == z3.unsat:
                d = 0
            elif fs == z3.unsat:
                d = 1
            else:
                d = 1
                self.ex.stack.append(self.decisions + [0])
            self.decisions.append(d)
            if len(self.decisions) > self.ex.max_depth:
                raise Unsupported(f"more than {self.ex.max_depth} branch points on one path")
        c = cond if d else z3.Not(cond)
        self.pc.append(c)
        self.branches.append(c)
        self.solver.add(c)
        return bool(d)

    def choose(self, n, label=""):
        """Unconstrained choice among n alternatives (environment nondeterminism)."""
        if self.loops and not self.dead:
            # inside a generic iteration the choice may differ from element to element
            z = self.const("choice", z3.IntSort())
            self.assume(z3.And(z >= 0, z < n))
            d = n - 1
            for i in range(n - 1):
                if self.fork(z == i):
                    d = i
                    break
        else:
            d = self.decide(n, lambda i: True)
        if label:
            self.notes.append(f"{label}={d}")
        return d


def _atoms(t):
    """The uninterpreted terms in t, by id."""
    out, todo, seen = set(), [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
            continue
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.get_id())
            todo.extend(x.children())
    return out


class Obligation:
    __slots__ = ("name", "status", "detail", "path", "decisions")

    def __init__(self, name, status, detail="", decisions=()):
        self.name = name
        self.status = status
        self.detail = detail
        self.decisions = list(decisions)


CUR: Path | None = None


def cur() -> Path:
    if CUR is None:
        raise Unsupported("symbolic value used outside an exploration")
    return CUR


def active() -> bool:
    return CUR is not None


class Explorer:
    def __init__(self, name, max_paths=4000, max_depth=400, time_limit=240.0):
        self.name = name
        self.max_paths = max_paths
        self.max_depth = max_depth
        self.time_limit = time_limit
        self.stack = []
        self.obligations = []
        self.solver_time = 0.0
        self.queries = 0
        self.paths = 0
        self.completed = 0
        self.covers = {}
        self.summaries = {}
        self.prefix_ids = {}
        self.unsupported = []
        self.errors = []
        self.invariants = {}
        self.recs = {}
        self.restart = False

    def run(self, fn):
        for _ in range(12):
            self.restart = False
            self.obligations, self.covers, self.summaries = [], {}, {}
            self.unsupported, self.errors, self.completed = [], [], 0
            self._run(fn)
            if not self.restart:
                return self
        self.unsupported.append("loop invariants did not stabilise")
        return self

    def _run(self, fn):
        global CUR
        from . import values
        self.stack = [[]]
        t0 = time.time()
        while self.stack and not self.restart:
            if self.paths >= self.max_paths or time.time() - t0 > self.time_limit:
                self.unsupported.append(
                    f"exploration budget used up after {self.paths} paths, {time.time() - t0:.0f}s")
                break
            prefix = self.stack.pop()
            p = Path(self, prefix)
            CUR = p
            self.paths += 1
            try:
                fn(VC(p))
                self.completed += 1
            except Abort:
                pass
            except Unsupported as e:
                tb = traceback.extract_tb(e.__traceback__)
                where = [f"{f.filename.split('/')[-1]}:{f.lineno}" for f in tb[-6:]]
                self.unsupported.append(f"{e} ({' < '.join(reversed(where))})")
                if len(self.unsupported) > 20:
                    break
            except Exception as e:  # an error of the contract itself
                self.errors.append("".join(traceback.format_exception(e))[-3000:])
                if len(self.errors) > 5:
                    break
            finally:
                CUR = None
        return self


def _tobool(c):
    from .values import SymBool
    if isinstance(c, SymBool):
        return c.z
    if isinstance(c, bool):
        return z3.BoolVal(c)
    if isinstance(c, z3.BoolRef):
        return c
    if c is None or c is NotImplemented:
        return z3.BoolVal(False)
    if type(c).__module__ == "numpy":
        return z3.BoolVal(bool(c))
    raise Unsupported(f"not a condition: {c!r}")


def _stub_signature(e):
    """Is this the complaint of a stand-in (a ghost, or a function inside a contract) about how it was called?"""
    import re
    import sys
    m = re.match(r"([\w.<>]+)\(\) (got |takes |missing )", str(e))
    if m is None:
        return False
    top = m.group(1).split(".")[0]
    mods = [(n, x) for n, x in list(sys.modules.items()) if hasattr(x, top)]
    ours = [n for n, x in mods if n.split(".")[0] in ("pyvc", "contracts") and getattr(getattr(x, top), "__module__", n) == n]
    theirs = [n for n, x in mods if n.split(".")[0] == "neps"]
    return bool(ours) and not theirs


class VC:
    """What a contract sees."""

    def __init__(self, path):
        self.p = path

    def assume(self, c):
        self.p.assume(_tobool(c))

    def prove(self, c, name):
        p = self.p
        if p.dead:
            return
        ex = p.ex
        z = z3.simplify(_tobool(c))
        if z3.is_true(z):
            # still a condition generated from the code; discharged by rewriting
            ex.obligations.append(Obligation(name, "proved", "simplifier", p.decisions))
            return
        r = p.entails(z)
        if r == z3.unsat:
            ex.obligations.append(Obligation(name, "proved", "z3", p.decisions))
        elif r == z3.sat and p.state.get("nl"):
            # products and quotients are known by lemmas only: a counterexample must satisfy the real ones
            from . import nonlinear
            r = nonlinear.confirm(p, z3.Not(z))
            st = "proved" if r == z3.unsat else "failed" if r == z3.sat else "unknown"
            det = "z3" if r == z3.unsat else self._render(nonlinear.LAST[0], z) if r == z3.sat else \
                "counterexample to the lemmas about products, neither confirmed nor refuted"
            ex.obligations.append(Obligation(name, st, det, p.decisions))
        elif r == z3.sat:
            m = p.solver.model()
            ex.obligations.append(Obligation(name, "failed", self._render(m, z), p.decisions))
        else:
            # the path itself may be infeasible
            ex.obligations.append(Obligation(name, "unknown", str(p.solver.reason_unknown()), p.decisions))

    def _render(self, m, z):
        s = []
        for d in m.decls():
            if len(s) > 40:
                break
            try:
                s.append(f"{d.name()} = {m[d]}")
            except Exception:
                pass
        return ("obligation: " + str(z)[:1500] + "\npath: " + "; ".join(str(c)[:200] for c in self.p.pc)[:4000]
                + "\nchoices: " + ", ".join(self.p.notes) + "\nmodel: " + "; ".join(sorted(s))[:4000])

    def lemma(self, c, name):
        """An intermediate fact: proved like every obligation, then available to the following ones."""
        self.prove(c, name)
        self.assume(c)

    def fail(self, name, detail=""):
        """This point must be unreachable."""
        p = self.p
        if p.dead:
            return
        r = p.check()
        if r == z3.unsat:
            p.ex.obligations.append(Obligation(name, "proved", "unreachable", p.decisions))
            return
        st = "failed" if r == z3.sat else "unknown"
        m = self._render(p.solver.model(), z3.BoolVal(False)) if r == z3.sat else ""
        p.ex.obligations.append(Obligation(name, st, detail + "\n" + m, p.decisions))

    def cover(self, name):
        if not self.p.dead:
            ex = self.p.ex
            if ex.covers.get(name):
                return
            ex.covers[name] = self.p.check() == z3.sat

    def choose(self, n, label=""):
        return self.p.choose(n, label)

    def call(self, fn, *a, **k):
        """Call verified code: ('ok', value) or ('exc', exception)."""
        try:
            return "ok", fn(*a, **k)
        except Exception as e:
            if isinstance(e, (TypeError, AttributeError, NotImplementedError)) and "Sym" in str(e):
                # a proxy reached an operation that has no symbolic semantics: a limit of the engine
                raise Unsupported(f"{type(e).__name__}: {e}") from e
            if isinstance(e, TypeError) and _stub_signature(e):
                raise Unsupported(f"an assumed function does not take these arguments: {e}") from e
            return "exc", e
