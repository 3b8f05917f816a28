"""C18 a YAML search space means the same as the Python one."""
# instrument: neps.search_spaces.yaml_search_space_utils neps.search_spaces.search_space neps.search_spaces.parameter neps.search_spaces.hyperparameters.numerical
import re as real_re

from pyvc import core, languages, rt
from pyvc.contract import contract
from pyvc.core import Unsupported, cur
from pyvc.stubs import Ghost, patched
from pyvc.values import And, Implies, Not, Or, SymBool, SymNum, SymVal, V, lift_num, same, to_int, val
from pyvc.z3load import z3

import neps.search_spaces.search_space as SP
import neps.search_spaces.yaml_search_space_utils as U

I = z3.IntSort()
KIND = z3.Function("kind_of_value", I, I)
NUM = z3.Function("number_of_value", I, z3.RealSort())
INT, FLOAT, INF, EXP, PLAIN, HUGE, SPECIAL, WORD, NONE = range(9)
NAMES = ("int", "float", "float without finite value", "text in exponent notation", "text of a number", "text of a huge number",
         "text inf or nan", "other text", "something else")
TEXTS = (EXP, PLAIN, HUGE, SPECIAL, WORD)
DIGITS = r"[+-]?(\d+(\.\d*)?|\.\d+)"
LANG = {EXP: languages.language(DIGITS + r"[eE][+-]?\d+", "fullmatch"), PLAIN: languages.language(DIGITS, "fullmatch"),
        SPECIAL: languages.language(r"(?i)[+-]?(inf|infinity|nan)", "fullmatch")}
LANG[HUGE] = LANG[EXP]
REFUSALS = (KeyError, TypeError, ValueError, OverflowError)
SEEN = {}


def inside(kind, blanks, pattern, how, flags):
    k = (kind, blanks, pattern, how, int(flags))
    if k not in SEEN:
        a = LANG[kind]
        if blanks:
            sp = z3.Star(z3.Re(" "))
            a = z3.Concat(sp, a, sp)
        SEEN[k] = languages.inside(a, languages.language(pattern, how, flags))
    return SEEN[k]


class SymItem(Ghost):
    """A value in a description, of whatever kind: the kind is decided where the code asks for it."""

    def __init__(self, i, blanks=True):
        self.__dict__.update(i=i, blanks=blanks)

    def __vc_subst__(self, frm, to):
        return SymItem(z3.substitute(self.i, (frm, to)), self.blanks)

    def kind(self):
        p = cur()
        p.assume(z3.And(KIND(self.i) >= 0, KIND(self.i) < len(NAMES)))
        for k in range(len(NAMES) - 1):
            if p.fork(KIND(self.i) == k):
                return k
        return NONE

    def text(self):
        p = cur()
        p.assume(z3.And(KIND(self.i) >= 0, KIND(self.i) < len(NAMES)))
        return p.fork(z3.And(KIND(self.i) >= EXP, KIND(self.i) <= WORD))

    @property
    def __class__(self):
        if self.text():
            return str
        k = self.kind()
        return int if k == INT else type(None) if k == NONE else float

    def __vc_float__(self):
        k = self.kind()
        if k == WORD:
            raise ValueError("could not convert string to float")
        if k == NONE:
            raise TypeError("float() argument must be a string or a real number")
        if k in (INF, HUGE, SPECIAL):
            return float("inf") if k == HUGE or cur().ex is not None and cur().fork(NUM(self.i) > 0) else float("nan")
        if k == INT:
            cur().assume(z3.IsInt(NUM(self.i)))
        return SymNum(NUM(self.i), "float")

    def replace(self, a, b, *n):
        if n or (a, b) != (" ", "") or not self.text():
            raise Unsupported("replace")
        return SymItem(self.i, False)

    def strip(self, *a):
        if a or not self.text():
            raise Unsupported("strip")
        return SymItem(self.i, False)

    def __repr__(self):
        return "<value>"

    __vc_typed__ = True

    def _u(self, *a, **k):
        raise Unsupported("operation on a value of unknown kind")
    __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __contains__ = __iter__ = __len__ = __getitem__ = _u
    __float__ = __int__ = __index__ = __bool__ = __add__ = __sub__ = __mul__ = __neg__ = _u
    __hash__ = object.__hash__


class Pattern(Ghost):
    def __init__(self, pattern, flags=0):
        self.pattern, self.flags = pattern, flags

    def _find(self, how, t):
        if not isinstance(t, SymItem) or not t.text():
            raise Unsupported("a pattern looked for elsewhere")
        k = t.kind()
        r = inside(k, t.blanks, self.pattern, how, self.flags) if k in LANG else None
        if r is None:       # some texts of this kind have it, others have not
            r = cur().fork(z3.Bool(cur().name("found")))
        return Found() if r else None

    def match(self, t):
        return self._find("match", t)

    def fullmatch(self, t):
        return self._find("fullmatch", t)

    def search(self, t):
        return self._find("search", t)


class Found(Ghost):
    pass


class Re(Ghost):
    IGNORECASE = I = real_re.IGNORECASE
    VERBOSE = X = real_re.VERBOSE
    ASCII = A = real_re.ASCII
    Pattern = real_re.Pattern

    @staticmethod
    def compile(pattern, flags=0):
        return pattern if isinstance(pattern, Pattern) else Pattern(pattern, flags)

    @staticmethod
    def match(pattern, t, flags=0):
        return Re.compile(pattern, flags).match(t)

    @staticmethod
    def fullmatch(pattern, t, flags=0):
        return Re.compile(pattern, flags).fullmatch(t)

    @staticmethod
    def search(pattern, t, flags=0):
        return Re.compile(pattern, flags).search(t)


def texts():
    """The module with `re` replaced by its contract, compiled patterns included."""
    d = {n: Pattern(v.pattern, v.flags) for n, v in vars(U).items() if isinstance(v, real_re.Pattern)}
    return patched(U, re=Re(), **d)


def item(vc, name):
    return SymItem(cur().const(name, I))


def is_number(k):
    return k in (INT, FLOAT, EXP, PLAIN)


def holds(vc, x, was, kind, name):
    """x is the number that `was` states, as a number of this kind."""
    if x is was:
        return vc.prove(was.kind() == (INT if kind == "int" else FLOAT), name)
    if isinstance(x, SymItem):
        return vc.fail(name, "another value")
    n = lift_num(x)
    if n is None or n.kind != kind:
        return vc.fail(name, f"{x!r} is no {kind}")
    z = z3.ToReal(n.z) if n.z.is_int() else n.z
    vc.prove(And(SymBool(z == NUM(was.i)), SymBool(z3.Not(n.nan))), name)


def whole(x):
    n = SymNum(NUM(x.i), "float")
    return core._tobool(n == to_int(n))


@contract("C18", "neps.search_spaces.yaml_search_space_utils.convert_scientific_notation")
def notation(vc):
    """A number or the text of one gives its value; exponent notation is recognised; anything else is refused."""
    x = item(vc, "value")
    how = vc.choose(3, "flag")
    with texts():
        st, r = vc.call(U.convert_scientific_notation, x, **({}, {"show_usage_flag": True}, {"show_usage_flag": False})[how])
    k = x.kind()
    if k in (WORD, NONE):
        vc.prove(st == "exc" and isinstance(r, ValueError if k == WORD else TypeError), "what is no number is refused")
        vc.cover("refused")
        return
    if st != "ok":
        return vc.fail("every number is converted", repr(r))
    if how == 1:
        if not (type(r) is tuple and len(r) == 2):
            return vc.fail("the value and whether it has an exponent are returned", repr(r))
        r, flag = r
        vc.prove((flag is True) == (k in (EXP, HUGE)) and type(flag) is bool, "exponent notation is recognised, and nothing else")
    if is_number(k):
        n = lift_num(r)
        vc.prove(n is not None and n.kind == "float" and SymBool(z3.And(n.z == NUM(x.i), z3.Not(n.nan))), "the value is the number stated")
    else:
        vc.prove(isinstance(r, float) and not isinstance(r, SymNum), "numbers out of range stay out of range")
    vc.cover(NAMES[k])


class Description(dict):
    """An entry: the keys chosen, each with a value of unknown kind, and possibly further keys."""


def describe(vc, *keys, extra=True):
    d, was = {}, {}
    for k in keys:
        if vc.choose(2, k):
            d[k] = was[k] = item(vc, k)
    if extra:
        d["log"] = was["log"] = val("further")
    return d, was


def refused(vc, st, r, name):
    vc.prove(st == "exc" and isinstance(r, REFUSALS), name)


def untouched(vc, d, was, but=()):
    vc.prove(set(d) == set(was) and all(d[k] is was[k] for k in was if k not in but), "all other keys are kept, none is added")


@contract("C18", "neps.search_spaces.yaml_search_space_utils.formatting_int",
          "neps.search_spaces.yaml_search_space_utils.convert_scientific_notation", max_paths=40000, time_limit=400)
def integers(vc):
    d, was = describe(vc, "lower", "upper", "default")
    with texts():
        st, r = vc.call(U.formatting_int, "p", d)
    if "lower" not in was or "upper" not in was:
        refused(vc, st, r, "an integer without both bounds is refused")
        vc.cover("bound missing")
        return
    lo, up = was["lower"], was["upper"]
    kl, ku = lo.kind(), up.kind()
    ok = is_number(kl) and is_number(ku) and (kl == ku == INT or EXP in (kl, ku))
    ok = ok and all(k == INT or cur().fork(whole(x)) for k, x in ((kl, lo), (ku, up)))
    if not ok:
        refused(vc, st, r, "bounds that are no integers are refused")
        vc.cover("bounds refused")
        return
    de = was.get("default")
    if de is not None:
        k = de.kind()
        if not is_number(k) or k != INT and not cur().fork(whole(de)):
            refused(vc, st, r, "a default that is no integer is refused")
            vc.cover("default refused")
            return
    if st != "ok":
        return vc.fail("a description of an integer is accepted", f"{NAMES[kl]}, {NAMES[ku]}: {r!r}")
    if type(r) is not dict:
        raise Unsupported("details of another form")
    untouched(vc, r, was, ("lower", "upper", "default"))
    for k in ("lower", "upper") + (("default",) if de is not None else ()):
        holds(vc, r.get(k), was[k], "int", f"{k} is the integer stated")
    vc.cover("accepted")


@contract("C18", "neps.search_spaces.yaml_search_space_utils.formatting_float",
          "neps.search_spaces.yaml_search_space_utils.convert_scientific_notation", max_paths=40000, time_limit=400)
def floats(vc):
    d, was = describe(vc, "lower", "upper", "default")
    with texts():
        st, r = vc.call(U.formatting_float, "p", d)
    if "lower" not in was or "upper" not in was:
        refused(vc, st, r, "a float without both bounds is refused")
        vc.cover("bound missing")
        return
    ks = {k: was[k].kind() for k in ("lower", "upper", "default") if k in was}
    if any(k in (WORD, NONE) for k in ks.values()):
        refused(vc, st, r, "what is no number is refused")
        vc.cover("refused")
        return
    if st != "ok":
        return vc.fail("a description of a float is accepted", repr(r))
    if type(r) is not dict:
        raise Unsupported("details of another form")
    untouched(vc, r, was, ks)
    for k in ks:
        if is_number(ks[k]):
            holds(vc, r[k], was[k], "float", f"{k} is the number stated")
        else:
            x = r[k]
            vc.prove(x is was[k] or isinstance(x, float) and not isinstance(x, (SymNum, SymItem)), f"{k}: not a finite number (the constructor refuses it)")
    vc.cover("accepted")


@contract("C18", "neps.search_spaces.yaml_search_space_utils.deduce_type", "neps.search_spaces.yaml_search_space_utils.deduce_param_type",
          "neps.search_spaces.yaml_search_space_utils.convert_scientific_notation", max_paths=40000, time_limit=400)
def deduction(vc):
    """The stated type, else the one the keys and their values tell, else refused."""
    form = vc.choose(3, "form")
    if form == 0:
        x = item(vc, "entry")
        with texts():
            st, r = vc.call(U.deduce_type, "p", x)
        if x.kind() == NONE:
            refused(vc, st, r, "an entry that is neither value nor description is refused")
            vc.cover("no description")
        else:
            vc.prove(st == "ok" and r == "const", "a plain value is a constant")
            vc.cover("constant")
        return
    d, was = describe(vc, "lower", "upper", "default", "choices")
    if form == 1:
        t = ("int", "INT", "Integer", "float", "FLOAT", "cat", "Categorical", "const", "other", None, 5, True, ["int"])[vc.choose(13, "type")]
        d["type"] = t
        with texts():
            st, r = vc.call(U.deduce_type, "p", d)
        if type(t) is not str:
            refused(vc, st, r, "a type that is no text is refused")
            vc.cover("type refused")
            return
        vc.prove(st == "ok" and r == t.lower(), "the stated type is used, in whatever case")
        untouched(vc, d, was)
        vc.cover("stated")
        return
    with texts():
        st, r = vc.call(U.deduce_type, "p", d)
    if "lower" in was and "upper" in was:
        lo, up = was["lower"], was["upper"]
        kl, ku = lo.kind(), up.kind()
        if kl == ku == INT:
            vc.prove(st == "ok" and r == "int", "two integers bound an integer")
            untouched(vc, d, was)
            vc.cover("int")
        elif kl in (FLOAT, INF) and ku in (FLOAT, INF):
            vc.prove(st == "ok" and r == "float", "two floats bound a float")
            untouched(vc, d, was)
            vc.cover("float")
        elif not any(k in (EXP, HUGE) for k in (kl, ku)) or any(k in (WORD, NONE) for k in (kl, ku)):
            refused(vc, st, r, "bounds of different or unknown types are refused")
            vc.cover("inconsistent")
        else:
            vc.prove(st == "ok" and r == "float", "exponent notation bounds a float")
            if st != "ok":
                return
            untouched(vc, d, was, ("lower", "upper"))
            for k, x in (("lower", lo), ("upper", up)):
                y = d[k]
                if y is x:
                    continue
                if is_number(x.kind()):
                    holds(vc, y, x, "float", f"{k} keeps its value")
                else:
                    vc.prove(isinstance(y, float) and not isinstance(y, (SymNum, SymItem)), f"{k} stays out of range")
            vc.cover("exponent")
    elif "choices" in was:
        vc.prove(st == "ok" and r == "categorical", "choices make a categorical")
        untouched(vc, d, was)
        vc.cover("categorical")
    else:
        refused(vc, st, r, "an entry with too few keys is refused")
        vc.cover("missing")


def converted(vc, x, was, name):
    """x is what `was` means where any plain value is allowed: itself, or the number written with an exponent."""
    k = was.kind()
    if k == EXP:
        n = lift_num(x) if not isinstance(x, SymItem) else None
        vc.prove(n is not None and n.kind == "float" and SymBool(z3.And(n.z == NUM(was.i), z3.Not(n.nan))), name + ": exponent notation is a number")
    elif k == HUGE:
        vc.prove(type(x) is float, name + ": exponent notation is a number")
    else:
        vc.prove(isinstance(x, SymItem) and SymBool(x.i == was.i), name + ": every other value is kept")


@contract("C18", "neps.search_spaces.yaml_search_space_utils.formatting_const")
def constants(vc):
    x = item(vc, "value")
    vc.assume(KIND(x.i) != NONE)
    with texts():
        st, r = vc.call(U.formatting_const, x)
    if st != "ok":
        return vc.fail("a value is accepted as a constant", repr(r))
    converted(vc, r, x, "constant")
    vc.cover("constant")


class Choices(rt.SymSeq):
    """The list of choices, of any length; the iteration over them may replace the element it is at."""
    __slots__ = ("stores",)
    __vc_ghost__ = True

    def __init__(self, coll, base):
        super().__init__(coll, lambda i: SymItem(base(i)))
        self.stores = []

    def __setitem__(self, k, v):
        k = lift_num(k)
        if k is None or k.kind != "int" or not cur().loops:
            raise Unsupported("assignment to a choice")
        self.stores.append((k.z, v))

    def __getitem__(self, k):
        k = lift_num(k)
        if k is None or k.kind != "int" or self.stores:
            raise Unsupported("choice by position")
        if cur().check(z3.Not(z3.And(k.z >= 0, k.z < self.coll.n))) != z3.unsat:
            raise Unsupported("choice by position")
        return self.elem(k.z)


@contract("C18", "neps.search_spaces.yaml_search_space_utils.formatting_cat",
          "neps.search_spaces.yaml_search_space_utils.convert_scientific_notation", max_paths=20000, time_limit=400)
def categoricals(vc):
    """Any number of choices."""
    p = cur()
    form = vc.choose(3, "choices")
    d, was = {}, {}
    base = z3.Function("choice", I, I)
    co = rt.Coll("choices")
    ch = Choices(co, base)
    if form:
        d["choices"] = was["choices"] = ch if form == 2 else item(vc, "choices")
    if vc.choose(2, "default"):
        d["default"] = was["default"] = item(vc, "default")
    d["default_confidence"] = was["default_confidence"] = val("further")

    def end(loop):
        """An iteration that replaces its choice replaces it by what it means; if some do, the others' choices mean themselves."""
        if loop.coll is not co or loop.mode != "gen":
            return
        x, key = ch.elem(loop.index), ("replaces", loop.site)
        if ch.stores and not p.ex.invariants.get(key):
            p.ex.invariants[key] = p.ex.restart = True
            p.kill()
        if ch.stores:
            vc.prove(all(cur().check(k != loop.index) == z3.unsat for k, _ in ch.stores), "an iteration replaces its own choice only")
        if p.ex.invariants.get(key):
            converted(vc, ch.stores[-1][1] if ch.stores else x, x, "choice")
    p.state["loop_end"] = end
    with texts():
        st, r = vc.call(U.formatting_cat, "p", d)
    p.state.pop("loop_end", None)
    if form < 2:
        refused(vc, st, r, "choices that are no list are refused")
        vc.cover("no list")
        return
    de = was.get("default")
    k = p.const("any choice", I)
    if st == "exc":
        vc.prove(isinstance(r, REFUSALS), "refused with an exception that is documented")
        if de is not None and de.kind() == NONE:
            vc.cover("default refused")
            return
        j = z3.Int("j")
        vc.prove(SymBool(z3.Exists(j, z3.And(j >= 0, j < co.n, KIND(base(j)) == NONE))), "refused only if a choice is no plain value")
        vc.cover("choice refused")
        return
    if de is not None and de.kind() == NONE:
        return vc.fail("a default that is no plain value is refused", "accepted")
    if type(r) is not dict:
        raise Unsupported("details of another form")
    untouched(vc, r, was, ("choices", "default"))
    c = r["choices"]
    sites = [k for k, v in p.ex.invariants.items() if isinstance(k, tuple) and k[0] == "replaces" and v]
    if len(sites) > 1 or sites and c is not ch:
        raise Unsupported("choices replaced several times")
    if not sites:
        if not isinstance(c, rt.SymSeq) or c.coll is not co:
            raise Unsupported("choices of another form")
        p.assume(z3.And(k >= 0, k < co.n))
        vc.prove(SymBool(c.guard(k)), "no choice is lost")
        converted(vc, c.elem(k), ch.elem(k), "choice")
    if de is not None:
        converted(vc, r["default"], de, "default")
    vc.cover("accepted")


# ---------------------------------------------------------------- any number of entries
NAME = z3.Function("name_of_entry", I, V)
AT = z3.Function("place_of_name", V, I)
TYPE = z3.Function("type_of_entry", I, I)
BAD = z3.Function("entry_refused_at", I, I, z3.BoolSort())
WHY = z3.Function("why", I, I, I)
TYPES = ("int", "integer", "float", "cat", "categorical", "const", "something else")


def refuse(i, step):
    p = cur()
    if not p.fork(BAD(i, step)):
        return
    p.assume(z3.And(WHY(i, step) >= 0, WHY(i, step) < len(REFUSALS)))
    for n, e in enumerate(REFUSALS[:-1]):
        if p.fork(WHY(i, step) == n):
            raise e("refused")
    raise REFUSALS[-1]("refused")


class Details(Ghost):
    """The description of entry i, by the contracts above."""
    __vc_star__ = True

    def __init__(self, i, state="given"):
        self.i, self.state = i, state

    def __vc_subst__(self, frm, to):
        return Details(z3.substitute(self.i, (frm, to)), self.state)


class Made(Ghost):
    def __init__(self, cls, i, state):
        self.cls, self.i, self.state = cls, i, state

    def __vc_subst__(self, frm, to):
        return Made(self.cls, z3.substitute(self.i, (frm, to)), self.state)


@contract("C18", "neps.search_spaces.search_space.pipeline_space_from_yaml", max_paths=20000, time_limit=400)
def entries(vc):
    """Every entry becomes the hyperparameter of its type with its formatted details, under its own name; whatever is refused is
    refused with the documented error."""
    p = cur()
    co = rt.Coll("entries")

    def name(i):
        cur().assume(AT(NAME(i)) == i)
        return SymVal(NAME(i), str)
    space = rt.SymMap(co, name, Details, inv=AT)

    def same_entry(nm, d):
        if not isinstance(d, Details):
            raise Unsupported("details of another form")
        vc.prove(same(nm, SymVal(NAME(d.i), str)), "an entry is handled under its own name")

    def deduce(nm, d):
        same_entry(nm, d)
        if d.state != "given":
            raise Unsupported("type asked for later")
        refuse(d.i, 0)
        q = cur()
        q.assume(z3.And(TYPE(d.i) >= 0, TYPE(d.i) < len(TYPES)))
        for k in range(len(TYPES) - 1):
            if q.fork(TYPE(d.i) == k):
                return TYPES[k]
        return TYPES[-1]

    def formatting(kind):
        def f(nm, d=None):
            if kind == "const":
                nm, d = None, nm
            else:
                same_entry(nm, d)
            if d.state != "given":
                raise Unsupported("formatted twice")
            refuse(d.i, 1)
            return Details(d.i, kind)
        return f

    def made(cls):
        def f(args, kw):
            if args or len(kw) != 1 or not isinstance(kw[0][1], Details):
                raise Unsupported("made in another way")
            d = kw[0][1]
            refuse(d.i, 2)
            return Made(cls, d.i, d.state)
        return f

    def const(*a, **k):
        d = a[0] if a else k.get("value")
        if not isinstance(d, Details) or len(a) + len(k) != 1:
            raise Unsupported("made in another way")
        refuse(d.i, 2)
        return Made("ConstantParameter", d.i, d.state)

    classes = {n: getattr(SP, n) for n in ("IntegerParameter", "FloatParameter", "CategoricalParameter")}
    p.state["star"] = [(c, made(n)) for n, c in classes.items()]
    form = vc.choose(5, "form")      # dict, wrapped dict, wrapped something else, file, wrapped in a file

    class Io:
        """Path and yaml by contract: the file is missing, is no YAML, holds something else, or holds the description."""
        state = None

    class File(Ghost):
        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass

    class GPath:
        def __init__(self, x):
            self.x = x

        def open(self, mode="r", **k):
            if mode not in ("r", "rt"):
                raise Unsupported("file opened otherwise")
            if Io.state == 0:
                raise FileNotFoundError("no such file")
            return File()

    wrapped = {"pipeline_space": space}

    class Yaml(Ghost):
        YAMLError = SP.yaml.YAMLError

        @staticmethod
        def safe_load(f):
            if not isinstance(f, File):
                raise Unsupported("something else is read")
            if Io.state == 1:
                raise SP.yaml.YAMLError("no YAML")
            if Io.state == 2:
                return (None, [1], "text", 5)[vc.choose(4, "content")]
            return space if form == 3 else wrapped
    if form < 3:
        config = (space, wrapped, {"pipeline_space": (None, [1], "text", 5)[vc.choose(4, "content")] if form == 2 else None})[form]
    else:
        Io.state = vc.choose(4, "file")
        config = "space.yaml" if vc.choose(2, "as text") else GPath("space.yaml")
    if form in (0, 3):
        p.assume(z3.Or(co.n != 1, NAME(0) != SymVal_lit("pipeline_space")))
    with patched(SP, deduce_type=deduce, formatting_int=formatting("int"), formatting_float=formatting("float"),
                 formatting_cat=formatting("cat"), formatting_const=formatting("const"), ConstantParameter=const,
                 Path=GPath, yaml=Yaml()):
        st, r = vc.call(SP.pipeline_space_from_yaml, config)
    if st == "exc":
        vc.prove(isinstance(r, SP.SearchSpaceFromYamlFileError), "only the documented error is raised")
        p = cur()
        if form == 2 or Io.state in (0, 1, 2):
            vc.cover("no description")
            return
        j = z3.Int("j")
        anybad = z3.Or(BAD(j, 0), BAD(j, 1), BAD(j, 2), TYPE(j) == len(TYPES) - 1)
        good = z3.ForAll(j, z3.Implies(z3.And(j >= 0, j < co.n), z3.Not(anybad)))
        vc.prove(SymBool(z3.Not(good)), "refused only if an entry is")
        vc.cover("refused")
        return
    if form == 2 or Io.state in (0, 1, 2):
        return vc.fail("what is no description is refused", repr(r))
    if type(r) is dict and not r:
        vc.prove(SymBool(co.n == 0), "no entry is lost")
        return
    if not isinstance(r, rt.SymMap) or r.coll is not co:
        raise Unsupported("space of another form")
    i = p.const("any entry", I)
    p.assume(z3.And(i >= 0, i < co.n))
    vc.prove(SymBool(r.guard(i)), "no entry is lost")
    vc.prove(same(r.key(i), SymVal(NAME(i), str)), "each under its own name")
    e = r.elem(i)
    if not isinstance(e, Made):
        raise Unsupported("hyperparameters made in another way")
    want = {"int": ("IntegerParameter", "int"), "integer": ("IntegerParameter", "int"), "float": ("FloatParameter", "float"),
            "cat": ("CategoricalParameter", "cat"), "categorical": ("CategoricalParameter", "cat"), "const": ("ConstantParameter", "const")}
    for k, t in enumerate(TYPES):
        if k == len(TYPES) - 1 or cur().fork(TYPE(i) == k):
            break
    vc.prove(And(SymBool(e.i == i), (e.cls, e.state) == want.get(t)), "the hyperparameter of the entry's type with its own details")
    vc.prove(SymBool(z3.Not(z3.Or(BAD(i, 0), BAD(i, 1), BAD(i, 2)))), "a refused entry is never passed over")
    vc.cover(t)


def SymVal_lit(s):
    from pyvc import values
    return values.lit(s)
