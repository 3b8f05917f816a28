"""Python regular expressions as Z3 regular languages (Python's own parser, then a translation of its tree)."""
from __future__ import annotations

import re as real

from .core import Unsupported
from .z3load import z3

try:
    from re import _parser as sre_parse, _constants as C
except ImportError:     # pragma: no cover
    import sre_parse
    import sre_constants as C

ANY = z3.AllChar(z3.ReSort(z3.StringSort()))
EVERY = z3.Full(z3.ReSort(z3.StringSort()))
NONE = z3.Empty(z3.ReSort(z3.StringSort()))


def chars(s):
    return z3.Union(*[z3.Re(c) for c in s]) if len(s) > 1 else z3.Re(s)


def cat(*r):
    r = [x for x in r if x is not None]
    return z3.Re("") if not r else r[0] if len(r) == 1 else z3.Concat(*r)


def alt(*r):
    return r[0] if len(r) == 1 else z3.Union(*r)


CATEGORIES = {
    C.CATEGORY_DIGIT: z3.Range("0", "9"),
    C.CATEGORY_SPACE: chars(" \t\n\r\x0b\x0c"),
    C.CATEGORY_WORD: z3.Union(z3.Range("0", "9"), z3.Range("a", "z"), z3.Range("A", "Z"), z3.Re("_")),
}
NOT = {C.CATEGORY_NOT_DIGIT: C.CATEGORY_DIGIT, C.CATEGORY_NOT_SPACE: C.CATEGORY_SPACE, C.CATEGORY_NOT_WORD: C.CATEGORY_WORD}


def _char(c, fold):
    c = chr(c)
    return chars("".join(dict.fromkeys((c, c.lower(), c.upper())))) if fold and c.isascii() else z3.Re(c)


def _one(item, fold):
    op, a = item
    if op is C.LITERAL:
        return _char(a, fold)
    if op is C.RANGE:
        if fold:
            raise Unsupported("a range that ignores case")
        return z3.Range(chr(a[0]), chr(a[1]))
    if op is C.CATEGORY:
        if a in CATEGORIES:
            return CATEGORIES[a]
        return z3.Intersect(ANY, z3.Complement(CATEGORIES[NOT[a]]))
    raise Unsupported(f"{op} in a set of characters")


def tree(items, fold):
    """Language of a sequence without its anchors: (anchored at the start, language, anchored at the end)."""
    items = list(items)
    start = end = False
    while items and items[0][0] is C.AT and items[0][1] in (C.AT_BEGINNING, C.AT_BEGINNING_STRING):
        items.pop(0)
        start = True
    while items and items[-1][0] is C.AT and items[-1][1] in (C.AT_END, C.AT_END_STRING):
        items.pop()
        end = True
    out = []
    for op, a in items:
        if op in (C.LITERAL, C.RANGE, C.CATEGORY):
            out.append(_one((op, a), fold))
        elif op is C.NOT_LITERAL:
            out.append(z3.Intersect(ANY, z3.Complement(_char(a, fold))))
        elif op is C.ANY:
            out.append(z3.Intersect(ANY, z3.Complement(z3.Re("\n"))))
        elif op is C.IN:
            neg = a and a[0][0] is C.NEGATE
            u = alt(*[_one(x, fold) for x in a[1 if neg else 0:]])
            out.append(z3.Intersect(ANY, z3.Complement(u)) if neg else u)
        elif op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, sub = a
            s = inner(sub, fold)
            if hi is C.MAXREPEAT:
                out.append(z3.Star(s) if lo == 0 else z3.Plus(s) if lo == 1 else z3.Concat(*[s] * lo, z3.Star(s)))
            elif (lo, hi) == (0, 1):
                out.append(z3.Option(s))
            else:
                out.append(z3.Loop(s, lo, hi))
        elif op is C.SUBPATTERN:
            if a[1] or a[2]:
                raise Unsupported("flags inside a pattern")
            out.append(inner(a[3], fold))
        elif op is C.BRANCH:
            out.append(alt(*[inner(x, fold) for x in a[1]]))
        else:
            raise Unsupported(f"{op} in a pattern")
    return start, cat(*out), end


def inner(items, fold):
    s, r, e = tree(items, fold)
    if s or e:
        raise Unsupported("an anchor inside a pattern")
    return r


def language(pattern, how, flags=0):
    """The texts without line breaks in which the pattern is found by re.match / re.fullmatch / re.search."""
    t = sre_parse.parse(pattern, flags)
    fl = t.state.flags
    if fl & ~(real.IGNORECASE | real.ASCII | real.UNICODE | real.VERBOSE):
        raise Unsupported("flags of a pattern")
    s, r, e = tree(t, bool(fl & real.IGNORECASE))
    if how == "fullmatch":
        return r
    if how == "search" and not s:
        r = cat(EVERY, r)
    return r if e else cat(r, EVERY)


def inside(a, b):
    """Is every text of a one of b (True), none (False), or neither (None)?"""
    x = z3.String("x")

    def empty(*c):
        s = z3.Solver()
        s.set("timeout", 20000)
        s.add(*c)
        r = s.check()
        if r == z3.unknown:
            raise Unsupported("the solver does not decide a pattern")
        return r == z3.unsat
    if empty(z3.InRe(x, a), z3.Not(z3.InRe(x, b))):
        return True
    if empty(z3.InRe(x, a), z3.InRe(x, b)):
        return False
    return None
