"""C18 on the real code: descriptions of search spaces, as dictionaries and as YAML files, against the hyperparameters they state."""
from __future__ import annotations

import copy
import logging
import math
from decimal import Decimal
from pathlib import Path

import yaml

from hlib import case, deep_eq
from neps.search_spaces import CategoricalParameter, ConstantParameter, FloatParameter, IntegerParameter
from neps.search_spaces.search_space import SearchSpaceFromYamlFileError, pipeline_space_from_yaml

logging.disable(logging.CRITICAL)
KINDS = {"int": IntegerParameter, "float": FloatParameter, "cat": CategoricalParameter, "const": ConstantParameter}
WORDS = ["sgd", "adam", "e", "1e", "e5", "1e5x", "x1e5", "0x1e5", "1-e5", "1e5.0", "yes it is", "inflate", "3.3.3e5", "--1e5", "e-5", "1e+", "é"]


def spell(rng, x):
    """The number in one of the ways exponent notation can be written, as text."""
    sign, digits, exp = Decimal(repr(x)).as_tuple()
    m = "".join(map(str, digits))
    k = rng.randrange(5)
    if k == 1 and len(m) > 1:
        p = rng.randrange(1, len(m))
        m, exp = m[:p] + "." + m[p:], exp + len(m) - p
    elif k == 2:
        m, exp = "." + m, exp + len(m)
    elif k == 3:
        m = m + "."
    elif k == 4:
        m = m + ".0"
    s = ("-" if sign else rng.choice(["", "", "+"])) + m + rng.choice("eE") + \
        ("-" if exp < 0 else rng.choice(["", "+"])) + rng.choice(["", "0"]) + str(abs(exp))
    assert float(s) == x, (s, x)
    return s


def real(rng):
    return rng.choice([0.0, 0.5, 1.0, -2.0, 1e-5, 3.3e-5, 0.1, 1e3, -1e-7, 12345.678, 1e22, 2e-300, rng.uniform(-9, 9), rng.uniform(0, 1) * 10.0 ** rng.randrange(-12, 12)])


def pair(rng, f, ok):
    while True:
        a, b = sorted((f(rng), f(rng)))
        if a < b and ok(a, b):
            return a, b


def common(rng, d, kw, default):
    if default is not None and rng.random() < 0.5:
        kw["default"] = default
        if rng.random() < 0.5:
            d["default_confidence"] = kw["default_confidence"] = rng.choice(["low", "medium", "high"])
    for k in ("log", "is_fidelity"):
        if k in kw:
            d[k] = kw[k]


def flags(rng, kw, low):
    if rng.random() < 0.4:
        kw["log"] = low > 0 and rng.random() < 0.7
    if rng.random() < 0.3:
        kw["is_fidelity"] = rng.random() < 0.6


def entry(rng):
    """(description, class, the arguments it states)"""
    kind = rng.choice(["int", "int", "float", "float", "cat", "cat", "const"])
    d, kw = {}, {}
    if kind == "const":
        x = rng.choice([0, 1, -5, 12, 0.5, -1.25, "1e999x", *WORDS, None])
        if x is None:
            x = real(rng)
            return spell(rng, x), kind, {"value": x}
        return x, kind, {"value": x}
    if kind == "cat":
        pool = [1, 2, -3, 0, 0.5, 2.25, 1e-3, 3.3e-5, 1e3, *WORDS, "True", ""]
        ch = []
        for x in rng.sample(pool, rng.randrange(2, 8)):
            if not any(x == y for y in ch):
                ch.append(x)
        if len(ch) < 2:
            ch = ["a", "b"]
        kw["choices"] = ch
        common(rng, d, kw, rng.choice(ch))
        show = {id(x): spell(rng, x) if type(x) is float and rng.random() < 0.5 else x for x in ch}
        d["choices"] = [show[id(x)] for x in ch]
        if "default" in kw:
            x = kw["default"]
            d["default"] = spell(rng, x) if type(x) is float and rng.random() < 0.5 else x
        if rng.random() < 0.5:
            d["type"] = rng.choice(["cat", "categorical", "Categorical", "CAT"])
    elif kind == "int":
        big = [0, 1, 2, -3, 7, 10, 100, 1000, 30000, -500, 10 ** 6, 128, rng.randrange(-99, 99)]
        lo, up = pair(rng, lambda r: r.choice(big), lambda a, b: True)
        flags(rng, kw, lo)
        kw["lower"], kw["upper"] = lo, up
        common(rng, d, kw, rng.randrange(lo, up + 1))
        exps = rng.random() < 0.5
        for k in ("lower", "upper", "default"):
            if k in kw:
                d[k] = spell(rng, float(kw[k])) if exps and (k == "lower" or rng.random() < 0.5) else kw[k]
        if exps or rng.random() < 0.5:
            d["type"] = rng.choice(["int", "integer", "Int", "INTEGER"])
    else:
        lo, up = pair(rng, real, lambda a, b: True)
        flags(rng, kw, lo)
        kw["lower"], kw["upper"] = lo, up
        common(rng, d, kw, rng.choice([lo, up, lo + (up - lo) * rng.random() if math.isfinite(up - lo) else lo]))
        typed = rng.random() < 0.5
        for k in ("lower", "upper", "default"):
            if k in kw:
                x = kw[k]
                d[k] = spell(rng, x) if rng.random() < 0.4 else int(x) if typed and x == int(x) and abs(x) < 1e15 and rng.random() < 0.3 else x
        if typed:
            d["type"] = rng.choice(["float", "Float", "FLOAT"])
    return dict(sorted(d.items(), key=lambda _: rng.random())), kind, kw


def want(kind, kw):
    return KINDS[kind](**kw)


def facts(hp):
    out = {"class": type(hp).__name__}
    for a in ("lower", "upper", "log", "is_fidelity", "default", "default_confidence_score", "default_confidence_choice", "choices", "value", "has_prior"):
        if hasattr(hp, a):
            x = getattr(hp, a)
            out[a] = x
            out[a + " type"] = [type(y).__name__ for y in x] if isinstance(x, list) else type(x).__name__
    return out


def scalar(x):
    """A value as written in a YAML file, exponent notation without quotation marks."""
    if isinstance(x, str) and x[:1] in "+-.0123456789":
        try:
            float(x)
        except ValueError:
            pass
        else:
            return x
    return yaml.safe_dump(x, default_flow_style=True, allow_unicode=True).replace("\n...", "").strip()


def document(space, wrapped):
    out, ind = [], ""
    if wrapped:
        out, ind = ["pipeline_space:"], "  "
    for n, d in space.items():
        if not isinstance(d, dict):
            out.append(f"{ind}{n}: {scalar(d)}")
            continue
        out.append(f"{ind}{n}:")
        for k, v in d.items():
            out.append(f"{ind}  {k}: " + (f"[{', '.join(scalar(x) for x in v)}]" if isinstance(v, list) else scalar(v)))
    return "\n".join(out) + "\n"


def same_in_file(space):
    """A YAML parser reads some spellings as numbers at once: keep those whose text it leaves to NePS."""
    def ok(x, t):
        y = yaml.safe_load(scalar(x))
        return type(y) is type(x) and y == x or t == "float" and isinstance(y, float)
    for d in space.values():
        if isinstance(d, dict):
            t = "float" if str(d.get("type", "")).lower() == "float" else "any"
            for k, v in d.items():
                if k != "type" and not all(ok(x, t) for x in (v if isinstance(v, list) else [v])):
                    return False
        elif not ok(d, "any"):
            return False
    return True


def spaces(rng):
    names = ["b", "a", "lr", "num_epochs", "Z", "pipeline_space", "type", "lower", "x1e5"]
    rng.shuffle(names)
    space, meaning = {}, {}
    for n in names[:rng.randrange(1, 5)]:
        while True:
            d, kind, kw = entry(rng)
            if not (kw.get("is_fidelity") and any(m[1].get("is_fidelity") for m in meaning.values())):
                break
        space[n], meaning[n] = d, (kind, kw)
    if set(space) == {"pipeline_space"}:        # such a file is taken as the wrapper
        return spaces(rng)
    return space, meaning


def give(ctx, rng, space):
    how = rng.randrange(4)
    wrapped = rng.random() < 0.3
    if how < 2 or not same_in_file(space):
        c = copy.deepcopy(space)
        return "dict", {"pipeline_space": c} if wrapped else c
    text = document(space, wrapped)
    f = ctx.dir() / "space.yaml"
    f.write_text(text, encoding="utf-8")
    return text, f if how == 2 else str(f)


@case
def meanings(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(2500, 12000)):
        space, meaning = spaces(rng)
        shown, config = give(ctx, rng, space)
        ctx.count((space, shown))
        try:
            got = pipeline_space_from_yaml(config)
        except Exception as e:
            ctx.check(False, "a description is accepted", space=space, file=shown, raised=repr(e))
        ctx.eq(list(got), list(space), "one hyperparameter for each entry, in order")
        for n, (kind, kw) in meaning.items():
            w, g = facts(want(kind, kw)), facts(got[n])
            ctx.check(deep_eq(g, w), "the hyperparameter stated", entry=space[n], file=shown, got=g, want=w)
        ctx.cleanup()


def mistake(rng, d, kind, kw):
    """The entry with one mistake."""
    d = copy.deepcopy(d)
    nan, inf = math.nan, math.inf
    any_ = [
        lambda: {**d, "unknown": 1}, lambda: {**d, "Lower": 1}, lambda: {**d, "name": "x"},
        lambda: {**d, "type": rng.choice([5, None, True, 1.5, ["int"], {}])}, lambda: {**d, "type": rng.choice(["integr", "", "bool", "str", "double", "list", "none"])},
        lambda: {**d, "default_confidence": rng.choice(["very", "LOW", 5, 0.5])} if "is_fidelity" not in d or kind == "cat" else None,
        lambda: None, lambda: [1, 2], lambda: {}, lambda: {"type": d.get("type", kind)}, lambda: {"default": 1},
    ]
    if kind in ("int", "float"):
        m = [
            lambda: {k: v for k, v in d.items() if k != rng.choice(["lower", "upper"])} if rng.random() < .0 else
            {k: v for k, v in d.items() if k != "lower"},
            lambda: {k: v for k, v in d.items() if k != "upper"},
            lambda: {**d, rng.choice(["lower", "upper", "default"]): rng.choice(["abc", "", "1e", "e5", "1,5", "one", None, [1], {}]), "type": kind}
            if True else None,
            lambda: {**d, "lower": kw["upper"], "upper": kw["lower"], "type": kind} if kind == "float" else None,
            lambda: {**d, "type": kind, "default": kw["upper"] + 1} if abs(kw["upper"]) < 1e15 else None,
            lambda: {**d, "type": kind, "default": kw["lower"] - 1} if abs(kw["lower"]) < 1e15 else None,
            lambda: {**d, "log": rng.choice(["true", "yes", 1, 0, 1.0])},
            lambda: {**d, "is_fidelity": rng.choice(["false", 1, 0, "x"])},
            lambda: {**d, "lower": rng.choice([0.0, -1.0, -0.5]), "upper": 10.0, "log": True, "type": "float"},
            lambda: {**d, "lower": rng.choice([0, -1, -7]), "upper": 100, "default": 50, "log": True, "type": "int"},
            lambda: {**d, "upper": rng.choice([inf, nan, "1e999", "inf", "nan"]), "type": kind},
            lambda: {**d, "lower": rng.choice([-inf, nan, "-1e999", "-inf", "nan"]), "type": kind},
            lambda: {"lower": 1, "upper": 2.5}, lambda: {"lower": 0.5, "upper": 3}, lambda: {"lower": "1", "upper": 5}, lambda: {"lower": "a", "upper": "1e5"},
            lambda: {**d, "choices": [1, 2]},
        ]
        if kind == "int":
            m += [lambda: {**d, "type": "int", "lower": 0.5}, lambda: {**d, "type": "int", "lower": "-5e-1"}, lambda: {**d, "type": "int", "upper": "1000000.5"},
                  lambda: {**d, "type": "int", "upper": "20000000001e-1"}, lambda: {"type": "int", "lower": 1.0, "upper": 7.0},
                  lambda: {"type": "int", "lower": 0, "upper": 9, "default": rng.choice([2.5, "25e-1", "2.5", "x", inf, nan, "1e999"])}]
    elif kind == "cat":
        m = [
            lambda: {**d, "choices": rng.choice(["ab", 5, None, {"a": 1}, "1e5"])}, lambda: {**d, "choices": []}, lambda: {**d, "choices": ["one"]},
            lambda: {**d, "choices": d["choices"] + [d["choices"][0]]}, lambda: {**d, "choices": d["choices"] + [None]}, lambda: {**d, "choices": d["choices"] + [[1]]},
            lambda: {**d, "default": "not a choice"}, lambda: {**d, "default": [1]}, lambda: {**d, "default": {}},
            lambda: {**d, "log": True}, lambda: {**d, "is_fidelity": True}, lambda: {**d, "lower": 1}, lambda: {**d, "lower": 1, "upper": 5},
            lambda: {k: v for k, v in d.items() if k != "choices"}, lambda: {**d, "choices": ["1e3", 1000.0]}, lambda: {**d, "choices": ["1e3", 1000]},
        ]
    else:
        return rng.choice([None, [], [1], {}, {"value": 5}, {"type": "const", "value": 5}, {"type": "const"}, {"default": 1}])
    return rng.choice(m if rng.random() < 0.75 else any_)()


@case
def mistakes(ctx):
    rng = ctx.rng
    n = 0
    while n < ctx.n(3000, 15000):
        space, meaning = spaces(rng)
        at = rng.choice(list(space))
        bad = mistake(rng, space[at], *meaning[at])
        if bad is None and meaning[at][0] != "const" and rng.random() < 0.8:
            continue
        n += 1
        space[at] = bad
        if len(space) == 1 and rng.random() < 0.3:
            space["other"] = {"lower": 0, "upper": 5}
        ctx.count(space)
        c = copy.deepcopy(space)
        if rng.random() < 0.2:
            c = {"pipeline_space": c}
        elif rng.random() < 0.2:
            f = ctx.dir() / "s.yaml"
            f.write_text(yaml.safe_dump(c))
            c = f
        try:
            r = pipeline_space_from_yaml(c)
        except SearchSpaceFromYamlFileError:
            continue
        except Exception as e:
            ctx.check(False, "refused with the documented error", entry=bad, raised=repr(e))
        finally:
            ctx.cleanup()
        ctx.check(False, "an entry with a mistake is refused", entry=bad, got=repr(r[at]), facts=facts(r[at]))


@case
def no_descriptions(ctx):
    rng = ctx.rng
    d = ctx.dir()
    (d / "text.yaml").write_text("just text")
    (d / "list.yaml").write_text("- 1\n- 2\n")
    (d / "empty.yaml").write_text("")
    (d / "broken.yaml").write_text("a: [1, 2\nb: {")
    (d / "tab.yaml").write_text("a:\n\tlower: 1\n")
    for n, v in (("null", "null"), ("number", "5"), ("list", "[1]"), ("text", "x")):
        (d / f"w{n}.yaml").write_text(f"pipeline_space: {v}\n")
    for c in [*d.iterdir(), d / "missing.yaml", *({"pipeline_space": x} for x in (None, 5, [1], ["a"], "x", 1.5))]:
        for x in ([c, str(c)] if isinstance(c, Path) else [c]):
            ctx.count(str(x))
            ctx.raises(SearchSpaceFromYamlFileError, lambda: pipeline_space_from_yaml(copy.copy(x)), "what is no description is refused", given=str(x))


VALUES = [1, 5, 0, -3, 1.5, 0.1, 10.0, "1e2", "1e-3", "1E5", "1e+5", "-1e3", "3.3e-5", "1.e3", ".5e3", "abc", "5", "1e999", "nan", "inf", math.inf, math.nan,
          None, True, False, [1], {}, "1 e5", " 1e5", "1e5 ", 10 ** 400, "+1e3", "1e03", "1_0e3"]


@case
def anything(ctx):
    """Whatever is described: refused with the documented error, or a legal hyperparameter with the numbers stated."""
    rng = ctx.rng
    for _ in range(ctx.n(6000)):
        d = {}
        for k, p in dict(lower=.9, upper=.9, default=.3, type=.5, choices=.25, log=.2, is_fidelity=.2, default_confidence=.2, foo=.03).items():
            if rng.random() < p:
                d[k] = rng.choice(["int", "integer", "float", "cat", "categorical", "const", "INT", "Float", "foo", 5, None]) if k == "type" else \
                    rng.choice([[rng.choice(VALUES) for _ in range(rng.randrange(5))], "ab", 5]) if k == "choices" else \
                    rng.choice([True, False, True, False, "true", 1, None]) if k in ("log", "is_fidelity") else \
                    rng.choice(["low", "medium", "high", "x", None, 5]) if k == "default_confidence" else rng.choice(VALUES)
        if rng.random() < .05:
            d = rng.choice(VALUES)
        ctx.count(d)
        space = {"a": copy.deepcopy(d), "b": {"lower": 0, "upper": 1}}
        try:
            hp = pipeline_space_from_yaml(space)["a"]
        except SearchSpaceFromYamlFileError:
            continue
        except Exception as e:
            ctx.check(False, "refused with the documented error", entry=d, raised=repr(e))
        if isinstance(hp, (FloatParameter, IntegerParameter)):
            for k in ("lower", "upper", "default"):
                x = getattr(hp, k)
                if k == "default" and d.get(k) is None:
                    ctx.check(x is None, "no default", entry=d, got=x)
                    continue
                ctx.check(math.isfinite(x) and x == float(d[k]), "the number stated", entry=d, key=k, got=x)
            ctx.check(hp.lower < hp.upper and (hp.log is d.get("log", False)) and hp.is_fidelity is d.get("is_fidelity", False), "bounds, scale, fidelity", entry=d)
            ctx.check(hp.default_confidence_choice == d.get("default_confidence", "low"), "confidence", entry=d)
        elif isinstance(hp, CategoricalParameter):
            ctx.check(len(hp.choices) == len(d["choices"]), "all choices", entry=d, got=hp.choices)
            for x, y in zip(hp.choices, d["choices"]):
                ctx.check(deep_eq(x, y) or isinstance(y, str) and isinstance(x, float) and x == float(y), "the choice stated", entry=d, got=hp.choices)
        else:
            ctx.check(type(hp) is ConstantParameter and not isinstance(d, dict), "a constant", entry=d, got=repr(hp))
            ctx.check(deep_eq(hp.value, d) or isinstance(d, str) and isinstance(hp.value, float) and deep_eq(hp.value, float(d)), "the value stated", entry=d, got=hp.value)
