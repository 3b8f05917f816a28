"""Load the z3 bindings of the tooling venv into the repository's interpreter.

The repository's dependencies live in /opt/venv (Python 3.11), the solver's bindings in
/opt/veriftools/pyvenv (3.12).  z3's bindings are pure Python over a shared library, so they load in both;
only the package `z3` is taken from there, nothing else of that site-packages directory is put on sys.path.
"""
import glob
import importlib.util
import sys


def load():
    if "z3" in sys.modules:
        return sys.modules["z3"]
    try:
        import z3  # noqa: F401
        return sys.modules["z3"]
    except ImportError:
        pass
    cands = sorted(glob.glob("/opt/veriftools/pyvenv/lib/python3*/site-packages/z3/__init__.py"))
    if not cands:
        raise RuntimeError("no z3 bindings found")
    p = cands[-1]
    spec = importlib.util.spec_from_file_location("z3", p, submodule_search_locations=[p.rsplit("/", 1)[0]])
    m = importlib.util.module_from_spec(spec)
    sys.modules["z3"] = m
    spec.loader.exec_module(m)
    return m


z3 = load()
