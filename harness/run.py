#!/usr/bin/env python
"""run.py <property id> [--case NAME]: bounded run on the real code; prints one JSON object."""
import argparse
import importlib
import json
import logging
import os
import pathlib
import sys
import time
import traceback
import warnings

sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent))
sys.dont_write_bytecode = True


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--case")
    a = ap.parse_args()
    repo = os.environ.get("VERIF_REPO", "/repo")
    if repo not in sys.path:
        sys.path.insert(0, repo)
    out = os.dup(1)
    sys.stdout.flush()
    os.dup2(2, 1)
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    import hlib
    seed = int(os.environ.get("VERIF_SEED") or 1)
    tier = os.environ.get("VERIF_TIER") or "quick"
    res = {"cases": [], "evaluations": 0, "distinct": 0, "samples": [], "violations": [], "notes": []}
    t00 = time.time()
    try:
        importlib.import_module(a.prop.lower())
    except Exception as e:
        tb = traceback.format_exc()
        if in_repo(e) and not missing_name(e):
            res["violations"].append({"case": "import", "message": f"importing neps fails: {type(e).__name__}: {e}",
                                      "traceback": tb[-4000:]})
        else:
            res["notes"].append("bounded run could not be loaded: " + tb[-1500:])
    for fn in hlib.CASES:
        if a.case and fn.__name__ != a.case:
            continue
        ctx = hlib.Ctx(fn.__name__, seed, tier)
        t = time.time()
        status = "ok"
        try:
            fn(ctx)
        except hlib.Skip as e:
            status = f"skipped: {e}"
            res["notes"].append(f"{fn.__name__} skipped: {e}")
        except hlib.Violation as e:
            status = "violation"
            res["violations"].append({"case": fn.__name__, "message": str(e)[:4000],
                                      "traceback": traceback.format_exc()[-4000:]})
        except Exception as e:
            tb = traceback.format_exc()
            if missing_name(e) and not in_repo(e):
                status = "skipped: needs a name that is not there"
                res["notes"].append(f"{fn.__name__}: {type(e).__name__}: {e}")
            else:
                status = "violation"
                res["violations"].append({"case": fn.__name__, "message":
                                          f"unexpected {type(e).__name__}: {str(e)[:1500]}", "traceback": tb[-4000:]})
        finally:
            ctx.cleanup()
        res["cases"].append({"name": fn.__name__, "status": status, "evaluations": ctx.evaluations,
                             "distinct": len(ctx.distinct), "seconds": round(time.time() - t, 2)})
        res["evaluations"] += ctx.evaluations
        res["distinct"] += len(ctx.distinct)
        res["samples"] += ctx.samples
        res["notes"] += ctx.soft
    res["seconds"] = round(time.time() - t00, 2)
    os.write(out, (json.dumps(res, default=str) + "\n").encode())


def innermost(e):
    tb = e.__traceback__
    last = None
    while tb is not None:
        last = tb.tb_frame.f_code.co_filename
        tb = tb.tb_next
    return last or ""


def in_repo(e):
    return os.path.realpath(innermost(e)).startswith(os.path.realpath(os.environ.get("VERIF_REPO", "/repo")))


def missing_name(e):
    if isinstance(e, (ImportError, NameError)):
        return True
    if isinstance(e, AttributeError):
        o = getattr(e, "obj", None)
        mod = getattr(o, "__name__", "") if type(o).__name__ == "module" else \
            getattr(o if isinstance(o, type) else type(o), "__module__", "")
        return str(mod).startswith("neps")
    return False


if __name__ == "__main__":
    main()
