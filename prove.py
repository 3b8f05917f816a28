#!/usr/bin/env python
"""Discharge the contracts of one property against /repo's current source.  Prints one JSON object.

usage: prove.py <property id> [--repo DIR] [--only NAME]
"""
import argparse
import importlib
import json
import os
import pathlib
import select
import sys
import time
import warnings

sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent))


def discharge(c, core):
    ex = core.Explorer(c.name, **c.kw)
    t = time.time()
    try:
        ex.run(c.fn)
    except BaseException:
        import traceback
        ex.errors.append(traceback.format_exc()[-3000:])
    obs = {}
    for o in ex.obligations:
        d = obs.setdefault(o.name, {"proved": 0, "failed": 0, "unknown": 0, "detail": ""})
        d[o.status] += 1
        if o.status != "proved" and not d["detail"]:
            d["detail"] = o.detail
    return {"name": c.name, "targets": list(c.targets), "paths": ex.paths, "completed": ex.completed,
            "obligations": obs, "covers": ex.covers, "unsupported": ex.unsupported[:5], "errors": ex.errors[:3],
            "solver_seconds": round(ex.solver_time, 3), "queries": ex.queries, "seconds": round(time.time() - t, 2)}


def in_parallel(jobs, width):
    """Each contract in a child process of its own; results in order."""
    out = [None] * len(jobs)
    running = {}
    nxt = 0
    while nxt < len(jobs) or running:
        while nxt < len(jobs) and len(running) < width:
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                try:
                    data = json.dumps(jobs[nxt]()).encode()
                except BaseException as e:
                    data = json.dumps({"name": "?", "targets": [], "paths": 0, "completed": 0, "obligations": {}, "covers": {},
                                       "unsupported": [], "errors": [repr(e)], "solver_seconds": 0, "queries": 0,
                                       "seconds": 0}).encode()
                with os.fdopen(w, "wb") as f:
                    f.write(data)
                os._exit(0)
            os.close(w)
            running[r] = (nxt, pid, [])
            nxt += 1
        ready, _, _ = select.select(list(running), [], [])
        for r in ready:
            d = os.read(r, 1 << 16)
            i, pid, buf = running[r]
            if d:
                buf.append(d)
                continue
            os.close(r)
            os.waitpid(pid, 0)
            del running[r]
            try:
                out[i] = json.loads(b"".join(buf))
            except ValueError:
                out[i] = {"name": "?", "targets": [], "paths": 0, "completed": 0, "obligations": {}, "covers": {},
                          "unsupported": [], "errors": ["the proving process ended early"], "solver_seconds": 0, "queries": 0,
                          "seconds": 0}
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--only")
    ap.add_argument("--jobs", type=int, default=max(1, min(6, (os.cpu_count() or 2) - 2)))
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args()
    os.environ.setdefault("NEPS_LOGGING", "0")
    warnings.simplefilter("ignore")
    out = os.dup(1)
    if not a.verbose:
        dn = os.open(os.devnull, os.O_WRONLY)
        os.dup2(dn, 1)
        os.dup2(dn, 2)
    t0 = time.time()
    import logging
    logging.disable(logging.CRITICAL)
    from pyvc import contract, core, loader, stubs
    stubs.PROP[0] = a.prop
    modname = f"contracts.{a.prop.lower()}"
    res = {"property": a.prop, "contracts": [], "load_error": None}
    try:
        src = pathlib.Path(__file__).resolve().parent / "contracts" / f"{a.prop.lower()}.py"
        wanted = []
        for line in src.read_text().splitlines():
            if line.startswith("# instrument:"):
                wanted += line.split(":", 1)[1].split()
        loader.install(wanted, a.repo)
        importlib.import_module(modname)
    except BaseException as e:
        import traceback
        res["load_error"] = traceback.format_exc()[-3000:]
    if res["load_error"] is None:
        todo = [c for c in contract.CONTRACTS if a.prop in c.props and not (a.only and a.only != c.name)]
        res["contracts"] = in_parallel([lambda c=c: discharge(c, core) for c in todo], a.jobs)
        res["instrumented"] = dict(loader.INSTRUMENTED)
    res["seconds"] = round(time.time() - t0, 2)
    os.write(out, (json.dumps(res) + "\n").encode())


if __name__ == "__main__":
    main()
