#!/usr/bin/env python3
"""seed.py SPEC.py...: turn a planted bug's description into seeded/<id>/ and try it in scratch copies.

A spec defines PROP, NEEDS, BREAKS, EDITS [(file, old text, new text)], DEMO (Python source). The id is the spec's file name.
Prints: demo on the unchanged tree, demo on the changed one, the repository's tests, the property's check (and ALSO: others)."""
import json
import os
import pathlib
import re
import shutil
import subprocess
import sys
import threading
from concurrent.futures import ThreadPoolExecutor

ROOT = pathlib.Path(__file__).resolve().parent.parent
DEMO = '#!/bin/bash\nexec env PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 NEPS_LOGGING=0 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)

LOCK = threading.Lock()


def one(spec, tests=True):
    sid = pathlib.Path(spec).stem
    ns = {}
    exec(pathlib.Path(spec).read_text(), ns)
    c = pathlib.Path(f"/tmp/sc-{sid}")
    shutil.rmtree(c, ignore_errors=True)
    c.mkdir()
    sh(f"git clone -q /repo {c}/repo")
    for f, a, b in ns["EDITS"]:
        q = c / "repo" / f
        s = q.read_text()
        if s.count(a) != 1:
            shutil.rmtree(c)
            return f"{sid}: edit text occurs {s.count(a)} times in {f}: {a[:60]!r}"
        q.write_text(s.replace(a, b))
    d = ROOT / "seeded" / sid
    d.mkdir(parents=True, exist_ok=True)
    (d / "patch.diff").write_text(sh("git diff", cwd=c / "repo").stdout)
    (d / "demo.sh").write_text(DEMO)
    os.chmod(d / "demo.sh", 0o755)
    (d / "demo.py").write_text(ns["DEMO"].lstrip())
    (d / "meta.json").write_text(json.dumps({"property": ns["PROP"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, indent=1) + "\n")
    out = [f"{sid} ({ns['PROP']})"]
    a = sh(f"bash {d}/demo.sh", cwd="/repo")
    b = sh(f"bash {d}/demo.sh", cwd=c / "repo")
    out.append(f"demo unchanged rc={a.returncode} changed rc={b.returncode}")
    if a.returncode:
        out.append("   " + a.stderr[-600:])
    out.append("   changed: " + (b.stderr.strip().splitlines() or ["-"])[-1][:200])
    if tests:
        t = pathlib.Path("/opt/vp/test.sh").read_text().replace("cd /repo", f"cd {c}/repo").replace("/opt/vp/reports", f"{c}/rep")
        t = t.replace("-n 6", "-n 6").replace("export PYTHONHASHSEED", f"export PYTHONPATH={c}/repo PYTHONHASHSEED")
        (c / "test.sh").write_text(t)
        with LOCK:      # two of the tests interfere with those of another run
            sh(f"bash {c}/test.sh {c}/t.json")
        base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        got = json.load(open(c / "t.json")) if (c / "t.json").exists() else {"passed": []}
        miss = base - set(got["passed"])
        out.append(f"tests: {len(base & set(got['passed']))}/{len(base)}" + (f" MISSING {sorted(miss)[:4]}" if miss else ""))
    sh(f"cp -a {ROOT} {c}/verif && rm -r {c}/verif/seeded")
    for pid in [ns["PROP"], *ns.get("ALSO", [])]:
        r = sh(f"python3 check.py {pid}", cwd=c / "verif", env=dict(os.environ, VERIF_REPO=f"{c}/repo"))
        out.append(f"check {pid}: rc={r.returncode}")
        for l in r.stdout.splitlines():
            if re.search("VIOLATION|failing input|failed obl|undecided|note", l):
                out.append("   " + l[:260])
    shutil.rmtree(c)
    return "\n".join(out)


if __name__ == "__main__":
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    with ThreadPoolExecutor(2) as ex:
        for r in ex.map(lambda s: one(s, "--no-tests" not in sys.argv), args):
            print(r, flush=True)
