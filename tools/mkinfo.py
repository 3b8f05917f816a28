#!/usr/bin/env python3
"""mkinfo.py [--covers]: writes contracts/info.json and MANIFEST.json from the tables below.
--covers also runs prove.py for every property and pins the reached cover points (a contract that stops reaching one is undecided)."""
import json
import pathlib
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

ROOT = pathlib.Path(__file__).resolve().parent.parent
BASE = [
    "the contract interpreter in /verif/pyvc (path exploration, translation of Python operations on symbolic values to Z3 terms)",
    "z3 4.x (Python bindings)",
    "CPython executing the instrumented functions (the functions are imported from /repo's source; the import hook only rewrites loops, "
    "comprehensions, branches and calls into hooks of the same meaning)",
]
ASSUME = [
    "floats are mathematical reals, or reals plus NaN/inf markers, unless the contract says otherwise; integers are unbounded",
    "logging, string formatting of messages and type annotations have no effect on the verified behaviour",
]
P = {}


def p(pid, note, trusted=(), assume=(), bounded="", rule="", level="proof", expl=""):
    P[pid] = dict(level=level, trusted=BASE + list(trusted), assumptions=ASSUME + list(assume), bounded=bounded,
                  rule=rule or "an evaluation is one input, history or schedule on which the property's postcondition was executed on the "
                  "real code; it is distinct if its description differs and non-trivial if it reaches the property's code",
                  explanation=expl or note, note=note)


exec((ROOT / "tools" / "info_tables.py").read_text())


def covers(pid):
    r = subprocess.run(["/opt/venv/bin/python", str(ROOT / "prove.py"), pid], capture_output=True, text=True,
                       env={"PYTHONPATH": "/repo", "PATH": "/usr/bin:/bin", "PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1"})
    d = json.loads(r.stdout.strip().splitlines()[-1])
    bad = [(c["name"], o) for c in d["contracts"] for o, x in c["obligations"].items() if x["failed"] or x["unknown"]]
    bad += [(c["name"], c["unsupported"][:1], c["errors"][:1]) for c in d["contracts"] if c["unsupported"] or c["errors"]]
    return pid, {c["name"]: sorted(k for k, v in c["covers"].items() if v) for c in d["contracts"]}, bad


def main():
    path = ROOT / "contracts" / "info.json"
    old = json.loads(path.read_text()) if path.exists() else {}
    for pid, e in P.items():
        e["covers"] = old.get(pid, {}).get("covers", {})
        e["contracts"] = old.get(pid, {}).get("contracts", 0)
    todo = [a for a in sys.argv[1:] if a in P] or (list(P) if "--covers" in sys.argv else [])
    with ThreadPoolExecutor(4) as ex:
        for pid, c, bad in ex.map(covers, todo):
            P[pid]["covers"], P[pid]["contracts"] = c, len(c)
            print(pid, len(c), "contracts", "NOT DISCHARGED: " + str(bad) if bad else "")
    path.write_text(json.dumps(P, indent=1, sort_keys=True) + "\n")
    man = {"version": 1, "setup_cmd": "true",
           "checks": [{"property": pid, "quick_cmd": f"python3 check.py {pid}", "thorough_cmd": f"python3 check.py {pid} --thorough",
                       "evidence_file": f"evidence/{pid}.json",
                       "technique": "contracts on the real functions, obligations discharged by a symbolic-execution VC generator and Z3",
                       "level": e["level"], "level_note": e["note"]} for pid, e in sorted(P.items())],
           "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()]}
    allp = [json.loads(l)["id"] for l in (ROOT / "properties.jsonl").read_text().splitlines() if l.strip()]
    man["not_applicable"] += [{"property": k, "reason": "check under construction"} for k in allp if k not in P and k not in NA]
    (ROOT / "MANIFEST.json").write_text(json.dumps(man, indent=1) + "\n")


main()
