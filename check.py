#!/usr/bin/env python3
"""check.py <property id>: decide one property against /repo's current source.

Two processes run side by side, both on /repo's working tree:
  prove.py        contracts -> verification conditions -> Z3 (the deciding step)
  harness/run.py  the same postconditions executed on the real, uninstrumented code in scratch directories:
                  the replay of failed obligations, the stand-in for what is outside the verifier's reach (bounded)
Outcome: see DESIGN.md, section "Outcomes".
"""
import json
import os
import pathlib
import subprocess
import sys
import time

ROOT = pathlib.Path(__file__).resolve().parent
PY = os.environ.get("VERIF_PYTHON", "/opt/venv/bin/python")
REPO = os.environ.get("VERIF_REPO", "/repo")


def start(cmd, env, log):
    return subprocess.Popen(cmd, cwd=ROOT, env=env, stdout=subprocess.PIPE, stderr=log, text=True,
                            start_new_session=True)


def finish(p, limit):
    try:
        out, _ = p.communicate(timeout=max(1, limit))
        return out, p.returncode
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        out, _ = p.communicate()
        return out or "", None


def last_json(out):
    for line in reversed((out or "").strip().splitlines()):
        if line.startswith("{"):
            try:
                return json.loads(line)
            except ValueError:
                continue
    return None


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER") or "quick"
    if "--thorough" in sys.argv:
        tier = "thorough"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED") or "1")
    except ValueError:
        seed = 1
    t0 = time.time()
    ev_dir = ROOT / "evidence"
    ev_dir.mkdir(exist_ok=True)
    env = dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE="1", VERIF_TIER=tier, VERIF_SEED=str(seed),
               OMP_NUM_THREADS="2", MKL_NUM_THREADS="2", PYTHONHASHSEED="0", NEPS_LOGGING="0")
    info = json.loads((ROOT / "contracts" / "info.json").read_text())[prop]
    logs = [open(ev_dir / f".{prop}.{n}.log", "w") for n in ("prove", "harness")]
    has_contracts = (ROOT / "contracts" / f"{prop.lower()}.py").exists()
    pr = start([PY, str(ROOT / "prove.py"), prop, "--repo", REPO], env, logs[0]) if has_contracts else None
    ha = start([PY, str(ROOT / "harness" / "run.py"), prop], env, logs[1])
    limit = 780 if tier == "quick" else 3300
    h_out, h_rc = finish(ha, limit - (time.time() - t0))
    p_out, p_rc = finish(pr, limit - (time.time() - t0)) if pr else ("", 0)
    for l in logs:
        l.close()
    proof = last_json(p_out) if pr else {"contracts": [], "load_error": None}
    harness = last_json(h_out)

    # ---------------------------------------------------------------- the proof
    failed, undecided = [], []
    n_ob = n_dis = n_unknown = 0
    solver = 0.0
    functions = []
    if proof is None:
        undecided.append("the prover gave no answer: " + (ev_dir / f".{prop}.prove.log").read_text()[-500:])
        proof = {"contracts": [], "load_error": None}
    if proof.get("load_error"):
        undecided.append("contracts could not be loaded: " + proof["load_error"][-1500:])
    for c in proof["contracts"]:
        solver += c["solver_seconds"]
        functions += [f for f in c["targets"] if f not in functions]
        for name, o in c["obligations"].items():
            n_ob += o["proved"] + o["failed"] + o["unknown"]
            n_dis += o["proved"]
            n_unknown += o["unknown"]
            if o["failed"]:
                failed.append({"contract": c["name"], "functions": c["targets"], "obligation": name,
                               "verifier": o["detail"]})
            elif o["unknown"]:
                undecided.append(f"{c['name']}: solver undecided on '{name}'")
        if c["unsupported"]:
            undecided.append(f"{c['name']}: outside the verifier's reach: {c['unsupported'][0]}")
        if c["errors"]:
            undecided.append(f"{c['name']}: contract error: {c['errors'][0][-800:]}")
        if not c["obligations"]:
            undecided.append(f"{c['name']}: no obligation was generated")
        for k, v in c["covers"].items():
            if not v:
                undecided.append(f"{c['name']}: '{k}' is not reachable")
        miss = set(info.get("covers", {}).get(c["name"], [])) - set(c["covers"])
        if miss:
            undecided.append(f"{c['name']}: never reached: {sorted(miss)}")
    want = info.get("contracts", 0)
    if pr and len(proof["contracts"]) < want and not proof.get("load_error"):
        undecided.append(f"only {len(proof['contracts'])} of {want} contracts were run")

    # ---------------------------------------------------------------- the bounded run on the real code
    broken = []
    notes = []
    if harness is None:
        notes.append("the bounded run gave no result (rc %s): %s" % (
            h_rc, (ev_dir / f".{prop}.harness.log").read_text()[-800:]))
        harness = {"cases": [], "evaluations": 0, "distinct": 0, "samples": [], "violations": [], "notes": []}
    broken = harness["violations"]
    notes += harness.get("notes", [])

    # ---------------------------------------------------------------- known findings
    known = []
    kf = ROOT / "known-findings.json"
    if kf.exists():
        for f in json.loads(kf.read_text())["findings"]:
            if f["property"] == prop:
                known.append(f)
    left = []
    for b in broken:
        k = next((f for f in known if f["case"] == b["case"] and f["match"] in b["message"]), None)
        if k:
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
        else:
            left.append(b)
    broken = left

    complete = bool(pr) and not failed and not undecided and n_ob > 0
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": info["level"],
        "coverage": {
            "obligations": n_ob, "discharged": n_dis,
            "checker_cmd": f"{PY} {ROOT}/prove.py {prop}",
            "trusted_base": info["trusted"],
            "back_end": "z3 (Python bindings, in process), term rewriting for trivial conditions",
            "functions_under_contract": functions,
            "contracts": [{k: c[k] for k in ("name", "targets", "paths", "completed", "covers", "queries",
                                             "solver_seconds", "seconds")} for c in proof["contracts"]],
            "solver_seconds": round(solver, 3),
            "proof_complete": complete,
            "undecided": undecided[:20],
            "failed_obligations": [f["contract"] + ": " + f["obligation"] for f in failed],
            "bounded": {"what": info["bounded"], "counted_as_proved": False,
                        "evaluations": harness["evaluations"], "distinct_nontrivial": harness["distinct"],
                        "cases": harness["cases"], "samples": harness["samples"][:6], "notes": notes[:20]},
            "evaluations": harness["evaluations"], "distinct_nontrivial": harness["distinct"],
            "rule": info["rule"], "samples": harness["samples"][:6],
            "explanation": info["explanation"],
        },
        "assumptions": info["assumptions"],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(broken) + len(failed),
    }
    (ev_dir / f"{prop}.json").write_text(json.dumps(ev, indent=1, default=str))

    print(f"{prop}: {n_dis}/{n_ob} obligations discharged over {len(functions)} functions "
          f"({len(proof['contracts'])} contracts, solver {solver:.1f}s); bounded run: {harness['evaluations']} "
          f"evaluations, {len(broken)} failing; {time.time() - t0:.0f}s")
    for u in undecided[:8]:
        print("  undecided:", u[:600].replace("\n", " | "))
    for n in notes[:5]:
        print("  note:", n[:400].replace("\n", " | "))
    if broken or failed:
        rp = ev_dir / f"{prop}.replay.json"
        rp.write_text(json.dumps({"property": prop, "seed": seed, "tier": tier, "failing_inputs": broken,
                                  "failed_obligations": failed,
                                  "rerun": [f"cd {ROOT} && PYTHONPATH={REPO} VERIF_SEED={seed} VERIF_TIER={tier} {PY} "
                                            f"harness/run.py {prop} --case {b['case']}" for b in broken[:5]]
                                  + [f"{PY} {ROOT}/prove.py {prop} --only {f['contract']}" for f in failed[:5]]},
                                 indent=1, default=str))
        for b in broken[:5]:
            print(f"  failing input [{b['case']}]: {b['message'][:1500]}")
        for f in failed[:5]:
            print(f"  failed obligation [{f['contract']}]: {f['obligation']} ({', '.join(f['functions'])})")
        if broken:
            print(f"VIOLATION property={prop} replay={rp}")
        else:
            print(f"VIOLATION property={prop} replay={rp} no-failing-input-found")
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
