#!/usr/bin/env python3
"""Fill the generated sections of DESIGN.md."""
import ast
import json
import pathlib
import re

R = pathlib.Path(__file__).resolve().parent.parent
info = json.loads((R / "contracts/info.json").read_text())
props = [json.loads(l) for l in (R / "properties.jsonl").read_text().splitlines()]


def targets(prop):
    out, names = [], []
    for f in sorted((R / "contracts").glob("*.py")):
        t = ast.parse(f.read_text())
        consts = {}
        for n in t.body:
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
                try:
                    consts[n.targets[0].id] = ast.literal_eval(n.value)
                except ValueError:
                    pass
        for n in ast.walk(t):
            if not isinstance(n, ast.FunctionDef):
                continue
            for d in n.decorator_list:
                if isinstance(d, ast.Call) and getattr(d.func, "id", "") == "contract" and \
                        prop in ast.literal_eval(d.args[0]).split():
                    names.append(n.name)
                    for a in d.args[1:]:
                        if isinstance(a, ast.Starred):
                            out += [x for x in consts.get(a.value.id, ())]
                        elif isinstance(a, ast.Constant):
                            out.append(a.value)
    return names, list(dict.fromkeys(out))


def sec_props():
    o = []
    for p in props:
        i = info.get(p["id"])
        if not i:
            continue
        n, t = targets(p["id"])
        std = 3
        o.append(f"### {p['id']} {p['title']}\n")
        o.append(i["explanation"] + "\n")
        short = [".".join(x.split(".")[-2:]) for x in t]
        o.append(f"- Contracts ({len(n)}): {', '.join(n)}.")
        o.append(f"- Functions: {', '.join(dict.fromkeys(short))}.")
        if i["trusted"][std:]:
            o.append(f"- Trusted: {'; '.join(i['trusted'][std:])}.")
        if i["assumptions"][2:]:
            o.append(f"- Assumed: {'; '.join(i['assumptions'][2:])}.")
        o.append(f"- Bounded stand-in (`harness/{p['id'].lower()}.py`): {i['bounded']}.\n")
    return "\n".join(o)


def sec_fixed():
    return "\n".join("- " + f[len("fixed: property="):] for f in json.loads((R / "known-findings.json").read_text())["fixed"])


def sec_seeds():
    by = json.loads((R / "tools/caught.json").read_text())
    o = ["| bug | property | breaks | caught by |", "|---|---|---|---|"]
    for d in sorted((R / "seeded").iterdir()):
        m = json.loads((d / "meta.json").read_text())
        o.append(f"| {d.name} | {m['property']} | {m['what_it_breaks']} | {by.get(d.name, '?')} |")
    return "\n".join(o)


text = (R / "DESIGN.md").read_text()
for k, f in (("properties", sec_props), ("fixed", sec_fixed), ("seeds", sec_seeds)):
    b, e = f"<!-- generated: {k} -->", f"<!-- end: {k} -->"
    if e in text:
        text = re.sub(re.escape(b) + ".*?" + re.escape(e), lambda m: b + "\n" + f() + "\n" + e, text, flags=re.S)
    else:
        text = text.replace(b, b + "\n" + f() + "\n" + e)
(R / "DESIGN.md").write_text(text)
