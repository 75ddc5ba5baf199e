"""Writes DESIGN.md."""
import ast
import glob
import json
import os

import props

ROOT = props.ROOT


def rule(pid):
    p = os.path.join(ROOT, "an", "rules", pid.lower() + ".py")
    out = {}
    for n in ast.parse(open(p, encoding="utf-8").read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("RULE", "ASSUME", "BOUNDS"):
            out[n.targets[0].id] = ast.literal_eval(n.value)
    return out


def main():
    s = open(os.path.join(ROOT, "tools", "design_head.md"), encoding="utf-8").read()
    seeds = {}
    for m in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
        d = json.load(open(m))
        seeds.setdefault(d["property"], []).append((os.path.basename(os.path.dirname(m)), d))
    s += "## Properties\n\n"
    na = []
    for d, tech, note, why in sorted(props.P, key=lambda x: x[0]["id"]):
        if why:
            na.append((d, why))
            continue
        r = rule(d["id"])
        s += f"### {d['id']} {d['title']}\n\n{d['statement']}\n\n"
        s += f"- **Decided by** {tech} (`an/rules/{d['id'].lower()}.py`). {r['RULE']}\n"
        s += f"- **Bounds and assumptions.** {note}" + "".join(" " + a.rstrip(".") + "." for a in r.get("ASSUME", [])) + "\n"
        s += f"- **Beyond tests.** {d['why_tests_cant']}\n"
        for i, m in seeds.get(d["id"], []):
            s += f"- **Catches** `{i}`: {m['what_it_breaks']} Needs: {m['needs']}.\n"
        s += "\n"
    s += "## Not applicable\n\n"
    for d, why in na:
        s += f"- **{d['id']} {d['title']}**: {why}\n"
    open(os.path.join(ROOT, "DESIGN.md"), "w", encoding="utf-8").write(s)


if __name__ == "__main__":
    main()
