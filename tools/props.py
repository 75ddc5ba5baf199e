"""The properties and what claims them; `python3 tools/props.py` writes properties.jsonl and MANIFEST.json."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(id, title, statement, over, quant, why, files, mech, technique=None, note=None, state=None, observe=None, na=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": quant}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        d["anchors"]["observe_at"] = observe
    P.append((d, technique, note, na))


exec(open(os.path.join(ROOT, "tools", "props_data.py"), encoding="utf-8").read())


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w", encoding="utf-8") as f:
        for d, *_ in sorted(P, key=lambda x: x[0]["id"]):
            assert len(d["title"]) <= 80, d["title"]
            f.write(json.dumps(d, ensure_ascii=False) + "\n")
    checks, na = [], []
    for d, tech, note, why in sorted(P, key=lambda x: x[0]["id"]):
        if why:
            na.append({"property": d["id"], "reason": why})
            continue
        c = f"python3 an/check.py {d['id']}"
        checks.append({"property": d["id"], "quick_cmd": c, "thorough_cmd": c + " --tier thorough", "technique": tech, "level": "other", "level_note": note})
    m = {"version": 1, "setup_cmd": "python3 tools/extract.py", "checks": checks, "not_applicable": na,
         "notes": "Every check type-checks the current /repo through a rustc driver (stand-ins for the git dependencies are in shims/), "
                  "then decides from the typed trees; nothing of /repo is run except the proc-macro crate that rustc needs for expansion."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w", encoding="utf-8") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")


if __name__ == "__main__":
    main()
