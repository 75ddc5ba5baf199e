"""Runs the rules of one property over the current /repo.

usage: check.py PROPERTY [--tier quick|thorough] [--repo DIR]
"""
import importlib
import json
import os
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path[:0] = [HERE, os.path.join(ROOT, "tools")]
import extract  # noqa: E402
import q  # noqa: E402


def known():
    p = os.path.join(ROOT, "known_findings.jsonl")
    out = {}
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and not line.startswith("#") and not line.startswith("fixed:"):
                d = json.loads(line)
                out[(d["property"], d["key"])] = d
    return out


def late(*_):
    raise TimeoutError("the analysis takes too long")


def decide(mod, prop, rep, label=""):
    for name, f in mod.PARTS.items() if hasattr(mod, "PARTS") else {"all": mod.run}.items():
        try:
            signal.setitimer(signal.ITIMER_REAL, 150)
            f(rep)
            signal.setitimer(signal.ITIMER_REAL, 0)
        except Exception as e:  # a construct the rule does not understand is no verdict
            signal.setitimer(signal.ITIMER_REAL, 0)
            if os.environ.get("VERIF_DEBUG"):
                traceback.print_exc()
            tb = traceback.extract_tb(e.__traceback__)[-1]
            rep.undecided(f"rule/{name}", f"{type(e).__name__}: {e} at {os.path.basename(tb.filename)}:{tb.lineno}")
    if hasattr(mod, "FLOOR") and not label:
        rep.floor(mod.FLOOR, prop)


def main():
    signal.signal(signal.SIGALRM, late)
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    repo = sys.argv[sys.argv.index("--repo") + 1] if "--repo" in sys.argv else "/repo"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    mod = importlib.import_module(f"rules.{prop.lower()}")
    d = extract.extract(repo)
    status = json.load(open(os.path.join(d, "status.json")))
    prog = q.Program(os.path.join(d, "main"))
    serial = None
    if (getattr(mod, "SERIAL", False) or tier == "thorough") and os.path.isdir(os.path.join(d, "serial")):
        serial = q.Program(os.path.join(d, "serial"))
    rep = q.Report(prog, serial, status)
    rep.tier = tier
    rep.dir = d
    if status["unresolved"]:
        for u in status["unresolved"]:
            rep.undecided("type-check", u)
    else:
        decide(mod, prop, rep)
        if tier == "thorough" and serial is not None and getattr(mod, "BOTH", True):
            # the same decision over the other configuration of the sources
            other = q.Report(serial, serial, status)
            other.tier, other.dir = tier, d
            decide(mod, prop, other, "serial")
            rep.merge(other, "serial/")
    kf = known()
    fresh, listed = [], []
    for b in rep.bads:
        (listed if (prop, b.key) in kf else fresh).append(b)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    n = len(rep.oks) + len(rep.bads) + len(rep.undec)
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": mod.LEVEL,
        "coverage": {
            "explanation": mod.RULE,
            "obligations": n,
            "discharged": len(rep.oks),
            "undecided": len(rep.undec),
            "functions_analysed": len(rep.fns),
            "call_sites_analysed": rep.sites,
            "program": {"functions": sum(1 for _ in prog.all_fns()), "crates": len(prog.crates), "digest": status["digest"], "stubbed": status["stubbed"]},
            "obligation_keys": sorted(set(rep.oks))[:400],
            "undecided_detail": [f"{k}: {w}" for k, w in rep.undec][:60],
            "functions": sorted(rep.fns)[:400],
        },
        "wall_s": round(time.time() - t0, 2),
        "violations": len(fresh),
        "assumptions": list(getattr(mod, "ASSUME", [])) + rep.assume,
    }
    if fresh:
        ev["coverage"]["violated"] = [{"key": b.key, "where": b.where, "what": b.msg} for b in fresh]
    if listed:
        ev["coverage"]["known_findings"] = [b.key for b in listed]
    with open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    for b in listed:
        print(f"KNOWN-FINDING: property={prop} {b.key}: {b.msg}")
    for k, w in rep.undec:
        print(f"UNDECIDED {k}: {w}")
    for b in fresh:
        print(f"  {b.where}: {b.msg}  [{b.key}]")
    print(f"{prop}: {len(rep.oks)} of {n} obligations discharged over {len(rep.fns)} functions, {len(fresh)} violated, {len(listed)} known, {len(rep.undec)} undecided ({ev['wall_s']} s)")
    if fresh:
        rp = os.path.join(ROOT, "evidence", f"{prop}.replay.txt")
        with open(rp, "w") as f:
            f.write(f"# python3 an/check.py {prop} re-derives these from the source\n")
            for b in fresh:
                f.write(f"{b.where}\t{b.key}\t{b.msg}\n")
        print(f"VIOLATION property={prop} replay={rp}")
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
