"""No failure of a fallible operation is dropped: every error is propagated, turned into another one, or ends the program."""
import errs
from q import *

LEVEL = "other"
RULE = ("Every call in non-test code whose result can carry the library's error is located in the typed syntax tree and the "
        "consumption of its result is classified: propagated with ?, returned, matched with an error arm that leaves with an error, "
        "handed to a function, or unwrapped. A result that is discarded, bound to _, never used, defaulted (ok, unwrap_or, map_or, "
        "..), skipped (flatten) or matched with an error case that goes on as if nothing had happened is a violation.")
ASSUME = []
FLOOR = 700
SERIAL = True


def run(rep):
    scan(rep, rep.prog)
    if rep.serial is not None:
        main = {f.path for f in rep.prog.all_fns()}
        scan(rep, rep.serial, lambda f: "trace" in f.path or f.path not in main, "serial/")


def scan(rep, prog, sel=None, pre=""):
    for f in prog.all_fns():
        if sel and not sel(f):
            continue
        if f.crate.endswith("_build") or f.broken:
            continue
        n = {}
        for e, v, why in errs.Errs(f).sites():
            rep.seen(f)
            rep.sites += 1
            c = str(callee(e) or "a closure")
            name = c.split("::")[-1].rstrip(">")
            i = n.get(name, 0)
            n[name] = i + 1
            key = f"{pre}{f.path}/{name}#{i}"
            if v == "ok":
                rep.ok(key)
            elif v == "bad":
                rep.bad(f"{f.path}/{name}/{why}", f"{f.file}:{e['l']}", f"{f.path} calls {c}, which can fail: {why}")
            else:
                rep.undecided(key, why)
