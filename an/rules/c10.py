"""The trace of a circuit holds every witness value at the place its gate is given, and nothing else."""
from script import *
from scripts import SCRIPTS

LEVEL = "other"
SERIAL = True
RULE = ("The trace-computing interpreter's driver operations, its deferral of predicted calls, its merging of the parts and its assembly "
        "are composed, by value numbering over their typed bodies, along circuits that exercise every operation: in the threaded and the "
        "serial configuration, for every mixture of predicted and unpredicted calls (none, all, outer only, inner only, the last only), "
        "and, where calls are deferred, with tasks run at once, in order, and in reverse, and their results arriving in either order. "
        "Every wire of the assembled polynomial must be the value the circuit gave it at the place of its gate; the first gate holds "
        "one and the blinding value; everything else is zero. A failure anywhere in a circuit must make the trace fail.")
ASSUME = ["Witness values are opaque.", "The composition fixes a rank of 16 gates."]
FLOOR = 120
W = "crates/ragu_circuits/src/trace.rs:1"
ALPHA = T("param", "alpha")
KNOWN = {
    "none predicted": lambda p: False,
    "all predicted": lambda p: True,
    "outer predicted": lambda p: p.count(".") == 1,
    "inner predicted": lambda p: p.count(".") > 1,
    "first predicted": lambda p: p.split(".")[0] == "r1",
    "later predicted": lambda p: p.split(".")[0] != "r1",
}
ORDERS = {"at once": dict(early=True), "in order": {}, "in reverse": dict(lifo=True)}


def calls(ops):
    return sum(1 + calls(o[2]) for o in ops if o[0] == "routine")


def depth(ops):
    return max([0] + [1 + depth(o[2]) for o in ops if o[0] == "routine"])


def traces(rep, serial, c, known, how):
    """Every outcome of tracing the circuit."""
    m = c.machine()
    m.known = KNOWN[known]
    if how is not None:
        Trace(m, **ORDERS[how])
    else:
        Trace(m)
    return c.run("trace", T("param", "circuit"), T("param", "w"), machine=m), m


def value(t):
    """The WithAux of a successful outcome, None for a failure."""
    if t.op == "adt" and t.args[1] == "Err":
        return None
    t = unresult(t)
    if t.op != "adt":
        raise Unknown(f"trace {t!r}"[:80])
    return t


def want(c):
    n = sum(s.gates for s in c.m.segs)
    plan = c.m.plan()
    out = {(w, i): L() for w in "abcd" for i in range(n)}
    for (w, s, g), v in c.m.wit.items():
        out[w, plan[s][0] + g] = v
    out["b", 0] = L.const(1)
    out["d", 0] = L.atom("alpha")
    return out


def combos(ops, serial):
    ks = ["none predicted"]
    if calls(ops):
        ks.append("all predicted")
    if depth(ops) > 1:
        ks += ["outer predicted", "inner predicted"]
    if sum(1 for o in ops if o[0] == "routine") > 1:
        ks += ["first predicted", "later predicted"]
    for k in ks:
        for h in ([None] if serial or k == "none predicted" else ORDERS):
            yield k, h


def placement(rep, serial):
    la = Laurent()
    for name, (ops, outs) in SCRIPTS.items():
        if name == "system":  # only raw circuits see the first gate
            continue
        for known, how in combos(ops, serial):
            c = Composed(rep, name, ops, outs)
            key = f"{'serial' if serial else 'threaded'}/{name}/{known}" + (f"/{how}" if how else "")
            tag = f"circuit '{name}', {known}" + (f", tasks {how}" if how else "") + (", serial" if serial else "")
            try:
                lv, m = traces(rep, serial, c, known, how)
                if lv is None:
                    return
                if len(lv) != 1:
                    if not lv:
                        rep.bad(key, W, f"{tag}: tracing never returns")
                    else:
                        rep.undecided(key, "several outcomes")
                    continue
                t = value(lv[0][1])
                if t is None:
                    rep.bad(key, W, f"{tag}: tracing fails: {show(lv[0][1])[:100]}")
                    continue
                d = dict(t.args[2])
                rep.check(any(x is T("param", "aux") for x in d.values()), key + "/aux", W, f"{tag}: the auxiliary data handed on are not the circuit's")
                tr = next((x for x in d.values() if x.op == "adt" and x.args[0].endswith("::Trace")), None)
                if tr is None:
                    raise Unknown("no trace")
                lv = c.run("assemble", tr, c.plan(), ALPHA)
                if not lv:
                    rep.bad(key, W, f"{tag}: its trace cannot be assembled")
                    continue
                if len(lv) != 1:
                    raise Unknown("several assemblies")
                t = lv[0][1]
                if t.op == "adt" and t.args[1] == "Err":
                    rep.bad(key, W, f"{tag}: its trace cannot be assembled: {show(t)[:100]}")
                    continue
                t = unresult(t)
                if t.op != "built" or t.args[0].op != "adt":
                    raise Unknown(f"polynomial {t!r}"[:80])
                got = {}
                for w, s in t.args[0].args[2]:
                    if w in "abcd" and s.op == "seq":
                        for i, x in enumerate(s.args):
                            got[w, i] = la(x)
                exp = want(c)
                diff = next((k for k in sorted(set(got) | set(exp)) if got.get(k, L()) != exp.get(k, L())), None)
                rep.check(diff is None, key, W, diff and f"{tag}: wire {diff[0]} of gate {diff[1]} is {got.get(diff, L())} where the circuit gives {exp.get(diff, L())}")
            except Unknown as e:
                rep.undecided(key, str(e))


FAILING = {
    "at the root": [("alloc", "w"), ("fail",)],
    "in a call": [("alloc", "w"), ("routine", ["w"], [("alloc", "p"), ("fail",)], [], []), ("alloc", "z")],
    "in a nested call": [("alloc", "w"), ("routine", ["w"], [("routine", ["i0"], [("fail",)], [], []), ("alloc", "p")], ["p"], ["v"]), ("alloc", "z")],
    "in an early call": [("alloc", "w"), ("routine", ["w"], [("fail",)], [], []), ("routine", ["w"], [("alloc", "p")], ["p"], ["v"])],
    "in a late call": [("alloc", "w"), ("routine", ["w"], [("alloc", "p")], ["p"], ["v"]), ("routine", ["w"], [("fail",)], [], [])],
    "while writing": [("onwrite", [("fail",)]), ("alloc", "w")],
}


def failures(rep, serial):
    for name, ops in FAILING.items():
        for known, how in combos(ops, serial):
            c = Composed(rep, name, ops, [])
            key = f"fail/{'serial' if serial else 'threaded'}/{name}/{known}" + (f"/{how}" if how else "")
            try:
                lv, m = traces(rep, serial, c, known, how)
                if lv is None:
                    return
                good = [t for _, t in lv if value(t) is not None]
                rep.check(not good, key, W, f"a failure {name} ({known}{', tasks ' + how if how else ''}{', serial' if serial else ''}) leaves a trace all the same")
            except Unknown as e:
                rep.undecided(key, str(e))


def both(f):
    def g(rep):
        f(rep, False)
        if rep.serial is not None:
            prog = rep.prog
            rep.prog = rep.serial
            try:
                f(rep, True)
            finally:
                rep.prog = prog
    return g


PARTS = {"placement": both(placement), "failures": both(failures)}
