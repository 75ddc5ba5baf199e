"""The base case: only a step whose children both carry the unit header may leave the folded claim free."""
from flow import Frame
from joint import *
import rules.c15 as c15
import rules.c23 as c23
import rules.c25 as c25

LEVEL = "other"
RULE = ("The internal circuits are evaluated by value numbering on the prover's witnesses. Every polynomial a circuit enforces on the instance's c "
        "is split into the part free of tests for zero and the factor the tests contribute. The factor must be one minus the product of two "
        "tests, of the suffix element of the left child's output header against a constant and of the right child's; those elements must be "
        "staged values, the same ones the circuits expose as the children's headers. The constant must be the number the unit header's suffix "
        "evaluates to, and the number of an application's suffix must exceed it whatever the application chose.")
ASSUME = ["A header size of 4 stands for all.", "Where an encoded header keeps its suffix is C19's."]
FLOOR = 6
HEADER = "ragu_pcd::header::"


def number(rep, v):
    """The number of a suffix."""
    f = rep.need(HEADER + "Suffix::get")
    if f is None:
        return None
    rep.seen(f)
    fl = Flow(rep.prog, hooks={"fold_consts": True})
    nodes, r = fl.run(f, pos=[v])
    return None if r is NEVER else fl.val(r)


def suffixes(rep):
    """(the unit header's number, the number of an application's suffix chosen as `value`)."""
    c = next((c for k, c in rep.prog.consts.items() if k.startswith("<() as ") and k.endswith("Header>::SUFFIX")), None)
    new = rep.need(HEADER + "Suffix::new")
    if c is None or new is None:
        return None, None
    fl = Flow(rep.prog, hooks={"fold_consts": True, "eval_consts": True})
    fl.run(new)
    unit = fl.val(fl.constbody(c, None)) if "cv" not in c or c["cv"] is None else None
    fl = Flow(rep.prog, hooks={"fold_consts": True})
    nodes, v = fl.run(new)
    v = fl.deref_all(fl.val(v))
    return number(rep, unit) if unit is not None else None, number(rep, v)


def run(rep):
    try:
        told = Told(rep)
        k, app = suffixes(rep)
        where = rep.prog.fn(HEADER + "Suffix::get").where
        R = Ring()
        unit = None
        p = R(strip(k)) if k is not None else None
        if p is None or not p.isconst():
            told.undecided("unit", "the unit header's suffix")
        else:
            unit = int(p.constval())
            told.ok("unit")
        q = R(strip(app)) if app is not None else None
        if q is None or unit is None:
            told.undecided("application", "an application's suffix")
        elif len(q.atoms()) == 1 and R.atoms[next(iter(q.atoms()))].op == "param" and q.m.get(((next(iter(q.atoms())), 1),)) == 1 and len(q.m) <= 2:
            low = q.m.get((), 0)
            if low > unit:
                told.ok("application")
            else:
                told.bad("application", f"an application's suffix can have the number {max(low, unit)}, which stands for the unit header", where)
        else:
            told.undecided("application", f"an application's suffix has the number {show(app, 4)[:120]}")
        J = Joint(rep, only=("hashes_1", "outer_collapse", "inner_collapse"))
        for n in ("hashes_1", "outer_collapse"):
            if n not in J.circuits or not J.circuits[n].slots:
                return rep.undecided(f"circuit/{n}", f"{n} was not understood")
        base(told, J, unit)
    except Odd as e:
        rep.undecided("fuse", str(e))


def strip(t):
    while t.op == "cast":
        t = t.args[-1] if isinstance(t.args[-1], T) else t.args[0]
    return T(t.op, *[strip(a) if isinstance(a, T) else a for a in t.args])


def base(rep, J, unit):
    N = J.circuits["outer_collapse"]
    where = N.fn.where
    if any(M.facts.guarded for M in J.circuits.values()):
        return rep.undecided("condition", "an equality is enforced conditionally")
    E = c23.Enforced(J)
    hits = c23.outer(J, E)
    if not hits:
        odd = E.with_(lambda x: x == "c")
        if odd:
            return rep.undecided("condition", "the constraint on c has an unknown condition")
        return rep.bad("condition", "no circuit constrains the folded claim", where)
    # where the suffixes of the children's headers are staged
    H1 = J.circuits["hashes_1"]
    P = c15.places(H1)
    d = names(names(names(H1.out).get("output", H1.out)).get("inner", T("lit", "")))
    want = {}
    for side in ("left", "right"):
        h = flat(d[f"{side}_header"]) if f"{side}_header" in d else []
        at = P.get(h[-1]) if len(h) == H else None
        if at is None:
            return rep.undecided("headers", f"where the {side} child's header is staged")
        want[("stage", *at)] = side
        rep.ok(f"headers/{side}")
    best = None
    for n, p, factor in hits:
        where = J.circuits[n].fn.where
        tests = [g for g in factor if g]
        if not tests:
            best = ("strict", n)
            break
        if len(tests) > 1 or factor.get(()) != 1 or factor[tests[0]] != -1:
            terms = {x for g in tests for x, _ in g}
            if len(tests) == 1 and () not in factor:
                rep.bad("condition", f"{n} forces the folded claim only for steps from nothing, and lets it go free for all others", where)
            elif len(tests) >= 1 and all(which(x, want) for x in terms):
                rep.bad("condition", f"{n} lets the folded claim go free unless both children's headers pass the test, instead of only when both are the unit header's", where)
            else:
                rep.undecided("condition", f"{n}'s condition was not understood")
            return
        got = {}
        for x, e in tests[0]:
            w = which(x, want)
            if w is None:
                rep.bad("condition", f"{n} frees the folded claim on a test that does not read the suffix of a child's header", where)
                return
            got.setdefault(w[0], set()).add(w[1])
        for side in ("left", "right"):
            if side not in got:
                rep.bad(f"condition/{side}", f"{n} frees the folded claim without asking whether the {side} child carries the unit header", where)
            elif unit is None:
                rep.undecided(f"condition/{side}", "the unit header's suffix")
            elif got[side] == {unit}:
                rep.ok(f"condition/{side}")
            else:
                rep.bad(f"condition/{side}", f"{n} takes the {side} child for a step from nothing when its suffix is {sorted(got[side])}; the unit header's is {unit}", where)
        best = ("gated", n)
    if best[0] == "strict":
        rep.bad("condition", f"{best[1]} never frees the folded claim, so that no step from nothing can be proved", where)
    else:
        rep.ok("condition")


def which(x, want):
    """(side, constant) of a test for zero on the suffix of a child's header."""
    m = dict(x[1])
    lin = [(k, v) for k, v in m.items() if k]
    if len(lin) != 1 or len(lin[0][0]) != 1 or lin[0][0][0][1] != 1 or lin[0][1] not in (1, -1):
        return None
    side = want.get(lin[0][0][0][0])
    return (side, -m.get((), 0) * lin[0][1]) if side else None
