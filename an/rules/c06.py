"""What the metrics record of a circuit is what the circuit creates, and what the plan places."""
from script import *
from scripts import SCRIPTS

LEVEL = "other"
RULE = ("The counting interpreter's driver operations are composed, by value numbering over their typed bodies, along circuits that "
        "exercise every operation. Per sub-circuit call, in order of entry, the recorded gates and constraints must be the ones the "
        "circuit creates there; totals and the number of outputs must follow; the plan made of the record must place the calls "
        "contiguously from the origin. The identity recorded for a sub-circuit must be the same term wherever and with whichever wires "
        "it is called, and a different one when any coefficient, wire, order of constraints or count in it differs.")
ASSUME = ["Hash outputs are opaque terms, equal exactly for equal hash inputs."]
FLOOR = 60
M = "crates/ragu_circuits/src/metrics.rs:1"
FP = "crates/ragu_circuits/src/floor_planner.rs:1"


class Open(Laurent):
    """Opaque calls are atoms."""

    def go(self, t):
        try:
            return Laurent.go(self, t)
        except Unknown:
            if t.op in ("call", "hash", "digest"):
                return L.atom(f"t{t.id}")
            raise


def num(t):
    t = t.args[1] if t.op == "into" else t
    if t.op == "lit" and str(t.args[0]).lstrip("-").isdigit():
        return int(t.args[0])
    raise Unknown(f"count {t!r}"[:80])


def fields(t):
    if t.op != "adt":
        raise Unknown(f"record {t!r}"[:80])
    return dict(t.args[2])


def get(t, name):
    d = fields(t)
    if name not in d:
        raise Unknown(f"no {name}")
    return d[name]


def measured(c):
    lv = c.run("metrics", T("param", "circuit"))
    if lv is None:
        raise Unknown("no outcome")
    if not lv:
        return None
    if len(lv) != 1:
        raise Unknown("several outcomes")
    t = lv[0][1]
    if t.op == "adt" and t.args[1] == "Err":
        return None
    return unresult(t)


def counts_(rep):
    for name, (ops, outs) in SCRIPTS.items():
        c = Composed(rep, name, ops, outs)
        try:
            t = measured(c)
            if t is None:
                rep.bad(f"counts/{name}", M, f"circuit '{name}' cannot be measured")
                continue
            segs = get(t, "segments").args
            got = [(num(get(s, "num_gates")), num(get(s, "num_constraints"))) for s in segs]
            want = [(s.gates, len(s.cons)) for s in c.m.segs]
            rep.check(len(got) == len(want), f"segments/{name}", M, f"circuit '{name}' has {len(want)} parts, {len(got)} are recorded")
            for i, (g, w) in enumerate(zip(got, want)):
                rep.check(g == w, f"counts/{name}/{i}", M, f"part {i} of circuit '{name}' has {w[0]} gates and {w[1]} constraints, recorded as {g[0]} and {g[1]}")
            tot = num(get(t, "num_gates")), num(get(t, "num_constraints"))
            rep.check(tot == tuple(map(sum, zip(*want))), f"totals/{name}", M, f"circuit '{name}': totals recorded as {tot}")
            rep.check(num(get(t, "degree_ky")) == len(outs), f"degree/{name}", M, f"circuit '{name}' has {len(outs)} outputs, recorded as {num(get(t, 'degree_ky'))}")
            ids = [get(s, "identity") for s in segs]
            for i, x in enumerate(ids):
                if x.op != "adt":
                    raise Unknown("identity")
                rep.check((x.args[1] == "Root") == (i == 0), f"identity/{name}/{i}", M, f"part {i} of circuit '{name}' is recorded as {x.args[1]}")
        except Unknown as e:
            rep.undecided(f"counts/{name}", str(e))
            continue
        try:
            plan = c.plan()
            got = [(num(get(s, "gate_start")), num(get(s, "constraint_start")), num(get(s, "num_gates")), num(get(s, "num_constraints"))) for s in plan.args]
            want = [p + (s.gates, len(s.cons)) for p, s in zip(c.m.plan(), c.m.segs)]
            rep.check(got == want, f"plan/{name}", FP, f"circuit '{name}' is placed at {got}, where its parts {[w[2:] for w in want]} take {[w[:2] for w in want]}")
        except Unknown as e:
            rep.undecided(f"plan/{name}", str(e))


def canon(t, la):
    """An identity up to equal field values."""
    if not isinstance(t, T):
        return t
    if t.op in ("bin", "sum", "un") or (t.op == "call" and t.args[0].split("::")[-1] in ("square", "double", "pow_vartime", "from_uniform_bytes")):
        try:
            return ("value", la(t))
        except Unknown:
            pass
    return (t.op, *[tuple((n, canon(x, la)) for n, x in a) if isinstance(a, tuple) else canon(a, la) for a in t.args])


BODY = [("mul", ["a", "b", "c"]), ("alloc", "p"), ("alloc", "q"), ("zero", [("t", "a", "k1"), ("t", "i0", "1")]), ("zero", [("t", "p", "1"), ("t", "q", "-1"), ("t", "ONE", "k2")]),
        ("gate", ["d", "e", "f", "g"]), ("zero", [("t", "i1", "1"), ("t", "g", "1")])]


def at_(i, *new):
    return BODY[:i] + list(new) + BODY[i + 1:]


VARIANTS = {
    "given": BODY,
    "coefficient": at_(3, ("zero", [("t", "a", "k9"), ("t", "i0", "1")])),
    "sign": at_(3, ("zero", [("t", "a", "k1"), ("t", "i0", "-1")])),
    "left for right": at_(3, ("zero", [("t", "b", "k1"), ("t", "i0", "1")])),
    "output for left": at_(3, ("zero", [("t", "c", "k1"), ("t", "i0", "1")])),
    "other input": at_(3, ("zero", [("t", "a", "k1"), ("t", "i1", "1")])),
    "no input": at_(3, ("zero", [("t", "a", "k1")])),
    "constant": at_(3, ("zero", [("t", "a", "k1"), ("t", "ONE", "1")])),
    "constant's coefficient": at_(4, ("zero", [("t", "p", "1"), ("t", "q", "-1"), ("t", "ONE", "k3")])),
    "no constant": at_(4, ("zero", [("t", "p", "1"), ("t", "q", "-1")])),
    "swapped allocations": at_(4, ("zero", [("t", "q", "1"), ("t", "p", "-1"), ("t", "ONE", "k2")])),
    "order of constraints": BODY[:3] + [BODY[4], BODY[3]] + BODY[5:],
    "fourth for first wire": at_(6, ("zero", [("t", "i1", "1"), ("t", "d", "1")])),
    "fourth for second wire": at_(6, ("zero", [("t", "i1", "1"), ("t", "e", "1")])),
    "fourth for third wire": at_(6, ("zero", [("t", "i1", "1"), ("t", "f", "1")])),
    "other gate": at_(6, ("zero", [("t", "i1", "1"), ("t", "a", "1")])),
    "empty first constraint": at_(3, ("zero", [])),
    "empty last constraint": at_(6, ("zero", [])),
    "extra constraint": BODY + [("zero", [])],
    "extra gate": BODY + [("mul", ["h", "i", "j"])],
    "fewer constraints": BODY[:-1],
    "doubled": at_(6, ("zero", [("t", "i1", "2"), ("t", "g", "2")])),
}
CALL = ["i0", "g"]
CONTEXTS = {
    "first": ([("mul", ["m", "n", "o"]), ("routine", ["m", "n"], None, CALL, ["r", "s"])], 1),
    "one wire twice": ([("alloc", "m"), ("routine", ["m", "m"], None, CALL, ["r", "s"])], 1),
    "sums": ([("alloc", "m"), ("add", "v", [("t", "m", "k4"), ("t", "ONE", "k5")]), ("alloc", "u"), ("zero", [("t", "u", "1")]), ("alloc", "z"), ("routine", ["v", "m"], None, CALL, ["r", "s"])], 1),
    "second": ([("gate", ["m", "n", "o", "p"]), ("routine", ["p", "n"], [("alloc", "z"), ("eq", "z", "i1")], ["z"], ["t"]), ("routine", ["t", "o"], None, CALL, ["r", "s"])], 2),
    "twice": ([("alloc", "m"), ("alloc", "n"), ("routine", ["m", "n"], None, CALL, ["r", "s"]), ("routine", ["s", "r"], None, CALL, ["r2", "s2"])], 2),
    "nested": ([("alloc", "m"), ("routine", ["m"], [("mul", ["a", "b", "c"]), ("eq", "a", "i0"), ("alloc", "z"), ("routine", ["z", "i0"], None, CALL, ["r", "s"]), ("eq", "r", "z")], ["r"], ["t"])], 2),
}


def fill(ops, body):
    out = []
    for op in ops:
        if op[0] == "routine":
            out.append(("routine", op[1], body if op[2] is None else fill(op[2], body), op[3], op[4]))
        else:
            out.append(op)
    return out


def identities(rep):
    la = Open()

    def ident(name, ops, i):
        c = Composed(rep, name, ops, [])
        t = measured(c)
        if t is None:
            raise Unknown("not measured")
        x = get(get(t, "segments").args[i], "identity")
        if x.op != "adt" or x.args[1] == "Root":
            raise Unknown("identity")
        return canon(x, la), x

    ref = None
    for name, (ops, i) in CONTEXTS.items():
        try:
            x, raw = ident(name, fill(ops, BODY), i)
        except Unknown as e:
            rep.undecided(f"context/{name}", str(e))
            continue
        if ref is None:
            ref, rn = x, name
            kinds = {str(s.args[0]) for s in subterms(raw) if s.op == "typeid"}
            rep.check(len(kinds) >= 2, "kinds", M, "the identity of a sub-circuit does not tell apart its input and output types")
            continue
        rep.check(x == ref, f"context/{name}", M, f"the same sub-circuit gets different identities called as '{rn}' and as '{name}'")
    seen = {}
    for name, body in VARIANTS.items():
        try:
            x, _ = ident(name, fill(CONTEXTS["first"][0], body), 1)
        except Unknown as e:
            rep.undecided(f"variant/{name}", str(e))
            continue
        other = seen.get(x)
        rep.check(other is None, f"variant/{name}", M, f"sub-circuits that differ ('{other}' and '{name}') always get the same identity")
        seen.setdefault(x, name)


PARTS = {"counts": counts_, "identities": identities}
