"""The three evaluations of a circuit's wiring polynomial are one polynomial."""
from script import *
from scripts import SCRIPTS

LEVEL = "other"
RULE = ("The driver operations of the three wiring evaluators (both points fixed, one left open, the other left open) are composed, by "
        "value numbering over their typed bodies, along circuits that exercise every operation: gates, multiplications, paired "
        "allocations, virtual wires (chained, shared, dropped, unused), gains, constants, nested, sibling and empty routines, repeated "
        "outputs. What each yields, as polynomials in the points and in opaque coefficients, is compared with the polynomial that the "
        "documented placement of gates and constraints gives, also where a point is zero. A floor plan that does not describe the "
        "circuit must not yield a polynomial.")
ASSUME = ["Gate counts and constraint counts are those of the composed circuits; coefficients, points and witness values are opaque.",
          "The composition fixes a rank of 16 gates."]
FLOOR = 60
WHERE = {"sxy": "crates/ragu_circuits/src/s/sxy.rs:1", "sx": "crates/ragu_circuits/src/s/sx.rs:1", "sy": "crates/ragu_circuits/src/s/sy.rs:1"}
X, Y = T("param", "x"), T("param", "y")
POS = {"sxy": [X, Y], "sx": [X], "sy": [Y]}


def polynomial(rep, c, which, t, la):
    """The value as {(power of x or wire position or None): L}, or a string telling why it is not one."""
    if which == "sxy":
        return {None: la(t)}
    n = c.n
    if t.op == "adt":  # a polynomial made in another way: its blocks
        d = dict(t.args[2])
        b = [x for x in d.values() if x.op == "seq"]
        if len(b) == 1 and not b[0].args:
            return {}
        raise Unknown("polynomial")
    if t.op == "coeffs" and t.args[0].op == "seq":
        return {i: la(x) for i, x in enumerate(t.args[0].args)}
    if t.op == "built" and t.args[0].op == "adt":
        out = {}
        for name, s in t.args[0].args[2]:
            if name in "abcd" and s.op == "seq":
                for i, x in enumerate(s.args):
                    out[name, i] = la(x)
            elif name in "abcd":
                raise Unknown("wires")
        return out
    raise Unknown(f"{t!r}"[:80])


def reference(c, which, z):
    if which == "sxy":
        return {None: restrict(c.m.sxy(c.n), z)}
    return {k: restrict(v, z) for k, v in (c.m.sx(c.n) if which == "sx" else c.m.sy()).items()}


def diff(got, want):
    for k in sorted(set(got) | set(want), key=str):
        g, w = got.get(k, L()), want.get(k, L())
        if g != w:
            return k, g, w
    return None


def one(rep, c, which):
    key = f"{which}/{c.name}"
    try:
        lv = c.run(which, T("param", "circuit"), *POS[which], c.plan())
    except Unknown as e:
        rep.undecided(key, str(e))
        return
    if lv is None:
        return
    if not lv:
        rep.bad(key, WHERE[which], f"the evaluation of circuit '{c.name}' never succeeds")
        return
    la = Laurent()
    for conds, t in lv:
        z = at(conds)
        k = key + "".join(f"/{a}=0" for a in sorted(z or {}) if z[a])
        if z is None:
            rep.undecided(k, "an outcome depends on something else than whether a point is zero")
            continue
        if t.op == "adt" and t.args[1] == "Err":
            rep.bad(k, WHERE[which], f"the evaluation of circuit '{c.name}' fails: {show(t)[:120]}")
            continue
        if t.op == "adt" and t.args[1] == "Ok":
            t = t.args[2][0][1]
        try:
            d = diff(polynomial(rep, c, which, t, la), reference(c, which, z))
        except Unknown as e:
            rep.undecided(k, str(e))
            continue
        rep.check(d is None, k, WHERE[which], d and f"circuit '{c.name}' evaluates to {str(d[1])[:140]} where its constraints give {str(d[2])[:140]} (position {d[0]})")


def agreement(rep):
    for name, (ops, outs) in SCRIPTS.items():
        c = Composed(rep, name, ops, outs)
        for which in POS:
            one(rep, c, which)


def mismatch(rep):
    """A plan with another count for one segment, or another number of segments."""
    ops, outs = SCRIPTS["nested"]
    c = Composed(rep, "nested", ops, outs)
    try:
        plan = c.plan()
    except Unknown as e:
        rep.undecided("mismatch", str(e))
        return
    bent = {}
    for i in range(len(plan.args)):
        for f in ("num_gates", "num_constraints"):
            s = plan.args[i]
            if not any(n == f for n, _ in s.args[2]):
                continue
            for d in (1, -1):
                new = T("adt", s.args[0], s.args[1], tuple((n, lit(int(x.args[0]) + d) if n == f else x) for n, x in s.args[2]))
                bent[f"segment{i}/{f}{d:+d}"] = T("seq", *plan.args[:i], new, *plan.args[i + 1:])
    bent["short"] = T("seq", *plan.args[:-1])
    bent["long"] = T("seq", *plan.args, plan.args[-1])
    la = Laurent()
    for which in POS:
        for name, p in bent.items():
            key = f"mismatch/{which}/{name}"
            try:
                lv = c.run(which, T("param", "circuit"), *POS[which], p)
            except Unknown:
                rep.ok(key)  # reading past the plan
                continue
            except Exception as e:
                rep.undecided(key, f"{type(e).__name__}: {e}")
                continue
            if lv is None:
                return
            # what it yields where a point is zero does not speak about the plan
            good = []
            for conds, t in lv:
                z = at(conds)
                if z is None or any(z.values()) or not (t.op == "adt" and t.args[1] == "Ok"):
                    continue
                try:
                    got = polynomial(rep, c, which, t.args[2][0][1], la)
                except Unknown:
                    continue
                if all(diff(got, reference(c, which, w)) is not None for w in ({"x": True}, {"y": True})):
                    good.append(t)
            rep.check(not good, key, WHERE[which], f"a floor plan that does not describe the circuit ({name}) is evaluated all the same")


PARTS = {"agreement": agreement, "mismatch": mismatch}
