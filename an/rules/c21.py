"""Bonding objects: made of wiring alone, with nothing in the place of the constant one."""
from pcd import *
from fuse import solid
from script import L, Composed, Stopped, Unknown, leaves, ok1
from rules import c22
from rules.c22 import NC, N, World, Family, Bad, agree

LEVEL = "other"
RULE = ("The conversion of a staged circuit to a bonding object is evaluated, by value numbering over the typed bodies of the validating interpreter and of the driver's provided methods, along circuits that perform every operation in every position: "
        "it must refuse each that uses a gate, a constant or the constant-one wire, however often and in whatever company, and accept the others. "
        "The object must be the circuit's own, with the constant-one monomial removed alike from all three evaluations and nothing else changed. "
        "Every construction of a bonding object in the program must be of one of these or of a stage mask.")
ASSUME = ["A circuit's own wiring polynomial is C09's, whose last constraint is that of the constant one; masks are C20's.", "Polynomials are C22's."]
FLOOR = 60
IB = "ragu_circuits::staging::MultiStage::into_bonding_object"
BO = "ragu_circuits::BondingObject"
CO = "ragu_circuits::CircuitObject::"
NEW = BO + "::new"


def t(w, k="1"):
    return ("t", w, k)


ALLOC = [("alloc", "u"), ("alloc", "v")]
GOOD = {
    "nothing": [],
    "wires": ALLOC,
    "an equality": ALLOC + [("eq", "u", "v")],
    "an empty constraint": [("zero", [])],
    "a constraint": ALLOC + [("zero", [t("u", "k"), t("v", "-1")])],
    "a sum": ALLOC + [("add", "s", [t("u", "2"), t("v", "k")]), ("zero", [t("s"), t("u", "k")])],
    "a sum with a gain": ALLOC + [("add", "s", [t("u"), ("g", "k"), t("v")]), ("eq", "s", "u")],
    "an empty sum": [("add", "s", []), ("zero", [t("s")])],
    "a dropped wire": ALLOC + [("drop", "u"), ("alloc", "x"), ("eq", "x", "v")],
    "a call": ALLOC + [("routine", ["u"], [("alloc", "p"), ("eq", "p", "i0")], ["p"], ["w"]), ("eq", "w", "v")],
}
BAD = {
    "a gate": [("gate", ["a", "b", "c", "d"])],
    "a product": [("mul", ["a", "b", "c"])],
    "a constant": [("const", "o", "k")],
    "the constant zero": [("const", "o", "0")],
    "the constant one": [("const", "o", "1")],
    "one in a constraint": [("zero", [t("ONE")])],
    "one in a constraint, weighed": [("zero", [t("ONE", "k")])],
    "one in a constraint after a wire": ALLOC + [("zero", [t("u"), t("v"), t("ONE", "-1")])],
    "one in a constraint before a wire": ALLOC + [("zero", [t("ONE", "2"), t("u")])],
    "one in a constraint after a gain": ALLOC + [("zero", [t("u"), ("g", "k"), t("ONE")])],
    "one in a constraint before a gain": ALLOC + [("zero", [t("ONE"), ("g", "k"), t("u")])],
    "one in a sum": ALLOC + [("add", "s", [t("u"), t("ONE", "k")])],
    "one in a sum before a wire": ALLOC + [("add", "s", [t("ONE", "k"), t("u")])],
    "one in a sum after a gain": ALLOC + [("add", "s", [("g", "k"), t("ONE")])],
    "one in a sum that is unused": ALLOC + [("add", "s", [t("ONE")]), ("eq", "u", "v")],
    "one in an equality": ALLOC + [("eq", "u", "ONE")],
    "one first in an equality": ALLOC + [("eq", "ONE", "u")],
}
INSIDE = {"a gate": [("gate", ["a", "b", "c", "d"])], "a product": [("mul", ["a", "b", "c"])], "a constant": [("const", "o", "k")], "one in a constraint": [("zero", [t("i0"), t("ONE")])], "one in a sum": [("add", "s", [t("ONE"), t("i0")])]}


def scripts():
    for k, ops in GOOD.items():
        yield k, ops, True
    for k, ops in BAD.items():
        yield k, ops, False
        if ("alloc", "u") not in ops:
            yield k + ", after wires", ALLOC + ops, False
        tail = [("alloc", "y"), ("alloc", "z"), ("add", "q", [t("y"), t("z")]), ("eq", "q", "y"), ("zero", [])]
        yield k + ", before a constraint", ops + tail, False
        for j, more in BAD.items():
            if j in ("a gate", "one in a constraint", "a constant") and j != k:
                yield f"{k}, then {j}", ops + more, False
    for k, ops in INSIDE.items():
        for depth in (1, 2):
            sub = ops if depth == 1 else [("routine", ["i0"], ops, [], [])]
            yield f"{k}, in a call" + (" in a call" if depth == 2 else ""), ALLOC + [("routine", ["u"], sub, [], []), ("eq", "u", "v")], False


def validation(rep):
    fn = rep.need(IB)
    if fn is None:
        return
    for name, ops, good in scripts():
        key = f"convert/{name}"
        x = Composed(rep, name, ops, [], rank=5)
        m = x.machine()
        made = []

        def object(fl, e, fr, p, a):
            made.append(fl.deref_all(fl.val(a[0])))
            return ok1(T("param", "inner"))

        m.hooks["ragu_circuits::into_circuit_object"] = object
        try:
            fl = m.flow()
            try:
                _, v = fl.run(fn, pos=[T("param", "staged")])
            except Stopped as s:
                v = NEVER if s.v is None else s.v
            rep.seen(fn, *fl.visited.values())
            lv = [] if v is NEVER else leaves(fl.deref_all(v))
            if lv is None:
                raise Unknown("outcomes")
            kinds = {y.args[1] if y.op == "adt" and y.args[1] in ("Ok", "Err") else "?" for _, y in lv}
            if "?" in kinds or (not kinds and v is not NEVER):
                raise Unknown(f"outcome {kinds}")
            if not good:
                rep.check(kinds <= {"Err"}, key, fn.where, f"a circuit that uses {name} is made a bonding object")
                continue
            if kinds != {"Ok"}:
                rep.bad(key, fn.where, f"a circuit that uses only wires and constraints ({name}) is refused")
                continue
            obj = solid(fl, lv[0][1].args[2][0][1])
            inner = boxed(dict(obj.args[2]).get("inner") if obj.op == "adt" else None)
            if inner is None:
                raise Unknown(f"object {obj!r}"[:120])
            if inner.op == "adt" and inner.args[0].endswith("bonding::Stripped"):
                y = boxed(inner.args[2][0][1])
                rep.check(y is T("param", "inner") and made == [T("param", "staged")], key, fn.where, f"the bonding object is not of the circuit that was validated ({name})")
            elif inner is T("param", "inner"):
                rep.bad(key, fn.where, "a bonding object keeps the constraint on the constant one")
            else:
                raise Unknown(f"object {inner!r}"[:120])
        except (Unknown, Odd) as e:
            rep.undecided(key, str(e))


def boxed(t):
    while t is not None and t.op in ("box", "new", "into") or t is not None and t.op == "call" and str(t.args[0]).endswith("Box::new"):
        t = t.args[-1]
    return t


def stripped(rep):
    W = World(rep)
    tys = [i["self_ty"] for i in rep.prog.impls if (i.get("trait") or "").endswith("ragu_circuits::CircuitObject") and i["self_ty"].s.split("<")[0].endswith("Stripped")]
    fns = {n: [f for f in rep.prog.impl_fns("ragu_circuits::CircuitObject", n) if "Stripped" in f.path] for n in ("sxy", "sx", "sy", "constraint_counts", "segment_records")}
    if any(len(v) != 1 for v in fns.values()):
        return rep.undecided("stripped", "the object without its constant-one monomial")
    fns = {k: v[0] for k, v in fns.items()}
    head = fns["sxy"].path.split(" as ")[0].lstrip("<")
    me = T("adt", head, "Stripped", (("0", T("param", "inner")),))
    make = c22.poly_fn(rep, "from_coeffs")
    X, plan = T("param", "x"), T("param", "plan")
    xs = W.scalar(X)
    one = T("named", "ff::Field::ONE")

    def inner(f):
        def h(fl, e, fr, p, a):
            if fl.deref_all(fl.val(a[0])) is not T("param", "inner"):
                return None
            if [fl.deref_all(fl.val(y)) for y in a[1:]] != args:
                raise Bad("the circuit is evaluated elsewhere")
            return f()
        return h

    args = []
    fam = Family(rep, "sxy", fns["sxy"])

    def f():
        args[:] = [X, T("param", "y"), plan]
        W.sc.hooks[CO + "sxy"] = inner(lambda: T("param", "s"))
        v = W.scalar(W.one(fns["sxy"], W.sc.cell(me), *args))
        agree([v], [W.scalar(T("param", "s")) - xs.pow(2 * N)], "the evaluation at a point", "value")
    fam.case(f, "point")
    for which in ("sx", "sy"):
        fam = Family(rep, which, fns[which])
        for k in range(8):
            for b in range(2):
                def f():
                    args[:] = [X, plan]
                    cs = [T("param", f"s{i}") if k in (0, i % 7 + 1) else c22.ZERO for i in range(NC)]
                    if which == "sx":  # the last constraint is that of the constant one
                        p = T("bin", "Mul", X, X)
                        for _ in range(2 * N - 2):
                            p = T("bin", "Mul", p, X)
                        cs[0] = p
                    else:
                        cs[2 * N] = T("bin", "Add", cs[2 * N], one) if b else one
                    dense = [W.scalar(c) for c in cs]
                    poly = W.one(make, T("seq", *cs))
                    W.sc.hooks[CO + which] = inner(lambda: poly)
                    got = W.dense(W.one(fns[which], W.sc.cell(me), *args))
                    dense[0 if which == "sx" else 2 * N] -= xs.pow(2 * N) if which == "sx" else L.const(1)
                    agree(got, dense, f"the polynomial {which}, for a point,")
                if which == "sy" or not b:
                    fam.case(f, f"{k}{b}")
    fam = Family(rep, "record", fns["segment_records"])

    def f():
        args[:] = []
        W.sc.hooks[CO + "segment_records"] = inner(lambda: T("param", "segments"))
        W.sc.hooks[CO + "constraint_counts"] = inner(lambda: T("tuple", T("param", "gates"), lit(40)))
        if W.one(fns["segment_records"], W.sc.cell(me)) is not T("param", "segments"):
            raise Bad("the record of its segments is not the circuit's")
        v = W.one(fns["constraint_counts"], W.sc.cell(me))
        if v.op != "tuple" or v.args[1].op != "lit":
            raise Odd("counts")
        if v.args[0] is not T("param", "gates") or int(v.args[1].args[0]) not in (39, 40):
            raise Bad("its counts are not the circuit's")
    fam.case(f, "segments")


def walk(x):
    if isinstance(x, dict):
        yield x
        for v in x.values():
            yield from walk(v)
    elif isinstance(x, list):
        for v in x:
            yield from walk(v)


def constructions(rep):
    """Every place where a bonding object is made."""
    sites = []
    for fn in rep.prog.all_fns():
        if fn.broken or not fn.body:
            continue
        for e in walk(fn.body):
            if (e.get("fn") or "").split("<")[0] == NEW or (e.get("adt") == BO and "fs" in e and fn.path != NEW):
                sites.append(fn)
                break
    rep.sites += len(sites)
    for fn in sites:
        key = f"made/{fn.path}"
        if fn.path == IB:
            rep.ok(key)
            continue
        sc = Scene(rep, hooks=dict(std_hooks(), **{"err_returns": True}), opaque=lambda p: "StageMask::new" in p)
        try:
            v = sc.call(fn, *[T("param", f"p{i}") for i in range(len(fn.body.get("params", [])) if isinstance(fn.body, dict) else 0)])
            kinds = set()
            lv = leaves(sc.fl.deref_all(v)) if v is not NEVER else []
            for _, y in lv or []:
                if y.op == "adt" and y.args[1] == "Err":
                    continue
                if y.op == "adt" and y.args[1] in ("Ok", "Some"):
                    y = sc.fl.deref_all(sc.fl.val(y.args[2][0][1]))
                d = dict(y.args[2]) if y.op == "adt" and y.args[0] == BO else {}
                i = boxed(sc.fl.deref_all(sc.fl.val(d["inner"]))) if "inner" in d else None
                kinds.add(i)
            kinds = {kind(i) for i in kinds}
        except (Unknown, Odd, TypeError, KeyError, AttributeError) as e:
            rep.undecided(key, f"{type(e).__name__} {e}"[:160])
            continue
        if not kinds or None in kinds:
            rep.undecided(key, "what it is made of")
        elif kinds <= {"StageMask"}:
            rep.ok(key)
        else:
            rep.bad(key, fn.where, f"a bonding object is made of {', '.join(sorted(kinds))}, which nothing has validated")
    if not sites:
        rep.undecided("made", "no construction of a bonding object")


def kind(t):
    while t is not None and t.op in ("try", "unwrap", "field", "vfield", "call", "after"):
        if t.op == "call":
            return "StageMask" if "StageMask::new" in str(t.args[0]) else None
        t = t.args[0]
    if t is None or t.op != "adt":
        return None
    return t.args[0].rsplit("::", 1)[-1]


def run(rep):
    validation(rep)
    stripped(rep)
    constructions(rep)
