"""Stages: a stage's polynomial holds its values where circuits read them, and its mask allows nothing else."""
from script import *
from rules.c07 import stage_hooks

LEVEL = "other"
RULE = ("The trace of a stage, the wires a circuit reserves for one, their injection into the stage's gadget and the two kinds of mask are evaluated, "
        "by value numbering over their typed bodies, for stages that declare 0 to 5 values and yield up to that many, after 1 to 4 gates. "
        "The k-th value must be at the k-th wire reserved: alternately on the second and fourth wire of consecutive gates, the first after "
        "all gates of the stages before; every other wire must be zero, but for the blinding value on the first gate. A circuit must reserve exactly "
        "these gates, give their wires zero, and put them into the gadget in the order in which the stage's values are read. "
        "The masks' polynomials, in all three evaluations, must weigh every wire outside of the stage's gates by a power of their own and "
        "nothing inside.")
ASSUME = ["The first gate is the system gate; gates follow one another in the order of allocation (C06, C10).", "A polynomial's wires lie where C22 says."]
FLOOR = 100
ST = "crates/ragu_circuits/src/staging/"
MOD, BUILD, MASK = ST + "mod.rs:1", ST + "builder.rs:1", ST + "mask.rs:1"
SG = "ragu_circuits::staging::Stage::"
SE = "ragu_circuits::staging::StageExt::"
SB = "ragu_circuits::staging::builder::"
SHAPES = [(s, v) for s in (1, 2, 4) for v in (0, 1, 2, 3, 4, 5)]


def place(skip, k):
    return "bd"[k % 2], skip + k // 2


def wires(t):
    """The wires of a polynomial under construction."""
    if t.op != "built" or t.args[0].op != "adt":
        raise Unknown(f"polynomial {t!r}"[:80])
    la, got = Laurent(), {}
    for w, s in t.args[0].args[2]:
        if w in "abcd" and s.op == "seq":
            for i, x in enumerate(s.args):
                v = la(x)
                if not v.zero():
                    got[w, i] = v
        elif w in "abcd":
            raise Unknown("wires")
    return got


def only(fl, v):
    lv = [] if v is NEVER else leaves(fl.deref_all(v))
    if len(lv) != 1:
        raise Unknown(f"{len(lv)} outcomes")
    t = lv[0][1]
    return unresult(t) if t.op == "adt" and t.args[1] in ("Ok", "Err") else t


def polynomials(rep):
    fn = rep.need(SE + "rx_configured")
    if fn is None:
        return
    for skip, vals in SHAPES:
        for k in {vals, max(0, vals - 1), 0}:
            m = stage_hooks(rep, 6, skip_gates=skip, values=vals)
            seq = T("seq", *[T("param", f"v{i}") for i in range(k)])
            m.hooks[SG + "witness"] = lambda fl, e, fr, p, a: ok1(T("param", "gadget"))
            m.hooks["ragu_core::drivers::emulator::Emulator::wires"] = lambda fl, e, fr, p, a: ok1(seq)
            key = f"polynomial/{k} of {vals} values after {skip} gates"
            try:
                fl = m.flow()
                nodes, v = fl.run(fn, pos=[T("param", "stage"), T("param", "alpha"), T("param", "w")])
                rep.seen(fn, *fl.visited.values())
                got = wires(only(fl, v))
                exp = {place(skip, i): L.atom(f"v{i}") for i in range(k)}
                exp["d", 0] = L.atom("alpha")
                d = next((x for x in sorted(set(got) | set(exp)) if got.get(x, L()) != exp.get(x, L())), None)
                rep.check(d is None, key, MOD, d and f"the polynomial of a stage with {k} of {vals} values after {skip} gates: wire {d[0]} of gate {d[1]} is {got.get(d, L())}, and should be {exp.get(d, L())}")
            except Unknown as e:
                rep.undecided(key, str(e))
    short = rep.need(SE + "rx")
    if short is not None:
        m = stage_hooks(rep, 6)
        m.hooks[SE + "rx_configured"] = lambda fl, e, fr, p, a: T("rx", *[fl.deref_all(fl.val(x)) for x in a])
        m.hooks["core::default::Default::default"] = lambda fl, e, fr, p, a: T("param", "default")
        try:
            fl = m.flow()
            nodes, v = fl.run(short, pos=[T("param", "alpha"), T("param", "w")])
            t = fl.deref_all(v)
            if t.op != "rx":
                raise Unknown("what a stage's polynomial is made from")
            rep.check(t.args[1:] == (T("param", "alpha"), T("param", "w")), "polynomial/handed on", MOD, "a stage's polynomial is not made from the blinding value and the witness given")
        except Unknown as e:
            rep.undecided("polynomial/handed on", str(e))


def chain(rep):
    """Where a stage begins."""
    for name, want in (("skip_gates", 1), ("values", 0)):
        c = rep.prog.fns.get(f"<() as ragu_circuits::staging::Stage>::{name}", [])
        key = f"chain/nothing/{name}"
        if len(c) != 1:
            rep.undecided(key, "the empty stage")
            continue
        fl = stage_hooks(rep, 6).flow()
        nodes, v = fl.run(c[0])
        v = fl.deref_all(v)
        rep.seen(c[0])
        if v.op == "lit" and v.args[0].isdigit():
            rep.check(int(v.args[0]) == want, key, c[0].where, f"before any stage there are {v.args[0]} {'gates' if want else 'values'}, and should be {want}")
        else:
            rep.undecided(key, "not a number")
    fn = rep.need(SG + "skip_gates")
    if fn is not None:
        types = set()
        for vals in range(6):
            m = stage_hooks(rep, 6, values=vals)

            def skip(fl, e, fr, p, a):
                if len(fr.fn.path) and fr.fn is fn:
                    types.update(fl.subst(fr.fn.types[t], fr).s for t in e.get("targs", [])[:1] if isinstance(t, int))
                return lit(3)

            m.hooks[SG + "skip_gates"] = skip
            fl = m.flow()
            nodes, v = fl.run(fn)
            v = fl.deref_all(v)
            rep.seen(fn, *fl.visited.values())
            key = f"chain/sum/{vals}"
            if v.op == "lit" and v.args[0].isdigit():
                rep.check(int(v.args[0]) == 3 + (vals + 1) // 2, key, MOD, f"a stage whose parent has {vals} values after 3 gates begins after {v.args[0]}, and should after {3 + (vals + 1) // 2}")
            else:
                rep.undecided(key, "not a number")
        if types:
            rep.check(all("Parent" in t for t in types), "chain/parent", MOD, f"a stage begins after {', '.join(sorted(types))}, not after its parent")
    fn = rep.need(SE + "num_gates")
    if fn is not None:
        for vals in range(8):
            fl = stage_hooks(rep, 6, values=vals).flow()
            nodes, v = fl.run(fn)
            v = fl.deref_all(v)
            rep.seen(fn)
            key = f"chain/gates/{vals}"
            if v.op == "lit" and v.args[0].isdigit():
                rep.check(int(v.args[0]) == (vals + 1) // 2, key, MOD, f"a stage of {vals} values takes {v.args[0]} gates, and should take {(vals + 1) // 2}")
            else:
                rep.undecided(key, "not a number")
    for i in rep.prog.impls:
        if i.get("trait") == "ragu_circuits::staging::Stage" and i["self"] != "()":
            own = any(x.get("name") == "skip_gates" for x in i["items"])
            key = f"chain/{i['self']}"
            if own:
                rep.undecided(key, f"{i['self']} says itself where it begins")
            else:
                rep.ok(key)


def reserve(rep, skip, vals, k):
    """The guard a builder hands out, the operations on the driver, and the flow."""
    fn = rep.need(SB + "StageBuilder::configure_stage")
    m = stage_hooks(rep, 6, skip_gates=skip, values=vals)
    m.hooks[SG + "witness"] = lambda fl, e, fr, p, a: ok1(T("param", "gadget"))
    m.hooks["ragu_core::gadgets::Gadget::num_wires"] = lambda fl, e, fr, p, a: ok1(lit(k))
    ops = []

    def alloc(fl, e, fr, p, a):
        ops.append(("alloc", a[0], fl.apply(a[1], []) if len(a) > 1 else None))
        return ok1(T("param", f"w{len(ops) - 1}"))

    m.hooks["ragu_core::drivers::Driver::alloc"] = alloc
    for n in ("gate", "mul", "add", "enforce_zero", "enforce_equal", "constant", "routine"):
        m.hooks[f"ragu_core::drivers::Driver::{n}"] = (lambda n: lambda fl, e, fr, p, a: (ops.append((n, a[0], None)), T("param", n))[1])(n)
    fl = m.flow()
    b = T("adt", SB + "StageBuilder", "StageBuilder", (("driver", T("param", "driver")), ("_marker", UNIT)))
    nodes, v = fl.run(fn, pos=[b, T("param", "stage")])
    rep.seen(fn, *fl.visited.values())
    t = only(fl, v)
    if t.op != "tuple" or len(t.args) != 2:
        raise Unknown("what a stage's reservation yields")
    return fn, m, fl, t.args[0], t.args[1], ops


def reservation(rep):
    for skip, vals in SHAPES[:6]:
        for k in {vals, max(0, vals - 1), 0}:
            key = f"reserve/{k} of {vals} wires"
            try:
                fn, m, fl, guard, rest, ops = reserve(rep, skip, vals, k)
                other = [o for o, d, w in ops if o != "alloc"]
                n = 2 * ((vals + 1) // 2)
                where = BUILD
                what = f"reserving {k} of {vals} wires"
                if other:
                    rep.bad(key, where, f"{what} does more on the driver than allocate: {other[0]}")
                    continue
                rep.check(len(ops) == n, key + "/gates", where, f"{what} allocates {len(ops)} wires, which take other gates than the stage's {n // 2}")
                la = Laurent()
                zero = [la(fl.deref_all(unresult(fl.deref_all(w)))).zero() for o, d, w in ops]
                rep.check(all(zero), key + "/values", where, f"{what} gives a wire a value, which is then both the stage's and the circuit's")
                f = dict(guard.args[2]) if guard.op == "adt" else {}
                seqs = [x for x in f.values() if x.op == "seq"]
                if len(seqs) != 1:
                    raise Unknown("the wires reserved")
                got = [x.args[0] for x in seqs[0].args]
                rep.check(got == [f"w{i}" for i in range(k)], key + "/order", where, f"{what} keeps the wires {', '.join(got)} for the stage")
                d = dict(rest.args[2]).get("driver") if rest.op == "adt" else None
                rep.check(d is T("param", "driver"), key + "/driver", where, f"{what} hands on another driver")
            except Unknown as e:
                rep.undecided(key, str(e))
    for name, pos, want in (("new", [T("param", "driver")], "driver"), ("finish", [T("adt", SB + "StageBuilder", "StageBuilder", (("driver", T("param", "driver")), ("_marker", UNIT)))], "driver")):
        fn = rep.need(SB + "StageBuilder::" + name)
        if fn is None:
            continue
        fl = stage_hooks(rep, 6).flow()
        nodes, v = fl.run(fn, pos=pos)
        v = fl.deref_all(v)
        rep.seen(fn)
        d = dict(v.args[2]).get("driver") if v.op == "adt" else v
        rep.check(d is T("param", "driver") and not any(x[0] == "ev" for x in nodes), f"reserve/{name}", BUILD, f"{name} does not hand on the driver as it is")


def injection(rep):
    """The gadget a circuit is given for a stage has the reserved wires, in the order its values are read."""
    fn = rep.need(SB + "StageGuard::unenforced")
    strict = rep.need(SB + "StageGuard::enforced")
    if fn is None or strict is None:
        return
    n = 3
    for name, f in (("unenforced", fn), ("enforced", strict)):
        m = stage_hooks(rep, 6, skip_gates=2, values=n)
        inside, outside = [], []

        def consistent(fl, e, fr, p, a):
            outside.append([fl.deref_all(fl.val(x)) for x in a])
            return ok1(UNIT)

        def gmap(fl, e, fr, p, a):
            g, mp = a[0], a[1]
            src = fl.deref_all(fl.val(g))
            if src is not T("param", "gadget"):
                return None
            c = [x for (t, h), xs in rep.prog.impl_of.items() if t == "ragu_core::convert::WireMap" and "Injector" in h for x in (xs if isinstance(xs, list) else [xs])]
            if len(c) != 1:
                raise Unknown("the map that puts wires in")
            body = rep.prog.fns.get(f"<{c[0]['self_ty'].adt} as ragu_core::convert::WireMap>::convert_wire", [])
            if len(body) != 1:
                raise Unknown("the map that puts wires in")
            out = []
            for i in range(n):
                r = m.call(fl, fr, body[0], [mp, UNIT])
                r = fl.deref_all(fl.val(r))
                if r.op == "adt" and r.args[1] == "Err":
                    raise Unknown("a wire is refused")
                out.append(unresult(r))
            inside.append(out)
            return ok1(T("param", "injected"))

        def witness(fl, e, fr, p, a):
            return ok1(T("param", "gadget")) if fl.deref_all(fl.val(a[0])) is T("param", "stage") and fl.deref_all(fl.val(a[-1])) is T("param", "w") else ok1(T("param", "other"))

        m.hooks[SG + "witness"] = witness
        m.hooks["ragu_core::gadgets::Gadget::map"] = gmap
        m.hooks["ragu_primitives::consistent::Consistent::enforce_consistent"] = consistent
        guard = T("adt", SB + "StageGuard", "StageGuard", (("stage", T("param", "stage")), ("stage_wires", T("seq", *[T("param", f"w{i}") for i in range(n)])), ("_marker", UNIT)))
        try:
            fl = m.flow()
            nodes, v = fl.run(f, pos=[guard, T("param", "driver"), T("param", "w")])
            rep.seen(f, *fl.visited.values())
            t = only(fl, v)
            if len(inside) != 1:
                if t is T("param", "other"):
                    rep.bad(f"inject/{name}", BUILD, "a stage's gadget is not made by the stage from the witness given")
                    continue
                raise Unknown("how a stage's gadget gets its wires")
            out = inside[0]
            rep.check(out == [T("param", f"w{i}") for i in range(n)], f"inject/{name}/order", BUILD, f"the wires of a stage are put into its gadget in the order {', '.join(show(x) for x in out)}"[:200])
            rep.check(t is T("param", "injected"), f"inject/{name}/result", BUILD, "the gadget handed out is not the one with the reserved wires")
            if name == "enforced":
                rep.check(any(x[:2] == [T("param", "injected"), T("param", "driver")] for x in outside), "inject/enforced/consistent", BUILD, "an enforced stage's gadget is not held to its invariants on the circuit's driver")
        except Unknown as e:
            rep.undecided(f"inject/{name}", str(e))


def degree(w, i, n):
    return {"d": i, "a": 2 * n - 1 - i, "b": 2 * n + i, "c": 4 * n - 1 - i}[w]


def masks(rep):
    H = "ragu_circuits::staging::mask::StageMask"
    fns = {}
    for name in ("sx", "sy", "sxy"):
        c = rep.prog.fns.get(f"<{H} as ragu_circuits::CircuitObject>::{name}", [])
        if len(c) != 1:
            return rep.undecided("mask", f"{name} of a mask")
        fns[name] = c[0]
    for rank in (4, 5):
        n = 1 << (rank - 2)
        for kind in ("mask", "final_mask"):
            make = rep.need(SE + kind)
            if make is None:
                continue
            for skip in range(1, n + 1):
                for gates in range(0, n - skip + 1):
                    vals = max(0, 2 * gates - gates % 2)
                    key = f"{kind}/{gates} gates after {skip} of {n}"
                    what = f"the {kind.replace('_', ' ')} of a stage of {gates} gates after {skip}, of {n},"
                    try:
                        m = stage_hooks(rep, rank, skip_gates=skip, values=vals)
                        fl = m.flow()
                        nodes, v = fl.run(make)
                        t = only(fl, v)
                        while t.op == "adt" and t.args[0] != H:
                            t = fl.deref_all(t.args[2][0][1])
                        free = {0} | (set(range(skip, skip + gates)) if kind == "mask" else set(range(skip + gates, n)))
                        forms = {}
                        for name, f in fns.items():
                            fl = m.flow()
                            pos = [t] + {"sx": [T("param", "x")], "sy": [T("param", "y")], "sxy": [T("param", "x"), T("param", "y")]}[name] + [T("param", "plan")]
                            nodes, v = fl.run(f, pos=pos)
                            rep.seen(f, *fl.visited.values())
                            forms[name] = [] if v is NEVER else leaves(fl.deref_all(v))
                        judge(rep, key, what, forms, free, n)
                    except Unknown as e:
                        rep.undecided(key, str(e))


def judge(rep, key, what, forms, free, n):
    """Which wires the polynomial weighs, by which power of the other point."""
    la = Laurent()
    power = {}
    for name, lv in forms.items():
        for conds, t in lv:
            zeros = at(conds)
            if zeros is None:
                raise Unknown("a case of a mask's polynomial")
            zeros = {a for a, z in zeros.items() if z}
            own, other = {"sx": ("y", "x")}.get(name, ("x", "y"))
            got = {}
            if name == "sxy":
                for k, c in la(t).m.items():
                    k = dict(k)
                    got.setdefault(k.pop("x", 0), {})[tuple(sorted(k.items()))] = c
            elif t.op == "built":
                for (w, i), v in wires(t).items():
                    got[degree(w, i, n)] = v.m
            elif not (t.op == "call" and t.args[0].endswith("::new")):
                raise Unknown(f"polynomial {show(t)}"[:80])
            terms = {}
            for e, v in got.items():
                for k, c in v.items():
                    if not set(a for a, _ in k) <= {other}:
                        raise Unknown("a weight")
                    terms[e, dict(k).get(other, 0)] = c
            terms = {(a, b) if own == "x" else (b, a): c for (a, b), c in terms.items() if c}
            if zeros:
                if any(all(x == 0 for x, z in zip(k, "xy") if z in zeros) for k in terms):
                    return rep.bad(key, MASK, f"{what} is not zero where {' and '.join(sorted(zeros))} vanish ({name})")
                continue
            power[name] = terms
    if set(power) != {"sx", "sy", "sxy"}:
        raise Unknown("a mask's polynomial")
    for name, terms in power.items():
        at_ = {}
        for (x, y), c in terms.items():
            at_.setdefault(x, []).append(y)
        for w in "abcd":
            for i in range(n):
                ys = at_.pop(degree(w, i, n), [])
                if i in free and ys:
                    return rep.bad(key, MASK, f"{what} forbids wire {w} of gate {i} ({name})")
                if i not in free and len(ys) != 1:
                    return rep.bad(key, MASK, f"{what} {'weighs by several powers' if ys else 'does not forbid'} wire {w} of gate {i} ({name})")
        if at_:
            return rep.bad(key, MASK, f"{what} is about more wires than there are ({name})")
    terms = power["sxy"]
    if len({y for x, y in terms}) != len(terms):
        return rep.bad(key, MASK, f"{what} weighs two wires by the same power")
    if any(y == 0 for x, y in terms):
        return rep.bad(key, MASK, f"{what} has a constant term")
    for name in ("sx", "sy"):
        if power[name] != terms:
            return rep.bad(key, MASK, f"{what} has another restriction than its own ({name})")
    rep.ok(key)


PARTS = {"polynomials": polynomials, "chain": chain, "reservation": reservation, "injection": injection, "masks": masks}
