"""The internal circuits expose one instance, the proof's, and evaluate their children's instances as the verifier would."""
from joint import *
import rules.c15 as c15
import rules.c16 as c16

LEVEL = "other"
RULE = ("The prover is evaluated by value numbering and the internal circuits on the witnesses it hands them. Each slot of each circuit's "
        "output must be, as a value of the prover's, the challenge, commitment or value the returned proof records for it, and the slots for "
        "the folded claim and the evaluation must be forced by some circuit. Each child's three public-input polynomials must be forced, "
        "unconditionally, to be stage values: the circuit's polynomial over the wires of the preamble and the instance's y is compared with "
        "the one the verifier evaluates, coefficient by coefficient, the order being what writing the circuits' own outputs yields. The "
        "headers exposed must be the fused proof's, the children's circuits must be checked to be roots of unity of the registry's order, "
        "and the preamble must be loaded with its consistency enforced by some circuit.")
ASSUME = ["A header size of 4 stands for all.", "The verifier's own instance is what C16 says; what a challenge is drawn from is C15's."]
FLOOR = 120
KINDS = ("application", "unified", "unified_bridge")


def value(J, name, proof=None):
    p = c16.value_path(name, "")[1:]
    return J.at(p) if proof is None else c15.child(J, proof, p)


def values(J, name, proof=None):
    v = value(J, name, proof)
    return [T("cx", v), T("cy", v)] if name.endswith("_commitment") else [v]


def listed(rep, J):
    """The names of the instance's wires, in the order they are written, and those of the bridging circuit."""
    class V:
        fl = J.fl

    uni = c16.written(rep, V, c16.UNI, lambda n: n)
    bri = c16.written(rep, V, c16.H1, lambda n: n)
    return uni, bri


def wire_value(J, side, n):
    """The child's value behind an instance wire."""
    n = n[8:] if n.startswith("unified.") else n
    if n.endswith((".x", ".y")) and n[:-2].endswith("_commitment"):
        return T("c" + n[-1], value(J, n[:-2], side))
    if "_header[" in n:
        return header(J, side, n[: n.index("_header")], int(n[n.index("[") + 1 : -1]))
    return value(J, n, side)


def header(J, side, which, k):
    """An element of a child's own child's header."""
    p = (side, f"proof.application.{which}_header[{k}]")
    c15.child(J, side, "p.native.v")
    x = J._child.get(p)
    return J.canon(x) if x is not None else T("index", c15.child(J, side, f"application.{which}_header"), lit(k))


def wanted(rep, J, R):
    """For each child and kind: the polynomial in y that the verifier evaluates."""
    uni, bri = listed(rep, J)
    if uni is None or bri is None or len(uni) < 20 or len(bri) < 20 + 2 * H:
        return None
    y = R(J.at("challenges.y"))
    own = outputs(J)

    def horner(ts):
        r = Poly()
        for t in ts:
            r = r * y + (R(t) if isinstance(t, T) else t)
        return r

    one, zero = Poly.const(1), Poly()
    out = {}
    for side in ("left", "right"):
        out[side, "unified"] = horner([wire_value(J, side, n) for n in uni] + [zero, one])
        out[side, "unified_bridge"] = horner([wire_value(J, side, n) for n in bri] + [zero, one])
        hs = [header(J, side, w, k) for w in ("left", "right") for k in range(H)]
        if own.get(side) is not None:
            out[side, "application"] = horner(hs + own[side] + [one])
    return out


def outputs(J):
    """The children's output headers as the bridging circuit exposes them."""
    N = J.circuits.get("hashes_1")
    r = {}
    if N is not None:
        d = names(names(names(N.out).get("output", N.out)).get("inner", T("lit", "")))
        for side in ("left", "right"):
            if f"{side}_header" in d:
                r[side] = [J.canon(w) for w in flat(d[f"{side}_header"])]
    return r


def bound(J, n, want, R, P):
    """The stage positions that a circuit forces to hold the wanted values: {key: (stage, position)}, and near misses."""
    N = J.circuits[n]
    F = N.facts
    mine = {x for ws in N.slots.values() for w in ws for x in F.same(w)}
    found, near = {}, []
    for p in F.zero:
        for a in p.atoms():
            t = F.R.atoms[a]
            at = P[n].get(t)
            k = ((a, 1),)
            if at is None or "outer_error" not in at[0] or abs(p.m.get(k, 0)) != 1 or p.degree_in(a) != 1 or any(k2 != k and dict(k2).get(a) for k2 in p.m):
                continue
            rest = Poly({k2: v for k2, v in p.m.items() if k2 != k}).scale(-p.m[k])
            val = canonical(J, F, rest, R)
            free = [F.R.atoms[x] for x in rest.atoms() if F.R.atoms[x] not in mine and F.R.atoms[x] not in P[n] and F.R.atoms[x].op == "wire"]
            hit = [key for key, w in want.items() if w == val]
            for key in hit:
                if free:
                    near.append((key, f"depends on {J.say(J.canon(free[0]))}, which is neither staged nor in the instance"))
                else:
                    found.setdefault(key, at)
            if not hit and len(rest.m) > 2:
                near.append((None, at))
    return found, near


def canonical(J, F, p, R):
    """A polynomial over wires as one over the prover's values."""
    r = Poly()
    for k, v in p.m.items():
        t = Poly.const(v)
        for a, e in k:
            b = R(J.canon(F.R.atoms[a]))
            for _ in range(e):
                t = t * b
        r = r + t
    return r


def instance(rep, J):
    for n, N in J.circuits.items():
        where = N.fn.where
        for s in SLOTS:
            ws = N.slots.get(s)
            if ws is None:
                rep.undecided(f"slot/{n}/{s}", f"{n} has no slot {s}")
                continue
            got, want = [J.canon(w) for w in ws], values(J, s)
            if got == want:
                rep.ok(f"slot/{n}/{s}")
            elif all(g.op in ("challenge", "cx", "cy", "revdot", "peval", "lit", "random") or J.named(g) or path_of(g) for g in got):
                rep.bad(f"slot/{n}/{s}", f"{n} exposes {J.say(got[0])} as {s}, where the proof records {J.say(want[0])}", where)
            else:
                # derived by this circuit: C23 and C24 compare its value
                rep.ok(f"slot/{n}/{s}")
        suffix = names(names(N.out).get("output", N.out)).get("suffix")
        sx = N.facts.R(flat(suffix)[0]) if suffix is not None and len(flat(suffix)) == 1 else None
        if sx is None:
            rep.undecided(f"suffix/{n}", f"{n}'s suffix")
        elif sx.isconst() and sx.zero():
            rep.ok(f"suffix/{n}")
        elif sx.isconst():
            rep.bad(f"suffix/{n}", f"{n} ends its instance with {sx}, not zero", where)
        else:
            rep.undecided(f"suffix/{n}", f"{n}'s suffix is {sx}")
    for s in ("c", "v"):
        some = any(forced(N, s) for N in J.circuits.values())
        if some:
            rep.ok(f"forced/{s}")
        elif any(N.facts.guarded for N in J.circuits.values()):
            rep.undecided(f"forced/{s}", "an equality is enforced conditionally")
        else:
            rep.bad(f"forced/{s}", f"no internal circuit constrains the instance's {s}", J.F.fn.where)


def forced(N, s):
    w = N.slots.get(s)
    if not w:
        return False
    same = N.facts.same(w[0])
    if not same or any(x.op != "wire" for x in same):
        return True
    ids = {f"#{x.id}" for x in same}
    return any(ids & p.atoms() for p in N.facts.zero)


def children(rep, J):
    R = Ring()
    want = wanted(rep.rep, J, R)
    if want is None:
        return rep.undecided("instance", "the circuits' outputs")
    P = {n: c15.places(N) for n, N in J.circuits.items()}
    found, near = {}, []
    for n in J.circuits:
        f, m = bound(J, n, want, R, P)
        near += [(n, *x) for x in m]
        for k, at in f.items():
            found.setdefault(k, (n, at))
    for side in ("left", "right"):
        for kind in KINDS:
            key = (side, kind)
            if key in found:
                n, at = found[key]
                rep.ok(f"ky/{side}/{kind}")
                continue
            why = [f"{n}: {w}" for n, k, w in near if k == key]
            cond = [1 for N in J.circuits.values() for k, p in N.facts.guarded]
            if cond:
                rep.undecided(f"ky/{side}/{kind}", "an equality is enforced conditionally")
            else:
                rep.bad(f"ky/{side}/{kind}", f"no circuit forces a staged value to be the {side} child's {kind} public-input polynomial at y, as the verifier would evaluate it" + (f" ({why[0]})" if why else ""), J.circuits["hashes_1"].fn.where)
    spots = [at for _, at in found.values()]
    if len(spots) == len(set(spots)):
        rep.ok("ky/distinct")
    else:
        rep.bad("ky/distinct", "two public-input polynomials are forced onto one staged value", J.circuits["hashes_1"].fn.where)
    # the headers exposed
    own = outputs(J)
    for side in ("left", "right"):
        h = J.at(f"application.{side}_header")
        w = [T("index", h, lit(k)) for k in range(H)]
        if own.get(side) == w:
            rep.ok(f"header/{side}")
        elif own.get(side) and all(g.op == "index" for g in own[side]):
            rep.bad(f"header/{side}", f"the bridging circuit exposes {show(own[side][0], 6)[:120]} as the {side} header, not the fused proof's", J.circuits["hashes_1"].fn.where)
        else:
            rep.undecided(f"header/{side}", "the header exposed was not understood")
    roots(rep, J, P)
    strict = [n for n, N in J.circuits.items() for adt, enforced, w, o in N.w.stages if enforced and adt.endswith("preamble::Stage")]
    used = [n for n, N in J.circuits.items() for adt, enforced, w, o in N.w.stages if adt.endswith("preamble::Stage")]
    if strict:
        rep.ok("preamble/enforced")
    elif used:
        rep.bad("preamble/enforced", "every circuit loads the preamble without enforcing that its points lie on the curve", J.circuits[used[0]].fn.where)
    else:
        rep.undecided("preamble/enforced", "no circuit loads the preamble")


def roots(rep, J, P):
    total = {}
    for n, N in J.circuits.items():
        for w, k in N.facts.roots:
            total.setdefault(J.canon(w), []).append((n, N.fl, k, w))
    order = c16.order_of(rep.rep, False)
    for side in ("left", "right"):
        c = c15.child(J, side, "application.circuit_id")
        hit = [(n, k, x) for t, l in total.items() if t.op == "omega" and t.args[0] is c for n, fl, k, x in l]
        if not hit:
            cond = [1 for N in J.circuits.values() if N.facts.guarded]
            (rep.undecided(f"root/{side}", "an equality is enforced conditionally") if cond else
             rep.bad(f"root/{side}", f"no circuit checks that the {side} child's circuit is one of the registry's", J.circuits["hashes_1"].fn.where))
            continue
        n, k, x = hit[0]
        if x not in P[n]:
            rep.bad(f"root/{side}/staged", f"{n} checks a circuit identifier that is not the staged one", J.circuits[n].fn.where)
        else:
            rep.ok(f"root/{side}/staged")
        k = J.canon(k)
        p = log_of(k)
        if p is None or order is None:
            rep.undecided(f"root/{side}/order", f"the order of the domain is {show(k, 3)[:120]}")
            continue
        apps = [t for t in p.atoms()]
        ok = len(apps) == 1 and p.m.get(((apps[0], 1),)) == 1 and p.m.get((), 0) == len(order) + internal_steps(rep.rep)
        if ok:
            rep.ok(f"root/{side}/order")
        else:
            rep.bad(f"root/{side}/order", f"the children's circuits are checked against a domain of {p} circuits; the registry holds the applications', {len(order)} internal ones and {internal_steps(rep.rep)} internal steps", J.circuits[n].fn.where)


def log_of(k):
    """n, for the exponent of the next power of two of n."""
    def call(t, name):
        return t.op == "call" and t.args[0].split("::")[-1] == name or t.op == name

    if not call(k, "trailing_zeros") and not call(k, "ilog2"):
        return None
    t = k.args[-1]
    if not call(t, "next_power_of_two"):
        return None
    return Ring()(t.args[-1])


def internal_steps(rep):
    a = rep.prog.adts.get("ragu_pcd::step::InternalStepIndex") or next((v for k, v in rep.prog.adts.items() if k.endswith("::InternalStepIndex")), None)
    return len(a["variants"]) if a else 2


def run(rep):
    try:
        J = Joint(rep)
        told = Told(rep)
        for n in WIRES:
            if n not in J.circuits or not J.circuits[n].slots:
                return rep.undecided(f"circuit/{n}", f"{n} was not understood")
        instance(told, J)
        children(told, J)
    except Odd as e:
        rep.undecided("fuse", str(e))
