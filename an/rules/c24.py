"""Openings: every value claimed of a committed polynomial is part of the evaluation the circuits force."""
from joint import *
import rules.c15 as c15
import rules.c16 as c16
import rules.c23 as c23
from rules.c23 import fadd, frozen, fscale, ladd, lmul, pretty

LEVEL = "other"
RULE = ("The prover is evaluated by value numbering and the circuit for the evaluation on the witnesses it is handed. The value put on the instance "
        "is expanded into a Laurent polynomial over stage positions, challenges and inverses of differences of points. It must be a sum of staged "
        "values, each under a power of beta of its own, and of quotients (staged value minus claimed value, over a difference of points), each "
        "under a power of alpha of its own, all at one further power of beta. The prover's polynomial, its commitment and its quotient polynomial, "
        "expanded into linear forms, must have the same polynomials under the same powers, divided at the same points. Every claimed value must be "
        "the value the prover takes of that polynomial at that point; each child's evaluation, each pair of registry polynomials that share a "
        "restriction and each polynomial the folding rests on must be among the openings; and the values of the folded polynomials must be "
        "computed from openings with the coefficients the prover folds with.")
ASSUME = ["The challenges are C15's and the children's instances C25's; the folding itself is C23's.", "Division, evaluation and the registry's restrictions mean what C17 and C22 say.",
          "The difference of the challenge point from each opened point is invertible, as the inversion gadget enforces (C03)."]
FLOOR = 200
OWN = {"ab.native.a_poly": "a", "ab.native.b_poly": "b", "f.native.poly": "f"}
FOLD = ("mu", "nu", "mu_prime", "nu_prime", "z", "x", "y")


class Names:
    """Names for the prover's points and polynomials."""

    def __init__(self, J, W):
        self.J, self.W = J, W
        self.L = c23.Lau(self.label)
        self.own = {J.at(p): n for p, n in OWN.items()}
        self.alias = {}

    def label(self, t):
        J = self.J
        n = self.W.ch.get(t)
        if n:
            return n
        q = path_of(t)
        if q and q[0] in ("left", "right") and q[1].startswith("proof."):
            return f"{q[0]}.{q[1][6:]}"
        if t.op == "omega":
            return ("omega", self.cid(t.args[0]))
        if t.op == "lift" and t.args[0].op == "endo":
            k = self.point(t.args[0].args[0])
            return ("lift", k)
        return T("#", t)

    def cid(self, c):
        if c.op == "adt" and c.args[0] == CIX:
            c = c.args[2][0][1]
        if c.op == "lit":
            return int(c.args[0])
        q = path_of(c)
        return f"{q[0]}.{q[1][6:]}" if q and q[1].startswith("proof.") else c

    def point(self, t):
        return frozen(self.L(t))

    def poly(self, t):
        """A committed polynomial's name."""
        if t in self.own:
            return self.own[t]
        q = path_of(t)
        if q and q[0] in ("left", "right") and q[1].startswith("proof."):
            return (q[0], q[1][6:])
        o, a = t.op, t.args
        if o in ("reg_wx", "reg_wy"):
            w = a[0]
            if w.op != "reg_at" or full(w.args[0]) != "self.native_registry":
                return ("other", t)
            w, v = self.point(w.args[1]), self.point(a[1])
            return ("registry", w, v, None) if o == "reg_wx" else ("registry", w, None, v)
        if o == "reg_xy" and full(a[0]) == "self.native_registry":
            return ("registry", None, self.point(a[1]), self.point(a[2]))
        return ("other", t)

    def at(self, P, pt):
        """The value of a polynomial at a point, by name."""
        if isinstance(P, tuple) and P[0] in ("left", "right") and P[1] == "query.native.registry_xy_poly":
            # as the verifier established for each child
            P = ("registry", None, one(f"{P[0]}.challenges.x"), one(f"{P[0]}.challenges.y"))
        if isinstance(P, tuple) and P[0] == "registry" and P.count(None) == 1:
            return tuple(pt if x is None else x for x in P)
        if isinstance(P, tuple) and P[1:] == ("p.native.poly",) and pt == one(f"{P[0]}.challenges.u"):
            return ("value", f"{P[0]}.p.native.v")
        return ("at", P, pt)

    def value(self, t):
        """A staged value, by name."""
        if t is None:
            return None
        if t.op == "peval":
            return self.at(self.poly(t.args[0]), self.point(t.args[1]))
        q = path_of(t)
        return ("value", f"{q[0]}.{q[1][6:]}") if q and q[1].startswith("proof.") else None


def one(*labels):
    return frozen({tuple(sorted(((l, 1) for l in labels), key=lambda x: c23.place(x[0]))): 1})


def say(P):
    if isinstance(P, str):
        return {"a": "the folded a", "b": "the folded b", "f": "the quotients"}.get(P, P)
    if P[0] in ("left", "right"):
        return f"the {P[0]} child's {P[1]}"
    if P[0] == "registry":
        return "the registry at (" + ", ".join("·" if x is None else pt(x) for x in P[1:]) + ")"
    if P[0] == "value":
        return P[1]
    if P[0] == "at":
        return f"{say(P[1])} at {pt(P[2])}"
    return "another polynomial"


def pt(p):
    def l(x):
        return "omega(%s)" % (x[1],) if isinstance(x, tuple) and x[0] == "omega" else str(x)[:60]

    return " + ".join(("" if c == 1 else f"{c}·") + ("·".join(l(x) + ("" if e == 1 else f"^{e}") for x, e in k) or "1") for k, c in p) or "0"


def run(rep):
    try:
        J = Joint(rep, only=("compute_v",))
        if "compute_v" not in J.circuits or not J.circuits["compute_v"].slots:
            return rep.undecided("circuit", "compute_v was not understood")
        decide(Told(rep), J)
    except Odd as e:
        rep.undecided("fuse", str(e))


class View:
    """The evaluation the circuit computes, taken apart."""

    def __init__(self, J, S, names_):
        self.J, self.S, self.names = J, S, names_
        N = J.circuits["compute_v"]
        self.N = N
        P = c15.places(N)
        slot = {}
        for s, ws in N.slots.items():
            for i, w in enumerate(ws):
                for x in N.facts.same(w):
                    slot.setdefault(x, s if len(ws) == 1 else f"{s}[{i}]")
        self.free = []

        def label(t):
            if t in P:
                return ("stage", *P[t])
            if t in slot and slot[t] != "v":
                return slot[t]
            if t.op == "inv":
                return ("inv", frozen(self.L(t.args[0])))
            if t.op == "lift" and t.args[0].op == "endo":
                return ("lift", frozen(self.L(t.args[0].args[0])))
            if t.op == "omega":
                return ("omega", names_.cid(J.canon(t.args[0])))
            if t.op == "txz":
                return ("txz", frozen(self.L(t.args[0])), frozen(self.L(t.args[1])))
            if t.op == "wire":
                self.free.append(t)
            return T("#", t)

        self.L = c23.Lau(label)
        self.memo = {}

    def meant(self, p):
        """A point given over stage positions and slots, over the prover's names."""
        r = {}
        for k, c in p:
            m = {(): c}
            for x, e in k:
                y = {((x, 1),): 1}
                if c23.isstage(x):
                    v = self.S.value(x)
                    if v is None:
                        return None
                    y = self.names.L(v)
                if len(y) != 1 and e < 0:
                    return None
                for _ in range(abs(e)):
                    m = lmul(m, y if e > 0 else {tuple((a, -b) for a, b in next(iter(y))): 1})
            r = ladd(r, m)
        return frozen(r)

    def staged(self, x):
        if x not in self.memo:
            self.memo[x] = self.names.value(self.S.value(x))
        return self.memo[x]


def decide(rep, J):
    W = c23.World(J)
    S = c23.Stages(J)
    Nm = Names(J, W)
    V = View(J, S, Nm)
    where = V.N.fn.where
    vs = V.N.slots.get("v") or []
    if len(vs) != 1:
        return rep.undecided("v", "the slot for the evaluation")
    p = V.L(vs[0])
    beta = next((x for k in p for x, _ in k if isinstance(x, tuple) and x[0] == "lift"), None)
    if beta is None or V.meant(beta[1]) != one("pre_beta"):
        return rep.undecided("v", "what the evaluation weighs its terms by")
    # powers of beta
    terms, quot = {}, {}
    for k, c in p.items():
        d = dict(k)
        b = d.pop(beta, 0)
        al = d.pop("alpha", 0)
        inv = [x for x in d if isinstance(x, tuple) and x[0] == "inv"]
        rest = tuple((x, e) for x, e in k if x in d and x not in inv)
        if any(isinstance(x, T) for x in d):
            x = next(x for x in d if isinstance(x, T))
            if x.op == "#" and x.args[0].op == "wire":
                return rep.bad("v/free", f"the evaluation includes {J.say(J.canon(x.args[0]))}, which is neither staged nor a challenge", where)
            return rep.undecided("v", f"the evaluation includes {J.say(x)}")
        if inv:
            if len(inv) > 1 or d[inv[0]] != 1:
                return rep.undecided("v", "the evaluation divides twice")
            quot.setdefault(b, {}).setdefault(al, {}).setdefault(inv[0], {})[rest] = c
        elif al:
            return rep.undecided("v", "a term weighed by alpha is not a quotient")
        else:
            terms.setdefault(b, {})[rest] = c
    if len(quot) != 1:
        return rep.undecided("v", "the quotients are at several powers of beta") if quot else rep.bad("quotients", "the evaluation includes no quotient, so that nothing is opened", where)
    bf, quot = next(iter(quot.items()))
    power = {}
    for b, t in terms.items():
        xs = [k[0][0] for k, c in t.items() if len(k) == 1 and k[0][1] == 1 and c23.isstage(k[0][0]) and c == 1]
        if len(xs) != len(t):
            return rep.undecided("v", f"a term at beta^{b} is not a staged value")
        if len(xs) > 1 or b == bf:
            rep.bad(f"power/{b}", f"the evaluation weighs {say(V.staged(xs[0]) or 'a value')} and another term both by beta^{b}, so that one can make up for the other", where)
        for x in xs:
            if x in power:
                rep.bad(f"twice/{say(V.staged(x) or x)}", "a staged value is weighed twice", where)
            power[x] = b
    rep.ok("quotients")
    prover(rep, J, V, Nm, power, bf)
    # the openings
    opened, own = {}, {}
    heads = {}
    for al, g in sorted(quot.items()):
        if len(g) != 1:
            rep.bad(f"alpha/{al}", f"the evaluation weighs {len(g)} quotients by alpha^{al}, so that one can make up for another", where)
            continue
        d, num = next(iter(g.items()))
        den = dict(d[1])
        if den.pop((("u", 1),), 0) != 1:
            m = None if any(isinstance(x, T) or isinstance(x, tuple) and x[0] == "inv" for k, _ in d[1] for x, _ in k) else V.meant(d[1])
            if m is not None and not any(isinstance(x, T) for k, _ in m for x, _ in k):
                rep.bad(f"alpha/{al}", f"a quotient divides by {pt(m)}, which is no difference from the challenge point", where)
                continue
            return rep.undecided(f"alpha/{al}", "a quotient is not over a difference from the challenge point")
        point = V.meant(frozen({k: -c for k, c in den.items()}))
        xs = [k[0][0] for k, c in num.items() if len(k) == 1 and k[0][1] == 1 and c == 1 and k[0][0] in power]
        if point is None:
            return rep.undecided(f"alpha/{al}", "the point of a quotient")
        if len(xs) != 1:
            lone = [k[0][0] for k, c in num.items() if len(k) == 1 and c == 1 and c23.isstage(k[0][0])]
            if not xs and lone:
                rep.bad(f"alpha/{al}", f"a quotient is about {say(V.staged(lone[0]) or 'a value')}, which is not in the evaluation itself", where)
            else:
                rep.undecided(f"alpha/{al}", "what a quotient is about")
            continue
        X = xs[0]
        v = S.value(X)
        if v is None or v.op != "peval":
            rep.undecided(f"alpha/{al}", "what a staged evaluation is")
            continue
        P = Nm.poly(v.args[0])
        heads[al] = (P, point)
        val = {k: -c for k, c in num.items() if k != ((X, 1),)}
        key = f"open/{say(P)}/{pt(point)}"
        if len(val) == 1 and (k := next(iter(val))) and len(k) == 1 and k[0][1] == 1 and c23.isstage(k[0][0]) and val[k] == 1:
            x = k[0][0]
            got, want = V.staged(x), Nm.at(P, point)
            if got == want:
                rep.ok(key)
                opened.setdefault(x, set()).add((P, point))
            elif got is None:
                rep.undecided(key, "a claimed value")
            else:
                rep.bad(key, f"the value of {say(P)} at {pt(point)} is claimed to be {say(got)}", where)
        else:
            own[P, point] = val
    quotients(rep, J, V, Nm, heads)
    links(rep, V, Nm, opened, own, where)
    for which in ("a", "b"):
        folded(rep, J, W, V, Nm, which, opened, own, where)


def prover(rep, J, V, Nm, power, bf):
    """The prover's polynomial and its commitment have the same terms under the same powers."""
    where = J.F.fn.where
    t = J.at("p.native.poly")
    v = J.at("p.native.v")
    u = one("u")
    if v.op == "peval" and v.args[0] is t and Nm.point(v.args[1]) == u:
        rep.ok("evaluation")
    elif v.op == "peval":
        rep.bad("evaluation", "the prover's evaluation is not its polynomial's at the challenge point", where)
    else:
        rep.undecided("evaluation", "the prover's evaluation")

    def form(t):
        n = Nm.poly(t)
        if not (isinstance(n, tuple) and n[0] == "other"):
            return {n: {(): 1}}
        if t.op in ("padd", "psub"):
            return fadd(form(t.args[0]), form(t.args[1]), 1 if t.op == "padd" else -1)
        if t.op == "pscale":
            return fscale(form(t.args[0]), Nm.L(t.args[1]))
        if t.op == "pneg":
            return fadd({}, form(t.args[0]), -1)
        return {n: {(): 1}}

    beta = ("lift", one("pre_beta"))
    F = form(t)
    at = {}
    for P, w in F.items():
        if isinstance(P, tuple) and P[0] == "other":
            return rep.undecided("combination", f"the prover's polynomial includes {J.say(P[1])}")
        e = next(iter(w))
        if len(w) != 1 or w[e] != 1 or any(x != beta for x, _ in e):
            n = sum(w.values())
            if all(not m or len(m) == 1 and m[0][0] == beta for m in w) and len(w) > 1:
                rep.bad(f"combination/{say(P)}", f"the prover's polynomial includes {say(P)} {n} times", where)
            else:
                rep.undecided("combination", f"the weight of {say(P)} in the prover's polynomial")
            return
        at[P] = e[0][1] if e else 0
    if "f" not in at:
        return rep.bad("combination/f", "the prover's polynomial does not include the quotients", where)
    if at["f"] == bf:
        rep.ok("combination/f")
    else:
        rep.bad("combination/f", f"the prover weighs the quotients by beta^{at['f']}, the circuit by beta^{bf}", where)
    seen = {"f"}
    for X, b in power.items():
        v = V.S.value(X)
        if v is None or v.op != "peval":
            rep.undecided(f"term/{X[2]}", "a staged evaluation")
            continue
        P = Nm.poly(v.args[0])
        seen.add(P)
        if Nm.point(v.args[1]) != u:
            rep.bad(f"term/{say(P)}", f"the prover stages {say(P)} at {pt(Nm.point(v.args[1]))} instead of at the challenge point", where)
        elif P not in at:
            rep.bad(f"term/{say(P)}", f"the circuit's evaluation includes {say(P)}, which the prover's polynomial does not", where)
        elif at[P] != b:
            rep.bad(f"term/{say(P)}", f"the prover weighs {say(P)} by beta^{at[P]}, the circuit by beta^{b}", where)
        else:
            rep.ok(f"term/{say(P)}")
    for P in at:
        if P not in seen:
            rep.bad(f"term/{say(P)}", f"the prover's polynomial includes {say(P)}, which the circuit's evaluation does not", where)
    commitment(rep, J, Nm, at, beta)


def commitment(rep, J, Nm, at, beta):
    where = J.F.fn.where

    def label(t):
        if t.op == "commit":
            return ("com", Nm.poly(t.args[0]))
        for n in "ab":
            if t is J.at(f"ab.native.{n}_commitment"):
                return ("com", n)
        q = path_of(t)
        if q and q[0] in ("left", "right") and "commitment" in q[1]:
            h, l = q[1][6:].rsplit(".", 1)
            return ("com", (q[0], h + "." + {"commitment": "poly" if h == "p.native" else "rx"}.get(l, l.replace("_commitment", "_poly"))))
        return Nm.label(t)

    L = c23.Lau(label)
    c = J.at("p.native.commitment")
    if c.op == "commit":
        return rep.ok("commitment") if c.args[0] is J.at("p.native.poly") else rep.bad("commitment", "the prover commits to another polynomial", where)
    got = {}
    for k, v in L(c).items():
        cs = [x for x, e in k if isinstance(x, tuple) and x[0] == "com"]
        rest = tuple((x, e) for x, e in k if x not in cs)
        if len(cs) != 1 or any(x != beta for x, _ in rest) or v != 1:
            return rep.undecided("commitment", "a term of the prover's commitment")
        P = cs[0][1]
        if P in got:
            return rep.bad(f"commitment/{say(P)}", f"the prover's commitment includes that of {say(P)} twice", where)
        got[P] = rest[0][1] if rest else 0
    for P in set(at) | set(got):
        if isinstance(P, tuple) and P[0] == "other":
            return rep.undecided("commitment", "a commitment to an unknown polynomial")
    for P in sorted(set(at) | set(got), key=str):
        if at.get(P) == got.get(P):
            rep.ok(f"commitment/{say(P)}")
        else:
            rep.bad(f"commitment/{say(P)}", f"the prover's polynomial has {say(P)} under beta^{at.get(P)}, its commitment under beta^{got.get(P)}", where)


def quotients(rep, J, V, Nm, heads):
    """The prover's quotient polynomial divides the same polynomials at the same points, under the same powers."""
    where = J.F.fn.where
    t = J.at("f.native.poly")
    if t.op == "coeffs":
        t = t.args[0]
    n = 0
    while t.op == "after" and str(t.args[0]).endswith("::reverse"):
        n += 1
        t = t.args[2]
    if n % 2 == 0 and t.op == "seq":
        # quotients come with their highest coefficient first
        return rep.bad("order", "the coefficients of the quotients are taken in the wrong order", where)
    if t.op != "seq" or len(t.args) != 1 or t.args[0].op != "each":
        return rep.undecided("prover/quotients", "the prover's quotients")
    first, expr = t.args[0].args[0], t.args[0].args[1]

    def label(t):
        if t.op in ("term", "factored", "elem"):
            f = t if t.op == "factored" else t.args[0]
            if f.op == "factored" and f.args[0].op == "coeffs_of":
                return ("over", Nm.poly(f.args[0].args[0]), Nm.point(f.args[1]))
        if t.op == "item" and t.args[0] is first:
            return label(first)
        return Nm.label(t)

    got, twice = {}, set()
    for k, v in c23.Lau(label)(expr).items():
        o = [x for x, e in k if isinstance(x, tuple) and x[0] == "over"]
        rest = tuple((x, e) for x, e in k if x not in o)
        if len(o) != 1 or v != 1 or any(x != "alpha" for x, _ in rest):
            return rep.undecided("prover/quotients", f"a term of the prover's quotients: {k} {v}"[:600])
        al = rest[0][1] if rest else 0
        if al in got:
            twice.add(al)
        got[al] = o[0][1:]
    for al in sorted(set(got) | set(heads)):
        key = f"quotient/{al}"
        if al in twice:
            rep.bad(key, f"the prover weighs two quotients by alpha^{al}", where)
        elif got.get(al) == heads.get(al):
            rep.ok(key)
        else:
            g, h = got.get(al), heads.get(al)
            rep.bad(key, f"under alpha^{al} the prover divides {say(g[0]) + ' at ' + pt(g[1]) if g else 'nothing'}, the circuit {say(h[0]) + ' at ' + pt(h[1]) if h else 'nothing'}", where)


def links(rep, V, Nm, opened, own, where):
    """What has to be opened whatever the folding needs."""
    def wires(P, point):
        return {x for x, s in opened.items() if (P, point) in s}

    w, x, y = one("w"), one("x"), one("y")
    for s in ("left", "right"):
        cx, cy, cu = (one(f"{s}.challenges.{n}") for n in ("x", "y", "u"))
        P = (s, "p.native.poly")
        got = wires(P, cu)
        if got:
            rep.ok(f"child/{s}")
        else:
            rep.bad(f"child/{s}", f"no quotient checks the {s} child's evaluation", where)
        wx = ("registry", w, cx, None)
        wy = ("registry", w, None, y)
        for key, one_, other in (
            ("old-w", ((s, "query.native.registry_xy_poly"), w), (wx, cy)),
            ("wx-wy", (wx, y), (wy, cx)),
        ):
            join(rep, f"link/{s}/{key}", wires(*one_), wires(*other), one_, other, where)
    join(rep, "link/wy-xy", wires(("registry", w, None, y), x), wires(("registry", None, x, y), w), (("registry", w, None, y), x), (("registry", None, x, y), w), where)


def join(rep, key, a, b, A, B, where):
    if a & b:
        rep.ok(key)
    elif a and b:
        rep.bad(key, f"the value of {say(A[0])} at {pt(A[1])} and that of {say(B[0])} at {pt(B[1])} are not held equal", where)
    else:
        P = A if not a else B
        rep.bad(key, f"no quotient opens {say(P[0])} at {pt(P[1])}", where)


def folded(rep, J, W, V, Nm, which, opened, own, where):
    """The value of a folded polynomial is computed from openings as the prover folds."""
    hits = [(k[1], v) for k, v in own.items() if k[0] == which]
    if not hits:
        if any((which, q) in s for s in opened.values() for q in {p[1] for p in s}):
            return rep.bad(f"folded/{which}", f"the value of {say(which)} is the prover's word, and not computed from the children's", where)
        return rep.bad(f"folded/{which}", f"no quotient opens {say(which)}", where)
    point, val = hits[0]
    form = W.form(J.at(f"ab.native.{which}_poly"))
    got = {}
    for k, c in val.items():
        qs = [x for x, e in k if c23.isstage(x) or isinstance(x, tuple) and x[0] == "txz"]
        rest = tuple((x, e) for x, e in k if x not in qs)
        if len(qs) != 1 or any(not isinstance(x, str) for x, _ in rest):
            return rep.undecided(f"folded/{which}", "a term of the value computed for a folded polynomial")
        r = got.setdefault(qs[0], {})
        r[rest] = r.get(rest, 0) + c
    # what each part of the fold is at the point
    P0 = {k: v for k, v in point}
    want = {}
    for base, w in form.items():
        if base[0] in ("left", "right"):
            k = ((base[0], NATIVE[base[1]]), point)
        elif base[0] == "dilate" and base[1][0] in ("left", "right"):
            k = ((base[1][0], NATIVE[base[1][1]]), frozen(lmul(P0, {((base[2], 1),): 1})))
        elif base[0] == "s":
            c = base[2]
            om = ("omega", c if not isinstance(c, str) else f"{c}.application.circuit_id")
            k = (("registry", None, point, one(base[3])), frozen({((om, 1),): 1}))
        elif base[0] == "t":
            k = ("txz", point, one(base[1]))
        else:
            return rep.undecided(f"folded/{which}", "what the prover folds")
        want[k] = ladd(want.get(k, {}), w)
    used = set()
    for k, w in sorted(want.items(), key=str):
        if k[0] == "txz":
            qs = [q for q in got if q[0] == "txz" and V.meant(q[1]) == k[1] and V.meant(q[2]) == k[2]]
            name = "t"
        else:
            qs = [q for q in got if k in opened.get(q, ())]
            name = f"{say(k[0])} at {pt(k[1])}"
        key = f"folded/{which}/{name}"
        used |= set(qs)
        total = {}
        for q in qs:
            total = ladd(total, got[q])
        if total == w:
            rep.ok(key)
        elif not qs:
            rep.bad(key, f"the value computed for {say(which)} leaves out {name}" if k[0] == "txz" or any(k in s for s in opened.values()) else
                    f"the value computed for {say(which)} does not use the value of {name}, which no quotient checks", where)
        else:
            rep.bad(key, f"the value computed for {say(which)} weighs {name} differently from the prover", where)
    for q in got:
        if q not in used:
            n = V.staged(q) if q[0] == "stage" else None
            rep.bad(f"folded/{which}/spare/{say(n) if n else q}", f"the value computed for {say(which)} includes {say(n) if n else 'a value'}, which the prover does not fold or no quotient opens", where)
