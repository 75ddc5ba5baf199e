"""Folding: the children's claims become one, whose value the circuits force to be the fold of what was committed."""
from joint import *
import rules.c15 as c15
import rules.c16 as c16
import rules.c25 as c25

LEVEL = "other"
RULE = ("The prover is evaluated by value numbering and the internal circuits on the witnesses it hands them. The folded polynomials are "
        "expanded into linear forms over the children's polynomials, with Laurent monomials in the folding challenges as coefficients; the "
        "polynomials the circuits enforce are expanded over stage positions and instance slots. The value forced onto the instance's c must be "
        "the sum over all pairs of the product of the two weights times the staged value committed for that pair: each error term must sit "
        "under the weight of the pair whose product was committed there, every weight and every staged error term must be used once, and "
        "each diagonal pair must be one of the children's claims (as the verifier makes them) with that claim's public value. No claim, "
        "child or stage may be missing, and the commitment to the folded polynomial must be the same combination of the commitments.")
ASSUME = ["Which staged value holds which public input is C25's; what the verifier's claims are is C16's.", "revdot is bilinear (C22)."]
FLOOR = 90
FOLD = ("mu", "nu", "mu_prime", "nu_prime")


_ORDER = {}


def place(x):
    return _ORDER.setdefault(x, len(_ORDER))


def times(a, b):
    """The product of two monomials with integer exponents."""
    d = dict(a)
    for k, e in b:
        d[k] = d.get(k, 0) + e
    return tuple(sorted(((k, e) for k, e in d.items() if e), key=lambda x: place(x[0])))


class Lau:
    """Terms as Laurent polynomials: {monomial: coefficient}; a monomial is a tuple of (label, exponent)."""

    def __init__(self, label):
        self.label, self.memo = label, {}

    def __call__(self, t):
        k = id(t)
        if k not in self.memo:
            self.memo[k] = (t, self.step(t))
        return self.memo[k][1]

    def step(self, t):
        o, a = t.op, t.args
        if o == "lit" and isinstance(a[0], (int, str)) and not isinstance(a[0], bool) and str(a[0]).lstrip("-").isdigit():
            return {(): int(a[0])} if int(a[0]) else {}
        if o == "named" and str(a[0]).endswith("::ONE"):
            return {(): 1}
        if o == "named" and str(a[0]).endswith("::ZERO"):
            return {}
        if o == "konst":
            return self(a[0])
        if o == "bin" and a[0] in ("Add", "Sub", "Mul"):
            x, y = self(a[1]), self(a[2])
            return lmul(x, y) if a[0] == "Mul" else ladd(x, y, 1 if a[0] == "Add" else -1)
        if o == "un" and a[0] == "Neg":
            return ladd({}, self(a[1]), -1)
        if o == "inv" or o == "call" and a[0].split("::")[-1] == "invert":
            x = self(a[-1] if o == "call" else a[0])
            if len(x) == 1 and (k := next(iter(x))) and x[k] == 1:
                return {tuple((v, -e) for v, e in k): 1}
        if o == "call" and a[0].split("::")[-1] in ("expect", "unwrap", "unwrap_unchecked") or o in ("expect", "unwrap"):
            return self(next(x for x in a if isinstance(x, T)))
        return {((self.label(t), 1),): 1}


def ladd(x, y, s=1):
    r = dict(x)
    for k, v in y.items():
        r[k] = r.get(k, 0) + s * v
        if not r[k]:
            del r[k]
    return r


def lmul(x, y):
    r = {}
    for k, v in x.items():
        for j, w in y.items():
            m = times(k, j)
            r[m] = r.get(m, 0) + v * w
            if not r[m]:
                del r[m]
    return r


def split(p, which):
    """A Laurent polynomial by its part in some labels: {that part: the rest}."""
    r = {}
    for k, v in p.items():
        w = tuple((x, e) for x, e in k if x in which)
        rest = tuple((x, e) for x, e in k if x not in which)
        r.setdefault(w, {})[rest] = v
    return r


class World:
    """Labels for challenges, and polynomials as linear forms over the children's."""

    def __init__(self, J):
        self.J, self.L = J, Lau(self.label)
        self.ch = {J.at("challenges." + n): n for n in names(J.canon(names(J.proof)["challenges"]))}
        self.base = {}
        for side in ("left", "right"):
            for k, p in NATIVE.items():
                self.base[c15.child(J, side, p)] = (side, k)
        self.memo = {}

    def label(self, t):
        return self.ch.get(t) or T("#", t)

    def form(self, t):
        """{base: Laurent polynomial}"""
        k = id(t)
        if k not in self.memo:
            self.memo[k] = (t, self.form_(t))
        return self.memo[k][1]

    def form_(self, t):
        o, a = t.op, t.args
        if o in ("padd", "psub"):
            return fadd(self.form(a[0]), self.form(a[1]), 1 if o == "padd" else -1)
        if o == "pscale":
            return fscale(self.form(a[0]), self.L(a[1]))
        if o == "pneg":
            return fadd({}, self.form(a[0]), -1)
        if o == "dilate":
            z = self.label(a[1])
            return {("dilate", k, z): v for k, v in self.form(a[0]).items()}
        if o == "fold":
            z, r = self.L(a[1]), {}
            if a[0].op != "seq" or any(x.op in ("each", "splice") for x in a[0].args):
                raise Odd("a fold over unknown polynomials")
            for x in a[0].args:
                r = fadd(fscale(r, z), self.form(x))
            return r
        if o == "adt" and a[0].endswith("::Polynomial") and (b := names(t).get("blocks")) is not None and b.op == "seq" and not b.args:
            return {}
        if o == "call" and a[0].endswith(("Default>::default", "Default::default", "Polynomial::default")):
            return {}
        if o == "circuit_y":
            c = a[1]
            if c.op == "adt" and c.args[0] == CIX:
                c = c.args[2][0][1]
            cid = int(c.args[0]) if c.op == "lit" else next((s for s in ("left", "right") if c is c15.child(self.J, s, "application.circuit_id")), c)
            return {("s", full(a[0]), cid, self.label(a[2])): {(): 1}}
        if o == "tz":
            return {("t", self.label(a[0])): {(): 1}}
        if t in self.base:
            return {self.base[t]: {(): 1}}
        return {("other", t): {(): 1}}


def fadd(f, g, s=1):
    r = dict(f)
    for k, v in g.items():
        r[k] = ladd(r.get(k, {}), v, s)
        if not r[k]:
            del r[k]
    return r


def fscale(f, c):
    return {k: x for k, v in f.items() if (x := lmul(v, c))}


def fsplit(f, which):
    """A form by its monomials in some labels: {monomial: form}."""
    r = {}
    for k, v in f.items():
        for w, rest in split(v, which).items():
            r.setdefault(w, {})[k] = rest
    return r


class Enforced:
    """What the circuits enforce, over stage positions and instance slots: (circuit, polynomial) pairs."""

    def __init__(self, J, only=None):
        self.out = []
        for n, N in J.circuits.items():
            if only and n not in only:
                continue
            P, R = c15.places(N), N.facts.R
            slot = {}
            for s, ws in N.slots.items():
                for i, w in enumerate(ws):
                    for x in N.facts.same(w):
                        slot.setdefault(x, s if len(ws) == 1 else f"{s}[{i}]")

            def label(t, N=N, P=P, slot=slot):
                if t in P:
                    return ("stage", *P[t])
                if t in slot:
                    return slot[t]
                return ("iszero", frozen(self.lau(t.args[0]))) if t.op == "iszero" else T("#", t)

            self.lau = Lau(label)
            for p in N.facts.zero:
                # atoms are terms themselves
                q = {}
                for k, v in p.m.items():
                    r = {(): v}
                    for a, e in k:
                        x = self.lau(R.atoms[a])
                        for _ in range(e):
                            r = lmul(r, x)
                    q = ladd(q, r)
                self.out.append((n, q))

    def with_(self, test):
        return [(n, p) for n, p in self.out if any(test(x) for k in p for x, e in k)]


def frozen(p):
    return tuple(sorted(p.items(), key=str))


def gated(p):
    """A polynomial as the part that does not depend on any test for zero, and the tests' factor: (part, {tests: coefficient})."""
    parts = {}
    for k, v in p.items():
        g = tuple((x, e) for x, e in k if isinstance(x, tuple) and x[0] == "iszero")
        rest = tuple((x, e) for x, e in k if not (isinstance(x, tuple) and x[0] == "iszero"))
        parts.setdefault(g, {})[rest] = v
    # without a part of its own it is one part under one test, or none
    base = parts.get((), {}) or (next(iter(parts.values())) if len(parts) == 1 else {})
    factor = {}
    for g, q in parts.items():
        for c in (1, -1, 2, -2):
            if q == {k: c * v for k, v in base.items()}:
                factor[g] = c
                break
        else:
            return None, None
    return base, factor


def isstage(x, what=None):
    return isinstance(x, tuple) and len(x) == 3 and x[0] == "stage" and (what is None or what in x[1])


def weights(p, head):
    """For a polynomial head - sum of weight times staged value: {staged: [weights]}, and what else is in it."""
    k0 = ((head, 1),)
    c = p.get(k0)
    if c not in (1, -1):
        return None, [head]
    out, odd = {}, []
    for k, v in p.items():
        if k == k0:
            continue
        ws = [x for x, e in k if isstage(x) and e == 1]
        free = [x for x, e in k if not (isinstance(x, str) and x in FOLD) and not isstage(x)]
        if len(ws) != 1 or free or v * c != -1 or any(x == head for x, _ in k):
            odd.append(free[0] if free else k)
            continue
        out.setdefault(ws[0], []).append(tuple((x, e) for x, e in k if x != ws[0]))
    return out, odd


def outer(J, E):
    """The enforced polynomials that determine the folded claim: (circuit, polynomial, factor)."""
    r = []
    for n, p in E.with_(lambda x: x == "c"):
        base, factor = gated(p)
        if base is not None and sum(1 for k in base if any(x == "c" for x, _ in k)) == 1:
            r.append((n, base, factor))
    return r


class Stages:
    """What the prover commits to at each position of a stage."""

    def __init__(self, J):
        self.J, self.of = J, {}
        for t in J.stages:
            s = t.args[0].args[0]
            if "::native::stages::" in s:
                self.of.setdefault(s.split("::native::stages::")[1].split("::")[0], t)

    def value(self, x):
        t = self.of.get(x[1].split("::native::stages::")[1].split("::")[0])
        if t is None:
            return None
        v = staged(self.J, t).values
        return v[x[2]] if x[2] < len(v) else None


def said(form):
    def one(k):
        if k[0] == "dilate":
            return one(k[1])
        if k[0] in ("left", "right"):
            return f"{k[0]} {k[1]}"
        return {"s": "a circuit's wiring", "t": "t"}.get(k[0], "another polynomial")

    return " + ".join(sorted({one(k) for k in form})) or "nothing"


def cross(rep, key, W, S, X, w, A, B, where, what):
    """Whether an error term's committed value is the product its weight stands for; says which pair."""
    pair = [(a, b) for a in A for b in B if times(a, b) == w]
    v = S.value(X)
    if v is None or v.op != "revdot":
        return None
    P, Q = W.form(v.args[0]), W.form(v.args[1])
    if not P or not Q:
        # padding: the committed value is zero
        if pair and A[pair[0][0]] and B[pair[0][1]]:
            rep.bad(key, f"{what} weighs a committed zero as the product of {said(A[pair[0][0]])} and {said(B[pair[0][1]])}", where)
        return ()
    if len(pair) == 1 and A[pair[0][0]] == P and B[pair[0][1]] == Q:
        return pair[0]
    rep.bad(key, f"{what} weighs the committed product of {said(P)} and {said(Q)} by {pretty(w)}, which is not what the prover folds that pair with", where)
    return ()


def pretty(w):
    return "·".join(f"{x}^{e}" for x, e in w) or "1"


def claims(rep, J, W, E, S):
    """The claims the circuits fold: (form of a, form of b, what the product is claimed to be), from circuits and prover together."""
    where = J.circuits["outer_collapse"].fn.where
    a, b = J.at("ab.native.a_poly"), J.at("ab.native.b_poly")
    c = J.at("ab.native.c")
    if c.op == "revdot" and set(map(id, c.args)) == {id(a), id(b)}:
        rep.ok("c")
    elif c.op == "revdot":
        rep.bad("c", "the prover's c is not the product of the folded polynomials it records", J.F.fn.where)
    else:
        rep.undecided("c", "the prover's c")
    A, B = W.form(a), W.form(b)
    strange = [k for f in (A, B) for k in f if k[0] == "other"]
    if strange:
        if all(path_of(k[1]) for k in strange):
            rep.bad("folded", f"the prover folds {J.say(strange[0][1])}, which no claim is about", J.F.fn.where)
        else:
            rep.undecided("folded", f"the prover folds {J.say(strange[0][1])}")
        return None
    out = outer(J, E)
    if not out:
        rep.bad("outer", "no circuit forces the instance's c to be the fold of the committed error terms", where)
        return None
    n, p, factor = out[0]
    ws, odd = weights(p, "c")
    if ws is None or odd:
        o = odd[0]
        if isinstance(o, T) and o.op == "#" and o.args[0].op == "wire":
            rep.bad("outer/free", f"{n} folds {J.say(J.canon(o.args[0]))}, which no stage commits to", where)
        else:
            rep.undecided("outer", f"the fold in {n} has a part that was not understood: {str(o)[:160]}")
        return None
    spread(rep, "outer", ws, n, where)
    GA, GB = fsplit(A, ("mu_prime", "nu_prime")), fsplit(B, ("mu_prime", "nu_prime"))
    distinct(rep, "outer/weights", GA, GB, J)
    total, done, groups = len(ws), set(), []
    for X, l in sorted(ws.items(), key=str):
        v = S.value(X)
        if nothing(v) and not forced(E, X):
            # the error term of padding
            continue
        if v is not None and v.op == "revdot":
            pr = cross(rep, f"outer/{X[2]}", W, S, X, l[0], GA, GB, where, n)
            if pr:
                done.add(pr)
                rep.ok(f"outer/{X[2]}")
            elif pr is None:
                rep.undecided(f"outer/{X[2]}", "an error term's value")
        else:
            groups.append((X, l[0]))
    g = len(groups)
    if total != g * g:
        rep.bad("outer/count", f"{n} folds {g} values with {total - g} error terms, where {g * g - g} are needed", where)
    else:
        rep.ok("outer/count")
    left = [(x, y) for x in GA for y in GB if (x, y) not in done]
    found, used = [], set()
    for X, w in groups:
        pr = [(x, y) for x, y in left if times(x, y) == w]
        if len(pr) == 1:
            used.add(pr[0])
        found += group(rep, J, W, E, S, X, GA[pr[0][0]] if pr else {}, GB[pr[0][1]] if pr else {})
    for x, y in left:
        if (x, y) not in used:
            rep.bad("outer/missing", f"{n} has no term for the product of {said(GA[x])} and {said(GB[y])}", where)
    return found


def distinct(rep, key, GA, GB, J):
    ws = [times(x, y) for x in GA for y in GB]
    if len(ws) == len(set(ws)):
        rep.ok(key)
    else:
        rep.bad(key, "two different products are folded with one weight", J.F.fn.where)


def spread(rep, key, ws, n, where):
    """Each staged value has one weight, and no weight is used twice."""
    seen = {}
    for X, l in ws.items():
        if len(l) > 1:
            rep.bad(f"{key}/twice/{X[2]}", f"{n} folds one committed value under {len(l)} weights", where)
        for w in l:
            if w in seen and seen[w] != X:
                rep.bad(f"{key}/weight/{pretty(w)}", f"{n} folds two committed values under one weight, {pretty(w)}", where)
            seen.setdefault(w, X)


def nothing(v):
    return v is not None and (v.op == "named" and str(v.args[0]).endswith("::ZERO") or v.op == "lit" and str(v.args[0]) == "0")


def forced(E, X, but=None):
    """Whether some circuit forces a staged value by others."""
    return any(n != but and p.get(((X, 1),)) in (1, -1) and len(p) > 1 for n, p in E.with_(lambda x: x == X))


def group(rep, J, W, E, S, X, A, B):
    """The claims of one group, whose collapsed value is staged at X."""
    key = f"group/{X[2]}"
    hits = [(n, p) for n, p in E.with_(lambda x: x == X) if p.get(((X, 1),)) in (1, -1) and not any(x == "c" for k in p for x, _ in k)]
    where = J.circuits["inner_collapse"].fn.where
    inner = []
    for n, p in hits:
        ws, odd = weights(p, X)
        if ws is not None and not odd and (ws or len(p) > 1):
            inner.append((n, ws))
        elif ws is not None and odd and any(isinstance(o, T) and o.args[0].op == "wire" for o in odd):
            o = next(o for o in odd if isinstance(o, T) and o.args[0].op == "wire")
            inner.append((n, None))
            rep.bad(f"{key}/free", f"{n} folds {J.say(J.canon(o.args[0]))}, which no stage commits to", where)
            return []
    if not inner:
        if any(N.facts.guarded for N in J.circuits.values()) or hits:
            rep.undecided(key, "how the group's value is forced was not understood")
        else:
            rep.bad(key, f"no circuit forces the collapsed value at position {X[2]} of its stage", where)
        return []
    n, ws = inner[0]
    where = J.circuits[n].fn.where
    GA, GB = fsplit(A, ("mu", "nu")), fsplit(B, ("mu", "nu"))
    distinct(rep, f"{key}/weights", GA, GB, J)
    errors = {Y: l[0] for Y, l in ws.items() if (v := S.value(Y)) is not None and (v.op == "revdot" or nothing(v)) and not forced(E, Y, n)}
    spread(rep, key, {Y: ws[Y] for Y in errors}, n, where)
    done = set()
    for Y, w in sorted(errors.items(), key=str):
        pr = cross(rep, f"{key}/error/{Y[2]}", W, S, Y, w, GA, GB, where, n)
        if pr:
            done.add(pr)
    # m values are folded with m(m-1) error terms
    m = next((m for m in range(1, 64) if m * (m - 1) == len(errors)), None)
    if m is None:
        rep.bad(f"{key}/count", f"{n} folds the group at {X[2]} with {len(errors)} error terms, a number no group needs", where)
    else:
        rep.ok(f"{key}/count")
    rest = {}
    for Y, l in ws.items():
        for w in l:
            if Y not in errors and w in rest or w in errors.values() and Y not in errors:
                rep.bad(f"{key}/weight/{pretty(w)}", f"{n} folds two committed values under one weight, {pretty(w)}", where)
            if Y not in errors:
                rest.setdefault(w, Y)
    out = []
    for x in GA:
        for y in GB:
            if (x, y) in done:
                continue
            w = times(x, y)
            out.append((GA[x], GB[y], rest.pop(w, None), key))
    for w, Y in rest.items():
        out.append(({}, {}, Y, key))
    return out


def expected(J, order, bound):
    """Every claim there is about the children: {name: (test on a, test on b, what is claimed)}."""
    one = {(): 1}
    out = {}
    for side in ("left", "right"):
        def circuit(parts, cid, side=side):
            a = {(side, k): one for k in parts}
            b = {("dilate", k, "z"): one for k in a}
            b["s", "self.native_registry", cid, "y"] = one
            b["t", "z"] = one
            return a, b

        out[side, "raw"] = ({(side, "AbA"): one}, {(side, "AbB"): one}, "c")
        out[side, "Application"] = (*circuit(["Application"], side), "application")
        for n, parts in CIRCUITS.items():
            out[side, n] = (*circuit(parts, int(order[n])), KY[n][:-3])
    return out


def run(rep):
    try:
        told = Told(rep)
        J = Joint(rep, only=("hashes_1", "inner_collapse", "outer_collapse"))
        for n in ("hashes_1", "inner_collapse", "outer_collapse"):
            if n not in J.circuits or not J.circuits[n].slots:
                return rep.undecided(f"circuit/{n}", f"{n} was not understood")
        folding(told, J)
    except Odd as e:
        rep.undecided("fuse", str(e))


def folding(rep, J):
    order = c16.order_of(rep.rep, False)
    if order is None:
        return rep.undecided("circuits", "the list of internal circuits")
    W, E, S = World(J), Enforced(J), Stages(J)
    found = claims(rep, J, W, E, S)
    if found is None:
        return
    R = Ring()
    want = c25.wanted(rep.rep, J, R)
    if want is None:
        return rep.undecided("instance", "the circuits' outputs")
    bound = {}
    for n in J.circuits:
        f, _ = c25.bound(J, n, want, R, {n: c15.places(J.circuits[n])})
        for k, at in f.items():
            bound.setdefault(k, ("stage", *at))
    where = J.circuits["inner_collapse"].fn.where

    def claimed(Y):
        """What a staged value is: (side, kind)."""
        if Y is None:
            return 0
        for k, at in bound.items():
            if at == Y:
                return k
        v = S.value(Y)
        for side in ("left", "right"):
            if v is not None and v is c15.child(J, side, "ab.native.c"):
                return (side, "c")
        return v

    exp, left = expected(J, order, bound), list(found)
    for (side, name), (a, b, what) in exp.items():
        hit = [c for c in left if (c[0], c[1]) in ((a, b), (b, a))]
        if not hit:
            rep.bad(f"claim/{side}/{name}", f"the {side} child's {name} claim is not among those folded", J.F.fn.where)
            continue
        for c in hit:
            left.remove(c)
        got = claimed(hit[0][2])
        if len(hit) == 1 and got == (side, what):
            rep.ok(f"claim/{side}/{name}")
        elif len(hit) > 1:
            rep.bad(f"claim/{side}/{name}", f"the {side} child's {name} claim is folded {len(hit)} times", J.F.fn.where)
        elif isinstance(got, T):
            rep.undecided(f"claim/{side}/{name}", f"the value claimed was not understood: {J.say(got)}")
        else:
            rep.bad(f"claim/{side}/{name}", f"the circuits take the {side} child's {name} claim to have the value " + ("zero" if got == 0 else f"of the {got[0]} child's {got[1]}") + f", not its {what}", where)
    for mask, parts in MASKS.items():
        cid = order.get(mask)
        got = [c for c in left if any(f == {("s", "self.native_registry", int(cid), "y"): {(): 1}} for f in c[:2])] if cid is not None else []
        cover = {}
        for c in got:
            left.remove(c)
            f = c[0] if ("s", "self.native_registry", int(cid), "y") in c[1] else c[1]
            seen = set()
            for k, v in f.items():
                mono = next(iter(v)) if len(v) == 1 else None
                if mono is None or v[mono] != 1 or any(x != "z" for x, _ in mono) or mono in seen:
                    rep.bad(f"mask/{mask}/powers", f"the polynomials {mask} is about are not folded under distinct powers of z", J.F.fn.where)
                    continue
                seen.add(mono)
                cover.setdefault(k, []).append(c)
            y = claimed(c[2])
            if y != 0:
                (rep.undecided(f"mask/{mask}/value", "the value claimed") if isinstance(y, T) else
                 rep.bad(f"mask/{mask}/value", f"the circuits take {mask}'s claim to have the value of the {y[0]} child's {y[1]}, not zero", where))
            else:
                rep.ok(f"mask/{mask}/value")
        for side in ("left", "right"):
            for p in parts:
                if (side, p) in cover:
                    rep.ok(f"mask/{side}/{mask}/{p}")
                else:
                    rep.bad(f"mask/{side}/{mask}/{p}", f"no folded claim keeps the {side} child's {p} within the positions {mask} allows", J.F.fn.where)
    for a, b, Y, key in left:
        if not a and not b and (Y is None or S.value(Y) is None):
            continue
        if not a and not b:
            rep.bad(f"{key}/spare", f"a group folds {J.say(S.value(Y))} where the prover has no claim", where)
        elif Y is None:
            rep.bad(f"{key}/pair", f"the circuits have no term for the product of {said(a)} and {said(b)}", where)
        else:
            rep.undecided(f"{key}/extra", f"a claim about {said(a)} and {said(b)}")
    commitment(rep, J, W)


def commitment(rep, J, W):
    """The folded polynomial's commitment is the same fold of the children's commitments."""
    t = J.at("ab.native.a_commitment")
    want = W.form(J.at("ab.native.a_poly"))
    if t.op == "commit":
        return rep.ok("commitment/a") if W.form(t.args[0]) == want else rep.bad("commitment/a", "a's commitment is to another polynomial", J.F.fn.where)
    if t.op != "msm":
        return rep.undecided("commitment/a", "a's commitment")
    com = {}
    for side in ("left", "right"):
        for k, p in NATIVE.items():
            q = p.rsplit(".", 1)
            c15.child(J, side, p)
            com[J.canon(J._child.get((side, "proof." + q[0] + "." + q[1].replace("rx", "commitment").replace("_poly", "_commitment")), T("lit", "")))] = (side, k)
    fl = J.fl
    fr = fl.stack[-1] if fl.stack else None
    cs, ps = [fl.iterate(x, lambda y: y, fr, 0) for x in t.args]
    if len(cs) != len(ps) or any(x.op in ("each", "splice") for x in cs + ps):
        return rep.undecided("commitment/a", "the terms of a's commitment")
    got = {}
    for c, p in zip(cs, ps):
        p = J.canon(J.solid(p))
        k = com.get(p)
        if k is None:
            k = commitment_of(J, p)
        if k is None:
            return rep.undecided("commitment/a", f"a's commitment includes {J.say(p)}")
        got = fadd(got, {k: W.L(J.canon(J.solid(c)))})
    if got == want:
        rep.ok("commitment/a")
    else:
        d = next(k for k in list(got) + list(want) if got.get(k) != want.get(k))
        rep.bad("commitment/a", f"a's commitment weighs the {d[0]} child's {d[1]} differently from a itself", J.F.fn.where)


def commitment_of(J, p):
    q = path_of(p)
    if q is None or q[0] not in ("left", "right"):
        return None
    for k, path in NATIVE.items():
        h, t = path.rsplit(".", 1)
        if q[1] in (f"proof.{h}.commitment" if t == "rx" else f"proof.{h}.{t.replace('_poly', '_commitment')}",):
            return (q[0], k)
    return None
