"""The registry: one polynomial for all circuits, each at the point of its index."""
import itertools

from alg import Poly
from pcd import *
from fuse import solid
from rules.c18 import MAP

LEVEL = "other"
RULE = ("Registries of 1 to 8 circuits, registered in several orders, are evaluated by value numbering over their typed bodies, with the circuits and their wiring polynomials abstract and roots of unity as exponents: "
        "at the point of an index each restriction (in W and Y, in W and X, in all) must be the wiring polynomial of the circuit of that index, by its own floor plan, plus the key's term; at a domain point "
        "without a circuit the key's term alone; elsewhere the interpolation of all circuits' by the Lagrange coefficients, plus the key's term; and the restriction in X and Y the inverse transform of the circuits' values, "
        "at the positions where the points of their indexes are, plus the key's term. Indexes must follow kinds, and the order of registration within one. "
        "More circuits than a polynomial has coefficients must be refused.")
ASSUME = ["The key of a lookup is different for all points of a domain; domains and transforms compute what they should (C90).",
          "Polynomials add, scale and are laid out as they should be (C22)."]
FLOOR = 120
R = "ragu_circuits::registry::"
D = "ragu_arithmetic::domain::Domain::"
S, NC = 32, 8
KINDS = ("register_internal_circuit", "register_bonding", "register_internal_step", "register_circuit")


def rev(i, bits):
    return int(format(i, f"0{bits}b")[::-1], 2) if bits else 0


def log2(k):
    return max(k - 1, 0).bit_length()


def point(i):
    """The point of an index."""
    return T("root", lit(rev(i, S)))


def asmap(m):
    """A map made in another way."""
    if m.op == "call" and m.args[0].rsplit("::", 1)[-1] in ("new", "default") and len(m.args) == 1:
        return T("map")
    if m.op == "seq" and all(x.op == "tuple" and len(x.args) == 2 for x in m.args):
        d = {}
        for x in m.args:
            d[x.args[0]] = x.args[1]
        return T("map", *[y for kv in d.items() for y in kv])
    return m if m.op == "map" else None


class World:
    def __init__(self, rep):
        self.rep = rep
        self.log, self.digested = [], []
        hooks = dict(std_hooks())
        hooks.update(poly_hooks())
        for k in list(hooks):
            if k.startswith(RG):
                del hooks[k]
        g = lambda fl, x: fl.deref_all(fl.val(x))

        def pw(fl, e, fr, p, a):
            b, x = g(fl, a[0]), g(fl, a[1])
            ws = [y.args[-1] if y.op == "into" else y for y in x.args] if x.op == "seq" else [x]
            if x.op != "seq" or any(y.op != "lit" for y in ws):
                return None
            n = sum(int(y.args[0]) << 64 * i for i, y in enumerate(ws))
            return T("root", lit(int(b.args[0].args[0]) * n % 2 ** S)) if b.op == "root" else T("pow", b, lit(n))

        def insert(fl, e, fr, p, a):
            r = a[0]
            while r.op == "ref" and fl.read(r.args[0], r.args[1]).op == "ref":
                r = fl.read(r.args[0], r.args[1])
            m = asmap(g(fl, r))
            if m is None:
                return None
            k, v = solid(fl, g(fl, a[1])), g(fl, a[2])
            d = dict(zip(m.args[::2], m.args[1::2]))
            d[k] = v
            fl.write(r.args[0], r.args[1], T("map", *[x for kv in d.items() for x in kv]))
            return T("adt", "core::option::Option", "None", ())

        def get(fl, e, fr, p, a):
            m, k = asmap(solid(fl, g(fl, a[0]))), solid(fl, g(fl, a[1]))
            if m is None:
                return None
            d = dict(zip(m.args[::2], m.args[1::2]))
            return T("adt", "core::option::Option", "Some", (("0", d[k]),)) if k in d else T("adt", "core::option::Option", "None", ())

        def number(fl, x):
            return int(g(fl, x).args[0].args[0])

        def ell(fl, e, fr, p, a):
            k, w, n = number(fl, a[0]), solid(fl, g(fl, a[1])), g(fl, a[2])
            if n.op != "lit":
                return None
            if inside(w, k):
                return T("adt", "core::option::Option", "None", ())
            return T("adt", "core::option::Option", "Some", (("0", T("seq", *[T("ell", w, lit(k), lit(j)) for j in range(int(n.args[0]))])),))

        def ifft(fl, e, fr, p, a):
            v = g(fl, a[1])
            k = number(fl, a[0])
            if a[1].op != "ref" or v.op != "seq" or len(v.args) != 2 ** k:
                raise Odd("what is transformed")
            vs = T("seq", *[solid(fl, g(fl, x)) for x in v.args])
            fl.write(a[1].args[0], a[1].args[1], T("seq", *[T("ifft", lit(j), vs) for j in range(2 ** k)]))
            return UNIT

        def wiring(kind):
            return lambda fl, e, fr, p, a: T(kind, *[solid(fl, g(fl, x)) for x in a])

        def assemble(fl, e, fr, p, a):
            self.log.append([solid(fl, g(fl, x)) for x in a])
            return okay(T("param", "assembled"))

        hooks.update({
            "unroll": 64, "range": 64, "eval_consts": True, "err_returns": True, "const:S": lit(S), "const:ROOT_OF_UNITY": T("root", lit(1)),
            D + "new": lambda fl, e, fr, p, a: T("domain", g(fl, a[0])),
            D + "n": lambda fl, e, fr, p, a: lit(2 ** number(fl, a[0])),
            D + "log2_n": lambda fl, e, fr, p, a: lit(number(fl, a[0])),
            D + "omega": lambda fl, e, fr, p, a: T("root", lit(2 ** (S - number(fl, a[0])) % 2 ** S)),
            D + "contains": lambda fl, e, fr, p, a: TRUE if inside(solid(fl, g(fl, a[1])), number(fl, a[0])) else FALSE,
            D + "ell": ell, D + "ifft": ifft, "ff::Field::pow": pw, "ff::Field::pow_vartime": pw,
            MAP + "new": lambda fl, e, fr, p, a: T("map"), MAP + "default": lambda fl, e, fr, p, a: T("map"), MAP + "insert": insert, MAP + "get": get,
            "ragu_circuits::polynomials::Rank::num_coeffs": lambda fl, e, fr, p, a: lit(NC),
            "ragu_circuits::polynomials::Rank::n": lambda fl, e, fr, p, a: lit(NC // 4),
            R + "Registry::compute_registry_digest": lambda fl, e, fr, p, a: (self.digested.append(solid(fl, g(fl, a[0]))), T("param", "key"))[1],
            "ragu_circuits::into_circuit_object": lambda fl, e, fr, p, a: okay(g(fl, a[0])),
            "ragu_circuits::floor_planner::floor_plan": lambda fl, e, fr, p, a: T("plan", g(fl, a[0])),
            "ragu_circuits::trace::Trace::assemble": assemble,
            "ragu_circuits::polynomials::sparse::Polynomial::from_coeffs": lambda fl, e, fr, p, a: T("coeffs", solid(fl, g(fl, a[0]))),
            "ragu_circuits::polynomials::sparse::Polynomial::default": lambda fl, e, fr, p, a: T("none"),
            "ragu_circuits::polynomials::sparse::Polynomial::new": lambda fl, e, fr, p, a: T("none"),
            "ragu_circuits::polynomials::sparse::View::build": lambda fl, e, fr, p, a: T("built", solid(fl, g(fl, a[0]))),
        })
        for m in ("sxy", "sx", "sy", "constraint_counts", "segment_records"):
            hooks["ragu_circuits::CircuitObject::" + m] = wiring(m)
        self.sc = Scene(rep, hooks=hooks)

    def run(self, path, *pos):
        fn = self.rep.prog.fn(R + path)
        if fn is None:
            raise Odd(f"no {path}")
        v = self.sc.call(fn, *pos)
        self.rep.seen(fn)
        self.fn = fn
        fl = self.sc.fl if hasattr(self.sc, "fl") else None
        return [(c, solid(fl, fl.deref_all(x))) for c, x in leaves(fl.deref_all(v))] if v is not NEVER else []


def inside(w, k):
    return w.op == "root" and int(w.args[0].args[0]) % 2 ** (S - k) == 0


def index(i):
    return T("adt", R + "CircuitIndex", "CircuitIndex", (("0", lit(i)),))


class Ring:
    """Scalars, and polynomials in one indeterminate, as sums over the circuits' wiring polynomials."""

    def __init__(self):
        self.names, self.terms = {}, {}

    def say(self, a):
        if isinstance(a, int):
            return f"degree {a}"
        return pp(self.terms.get(a, a) if isinstance(a, str) else a)

    def pretty(self, p):
        return " + ".join((f"{c}·" if c != 1 else "") + ("·".join(self.say(a) + (f"^{e}" if e > 1 else "") for a, e in m) or "1") for m, c in list(p.m.items())[:3]) + (" …" if len(p.m) > 3 else "")

    def scalar(self, t):
        if t.op == "lit":
            return Poly.const(int(t.args[0]))
        if t.op == "named" and str(t.args[0]).rsplit("::", 1)[-1] in ("ONE", "ZERO"):
            return Poly.const(1) if str(t.args[0]).endswith("ONE") else Poly()
        if t.op == "bin" and t.args[0] in ("Mul", "Add", "Sub"):
            a, b = self.scalar(t.args[1]), self.scalar(t.args[2])
            return a * b if t.args[0] == "Mul" else a + b if t.args[0] == "Add" else a - b
        if t.op == "un" and t.args[0] == "Neg":
            return Poly() - self.scalar(t.args[1])
        if t.op == "pow":
            a, r = self.scalar(t.args[0]), Poly.const(1)
            n = int(t.args[1].args[0])
            if n > 64:
                raise Odd("a power")
            for _ in range(n):
                r = r * a
            return r
        if t.op in ("into", "try") and t.args:
            return self.scalar(t.args[-1])
        if t.op in ("sxy", "ell", "ifft", "param", "root"):
            n = self.names.setdefault(t, f"{t.op}{len(self.names)}")
            self.terms[n] = t
            return Poly.atom(n)
        raise Odd(f"a value {t!r}"[:60])

    def poly(self, t):
        """By position, or by a wiring polynomial's restriction."""
        if t.op == "none":
            return {}
        if t.op in ("padd", "psub"):
            return self.sum(self.poly(t.args[0]), self.poly(t.args[1]), 1 if t.op == "padd" else -1)
        if t.op == "pscale":
            c = self.scalar(t.args[1])
            return {k: v * c for k, v in self.poly(t.args[0]).items()}
        if t.op in ("sy", "sx"):
            return {t: Poly.const(1)}
        if t.op == "coeffs" and t.args[0].op == "seq":
            return {i: self.scalar(c) for i, c in enumerate(t.args[0].args)}
        if t.op == "adt" and t.args[0].endswith("sparse::Polynomial"):
            b = dict(t.args[2]).get("blocks")
            out = {}
            for x in b.args if b is not None and b.op == "seq" else [None]:
                if x is None or x.op != "tuple" or x.args[0].op != "lit" or x.args[1].op != "seq":
                    raise Odd("a polynomial")
                out = self.sum(out, {int(x.args[0].args[0]) + i: self.scalar(c) for i, c in enumerate(x.args[1].args)})
            return out
        raise Odd(f"a polynomial {t.op}")

    def sum(self, a, b, s=1):
        out = dict(a)
        for k, v in b.items():
            out[k] = out.get(k, Poly()) + v * Poly.const(s)
        return out


def vanish(ring, c):
    """The parameters that are zero under the conditions, and what else is zero."""
    z, more = set(), []
    for t, v in c.items():
        v = str(v).lower() == "true"
        while t.op == "into":
            t = t.args[-1]
        if t.op == "bin" and t.args[0] in ("Eq", "Ne"):
            v = v == (t.args[0] == "Eq")
            d = ring.scalar(t.args[1]) - ring.scalar(t.args[2])
        elif t.op == "is_zero" or t.op == "call" and t.args[0].rsplit("::", 1)[-1] in ("is_zero", "is_zero_vartime"):
            d = ring.scalar(t.args[-1])
        else:
            raise Odd(f"a condition {t!r}"[:80])
        if v and not d.zero():
            m = next(iter(d.m)) if len(d.m) == 1 else ()
            if len(m) == 1:
                z.add(m[0][0])
            else:
                more.append(d)
    return z, more


class Case:
    def __init__(self, rep, order):
        self.rep, self.order = rep, order
        self.ring = Ring()
        W = self.W = World(rep)
        b = W.run("RegistryBuilder::new")[0][1]
        names = []
        for n, k in enumerate(order):
            o = T("param", f"o{n}")
            if k == 1:
                b = self.only(W.run("RegistryBuilder::" + KINDS[k], b, T("adt", "ragu_circuits::BondingObject", "BondingObject", (("inner", o),))))
            else:
                b = self.only(W.run("RegistryBuilder::" + KINDS[k], b, o))
            names.append((k, n))
        self.objects = [f"o{n}" for k, n in sorted(names)]
        self.k = log2(len(order))
        self.made = W.run("RegistryBuilder::finalize", b)
        self.fn = W.fn

    def only(self, lv):
        if len(lv) != 1:
            raise Odd("the outcome")
        v = lv[0][1]
        if v.op == "adt" and v.args[1] == "Ok":
            v = v.args[2][0][1]
        elif v.op == "adt" and v.args[1] == "Err":
            raise Odd("an error")
        return v

    def scalars(self, v):
        return {"": self.ring.scalar(v)}

    def judge(self, key, say, lv, want, poly):
        ring, rep = self.ring, self.rep
        try:
            if not lv:
                raise Odd("no outcome")
            for c, v in lv:
                got = ring.poly(v) if poly else self.scalars(v)
                z, more = vanish(ring, c)
                d = ring.sum(got, want, -1)
                d = {k: Poly({m: x for m, x in p.m.items() if not any(a in z for a, _ in m)}) for k, p in d.items()}
                d = {k: p for k, p in d.items() if not p.zero() and not any((p - q).zero() or (p + q).zero() for q in more)}
                if d:
                    k = next(iter(d))
                    at = "" if k == "" else f" at {self.ring.say(k)}"
                    where_ = " where " + " and ".join(f"{ring.say(a)} is 0" for a in sorted(z)) if z else ""
                    return rep.bad(key, self.W.fn.where, f"{say} differs{at}{where_} by {ring.pretty(d[k])}")
            rep.ok(key)
        except Odd as e:
            rep.undecided(key, str(e))


def pp(t):
    if not isinstance(t, T):
        return str(t)
    if t.op == "param":
        return str(t.args[0])
    if t.op in ("sxy", "sx", "sy"):
        plan = t.args[-1]
        own = plan is T("plan", T("segment_records", t.args[0]))
        return f"{t.op} of {pp(t.args[0])}" + ("" if own else " by another's plan")
    return {"ell": "a Lagrange coefficient", "ifft": "a transform", "root": "a root of unity"}.get(t.op, t.op)


def wiring(kind, o, *at):
    return T(kind, T("param", o), *at, T("plan", T("segment_records", T("param", o))))


ORDERS = ([3], [0], [1, 3], [2, 0], [2, 3], [0, 1], [3, 0, 3], [3, 2, 1, 0], [0, 3, 1, 3, 2, 0], [3] * 7, [1, 0, 2, 3, 0, 3, 1, 2])


def run(rep):
    for anchor in ("RegistryBuilder::finalize", "Registry::xy", "Registry::wy", "Registry::wx", "Registry::wxy", "Registry::assemble"):
        if rep.need(R + anchor) is None:
            return
    for order in ORDERS:
        nm = f"{len(order)} circuits registered as {''.join('cmis'[k] for k in order)}"
        try:
            restrictions(rep, order, nm)
        except Odd as e:
            rep.undecided(nm, str(e))
    # more than fit
    for n, kind in itertools.product((NC, NC + 1), range(5)):
        key = f"capacity/{n} {'cmis*'[kind]}"
        try:
            C = Case(rep, [kind] * n if kind < 4 else [i % 4 for i in range(n)])
            ks = {v.args[1] if v.op == "adt" else "?" for _, v in C.made}
            if ks - {"Ok", "Err"} or len(ks) != 1:
                raise Odd("the outcome")
            rep.check(ks == {"Ok" if n <= NC else "Err"}, key, C.fn.where, f"{n} circuits are {'refused' if n <= NC else 'accepted'} where polynomials have {NC} coefficients")
        except Odd as e:
            rep.undecided(key, str(e))
    digest(rep)


def restrictions(rep, order, nm):
    C = Case(rep, order)
    ring, W, k = C.ring, C.W, C.k
    oks = [v.args[2][0][1] for c, v in C.made if v.op == "adt" and v.args[1] == "Ok"]
    if len(C.made) != 1 or len(oks) != 1:
        if not oks and C.made:
            return rep.bad(nm, C.fn.where, f"a registry of {len(order)} circuits is refused where polynomials have {NC} coefficients")
        raise Odd("the registry")
    reg = W.sc.cell(oks[0])
    ds = W.digested
    if len(ds) == 1 and ds[0].op == oks[0].op == "adt":
        a, b = (dict(t.args[2]) for t in (ds[0], oks[0]))
        d = next((n for n in b if a.get(n) is not b[n] and n != "key"), None)
        rep.check(not d, f"{nm}/digested", C.fn.where, f"the registry digested is not the one returned: its {d} are others")
    else:
        rep.undecided(f"{nm}/digested", "what is digested")
    x, y = T("param", "x"), T("param", "y")
    at = lambda t: ring.scalar(t)
    X, Y, K = at(x), at(y), at(T("param", "key"))
    kx, ky, kxy = Poly.const(1), Poly.const(1), None
    for _ in range(NC - 1):
        kx, ky = kx * X, ky * Y
    kxy = kx * ky
    n = 2 ** k
    points = [(f"index {i}", point(i), {C.objects[i]: Poly.const(1)} if i < len(order) else {}, i) for i in range(n)]
    w = T("param", "w")
    points.append(("no point of the domain", w, {o: at(T("ell", w, lit(k), lit(rev(i, k)))) for i, o in enumerate(C.objects)}, None))
    if n < NC * 4:
        i = n
        points.append((f"index {i}, outside the domain", point(i), {o: at(T("ell", point(i), lit(k), lit(rev(j, k)))) for j, o in enumerate(C.objects)}, i))
    for what, p, parts, i in points:
        wants = {
            "wy": ((y,), {**{wiring("sy", o, y): c for o, c in parts.items()}, NC - 1: K * ky}),
            "wx": ((x,), {**{wiring("sx", o, x): c for o, c in parts.items()}, NC - 1: K * kx}),
            "wxy": ((x, y), {"": sum_([c * at(wiring("sxy", o, x, y)) for o, c in parts.items()], K * kxy)}),
        }
        for f, (args, want) in wants.items():
            C.judge(f"{nm}/{f} at {what}", f"of {len(order)} circuits, {f} at the point of {what}" if i is not None else f"of {len(order)} circuits, {f} off the domain", W.run("Registry::" + f, reg, p, *args), want, f != "wxy")
        if i is not None and rep.prog.fn(R + "Registry::circuit_y") is not None:
            C.judge(f"{nm}/circuit_y {i}", f"of {len(order)} circuits, circuit_y of index {i}", W.run("Registry::circuit_y", reg, index(i), y), wants["wy"][1], True)
            C.judge(f"{nm}/circuit_xy {i}", f"of {len(order)} circuits, circuit_xy of index {i}", W.run("Registry::circuit_xy", reg, index(i), x, y), wants["wxy"][1], False)
            lv = W.run("Registry::circuit_in_domain", reg, index(i))
            vs = {v for _, v in lv}
            if len(vs) != 1 or not vs <= {TRUE, FALSE}:
                rep.undecided(f"{nm}/domain {i}", "whether an index is in the domain")
            else:
                rep.check(vs == {TRUE if i < n else FALSE}, f"{nm}/domain {i}", W.fn.where, f"of {len(order)} circuits, index {i} is {'not ' if i < n else ''}in the domain")
    vals = [T("named", "ff::Field::ZERO")] * n
    for i, o in enumerate(C.objects):
        vals[rev(i, k)] = wiring("sxy", o, x, y)
    lv = W.run("Registry::xy", reg, x, y)
    want = {j: at(T("ifft", lit(j), T("seq", *vals))) for j in range(n)}
    want[0] = want[0] + K * kxy
    C.judge(f"{nm}/xy", f"of {len(order)} circuits, xy", [(c, zeros(v, vals)) for c, v in lv], want, True)
    # the plan that traces are assembled by
    for i, o in enumerate(C.objects):
        for f, a in (("assemble_with_alpha", T("param", "alpha")), ("assemble", T("param", "rng"))):
            W.log.clear()
            W.run("Registry::" + f, reg, T("param", "trace"), index(i), a)
            key = f"{nm}/{f} {i}"
            if len(W.log) != 1 or len(W.log[0]) != 3:
                rep.undecided(key, "the trace assembled")
                continue
            tr, pl, al = W.log[0]
            good = tr is T("param", "trace") and pl is T("plan", T("segment_records", T("param", o)))
            if f == "assemble_with_alpha":
                good = good and al is a
            rep.check(good, key, W.fn.where, f"a trace is assembled at index {i} by another circuit's floor plan, or not with the given blinding")


def zeros(t, vals):
    """One name for zero inside of what is transformed."""
    z = vals and T("named", "ff::Field::ZERO")
    memo = {}

    def go(t):
        if t in memo:
            return memo[t]
        if t.op == "named" and str(t.args[0]).rsplit("::", 1)[-1] == "ZERO":
            r = z
        elif t.op == "adt":
            r = T("adt", t.args[0], t.args[1], tuple((n, go(v)) for n, v in t.args[2]))
        else:
            r = T(t.op, *[go(a) if isinstance(a, T) else a for a in t.args])
        memo[t] = r
        return r

    return go(t)


def sum_(xs, start):
    for x in xs:
        start = start + x
    return start


def digest(rep):
    """What the key is bound to."""
    fn = rep.prog.fn(R + "Registry::compute_registry_digest")
    if fn is None:
        return rep.undecided("key", "how the key is made")
    W, evals = World(rep), []

    def wxy(fl, e, fr, p, a):
        t = T("eval", *[solid(fl, fl.deref_all(fl.val(x))) for x in a[1:]])
        if t not in evals:
            evals.append(t)
        return t

    W.sc.hooks.pop(R + "Registry::compute_registry_digest")
    W.sc.hooks[R + "Registry::wxy"] = wxy
    try:
        lv = W.run("Registry::compute_registry_digest", W.sc.cell(T("param", "registry")))
        if len(lv) != 1 or not evals:
            raise Odd("the digest")
        inside_ = set(subterms(lv[0][1]))
        rep.check(len(evals) > 1, "key/evaluations", fn.where, "the key is bound to one evaluation of the registry polynomial, at a point known before")
        for n, t in enumerate(evals):
            rep.check(t in inside_, f"key/{n}", fn.where, f"the key does not depend on the evaluation {n} of the registry polynomial")
            if n:
                for nm, z in zip("wxy", t.args):
                    rep.check(evals[n - 1] in set(subterms(z)), f"key/{nm}{n}", fn.where, f"the point of evaluation {n} does not depend in {nm} on the evaluation before")
                rep.check(len(set(t.args)) == 3, f"key/point {n}", fn.where, f"evaluation {n} is at one challenge twice")
    except Odd as e:
        rep.undecided("key", str(e))
