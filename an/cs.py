"""Extracts the constraint system a gadget function imposes, from its value-numbered event list.

Wires become atoms, virtual wires become linear forms, gates become products of linear forms.
Linear constraints are eliminated; what remains is compared with the specified relation up to the
names of the internal wires and the order of factors.
"""
from flow import T, TRUE, FALSE, flat, show, lit, subterms
from alg import Poly, Rat, rsubst

DR = "ragu_core::drivers::Driver::"
DT = "ragu_core::drivers::DriverTypes::"
LE = "ragu_core::drivers::linexp::LinearExpression::"
COEFF = "ragu_arithmetic::coeff::Coeff"
MAYBE_OPS = {"ragu_primitives::util::InternalMaybe::" + n for n in ("coeff", "arbitrary", "fe", "not")}


class Unknown(Exception):
    """Something in the code that the extraction does not model."""


def hooks():
    """Field arithmetic of coefficients and the witness helpers, kept abstract."""

    def bin_(op):
        def h(fl, e, fr, path, args):
            return fl.binop(op, fl.deref_all(args[0]), fl.deref_all(args[1]))

        return h

    def same(fl, e, fr, path, args):
        return fl.deref_all(args[0])

    def notm(fl, e, fr, path, args):
        a = fl.val(args[0])
        un = a.args[0] if a.op == "maybe" else T("unmaybe", fl.deref_all(a))
        return T("maybe", fl.neg(un))

    def mkb(fl, e, fr, path, args):
        a = fl.val(args[0])
        un = a.args[0] if a.op == "maybe" else T("unmaybe", fl.deref_all(a))
        return T("maybe", T("b2f", fl.deref_all(un)))

    def mkf(fl, e, fr, path, args):
        a = fl.val(args[0])
        un = a.args[0] if a.op == "maybe" else T("unmaybe", fl.deref_all(a))
        return T("maybe", un)

    h = {
        f"<{COEFF} as core::ops::Mul>::mul": bin_("Mul"),
        f"<{COEFF} as core::ops::Add>::add": bin_("Add"),
        f"<{COEFF} as core::ops::Neg>::neg": lambda fl, e, fr, p, a: T("un", "Neg", fl.deref_all(a[0])),
        f"{COEFF}::value": same,
        f"<{COEFF} as core::convert::From>::from": same,
        "ragu_primitives::util::InternalMaybe::not": notm,
        "ragu_primitives::util::InternalMaybe::coeff": mkb,
        "ragu_primitives::util::InternalMaybe::fe": mkb,
        "ragu_primitives::util::InternalMaybe::arbitrary": mkf,
    }
    return h


ONE = Poly.atom("ONE")


class System:
    def __init__(self):
        self.gates = []  # (A, B, C, where)
        self.linear = []  # (form, where)
        self.val = {}  # atom -> value term
        self.free = []  # internal atoms in creation order
        self.forms = {}  # ev id -> Poly (virtual wires)
        self.names = {}
        self.consts = set()


def atom_of(t):
    return ("t", t)


class Extract:
    def __init__(self, nodes, loops=False):
        self.sys = System()
        self.boolish = set()
        self.events = [n.ev for n in nodes if n.kind == "ev" and n.ev.id]
        for ev in self.events:
            self.step(ev)

    def step(self, ev):
        s = self.sys
        name = ev.fn
        if name in (DR + "mul",):
            w = [Poly.atom(("g", ev.id, i)) for i in range(3)]
            s.free += [("g", ev.id, i) for i in range(3)]
            s.gates.append((*w, ev))
            vals = self.payload(ev.args[1])
            for i in range(3):
                if vals is not None:
                    s.val[("g", ev.id, i)] = vals[i]
        elif name == DT + "gate":
            w = [Poly.atom(("g", ev.id, i)) for i in range(4)]
            s.free += [("g", ev.id, i) for i in range(4)]
            s.gates.append((w[0], w[1], w[2], ev))
            s.gates.append((w[2], w[3], Poly(), ev))
            vals = self.payload(ev.args[1])
            for i in range(4):
                if vals is not None:
                    s.val[("g", ev.id, i)] = vals[i]
        elif name == DR + "alloc":
            s.free.append(("g", ev.id, 0))
            v = self.payload(ev.args[1])
            if v is not None:
                s.val[("g", ev.id, 0)] = v[0]
        elif name == DR + "constant":
            s.forms[ev.id] = self.coeff(ev.args[1]) * ONE
        elif name == DR + "add":
            s.forms[ev.id] = self.lam(ev.args[1])
        elif name == DR + "enforce_zero":
            s.linear.append((self.lam(ev.args[1]), ev))
        elif name == DR + "enforce_equal":
            s.linear.append((self.wire(ev.args[1]) - self.wire(ev.args[2]), ev))
        elif ev.name in ("enforce_equal_gadget", "enforce_equal") and "gadgets::Gadget" in name:
            from q import wires
            from flow import Flow

            fld = Flow(None)
            a, b = ev.args[-2:]
            ps = [p for p, *_ in wires(a)] or [p for p, *_ in wires(b)]
            if not ps:
                raise Unknown(f"{ev.where}: equality of unknown gadgets")
            for p in ps:
                x, y = a, b
                for n in p.split(".") if p else ():
                    x, y = fld.field(x, n), fld.field(y, n)
                s.linear.append((self.wire(fld.field(x, "wire")) - self.wire(fld.field(y, "wire")), ev))
        else:
            raise Unknown(f"{ev.where}: {ev.path}")

    def payload(self, lam):
        """The values a driver closure yields: Ok((a, b, c)) or Ok(v)."""
        if lam.op != "lam":
            return None
        v = lam.args[-1]
        if v.op == "adt" and v.args[1] == "Ok":
            x = v.args[2][0][1]
        else:
            x = T("try", v)
        if x.op == "tuple":
            return list(x.args)
        return [x]

    def wire(self, t):
        """A wire operand as a linear form."""
        if t.op == "ev":
            if t.args[0] in self.sys.forms:
                return self.sys.forms[t.args[0]]
            return Poly.atom(("g", t.args[0], 0))
        if t.op == "try" and t.args[0].op == "ev":
            return Poly.atom(("g", t.args[0].args[0], 0))
        if t.op == "field" and t.args[0].op == "try" and t.args[0].args[0].op == "ev":
            return Poly.atom(("g", t.args[0].args[0].args[0], int(t.args[1])))
        if t.op == "named" and t.args[0].endswith("::ONE"):
            return ONE
        if t.op == "ite":
            raise Unknown("conditional wire")
        return Poly.atom(("w", t))

    def lam(self, lam):
        if lam.op == "lam":
            return self.lc(lam.args[-1])[0]
        raise Unknown("linear combination")

    def lc(self, t):
        """(form, gain) of a linear-expression term."""
        if t.op == "cparam":
            return Poly(), Poly.const(1)
        if t.op == "call" and t.args[0].startswith(LE):
            n = t.args[0][len(LE):]
            f, g = self.lc(t.args[1])
            if n == "add":
                return f + g * self.wire(t.args[2]), g
            if n == "sub":
                return f - g * self.wire(t.args[2]), g
            if n == "add_term":
                return f + g * self.coeff(t.args[3]) * self.wire(t.args[2]), g
            if n == "gain":
                return f, g * self.coeff(t.args[2])
            if n == "extend":
                seq = t.args[2]
                if seq.op == "seq" and all(x.op == "tuple" for x in seq.args):
                    for x in seq.args:
                        f = f + g * self.coeff(x.args[1]) * self.wire(x.args[0])
                    return f, g
        raise Unknown(f"linear expression {show(t, 3)}")

    def coeff(self, t):
        r = value(t)
        if r.d.isconst():
            return r.n.scale(1 / r.d.constval())
        return Poly.atom(("k", repr(r)))

    # ------------------------------------------------------------ elimination
    def canonical(self, outs):
        """(equations, outputs): linear constraints and the gates that merely define their product
        wire are substituted away; what is left are the equations on the inputs and on the wires
        the prover chooses freely."""
        s = self.sys
        one = Poly.const(1)
        gates = [(a * b - c).subst("ONE", one) for a, b, c, _ in s.gates]
        outs = {k: v.subst("ONE", one) for k, v in outs.items()}
        lin = [f.subst("ONE", one) for f, _ in s.linear]
        free = set(s.free)
        eqs = []

        def put(a, sub):
            nonlocal gates, lin, eqs, outs
            free.discard(a)
            gates = [p.subst(a, sub) for p in gates]
            lin = [p.subst(a, sub) for p in lin]
            eqs = [p.subst(a, sub) for p in eqs]
            outs = {k: p.subst(a, sub) for k, p in outs.items()}

        while lin:
            f = lin.pop(0)
            if f.zero():
                continue
            cand = [a for a in f.atoms() if a in free and f.linear(a) is not None and f.linear(a).isconst()]
            if not cand:
                eqs.append(f)
                continue
            a = max(cand, key=lambda x: (x[1], x[2]))
            c = f.linear(a).constval()
            put(a, (f - Poly.atom(a).scale(c)).scale(-1 / c))
        while gates:
            f = gates.pop(0)
            if f.zero():
                continue
            cand = [a for a in f.atoms() if a in free and f.linear(a) is not None and f.linear(a).isconst() and not f.linear(a).zero()]
            if not cand:
                eqs.append(f)
                continue
            a = max(cand, key=lambda x: (x[1], x[2]))
            c = f.linear(a).constval()
            put(a, (f - Poly.atom(a).scale(c)).scale(-1 / c))
        eqs = [e for e in eqs if not e.zero()]
        return eqs, outs

    # ------------------------------------------------------------ assignment
    def checks(self, link, outs):
        """Evaluates every constraint, and every output wire against its claimed value, under the
        assignment that the same code makes. Yields (event, description, residue) for failures.

        outs: [(label, wire form, value term or None)]; link: input wire term -> value term."""
        s = self.sys
        polys = [(f, ev, "linear constraint") for f, ev in s.linear] + [(a * b - c, ev, "gate") for a, b, c, ev in s.gates]
        terms = list(s.val.values()) + [v for _, _, v in outs if v is not None]
        wires = {a for f, _, _ in polys for a in f.atoms() if a[0] == "w"} | {a for _, f, _ in outs for a in f.atoms() if a[0] == "w"}
        for case in cases(terms + [link(a[1]) for a in wires]):
            ev_ = Eval(case)
            mp = {a: ev_.value(v) for a, v in s.val.items()}
            mp["ONE"] = Rat(Poly.const(1))
            for a in wires:
                mp[a] = ev_.value(link(a[1]))

            zeros = []
            for t, yes in case.items():
                if yes:
                    for x in t.args[1:]:
                        if not iszero(x):
                            f = Eval({}).value(x).n
                            a = next((a for a in sorted(f.atoms(), key=repr) if f.linear(a) is not None and f.linear(a).isconst()), None)
                            if a is not None:
                                c = f.linear(a).constval()
                                zeros.append((a, (f - Poly.atom(a).scale(c)).scale(-1 / c)))

            def settle(r):
                for a, p in zeros:
                    r = Rat(r.n.subst(a, p), r.d)
                return curve(r)

            def known(f):
                return all(a in mp or a[0] not in ("g",) for a in f.atoms())

            for f, ev, kind in polys:
                if known(f):
                    r = settle(rsubst(f, mp))
                    if not r.zero():
                        yield ev, kind, r
            for label, f, v in outs:
                if v is not None and known(f):
                    r = settle(rsubst(f, mp) - ev_.value(v))
                    if not r.zero():
                        yield None, f"value of {label}", r


def cases(terms):
    """Case splits on the `x == 0` tests that the assignment makes."""
    tests = []
    for t in terms:
        for x in subterms(t):
            if x.op == "bin" and x.args[0] in ("Eq", "Ne"):
                y = T("bin", "Eq", *x.args[1:])
                if any(iszero(z) for z in y.args[1:]) and y not in tests:
                    tests.append(y)
    if len(tests) > 4:
        tests = []
    n = len(tests)
    for m in range(1 << n):
        yield {t: bool(m >> i & 1) for i, t in enumerate(tests)}


def iszero(t):
    return (t.op == "named" and t.args[0].endswith("::ZERO")) or t is lit(0)


def curve(r):
    """Reduces y(P)^2 to x(P)^3 + b for the coordinates of one and the same point."""
    n = r.n
    for a in sorted(n.atoms(), key=repr):
        if a[0] == "v" and isinstance(a[1], T) and a[1].op == "call" and a[1].args[0].endswith("::y"):
            cands = [b for b in n.atoms() if b[0] == "v" and isinstance(b[1], T) and b[1].op == "call" and b[1].args[0].endswith("::x") and b[1].args[1:] == a[1].args[1:]]
            bb = [b for b in n.atoms() if b[0] == "v" and isinstance(b[1], T) and b[1].op == "call" and b[1].args[0].endswith("CurveAffine::b")]
            if cands and bb:
                x3 = Poly.atom(cands[0]) * Poly.atom(cands[0]) * Poly.atom(cands[0]) + Poly.atom(bb[0])
                m = Poly()
                for k, v in n.m.items():
                    d = dict(k)
                    e = d.pop(a, 0)
                    p = Poly({tuple(sorted(d.items(), key=repr)): v})
                    for _ in range(e // 2):
                        p = p * x3
                    if e % 2:
                        p = p * Poly.atom(a)
                    m = m + p
                n = m
    return Rat(n, r.d)


class Eval:
    def __init__(self, case):
        self.case = case
        self.memo = {}

    def truth(self, t):
        return truth(t, self.case)

    def value(self, t):
        if t in self.memo:
            return self.memo[t]
        r = value(t, self.case)
        self.memo[t] = r
        return r


def truth(t, case=None):
    """A boolean term as a polynomial over idempotent atoms."""
    if t is TRUE:
        return Poly.const(1)
    if t is FALSE:
        return Poly()
    if t.op == "un" and t.args[0] == "Not":
        return Poly.const(1) - truth(t.args[1], case)
    if t.op == "and" or (t.op == "bin" and t.args[0] == "BitAnd"):
        r = Poly.const(1)
        for x in t.args if t.op == "and" else t.args[1:]:
            r = r * truth(x, case)
        return r
    if t.op == "or" or (t.op == "bin" and t.args[0] == "BitOr"):
        r = Poly.const(1)
        for x in t.args if t.op == "or" else t.args[1:]:
            r = r * (Poly.const(1) - truth(x, case))
        return Poly.const(1) - r
    if t.op == "bin" and t.args[0] == "BitXor":
        a, b = truth(t.args[1], case), truth(t.args[2], case)
        return a + b - (a * b).scale(2)
    if t.op == "bin" and t.args[0] in ("Eq", "Ne"):
        y = T("bin", "Eq", *t.args[1:])
        if case and y in case:
            return Poly.const(int(case[y] == (t.args[0] == "Eq")))
        r = Poly.atom(("b", y))
        return r if t.args[0] == "Eq" else Poly.const(1) - r
    return Poly.atom(("b", t))


def value(t, case=None):
    """A witness term as a fraction of polynomials over opaque atoms."""
    o = t.op
    if case:
        # under x == 0 the operand itself is zero
        for y, yes in case.items():
            if yes and t in y.args[1:] and not iszero(t):
                return Rat(Poly())
        if o == "call" and t.args[0].endswith(("CtOption::unwrap_or", "CtOption::unwrap_or_else")) and t.args[1].op == "call" and t.args[1].args[0].endswith("Field::invert"):
            x = t.args[1].args[1]
            for y, yes in case.items():
                if x in y.args[1:]:
                    return value(t.args[2], case) if yes else value(x, case).inv()
    if o == "b2f":
        return Rat(truth(t.args[0], case))
    if o == "lit":
        v = t.args[0].split("_")[0]
        if v.lstrip("-").isdigit():
            return Rat(Poly.const(int(v)))
        if t is TRUE or t is FALSE:
            return Rat(truth(t, case))
    if o == "named":
        last = t.args[0].split("::")[-1]
        if last == "ZERO":
            return Rat(Poly())
        if last == "ONE":
            return Rat(Poly.const(1))
        return Rat(Poly.atom(("c", last)))
    if o == "bin":
        op = t.args[0]
        if op in ("Add", "Sub", "Mul"):
            a, b = value(t.args[1], case), value(t.args[2], case)
            return a + b if op == "Add" else a - b if op == "Sub" else a * b
        if op in ("BitAnd", "BitOr", "BitXor"):
            return Rat(truth(t, case))
    if o in ("and", "or"):
        return Rat(truth(t, case))
    if o == "un":
        if t.args[0] == "Neg":
            return -value(t.args[1], case)
        return Rat(truth(t, case))
    if o == "adt" and t.args[0] == COEFF:
        v = t.args[1]
        if v == "Zero":
            return Rat(Poly())
        if v == "One":
            return Rat(Poly.const(1))
        if v == "Two":
            return Rat(Poly.const(2))
        if v == "NegativeOne":
            return Rat(Poly.const(-1))
        x = value(t.args[2][0][1], case)
        return x if v == "Arbitrary" else -x
    if o == "into":
        return value(t.args[1], case)
    if o == "call":
        last = t.args[0].split("::")[-1]
        ff = t.args[0].startswith("ff::") or "as ff::" in t.args[0]
        if ff and last == "square":
            a = value(t.args[1], case)
            return a * a
        if ff and last == "cube":
            a = value(t.args[1], case)
            return a * a * a
        if ff and last == "double":
            a = value(t.args[1], case)
            return a + a
        if last == "from" and len(t.args) == 2 and t.args[1].op == "lit":
            return value(t.args[1], case)
    if o == "try" and t.args[0].op == "call" and t.args[0].args[0].endswith(("into_option", "CtOption::unwrap")):
        t = T("try", t.args[0].args[1])
    if o == "try" and t.args[0].op == "call" and t.args[0].args[0].endswith("Field::invert"):
        return value(t.args[0].args[1], case).inv()
    if o == "call" and t.args[0].endswith(("CtOption::unwrap", "CtOption::expect")) and t.args[1].op == "call" and t.args[1].args[0].endswith("Field::invert"):
        return value(t.args[1].args[1], case).inv()
    if o == "ite":
        c, a, b = t.args
        k = Rat(truth(c, case))
        return k * value(a, case) + (Rat(Poly.const(1)) - k) * value(b, case)
    if o == "unmaybe":
        return Rat(Poly.atom(("v", t.args[0])))
    if o == "try":
        return Rat(Poly.atom(("v", t)))
    return Rat(Poly.atom(("v", t)))
