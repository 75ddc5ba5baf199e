"""Polynomial routines over a field: evaluation, division, sums, domains and their transforms."""
from fractions import Fraction

from pcd import *
from fuse import solid
from script import L, Laurent, Unknown, leaves
from rules.c22 import World as Base, Bad, Family, agree, named, show, beyond, ZERO

LEVEL = "other"
RULE = ("Each routine's typed body is evaluated by value numbering over named coefficients, its loops unrolled, and the result put into normal form: evaluation, inner products, division by a linear factor and the product of linear factors up to 9 coefficients; "
        "geometric sums up to 70 terms; bit reversal up to 6 bits; domains of every size up to the largest of a field of small 2-adicity, and their transforms up to size 32, on both sides of the choice made by the number of threads, with roots of unity as powers of one symbol modulo its order; "
        "values of Lagrange polynomials up to size 8 and at every amount. "
        "Each must be the polynomial that defines it; what does not fit must be refused.")
ASSUME = ["A field's constants are what its interface says they are.", "Names of coefficients are independent.", "Both halves of a parallel join are evaluated, in either order."]
FLOOR = 150
U = "ragu_arithmetic::util::"
D = "ragu_arithmetic::domain::Domain::"
F = "ragu_arithmetic::fft::"
S = 5
ORDER = 1 << S
c = named


class Scalar(Laurent):
    """Normal form where the root of unity has its order."""

    def __call__(self, t):
        return reduced(super().__call__(t))

    def go(self, t):
        if t.op == "call" and t.args[0] == "batch-inverse":
            f = self(t.args[1])
            return L.atom("inv(" + repr(sorted(f.m.items())) + ")")
        if t.op == "named":
            last = str(t.args[0]).split("::")[-1]
            if last == "TWO_INV":
                return L.const(Fraction(1, 2))
            if last in ("ROOT_OF_UNITY", "ROOT_OF_UNITY_INV"):
                return L.atom("w", 1 if last == "ROOT_OF_UNITY" else -1)
        return super().go(t)


def reduced(f):
    out = {}
    for k, v in f.m.items():
        d = dict(k)
        w = d.pop("w", 0) % ORDER
        if w >= ORDER // 2:
            w, v = w - ORDER // 2, -v
        if w:
            d["w"] = w
        k2 = tuple(sorted(d.items()))
        n = out.get(k2, 0) + v
        if n:
            out[k2] = n
        else:
            out.pop(k2, None)
    return L(out)


def views(fl, r, cuts):
    """References to parts of what a reference denotes."""
    return [T("ref", r.args[0], r.args[1] + (("i", T("range", lit(a), lit(b))),)) for a, b in cuts]


class World(Base):
    def __init__(self, rep):
        super().__init__(rep)
        self.threads = 1
        self.scalar = Scalar()
        old = self.sc.hooks

        def place(fl, v):
            while v.op == "ref":
                inner = fl.read(v.args[0], v.args[1])
                if inner.op != "ref":
                    return v, inner
                v = inner
            return None, v

        def known(v):
            return v.op == "seq" and all(x.op not in ("each", "splice") for x in v.args)

        def number(t):
            t = t if t.op == "lit" else TOP
            return int(t.args[0]) if t.op == "lit" and t.args[0].isdigit() else None

        def split(fl, e, fr, p, a):
            r, v = place(fl, a[0])
            n = number(fl.val(a[1]))
            if not known(v) or n is None:
                return None
            if n > len(v.args):
                return NEVER
            if r is None:
                return T("tuple", T("seq", *v.args[:n]), T("seq", *v.args[n:]))
            return T("tuple", *views(fl, r, [(0, n), (n, len(v.args))]))

        def chunks(fl, e, fr, p, a):
            r, v = place(fl, a[0])
            n = number(fl.val(a[1]))
            if r is None or not known(v) or not n:
                return None
            exact = p.endswith("exact_mut")
            return T("seq", *views(fl, r, [(i, min(i + n, len(v.args))) for i in range(0, len(v.args) - (n - 1 if exact else 0), n)]))

        def inverted(fl, e, fr, p, a):
            r, v = place(fl, a[0])
            if r is None or not known(v):
                return None
            fl.write(r.args[0], r.args[1], T("seq", *[T("call", "batch-inverse", x) for x in v.args]))
            return T("param", "batch")

        def join(fl, e, fr, p, a):
            return T("tuple", fl.apply(a[0], []), fl.apply(a[1], []))

        def bits(fl, e, fr, p, a):
            n = number(fl.val(a[0]))
            return None if n is None else lit(int(format(n % (1 << 32), "032b")[::-1], 2))

        def fill(fl, e, fr, p, a):
            r, v = place(fl, a[0])
            if r is None or not known(v):
                return None
            fl.write(r.args[0], r.args[1], T("seq", *[fl.val(a[1])] * len(v.args)))
            return UNIT

        def copy(fl, e, fr, p, a):
            r, v = place(fl, a[0])
            s = fl.deref_all(fl.val(a[1]))
            if r is None or not known(v) or not known(s):
                return None
            if len(v.args) != len(s.args):
                return NEVER
            fl.write(r.args[0], r.args[1], s)
            return UNIT

        def swap(fl, e, fr, p, a):
            r, v = place(fl, a[0])
            ns = [number(fl.val(x)) for x in a[1:]]
            return NEVER if known(v) and any(n is not None and n >= len(v.args) for n in ns) else None

        h = {"[T]::swap": swap, "[T]::split_at_mut": split, "[T]::split_at": split, "[T]::chunks_mut": chunks, "[T]::chunks_exact_mut": chunks, "[T]::fill": fill, "[T]::copy_from_slice": copy, "[T]::clone_from_slice": copy,
             "u32::reverse_bits": bits, "const:ff::PrimeField::S": lit(S), "const:S": lit(S)}
        for n in ("invert_with_external_scratch", "invert_with_internal_scratch", "batch_invert"):
            for q in ("ff::BatchInverter::", "ff::batch::BatchInverter::", "ff::BatchInvert::", "ff::batch::BatchInvert::"):
                h[q + n] = inverted
        for q in ("rayon_core::", "maybe_rayon::", "rayon::", "ragu_arithmetic::multicore::"):
            h[q + "current_num_threads"] = lambda fl, e, fr, p, a: lit(self.threads)
            h[q + "join"] = join
        for q in ("rayon_core::join::", "maybe_rayon::serial::", "maybe_rayon::join::"):
            h[q + "join"] = join
        old.update(h)
        old["recurse"] = True
        old.update({"range": 80, "depth": 24})
        self.sc = Scene(rep, hooks=old)

    def number(self, t):
        return int(t.args[0]) if t.op == "lit" and t.args[0].lstrip("-").isdigit() else None

    def list(self, v):
        fl = self.sc.fl
        v = solid(fl, fl.deref_all(v))
        if v.op != "seq" or any(x.op in ("each", "splice") for x in v.args):
            xs = fl.known_items(v)
            if xs is None:
                raise Odd("a list of values")
            return [self.scalar(solid(fl, fl.deref_all(x))) for x in xs]
        return [self.scalar(x) for x in v.args]

    def field(self, t, name):
        d = dict(t.args[2]) if t.op == "adt" else {}
        if name not in d:
            raise Odd(f"no {name}")
        return d[name]


def names(p, n):
    return [c(f"{p}{i}") for i in range(n)]


def atoms(p, n):
    return [L.atom(f"{p}{i}") for i in range(n)]


def dotted(xs, ys):
    r = L()
    for a, b in zip(xs, ys):
        r = r + a * b
    return r


def same(got, want, say):
    if (got - want).m:
        raise Bad(f"{say} is {show(got)}, where {show(want)} should be")


def run(rep):
    w = World(rep)
    seq = lambda xs: T("seq", *xs)
    x = L.atom("x")

    fn = rep.need(U + "eval")
    if fn:
        fam = Family(rep, "eval", fn)
        for n in range(10):
            fam.case(lambda: same(w.scalar(w.one(fn, seq(names("c", n)), c("x"))), dotted(atoms("c", n), [x.pow(i) for i in range(n)]), f"the value of {n} coefficients"), str(n))
    fn = rep.need(U + "dot")
    if fn:
        fam = Family(rep, "dot", fn)
        for n in range(10):
            fam.case(lambda: same(w.scalar(w.one(fn, seq(names("c", n)), seq(names("d", n)))), dotted(atoms("c", n), atoms("d", n)), f"the inner product of {n}"), str(n))
        for a, b in ((0, 1), (2, 3), (4, 1)):
            fam.case(lambda: refused(w, fn, "the inner product of unequal lengths", seq(names("c", a)), seq(names("d", b))), f"{a},{b}")
    for name, back in (("factor", False), ("factor_iter", True)):
        fn = rep.need(U + name)
        if fn:
            fam = Family(rep, name, fn)

            def quotient(n):
                got = w.list(w.one(fn, seq(names("c", n)), c("x")))
                want = [dotted(atoms("c", n)[i + 1:], [x.pow(j) for j in range(n)]) for i in range(n - 1)]
                agree(got, want[::-1] if back else want, f"the quotient of {n} coefficients")
            for n in range(1, 10):
                fam.case(lambda: quotient(n), str(n))
            fam.case(lambda: refused(w, fn, "dividing nothing", seq([]), c("x")), "0")
    fn = rep.need(U + "geosum")
    if fn:
        fam = Family(rep, "geosum", fn)
        for m in list(range(20)) + [31, 32, 33, 63, 64, 70]:
            fam.case(lambda: same(w.scalar(w.one(fn, c("x"), lit(m))), sum((x.pow(i) for i in range(m)), L()), f"the sum of {m} powers"), str(m))
    fn = rep.need(F + "bitreverse")
    if fn:
        fam = Family(rep, "bitreverse", fn)

        def rev(n, l):
            v = w.one(fn, lit(n), lit(l))
            want = int(format(n, f"0{l}b")[::-1], 2) if l else 0
            if w.number(v) is None:
                raise Odd(f"{v!r}"[:80])
            if w.number(v) != want:
                raise Bad(f"{n} of {l} bits is reversed to {w.number(v)}, not {want}")
        for l in range(7):
            for n in range(1 << l) if l < 6 else (0, 1, 31, 32, 63):
                fam.case(lambda: rev(n, l), f"{n} of {l}")
    domains(rep, w)


def refused(w, fn, what, *pos):
    if w.run(fn, *pos):
        raise Bad(f"{what} is not refused")


def domains(rep, w):
    new = rep.need(D + "new")
    if not new:
        return
    seq = lambda xs: T("seq", *xs)
    made = {}
    x = L.atom("x")
    fam = Family(rep, "a domain", new)

    def root(k, i):
        return reduced(L.atom("w", (1 << (S - k)) * i) if (1 << (S - k)) * i else L.const(1))

    def make(k):
        made[k] = w.one(new, lit(k))
    for k in range(S + 1):
        fam.case(lambda: make(k), str(k))
    for k in (S + 1, S + 2, 40):
        fam.case(lambda: refused(w, new, f"a domain of size 2^{k}, beyond what the field has", lit(k)), str(k))

    for name, want in (("n", lambda k: 1 << k), ("log2_n", lambda k: k)):
        fn = rep.need(D + name)
        if fn:
            fam = Family(rep, "a domain's " + name, fn)

            def size(k):
                v = w.number(w.one(fn, made[k]))
                if v is None:
                    raise Odd("a size")
                if v != want(k):
                    raise Bad(f"the domain of size 2^{k} says that its {name} is {v}")
            for k in made:
                fam.case(lambda: size(k), str(k))
    fn = rep.need(D + "omega")
    if fn:
        fam = Family(rep, "a domain's generator", fn)
        for k in made:
            fam.case(lambda: same(w.scalar(w.one(fn, made[k])), root(k, 1), f"the generator of size 2^{k}"), str(k))
    fn = rep.need(D + "contains")
    if fn:
        fam = Family(rep, "membership", fn)

        def inside(k):
            for i in range(1 << k):
                v = w.one(fn, made[k], T("call", "ff::Field::pow", T("named", "ff::PrimeField::ROOT_OF_UNITY"), lit((1 << (S - k)) * i)))
                if v is not TRUE:
                    raise Bad(f"the power {i} of the generator is not found in the domain of size 2^{k}") if v is FALSE else Odd(f"{v!r}"[:80])
            if k < S:
                v = w.one(fn, made[k], T("call", "ff::Field::pow", T("named", "ff::PrimeField::ROOT_OF_UNITY"), lit(1 << (S - k - 1))))
                if v is not FALSE:
                    raise Bad(f"a generator of a larger domain is found in that of size 2^{k}") if v is TRUE else Odd(f"{v!r}"[:80])
        for k in made:
            fam.case(lambda: inside(k), str(k))

    for name, back in (("fft", False), ("ifft", True)):
        fn = rep.need(D + name)
        if not fn:
            continue
        fam = Family(rep, name, fn)

        def transform(k, t):
            n = 1 << k
            w.threads = t
            cell = w.sc.cell(seq(names("c", n)))
            w.one(fn, made[k], cell)
            got = w.list(w.sc.fl.deref_all(cell))
            want = [reduced(dotted(atoms("c", n), [root(k, (-i if back else i) * j % n) * L.const(Fraction(1, n) if back else 1) for j in range(n)])) for i in range(n)]
            agree(got, want, f"the {'inverse ' if back else ''}transform of size {n} with {t} threads", "place")
        for k in made:
            for t in (1, 3, 8, 64):
                if k < 5 or t in (1, 64):
                    fam.case(lambda: transform(k, t), f"{1 << k} with {t}")

        def wrong(k, n):
            w.threads = 1
            refused(w, fn, f"transforming {n} values over a domain of size {1 << k}", made[k], w.sc.cell(seq(names("c", n))))
        for k, n in ((1, 1), (2, 3), (2, 8), (3, 4), (0, 2)):
            if k in made:
                fam.case(lambda: wrong(k, n), f"{n} over {1 << k}")
    w.threads = 1

    fn = rep.need(D + "ell")
    if fn:
        fam = Family(rep, "Lagrange values", fn)

        def ell(k, amount):
            n = 1 << k
            lv = w.run(fn, made[k], c("x"), lit(amount))
            some = [v for _, v in lv if v.op == "adt" and v.args[1] == "Some"]
            if not lv:
                raise Bad("panics")
            if len(some) != 1:
                raise Odd("outcomes of Lagrange values")
            v = some[0].args[2][0][1]
            got = w.list(v)
            if len(got) != amount:
                raise Bad(f"{amount} Lagrange values are asked for, and {len(got)} given")
            for i, g in enumerate(got):
                f = x - root(k, i)
                inv = L.atom("inv(" + repr(sorted(f.m.items())) + ")")
                want = reduced((x.pow(n) - L.const(1)) * root(k, i) * L.const(Fraction(1, n)) * inv)
                if any(a.startswith("inv(") and a != next(iter(inv.m))[0][0] for m in g.m for a, _ in m) and (g - want).m:
                    fs = {a for m in g.m for a, _ in m if a.startswith("inv(")}
                    raise (Bad if len(fs) == 1 and fs <= known else Odd)(f"the Lagrange value {i} of size {n} divides by something else")
                same(g, want, f"the Lagrange value {i} of size {n}")
        for k in made:
            if k > 3:
                continue
            known = {next(iter(L.atom("inv(" + repr(sorted((x - root(k, i)).m.items())) + ")").m))[0][0] for i in range(1 << k)}
            for amount in range((1 << k) + 1):
                fam.case(lambda: ell(k, amount), f"{amount} of {1 << k}")
            fam.case(lambda: refused(w, fn, f"more Lagrange values than the size {1 << k}", made[k], c("x"), lit((1 << k) + 1)), f"beyond {1 << k}")

        def member(k):
            for i in range(1 << k):
                lv = w.run(fn, made[k], T("call", "ff::Field::pow", T("named", "ff::PrimeField::ROOT_OF_UNITY"), lit((1 << (S - k)) * i)), lit(1))
                if len(lv) != 1 or lv[0][1].op != "adt":
                    raise Odd("outcomes of Lagrange values")
                if lv[0][1].args[1] != "None":
                    raise Bad(f"an element of the domain of size {1 << k} is not refused")
        for k in made:
            if k < 4:
                fam.case(lambda: member(k), f"inside {1 << k}")

    fn = rep.need(U + "poly_with_roots")
    if fn:
        fam = Family(rep, "product of factors", fn)

        def product(n):
            got = w.list(w.one(fn, T("seq", *names("r", n))))
            want = [L.const(1)]
            for r in atoms("r", n):
                up = [L()] + want
                down = [-(r * a) for a in want] + [L()]
                want = [a + b for a, b in zip(up, down)]
            agree(got, want, f"the polynomial with {n} roots")
        for n in range(8):
            fam.case(lambda: product(n), str(n))
