"""Algebraic normal forms: multivariate polynomials over Q and their fractions."""
from fractions import Fraction


class Poly:
    __slots__ = ("m",)

    def __init__(self, m=None):
        self.m = {k: v for k, v in (m or {}).items() if v}

    @staticmethod
    def const(c):
        return Poly({(): Fraction(c)})

    @staticmethod
    def atom(a):
        return Poly({((a, 1),): Fraction(1)})

    def __add__(self, o):
        m = dict(self.m)
        for k, v in o.m.items():
            m[k] = m.get(k, 0) + v
        return Poly(m)

    def __neg__(self):
        return Poly({k: -v for k, v in self.m.items()})

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        m = {}
        for k, v in self.m.items():
            for k2, v2 in o.m.items():
                d = dict(k)
                for a, e in k2:
                    d[a] = d.get(a, 0) + e
                    # truth values and indicator-like atoms are idempotent
                    if isinstance(a, tuple) and a[0] == "b":
                        d[a] = 1
                kk = tuple(sorted(d.items(), key=repr))
                m[kk] = m.get(kk, 0) + v * v2
        return Poly(m)

    def scale(self, c):
        return Poly({k: v * c for k, v in self.m.items()})

    def zero(self):
        return not self.m

    def isconst(self):
        return all(k == () for k in self.m)

    def constval(self):
        return self.m.get((), Fraction(0))

    def atoms(self):
        return {a for k in self.m for a, _ in k}

    def degree_in(self, a):
        return max((dict(k).get(a, 0) for k in self.m), default=0)

    def subst(self, a, p):
        if a not in self.atoms():
            return self
        r = Poly()
        for k, v in self.m.items():
            t = Poly({tuple((x, e) for x, e in k if x != a): v})
            for _ in range(dict(k).get(a, 0)):
                t = t * p
            r = r + t
        return r

    def rename(self, mp):
        m = {}
        for k, v in self.m.items():
            kk = tuple(sorted(((mp.get(a, a), e) for a, e in k), key=repr))
            m[kk] = m.get(kk, 0) + v
        return Poly(m)

    def linear(self, a):
        """The coefficient of a where a occurs to the first power alone in its monomials, else None."""
        c = Poly()
        for k, v in self.m.items():
            d = dict(k)
            if a in d:
                if d[a] != 1:
                    return None
                c = c + Poly({tuple((x, e) for x, e in k if x != a): v})
        return c

    def __eq__(self, o):
        return isinstance(o, Poly) and self.m == o.m

    def __hash__(self):
        return hash(frozenset(self.m.items()))

    def __repr__(self):
        if not self.m:
            return "0"

        def mono(k, v):
            s = "·".join(_name(a) + (f"^{e}" if e > 1 else "") for a, e in k)
            if not s:
                return str(v)
            return s if v == 1 else f"-{s}" if v == -1 else f"{v}·{s}"

        return " + ".join(mono(k, v) for k, v in sorted(self.m.items(), key=repr)).replace("+ -", "- ")


def _name(a):
    if isinstance(a, tuple):
        return _name(a[1])
    return str(a)


class Rat:
    """A fraction of polynomials; denominators are assumed non-zero."""

    __slots__ = ("n", "d")

    def __init__(self, n, d=None):
        self.n, self.d = n, d or Poly.const(1)

    def __add__(self, o):
        if self.d == o.d:
            return Rat(self.n + o.n, self.d)
        return Rat(self.n * o.d + o.n * self.d, self.d * o.d)

    def __neg__(self):
        return Rat(-self.n, self.d)

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        return Rat(self.n * o.n, self.d * o.d)

    def inv(self):
        return Rat(self.d, self.n)

    def zero(self):
        return self.n.zero()

    def same(self, o):
        return (self - o).zero()

    def __repr__(self):
        return repr(self.n) if self.d == Poly.const(1) else f"({self.n})/({self.d})"


def rsubst(p, mp):
    """Substitutes fractions for atoms of a polynomial."""
    r = Rat(Poly())
    for k, v in p.m.items():
        t = Rat(Poly({(): v}))
        for a, e in k:
            x = mp.get(a)
            x = x if x is not None else Rat(Poly.atom(a))
            for _ in range(e):
                t = t * x
        r = r + t
    return r
