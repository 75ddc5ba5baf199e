"""Polynomials: how they are laid out, and what is done with them."""
import itertools
import random

from pcd import *
from fuse import solid
from script import L, Laurent, Unknown
from rules.c09 import txz

LEVEL = "other"
RULE = ("Polynomials of up to 16 coefficients are built, and worked on, by evaluating the typed bodies of their functions with value numbering; each coefficient is a name, zero, or cancels another, in a few hundred "
        "patterns of zeros. Building from coefficients and from either view of wires, adding, subtracting, scaling, negating, dilating, folding, evaluating, the product with a reversed polynomial, enumerating coefficients from both ends and committing "
        "must give what the same operation on the list of coefficients gives, alone and one after another; the three restrictions of the gates' polynomial must be that polynomial. "
        "What does not fit must be refused.")
ASSUME = ["Names of coefficients are independent: a sum of them is zero only if it cancels."]
FLOOR = 300
P = "ragu_circuits::polynomials::sparse::"
N = 4
NC = 4 * N
ZERO = T("named", "ff::Field::ZERO")
WIRES = "abcd"


class World:
    def __init__(self, rep):
        self.rep, self.scalar = rep, Laurent()
        self.mul = []
        g = lambda fl, x: fl.deref_all(fl.val(x))
        hooks = dict(std_hooks())

        def zero(fl, e, fr, p, a):
            return TRUE if not self.scalar(solid(fl, g(fl, a[0]))).m else FALSE

        def mul(fl, e, fr, p, a):
            xs, ys = ([solid(fl, y) for y in fl.iterate(fl.val(x), lambda z: g(fl, z), fr, e["l"])] for x in a[:2])
            self.mul.append((xs, ys))
            return T("param", "committed")

        def compare(fl, op, a, b):
            if op not in ("Eq", "Ne") or a.op == b.op == "lit":
                return None
            try:
                d = self.scalar(solid(fl, fl.deref_all(fl.val(a)))) - self.scalar(solid(fl, fl.deref_all(fl.val(b))))
            except (Odd, Unknown):
                return None
            return TRUE if (not d.m) == (op == "Eq") else FALSE

        hooks.update({
            "binop": compare, "local_iters": True, "unroll": 200, "range": 200, "eval_consts": True, "err_returns": True,
            "ff::Field::is_zero": zero, "ff::Field::is_zero_vartime": zero,
            "ragu_circuits::polynomials::Rank::num_coeffs": lambda fl, e, fr, p, a: lit(NC),
            "ragu_circuits::polynomials::Rank::n": lambda fl, e, fr, p, a: lit(N),
            "ragu_circuits::polynomials::Rank::log2_n": lambda fl, e, fr, p, a: lit(N.bit_length() - 1),
            "const:RANK": lit(NC.bit_length() - 1),
            "ragu_arithmetic::util::mul": mul, "ragu_arithmetic::mul": mul,
            "ragu_arithmetic::FixedGenerators::g": lambda fl, e, fr, p, a: T("seq", *[T("param", f"g{i}") for i in range(NC + 2)]),
        })
        self.sc = Scene(rep, hooks=hooks)

    def run(self, fn, *pos, tsub=None):
        v = self.sc.call(fn, *pos, tsub=tsub)
        self.rep.seen(fn)
        if v is NEVER:
            return []
        fl = self.sc.fl
        if beyond(v):
            return []
        return [(c, solid(fl, fl.deref_all(x))) for c, x in leaves(fl.deref_all(v))]

    def one(self, fn, *pos, tsub=None):
        lv = self.run(fn, *pos, tsub=tsub)
        if not lv:
            raise Bad("panics")
        if len(lv) != 1:
            raise Odd("more than one outcome")
        return lv[0][1]

    def dense(self, t):
        """A polynomial's coefficients."""
        b = dict(t.args[2]).get("blocks") if t.op == "adt" and t.args[0].endswith("sparse::Polynomial") else None
        if b is None or b.op != "seq":
            raise Odd("a polynomial")
        out = [L()] * NC
        for x in b.args:
            if x.op != "tuple" or x.args[0].op != "lit" or x.args[1].op != "seq":
                raise Odd("a polynomial")
            s = int(x.args[0].args[0])
            for i, c in enumerate(x.args[1].args):
                if s + i >= NC:
                    raise Odd("a polynomial that is too long")
                out[s + i] = out[s + i] + self.scalar(c)
        return out


def beyond(t, seen=None):
    """Whether a sequence is read beyond its end."""
    seen = set() if seen is None else seen
    if not isinstance(t, T) or id(t) in seen:
        return False
    seen.add(id(t))
    if t.op == "index" and t.args[0].op == "seq" and t.args[1].op == "lit" and t.args[1].args[0].isdigit() and not any(x.op in ("each", "splice") for x in t.args[0].args):
        if int(t.args[1].args[0]) >= len(t.args[0].args):
            return True
    return any(beyond(x, seen) for a in t.args for x in (a if isinstance(a, tuple) else (a,)) if isinstance(x, (T, tuple)) for x in ([x] if isinstance(x, T) else [y for y in x if isinstance(y, T)]))


def named(i):
    return T("param", i)


def coefficients(pattern, name):
    return [ZERO if ch == "." else named(f"{name}{i}") for i, ch in enumerate(pattern)]


def patterns():
    out = ["." * NC, "x" * NC, "", "x", "..x", "x" * 5]
    for s in range(0, NC, 3):
        for n in (1, 2, 4, NC - s):
            if s + n <= NC:
                out.append("." * s + "x" * n + "." * (NC - s - n))
    for gap in range(1, 9):
        for s in (0, 2):
            p = "." * s + "xx" + "." * gap + "xx"
            out.append(p + "." * (NC - len(p)))
            p = "." * s + "x" + "." * gap + "x" + "." * gap + "x"
            out.append((p + "." * NC)[:NC])
    r = random.Random(22)
    for d in (2, 4, 7):
        for _ in range(12):
            out.append("".join("x" if r.randrange(10) < d else "." for _ in range(NC)))
    return list(dict.fromkeys(out))


def poly_fn(rep, name, public=True):
    return rep.need(P + "Polynomial::" + name, public=public)


class Bad(Exception):
    pass


def show(v):
    return " + ".join((f"{c}*" if c != 1 else "") + ("*".join(a + (f"^{e}" if e != 1 else "") for a, e in k) or "1") for k, c in list(v.m.items())[:3]) or "0"


def agree(got, want, say, at="degree"):
    if len(got) != len(want):
        raise Bad(f"{say} has {len(got)} coefficients instead of {len(want)}")
    for i, (a, b) in enumerate(zip(got, want)):
        if (a - b).m:
            raise Bad(f"{say} has {show(a)} at {at} {i}, where {show(b)} should be")


class Family:
    """One obligation for many cases of an operation."""

    def __init__(self, rep, key, fn):
        self.rep, self.key, self.fn, self.n, self.odd = rep, key, fn, 0, 0

    def case(self, f, name=""):
        key = f"{self.key}/{name or self.n}"
        self.n += 1
        try:
            f()
            self.rep.ok(key)
        except Bad as e:
            self.rep.bad(key, self.fn.where, f"{self.key}, {name}: {e}" if str(e) == "panics" else str(e))
        except (Odd, Unknown) as e:
            self.rep.undecided(key, str(e))


def say(p):
    return "[" + " ".join("".join(sorted({a[0] for k in c.m for a, _ in k})) or "." for c in p) + "]"


def run(rep):
    W = World(rep)
    new = poly_fn(rep, "from_coeffs")
    if new is None:
        return
    built = {}

    def from_coeffs(pattern, name="a"):
        k = pattern, name
        if k not in built:
            cs = coefficients(pattern, name)
            built[k] = W.one(new, T("seq", *cs)), [W.scalar(c) for c in cs] + [L()] * (NC - len(cs))
        return built[k]

    fam = Family(rep, "coefficients", new)
    for p in patterns():
        def f():
            got, want = from_coeffs(p)
            agree(W.dense(got), want, f"a polynomial of the coefficients {p or 'none'}")
        fam.case(f, p or "none")

    def f():
        if W.run(new, T("seq", *coefficients("x" * (NC + 1), "a"))):
            raise Bad(f"more coefficients than {NC} are taken for a polynomial of {NC}")
    fam.case(f, "too many")
    views(rep, W, built)
    ps = operands(rep, W, from_coeffs)
    ps["a"] += [("/".join(k), t, want) for k, t, want in built.get("views", [])]
    unary(rep, W, ps)
    binary(rep, W, ps)
    enumerate_(rep, W, ps)
    gates(rep, W)


def views(rep, W, built):
    prog = rep.prog
    build = rep.need(P + "view::View::build", public=False) or rep.prog.fn(P + "View::build")
    if build is None:
        return
    for kind in ("trace", "wiring"):
        make = rep.prog.fn(f"{P}view::View::{kind}")
        ty = next((i["self_ty"] for i in prog.impls if (i.get("trait") or "").endswith("view::Perspective") and i["self_ty"].s.rsplit("::", 1)[-1].lower() == kind), None)
        if make is None or ty is None:
            rep.undecided(f"view/{kind}", "the view")
            continue
        fam = Family(rep, f"view/{kind}", build)
        place = {"a": lambda i: 2 * N + i, "b": lambda i: 2 * N - 1 - i, "c": lambda i: i, "d": lambda i: 4 * N - 1 - i}
        if kind == "wiring":
            place = {"a": place["b"], "b": place["a"], "c": place["d"], "d": place["c"]}
        r = random.Random(7)
        shapes = [tuple("x" * n for n in ns) for ns in itertools.product((0, 1, 4), repeat=4)]
        shapes += [tuple("".join(r.choice("x.") for _ in range(r.randrange(5))) for _ in WIRES) for _ in range(40)]
        shapes += [tuple("x" * (N + 1) if w == u else "x" for u in WIRES) for w in WIRES]
        for sh in shapes:
            def f():
                v = W.one(make)
                fields = dict(v.args[2])
                want = [L()] * NC
                for w, p in zip(WIRES, sh):
                    cs = coefficients(p, w)
                    fields[w] = T("seq", *cs)
                    for i, c in enumerate(cs):
                        if i < N:
                            want[place[w](i)] = W.scalar(c)
                v = T("adt", v.args[0], v.args[1], tuple((n, fields[n]) for n, _ in v.args[2]))
                lv = W.run(build, v, tsub={"P": ty})
                if any(len(p) > N for p in sh):
                    if lv:
                        raise Bad(f"a {kind} view with more than {N} wires of a kind is taken for a polynomial of {N} gates")
                    return
                if len(lv) != 1:
                    raise Odd("the outcome")
                agree(W.dense(lv[0][1]), want, f"the {kind} view of wires {', '.join(sh)}")
                if not any(len(set(p)) > 1 for p in sh):
                    built[(kind, sh)] = lv[0][1], want
            fam.case(f, ",".join(sh))
    keep = [k for k in built if k[0] in ("trace", "wiring")]
    built["views"] = [((k[0], *k[1]), *built[k]) for k in keep if sum(map(len, k[1])) in (2, 9, 10, 16)][:16:4]


def operands(rep, W, from_coeffs):
    """(polynomial, its coefficients), of names a; and of names b."""
    out = {"a": [], "b": []}
    pats = ["." * NC, "x" * NC, "x" + "." * (NC - 1), "." * (NC - 1) + "x", "xxxx" + "." * 12, "." * 12 + "xxxx", "xx......xx....xx"[:NC], "." * 5 + "xxx" + "." * 8,
            "x......x......x.", "..xxxx......xx..", "........xxxxxxxx", "xxxxxxxx........", "......xx........", ".x.x.x.x.x.x.x.x", "xxxxxxxx.....xxx", "x......xxxxxxx..", "x.....x......x..", "..xxxxx.....xxxx"]
    for name in out:
        for p in pats:
            try:
                out[name].append((p, *from_coeffs(p, name)))
            except (Odd, Unknown) as e:
                rep.undecided(f"operands/{p}", str(e))
    return out


def minus(p):
    return [-c for c in p]


def unary(rep, W, ps):
    z = named("z")
    for op in ("scale", "negate", "dilate", "eval"):
        fn = poly_fn(rep, op)
        if fn is None:
            continue
        fam = Family(rep, op, fn)
        for (p, t, cs), by in itertools.product(ps["a"], (z, ZERO) if op in ("scale", "eval") else (z,)):
            def f():
                c = W.sc.cell(t)
                zs = W.scalar(by)
                if op == "eval":
                    v = W.scalar(W.one(fn, c, by))
                    want = L()
                    for x in reversed(cs):
                        want = want * zs + x
                    agree([v], [want], f"a polynomial of coefficients {p}, evaluated at {'zero' if by is ZERO else 'z'},", "value")
                    return
                W.one(fn, c, *([by] if op != "negate" else []))
                got = W.dense(solid(W.sc.fl, W.sc.get(c)))
                pw, want = L.const(1), []
                for x in cs:
                    want.append(-x if op == "negate" else x * zs if op == "scale" else x * pw)
                    pw = pw * zs
                agree(got, want, f"a polynomial of coefficients {p}, after {op},")
            fam.case(f, f"{p} {'0' if by is ZERO else ''}")


def binary(rep, W, ps):
    z, s = named("z"), named("s")
    add_, sub_, rev, ev, neg, dil = (poly_fn(rep, n) for n in ("add_assign", "sub_assign", "revdot", "eval", "negate", "dilate"))
    if None in (add_, sub_, rev, ev, neg, dil):
        return
    ways = {"add": [add_], "sub": [sub_]}
    for f in rep.prog.all_fns():
        if f.name in ("add_assign", "sub_assign") and f.trait and f.path.startswith("<" + P + "Polynomial as ") and not f.provided:
            ways[f.name[:3]].append(f)
    zs = W.scalar(z)
    results = []
    pairs = list(itertools.product(ps["a"], ps["b"]))
    some = [x for i, x in enumerate(pairs) if i % 4 == i // 18 % 4]
    for op, fns in ways.items():
        for n, fn in enumerate(fns):
            fam = Family(rep, f"{op}{n or ''}", fn)
            for (p, t, cs), (q, u, ds) in (pairs if op == "add" else some) if n == 0 else [(ps["a"][2], ps["b"][7]), (ps["a"][6], ps["b"][9])]:
                def f():
                    c = W.sc.cell(t)
                    W.one(fn, c, W.sc.cell(u))
                    r = solid(W.sc.fl, W.sc.get(c))
                    want = [x + y if op == "add" else x - y for x, y in zip(cs, ds)]
                    agree(W.dense(r), want, f"{p} {'+' if op == 'add' else '-'} {q}")
                    if n == 0:
                        results.append((f"{p} {op} {q}", r, want))
                fam.case(f, f"{p} {q}")
    # one after another: what was added is taken away again, in part
    fam = Family(rep, "cancel", sub_)
    pick = random.Random(3).sample(results, min(60, len(results)))
    back = []
    for (nm, r, want), (q, u, ds) in zip(pick, itertools.cycle(ps["a"] + ps["b"])):
        def f():
            c = W.sc.cell(r)
            W.one(sub_, c, W.sc.cell(u))
            x = solid(W.sc.fl, W.sc.get(c))
            w = [a - b for a, b in zip(want, ds)]
            agree(W.dense(x), w, f"{nm}, less {q},")
            back.append((f"{nm} less {q}", x, w))
        fam.case(f, f"{nm} less {q}")
    fam = Family(rep, "product", rev)
    for (nm, r, want), (q, u, ds) in list(zip(pick + back, itertools.cycle(ps["b"]))) + some:
        def f():
            v = W.scalar(W.one(rev, W.sc.cell(r), W.sc.cell(u)))
            w = L()
            for i in range(NC):
                w = w + want[i] * ds[NC - 1 - i]
            agree([v], [w], f"the product of {nm} with {q} reversed", "value")
        fam.case(f, f"{nm} {q}")
    for op, fn in (("eval", ev), ("dilate", dil), ("negate", neg)):
        fam = Family(rep, "then " + op, fn)
        for nm, r, want in back[:24]:
            def f():
                c = W.sc.cell(r)
                if op == "eval":
                    v, w = W.scalar(W.one(fn, c, z)), L()
                    for x in reversed(want):
                        w = w * zs + x
                    return agree([v], [w], f"{nm}, evaluated,", "value")
                W.one(fn, c, *([z] if op == "dilate" else []))
                pw, w = L.const(1), []
                for x in want:
                    w.append(-x if op == "negate" else x * pw)
                    pw = pw * zs
                agree(W.dense(solid(W.sc.fl, W.sc.get(c))), w, f"{nm}, after {op},")
            fam.case(f, nm)
    fold = poly_fn(rep, "fold")
    if fold is not None:
        fam = Family(rep, "fold", fold)
        for group in ([], [0], [1, 6], [2, 7, 3], [9, 4, 5, 8]):
            def f():
                xs = [ps["a" if i % 2 else "b"][i] for i in group]
                r = W.one(fold, T("seq", *[W.sc.cell(x[1]) for x in xs]), s)
                w = [L()] * NC
                for _, _, cs in xs:
                    w = [a * W.scalar(s) + b for a, b in zip(w, cs)]
                agree(W.dense(r), w, f"{len(group)} polynomials, folded,")
            fam.case(f, str(group))
    commit(rep, W, ps["a"] + back[:20])


def commit(rep, W, xs):
    fn = poly_fn(rep, "commit")
    if fn is None:
        return
    fam = Family(rep, "commit", fn)
    for nm, r, want in xs:
        def f():
            W.mul.clear()
            W.run(fn, W.sc.cell(r), W.sc.cell(named("generators")))
            if len(W.mul) != 1:
                raise Odd("how it is committed")
            cs, gs = W.mul[0]
            if len(cs) != len(gs):
                raise Bad(f"committing {nm} multiplies {len(cs)} coefficients by {len(gs)} generators")
            got = [L()] * NC
            for c, g in zip(cs, gs):
                if g.op != "param" or not g.args[0].startswith("g") or int(g.args[0][1:]) >= NC:
                    raise Odd("a generator")
                i = int(g.args[0][1:])
                got[i] = got[i] + W.scalar(c)
            agree(got, want, f"the commitment to {nm}", "generator")
        fam.case(f, nm)


def enumerate_(rep, W, ps):
    fn = poly_fn(rep, "iter_coeffs")
    if fn is None:
        return
    it = {n: [f for f in rep.prog.impl_fns(t, n) if "sparse::CoeffIter" in f.path] for n, t in (("next", "core::iter::Iterator"), ("next_back", "core::iter::DoubleEndedIterator"))}
    if any(len(v) != 1 for v in it.values()):
        return rep.undecided("enumerate", "the iterator")
    fam = Family(rep, "enumerate", fn)
    r = random.Random(5)
    for p, t, cs in ps["a"]:
        for way in ("f" * NC, "b" * NC, "".join(r.choice("fb") for _ in range(NC)), "fb" * (NC // 2)):
            def f():
                c = W.sc.cell(W.one(fn, W.sc.cell(t)))
                lo, hi = 0, NC
                for ch in way + "fb":
                    v = W.one(it["next" if ch == "f" else "next_back"][0], c)
                    if v.op != "adt" or v.args[1] not in ("Some", "None"):
                        raise Odd("an item")
                    if lo >= hi:
                        if v.args[1] != "None":
                            raise Bad(f"enumerating the coefficients {p} does not end after {NC}")
                        continue
                    if v.args[1] == "None":
                        raise Bad(f"enumerating the coefficients {p} ends after {NC - hi + lo}")
                    i = lo if ch == "f" else hi - 1
                    lo, hi = (lo + 1, hi) if ch == "f" else (lo, hi - 1)
                    agree([W.scalar(v.args[2][0][1])], [cs[i]], f"enumerating the coefficients {p}", f"degree {i}: item")
            fam.case(f, f"{p} {way}")


def gates(rep, W):
    """The polynomial of the gates, t, and its restrictions."""
    RK = "ragu_circuits::polynomials::Rank::"
    X, Z = L.atom("x"), L.atom("z")
    for nm, var in (("tz", "z"), ("tx", "x")):
        fn = rep.need(RK + nm)
        if fn is None:
            continue
        fam = Family(rep, nm, fn)

        for zero in (False, True):
            def f():
                V = L.atom(var)
                want = [L()] * NC
                for i in range(0 if zero else N):
                    if nm == "tz":
                        want[4 * N - 1 - i] = -(V.pow(2 * N - 1 - i) + V.pow(2 * N + i))
                    else:
                        want[2 * N - 1 - i] = want[2 * N + i] = -V.pow(4 * N - 1 - i)
                agree(W.dense(W.one(fn, ZERO if zero else named(var))), want, f"{nm} at {'zero' if zero else 'a point'}")
            fam.case(f, "zero" if zero else "point")
    for k in (1, 2, 3):
        try:
            r = txz(rep, k)
        except (Odd, Unknown) as e:
            rep.undecided(f"txz/{k}", str(e))
            continue
        if r is None:
            return
        n, want = 2 ** k, L()
        for i in range(n):
            want = want - X.pow(4 * n - 1 - i) * (Z.pow(2 * n - 1 - i) + Z.pow(2 * n + i))
        rep.check(not (r[1] - want).m, f"txz/{k}", r[2].where, f"the gates' polynomial of {n} gates is computed as {show(r[1])} …")
    for k in (2, 5, 13):
        for nm, want in (("num_coeffs", 2 ** k), ("n", 2 ** (k - 2)), ("log2_n", k - 2)):
            fn = rep.prog.fn(RK + nm)
            if fn is None:
                continue
            fl = Flow(rep.prog, hooks={"const:RANK": lit(k), "eval_consts": True})
            _, v = fl.run(fn)
            v = fl.deref_all(v)
            if v.op != "lit":
                rep.undecided(f"rank {k}/{nm}", "its value")
            else:
                rep.check(int(v.args[0]) == want, f"rank {k}/{nm}", fn.where, f"{nm} of rank {k} is {v.args[0]}")
