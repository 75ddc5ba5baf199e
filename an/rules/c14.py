"""The sponge: what is squeezed is a permutation of everything absorbed, in order; and the permutation is Poseidon's."""
import itertools
import random

from flow import Frame
from pcd import *
from fuse import solid
from script import L, Unknown, leaves, ok1

LEVEL = "other"
RULE = ("The sponge's operations are composed, by value numbering over their typed bodies, along every sequence of up to six absorptions, squeezes and savings that are resumed, and longer ones, at rates 1, 2 and 4, with the permutation as an uninterpreted function of the whole state. "
        "Each squeezed value must be the one a duplex sponge gives: absorbed values are added to the rate in order, a full or pending block is permuted in exactly once, squeezed values are the rate's in order, none is given twice without a permutation, and a saved and resumed sponge goes on as an uninterrupted one. "
        "The permutation's body must apply its rounds, constants and matrix in order, with every power of five where it belongs, and not be skipped; the constants in the source must be those of the standard generator for their field, read from the typed program.")
ASSUME = ["Elements' own operations constrain what they compute (C03); a routine is executed with its own input (C10, C06).", "Values that the uninterpreted permutation gives are independent."]
FLOOR = 150
SP = "ragu_primitives::poseidon::"
SPG = SP + "Sponge::"
EL = "ragu_primitives::element::Element::"
PP = "ragu_arithmetic::PoseidonPermutation::"
PRIMES = {"Fp": 0x40000000000000000000000000000000224698fc094cf91b992d30ed00000001, "Fq": 0x40000000000000000000000000000000224698fc0994a8dd8c46eb2100000001}


class Elements:
    """Powers of linear forms, by name."""

    def __init__(self):
        self.by, self.of = {}, []

    def make(self, form, power=1):
        k = frozenset(form.m.items()), power
        if k not in self.by:
            self.by[k] = T("el", lit(len(self.of)))
            self.of.append((form, power))
        return self.by[k]

    def get(self, t):
        if t.op == "named" and str(t.args[0]).endswith("ZERO"):
            return L(), 1
        if t.op != "el":
            raise Odd(f"element {t!r}"[:120])
        return self.of[int(t.args[0].args[0])]

    def form(self, t):
        f, p = self.get(t)
        return f if p == 1 else L.atom(f"p{t.args[0].args[0]}")

    def mul(self, a, b):
        (f, p), (g, q) = self.get(a), self.get(b)
        if f.m == g.m:
            return self.make(f, p + q)
        return self.make(L.atom("x".join(["m"] + sorted([a.args[0].args[0], b.args[0].args[0]]))))

    def add(self, a, b, k=None):
        return self.make(self.form(a) + (self.form(b) if k is None else self.form(b) * k))

    def atom(self, n):
        return self.make(L.atom(n))


class World:
    def __init__(self, rep, t, rate, full=2, partial=2):
        self.rep, self.els, self.n = rep, Elements(), 0
        self.t, self.rate = t, rate
        self.perms = []
        E = self.els
        g = lambda fl, x: solid(fl, fl.deref_all(fl.val(x)))

        def h(f):
            return lambda fl, e, fr, p, a: f(fl, *[g(fl, x) for x in a])

        def coeff(c):
            if c.op == "adt" and c.args[0].endswith("Coeff"):
                k = c.args[1]
                if k == "Arbitrary":
                    return coeff(c.args[2][0][1])
                if k == "NegativeArbitrary":
                    return -coeff(c.args[2][0][1])
                return {"Zero": L(), "One": L.const(1), "Two": L.const(2), "NegativeOne": L.const(-1)}[k]
            if c.op == "param":
                return L.atom(c.args[0])
            raise Odd(f"coefficient {c!r}"[:100])

        def multiadd(fl, dr, vs, cs):
            if vs.op != "seq" or cs.op != "seq":
                raise Odd("what is multiplied by the matrix")
            if len(vs.args) != len(cs.args):
                return NEVER
            f = L()
            for v, c in zip(vs.args, cs.args):
                f = f + E.form(v) * coeff(c)
            return E.make(f)

        def routine(fl, e, fr, p, a):
            r, x = g(fl, a[1]), g(fl, a[2])
            if r.op != "adt" or not r.args[0].endswith("poseidon::Permutation"):
                raise Odd(f"routine {r!r}"[:100])
            if T("param", "params") not in [v for _, v in r.args[2]]:
                raise Odd(f"the permutation's parameters {r!r}")
            vs = self.state(x)
            return ok1(self.rebuild(x, self.permuted(vs)))

        hooks = dict(std_hooks())
        hooks.update({
            "recurse": True, "unroll": 300, "range": 300, "eval_consts": True, "err_returns": True, "const:T": lit(t), "const:RATE": lit(rate), "const:FULL_ROUNDS": lit(full), "const:PARTIAL_ROUNDS": lit(partial), "const:ALPHA": lit(5),
            EL + "zero": h(lambda fl, *a: E.make(L())), EL + "one": h(lambda fl, *a: E.make(L.const(1))),
            EL + "add": h(lambda fl, a, dr, b: E.add(a, b)), EL + "sub": h(lambda fl, a, dr, b: E.add(a, b, L.const(-1))), EL + "double": h(lambda fl, a, dr: E.add(a, a)),
            EL + "negate": h(lambda fl, a, dr: E.make(-E.form(a))),
            EL + "scale": h(lambda fl, a, dr, k: E.make(E.form(a) * coeff(k))), EL + "add_coeff": h(lambda fl, a, dr, b, k: E.add(a, b, coeff(k))),
            EL + "constant": h(lambda fl, dr, k: E.make(coeff(k))),
            EL + "mul": lambda fl, e, fr, p, a: ok1(E.mul(g(fl, a[0]), g(fl, a[2]))), EL + "square": lambda fl, e, fr, p, a: ok1(E.mul(g(fl, a[0]), g(fl, a[0]))),
            "ragu_primitives::element::multiadd": h(multiadd),
            "ragu_core::drivers::Driver::routine": routine,
            PP + "round_constants": lambda fl, e, fr, p, a: T("seq", *[T("seq", *[T("param", f"c{r}.{i}") for i in range(t)]) for r in range(full + partial)]),
            PP + "mds_matrix": lambda fl, e, fr, p, a: T("seq", *[T("seq", *[T("param", f"m{r}.{i}") for i in range(t)]) for r in range(t)]),
            "ragu_primitives::vec::Len::len": lambda fl, e, fr, p, a: lit(t),
        })
        def into(fl, e, fr, p, a):
            v = g(fl, a[0])
            return ok1(v) if v.op == "seq" else None

        for k in ("core::convert::TryInto::try_into", "core::convert::TryFrom::try_from", "ragu_primitives::vec::FixedVec::try_from", "ragu_primitives::vec::FixedVec::new"):
            hooks[k] = into
        self.sc = Scene(rep, hooks=hooks)
        self.dr = T("param", "dr")

    def state(self, x):
        v = x
        while v.op == "adt" and len(v.args[2]) >= 1:
            v = next((y for n, y in v.args[2] if n == "values" or y.op == "seq" or y.op == "adt" and "FixedVec" in y.args[0]), None)
            if v is None:
                raise Odd("a state")
        if v.op != "seq" or len(v.args) != self.t:
            raise Odd(f"a state {v!r}"[:100])
        return v.args

    def rebuild(self, x, vs):
        if x.op == "seq":
            return T("seq", *vs)
        return T("adt", x.args[0], x.args[1], tuple((n, self.rebuild(y, vs) if y.op == "seq" or y.op == "adt" and (n == "values" or "FixedVec" in y.args[0]) else y) for n, y in x.args[2]))

    def permuted(self, vs):
        vs = [self.els.form(v) for v in vs]
        k = tuple(frozenset(v.m.items()) for v in vs)
        if k not in self.perms:
            self.perms.append(k)
        i = self.perms.index(k)
        return [self.els.atom(f"P{i}.{j}") for j in range(self.t)]

    def run(self, fn, *pos):
        v = self.sc.call(fn, *pos)
        self.rep.seen(fn)
        if v is NEVER:
            return None
        fl = self.sc.fl
        lv = leaves(fl.deref_all(v))
        if lv is None or len(lv) != 1:
            raise Odd("more than one outcome")
        return solid(fl, fl.deref_all(lv[0][1]))


class Model:
    """A duplex sponge."""

    def __init__(self, W, s=None):
        self.W = W
        self.s = s or [W.els.make(L())] * W.t
        self.buf, self.out = [], None

    def copy(self):
        m = Model(self.W, list(self.s))
        m.buf, m.out = list(self.buf), None if self.out is None else list(self.out)
        return m

    def permute(self):
        E = self.W.els
        for i, v in enumerate(self.buf):
            self.s[i] = E.add(self.s[i], v)
        self.buf = []
        self.s = self.W.permuted(self.s)

    def absorb(self, v):
        self.out = None
        if len(self.buf) == self.W.rate:
            self.permute()
        self.buf.append(v)

    def squeeze(self):
        if self.out is None:
            if not self.buf:
                return None
            self.permute()
            self.out = self.s[:self.W.rate]
        if not self.out:
            self.permute()
            self.out = self.s[:self.W.rate]
        return self.out.pop(0)

    def save(self):
        if self.out is not None or not self.buf:
            return None
        self.permute()
        return self.s


def sponge(rep):
    fns = {n: rep.need(SPG + n) for n in ("new", "absorb", "squeeze", "save_state", "resume")}
    if None in fns.values():
        return
    for t, rate, depth in ((3, 2, 6), (2, 1, 5), (5, 4, 3), (4, 2, 3)):
        W = World(rep, t, rate)
        prm = T("param", "params")
        try:
            s0 = W.run(fns["new"], W.dr, prm)
            if s0 is None:
                raise Odd("a new sponge")
        except (Odd, Unknown) as e:
            rep.undecided(f"rate {rate} of {t}", str(e))
            continue
        seen = set()

        def step(op, s, m, name):
            """(sponge, model) after an operation; None when it ends."""
            key = f"rate {rate} of {t}/{name}"
            fn = fns[{"a": "absorb", "s": "squeeze", "v": "save_state"}[op]]
            m = m.copy()
            if key in seen:
                new = False
            else:
                seen.add(key)
                new = True
            c = W.sc.cell(s)
            if op == "a":
                v = W.els.atom(f"v{len(name)}")
                r = W.run(fn, c, W.dr, W.sc.cell(v))
                m.absorb(v)
                good = r is not None and r.op == "adt" and r.args[1] == "Ok"
                what = "absorbing fails"
            elif op == "s":
                r = W.run(fn, c, W.dr)
                w = m.squeeze()
                if r is None or r.op != "adt" or r.args[1] not in ("Ok", "Err"):
                    if r is not None:
                        raise Odd(f"a squeezed value {r!r}"[:300])
                if w is None:
                    if new:
                        rep.check(r is not None and r.args[1] == "Err", key, fn.where, f"a value is squeezed although nothing was absorbed (rate {rate}, operations {spell(name)})")
                    return None
                good = r is not None and r.args[1] == "Ok"
                what = "squeezing fails"
                if good:
                    got = r.args[2][0][1]
                    good = W.els.form(got) == W.els.form(w)
                    what = f"the value squeezed is {shown(W, got)}, not {shown(W, w)}"
            else:
                r = W.run(fn, s, W.dr)
                w = m.save()
                if w is None:
                    if new:
                        rep.check(r is not None and r.op == "adt" and r.args[1] == "Err", key, fn.where, f"a state is saved where there is none to save (rate {rate}, operations {spell(name)})")
                    return None
                if r is None or r.op != "adt" or r.args[1] != "Ok":
                    if new:
                        rep.bad(key, fn.where, f"saving fails (rate {rate}, operations {spell(name)})")
                    return None
                st = r.args[2][0][1]
                got = W.state(st)
                good = [W.els.form(x) for x in got] == [W.els.form(x) for x in w]
                what = "the state saved is not that of the sponge"
                s2 = W.run(fns["resume"], st, prm)
                if s2 is None:
                    good, what = False, "resuming fails"
                m.out = list(m.s[:rate])
                if new:
                    rep.check(good, key, fn.where, f"{what} (rate {rate}, operations {spell(name)})")
                return (s2, m) if good else None
            if new:
                rep.check(good, key, fn.where, f"{what} (rate {rate}, operations {spell(name)})")
            return (solid(W.sc.fl, W.sc.get(c)), m) if good else None

        def guarded(op, s, m, name):
            try:
                return step(op, s, m, name)
            except (Odd, Unknown) as e:
                rep.undecided(f"rate {rate} of {t}/{name}", str(e))
                return None

        level = [("", s0, Model(W))]
        for _ in range(depth):
            nxt = []
            for name, s, m in level:
                for op in "asv":
                    r = guarded(op, s, m, name + op)
                    if r:
                        nxt.append((name + op, *r))
            level = nxt
        r = random.Random(t * 10 + rate)
        words = ["a" * rate + "s" * (rate + 2), "a" * (2 * rate + 1) + "s" * (2 * rate + 1) + "a" * rate + "s", "a" * rate + "v" + "s" * (rate + 1) + "a" * (rate + 1) + "v" + "s", "a" * (rate + 1) + "va" + "v" + "as" * 3]
        for _ in range(14):
            n = "a"
            while len(n) < 13:
                n += r.choice("aaassv") if n[-1] == "a" else r.choice("aaass")
            words.append(n)
        for w in words:
            s, m = s0, Model(W)
            for i, op in enumerate(w):
                x = guarded(op, s, m, w[:i + 1])
                if not x:
                    break
                s, m = x


def spell(name):
    return ", ".join({"a": "absorb", "s": "squeeze", "v": "save and resume"}[x] for x in name)


def shown(W, t):
    f = W.els.form(t)
    return " + ".join("*".join(a for a, _ in k) or "1" for k in list(f.m)[:3]) or "0"


def permutation(rep):
    fn = next((f for f in rep.prog.impl_fns("ragu_core::routines::Routine", "execute") if "poseidon::Permutation" in f.path), None)
    pr = next((f for f in rep.prog.impl_fns("ragu_core::routines::Routine", "predict") if "poseidon::Permutation" in f.path), None)
    if fn is None:
        return rep.undecided("permutation", "its body")
    head = fn.path.split(" as ")[0].lstrip("<")
    for t, full, partial in ((2, 2, 0), (2, 2, 2), (3, 2, 1), (2, 4, 3), (3, 4, 2), (4, 2, 1)):
        key = f"permutation/{t} elements, {full} and {partial} rounds"
        W = World(rep, t, t - 1, full, partial)
        E = W.els
        try:
            frm = rep.prog.fn(f"<{head} as core::convert::From>::from")
            me = W.run(frm, T("param", "params")) if frm is not None else None
            if me is None:
                raise Odd("the routine")
            x = [E.atom(f"x{i}") for i in range(t)]
            s0 = W.run(rep.prog.fn(SPG + "new"), W.dr, T("param", "params"))
            st = find_state(s0)
            r = W.run(fn, W.sc.cell(me), W.dr, W.rebuild(st, x), UNIT)
            if r is None or r.op != "adt" or r.args[1] != "Ok":
                rep.bad(key, fn.where, "the permutation fails")
                continue
            got = W.state(r.args[2][0][1])
            for k in range(full + partial):
                x = [E.make(E.form(v) + L.atom(f"c{k}.{i}")) for i, v in enumerate(x)]
                wide = k < full // 2 or k >= full // 2 + partial
                x = [E.make(*five(E, v)) if wide or i == 0 else v for i, v in enumerate(x)]
                fs = [E.form(v) for v in x]
                x = []
                for i in range(t):
                    f = L()
                    for j in range(t):
                        f = f + L.atom(f"m{i}.{j}") * fs[j]
                    x.append(E.make(f))
            bad = [i for i, (a, b) in enumerate(zip(got, x)) if E.form(a) != E.form(b)]
            rep.check(not bad, key, fn.where, f"the permutation of {t} elements with {full} full and {partial} partial rounds gives another value at {bad}")
            if pr is not None:
                r = W.run(pr, W.sc.cell(me), W.dr, W.sc.cell(st))
                while r is not None and r.op == "adt" and r.args[1] == "Ok":
                    r = r.args[2][0][1]
                if r is None or r.op != "adt" or r.args[1] not in ("Known", "Unknown"):
                    raise Odd("its prediction")
                if r.args[1] == "Unknown":
                    rep.ok(key + "/prediction")
                else:
                    rep.undecided(key + "/prediction", "the permutation's value is predicted")
        except (Odd, Unknown) as e:
            rep.undecided(key, str(e))


def five(E, v):
    f, p = E.get(v)
    return f, 5 * p


def find_state(s):
    if s.op == "adt":
        if s.args[0].endswith("SpongeState"):
            return s
        for _, y in s.args[2]:
            r = find_state(y)
            if r is not None:
                return r
    return None


def grain(p, n, t, rf, rp):
    """The constants of the Poseidon reference generator for x^5 over a prime field."""
    st = [int(b) for b in f"{1:02b}{0:04b}{n:012b}{t:012b}{rf:010b}{rp:010b}" + "1" * 30]

    def step():
        b = st[62] ^ st[51] ^ st[38] ^ st[23] ^ st[13] ^ st[0]
        st.pop(0)
        st.append(b)
        return b

    def bit():
        while True:
            a, b = step(), step()
            if a:
                return b

    def num():
        v = 0
        for _ in range(n):
            v = v * 2 + bit()
        return v

    for _ in range(160):
        step()
    rc = []
    while len(rc) < (rf + rp) * t:
        v = num()
        if v < p:
            rc.append(v)
    v = [num() % p for _ in range(2 * t)]
    return [rc[i:i + t] for i in range(0, len(rc), t)], [[pow(v[i] + v[t + j], -1, p) for j in range(t)] for i in range(t)]


def number(t):
    if t.op == "call" and len(t.args) == 2 or t.op in ("from_raw", "call") and len(t.args) == 2:
        x = t.args[-1]
        if x.op == "seq" and len(x.args) == 4 and all(y.op == "lit" for y in x.args):
            return sum(int(y.args[0]) << 64 * i for i, y in enumerate(x.args))
    raise Odd(f"constant {t!r}"[:100])


def tables(rep):
    impls = [i for i in rep.prog.impls if (i.get("trait") or "") == "ragu_arithmetic::PoseidonPermutation"]
    if not impls:
        return rep.undecided("constants", "no instance of the permutation")
    for i in impls:
        head = i["self_ty"].adt or i["self_ty"].s
        field = head[-2:]
        base = f"<{head} as ragu_arithmetic::PoseidonPermutation>::"
        key = f"constants/{head.rsplit('::', 1)[-1]}"
        fn = rep.prog.fn(base + "round_constants")
        if field not in PRIMES or fn is None:
            rep.undecided(key, "the field")
            continue
        p = PRIMES[field]
        try:
            c = {}
            for n in ("T", "RATE", "FULL_ROUNDS", "PARTIAL_ROUNDS", "ALPHA"):
                k = rep.prog.consts[base + n]
                v = k.get("cv")
                if v is None:
                    fl = Flow(rep.prog, hooks={"eval_consts": True})
                    fl.run(fn)
                    v = fl.constbody(k, Frame(fn, {})).args[0]
                c[n] = int(v)
            rep.check(0 < c["RATE"] < c["T"], key + "/rate", fn.where, f"the rate {c['RATE']} leaves no capacity in a state of {c['T']}")
            rep.check(c["ALPHA"] == 5 and (p - 1) % 5 != 0, key + "/power", fn.where, f"raising to the power {c['ALPHA']} is not the permutation of the field that is implemented")
            rep.check(c["FULL_ROUNDS"] % 2 == 0 and c["FULL_ROUNDS"] >= 8 and c["PARTIAL_ROUNDS"] >= 56, key + "/rounds", fn.where, f"{c['FULL_ROUNDS']} full and {c['PARTIAL_ROUNDS']} partial rounds are too few")
            rc, mds = grain(p, 255, c["T"], c["FULL_ROUNDS"], c["PARTIAL_ROUNDS"])
            for n, want in (("round_constants", rc), ("mds_matrix", mds)):
                f = rep.prog.fn(base + n)
                fl = Flow(rep.prog, hooks={"eval_consts": True, "unroll": 500, "range": 500})
                _, v = fl.run(f)
                rep.seen(f)
                v = fl.deref_all(v)
                if v.op != "seq":
                    raise Odd(n)
                rows = [fl.deref_all(r) for r in v.args]
                rep.check(len(rows) == len(want), f"{key}/{n}", f.where, f"{len(rows)} rows of {n}, where there should be {len(want)}")
                for k, (r, w) in enumerate(zip(rows, want)):
                    if r.op != "seq":
                        raise Odd(n)
                    got = [number(fl.deref_all(x)) % p for x in r.args]
                    bad = [j for j in range(max(len(got), len(w))) if got[j:j + 1] != w[j:j + 1]]
                    rep.check(not bad, f"{key}/{n} {k}", f.where, f"row {k} of {n} of the permutation over {field} differs at {bad} from what the generator gives")
        except (Odd, Unknown, KeyError, TypeError, ValueError, AttributeError) as e:
            rep.undecided(key, f"{type(e).__name__} {e}"[:160])


def run(rep):
    sponge(rep)
    permutation(rep)
    tables(rep)
