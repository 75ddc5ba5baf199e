"""Primitive gadgets impose exactly their defining relation, and assign wires that satisfy it."""
import itertools
import re

import cs
from alg import Poly
from q import *

LEVEL = "other"
RULE = ("Each gadget function of the primitives is value-numbered into the gates and linear constraints it issues on the "
        "driver; linear constraints and product-defining gates are substituted away, and the remaining equations and output "
        "wires are compared, as polynomials over Q with opaque constants, with the gadget's defining relation (up to sign, "
        "order and the names of internal wires). The assignment computed by the same function must satisfy every constraint "
        "identically, and each returned value must equal its wire. Iterating gadgets are instantiated at fixed small lengths.")
ASSUME = ["iterating gadgets are decided at small fixed lengths; the driver honours its gate and constraint calls (property C05)"]
FLOOR = 40
P = "ragu_primitives::"

#: path suffix -> (equations, outputs). pN: parameter N (wire implied), uN: a wire the prover chooses.
SPECS = {
    "boolean::Boolean::alloc": (["u1*u1-u1"], {"": "u1"}),
    "boolean::Boolean::not": ([], {"": "1-p0"}),
    "boolean::Boolean::and": ([], {"": "p0*p1"}),
    "boolean::Boolean::conditional_select": ([], {"": "p1+p0*(p2-p1)"}),
    "boolean::Boolean::conditional_enforce_equal": (["p0*(p1-p2)"], {}),
    "boolean::Boolean::element": ([], {"": "p0"}),
    "boolean::is_zero": (["p0*(1-p0*u1)"], {"": "1-p0*u1"}),
    "element::Element::alloc": ([], {"": "u1"}),
    "element::Element::alloc_square": ([], {"0": "u1", "1": "u1*u1"}),
    "element::Element::one": ([], {"": "1"}),
    "element::Element::zero": ([], {"": "0"}),
    "element::Element::constant": ([], {"": "k0"}),
    "element::Element::promote": ([], {"": "r0"}),
    "element::Element::mul": ([], {"": "p0*p1"}),
    "element::Element::square": ([], {"": "p0*p0"}),
    "element::Element::enforce_zero": (["p0"], {}),
    "element::Element::negate": ([], {"": "-p0"}),
    "element::Element::add": ([], {"": "p0+p1"}),
    "element::Element::sub": ([], {"": "p0-p1"}),
    "element::Element::add_coeff": ([], {"": "p0+k2*p1"}),
    "element::Element::scale": ([], {"": "k1*p0"}),
    "element::Element::double": ([], {"": "2*p0"}),
    "element::Element::invert": (["p0*u1-1"], {"": "u1"}),
    "element::Element::invert_with": (["p0*u1-1"], {"": "u1"}),
    "element::Element::div_nonzero": (["u1*p1-p0"], {"": "u1"}),
    "element::Element::is_zero": (["p0*(1-p0*u1)"], {"": "1-p0*u1"}),
    "element::Element::is_equal": (["(p0-p1)*(1-(p0-p1)*u1)"], {"": "1-(p0-p1)*u1"}),
    "point::Point::alloc": (["u1*u1*u1+B-u2*u2"], {"x": "u1", "y": "u2"}),
    "point::Point::endo": ([], {"x": "ZETA*p0.x", "y": "p0.y"}),
    "point::Point::negate": ([], {"x": "p0.x", "y": "-p0.y"}),
    "point::Point::conditional_endo": ([], {"x": "p0.x+p1*(ZETA*p0.x-p0.x)", "y": "p0.y"}),
    "point::Point::conditional_negate": ([], {"x": "p0.x", "y": "p0.y-2*p1*p0.y"}),
    "point::Point::double": (["u1*2*p0.y-3*p0.x*p0.x"], {"x": "u1*u1-2*p0.x", "y": "u1*(p0.x-(u1*u1-2*p0.x))-p0.y"}),
    "point::Point::double_and_add_incomplete": (
        ["u1*(p1.x-p0.x)-(p1.y-p0.y)", "u2*(p0.x-(u1*u1-p0.x-p1.x))-2*p0.y"],
        {"x": "(u2-u1)*(u2-u1)-(u1*u1-p0.x-p1.x)-p0.x",
         "y": "(u2-u1)*(p0.x-((u2-u1)*(u2-u1)-(u1*u1-p0.x-p1.x)-p0.x))-p0.y"}),
}
#: These constrain what they are given; whether it satisfies them is the caller's affair.
ENFORCING = {"boolean::Boolean::conditional_enforce_equal", "element::Element::enforce_zero", "element::Element::invert_with",
             "element::Element::promote", "element::Element::enforce_root_of_unity"}
ADD = (["u1*(p1.x-p0.x)-(p1.y-p0.y)"], {"x": "u1*u1-p0.x-p1.x", "y": "u1*(p0.x-(u1*u1-p0.x-p1.x))-p0.y"})


def param(name):
    parts = name.split(".")
    t = T("param", parts[0])
    for p in parts[1:]:
        t = T("field", t, p)
    return t


def parse(text):
    """A polynomial over p (input wires), r (raw wires), k (constants), u (internal wires)."""
    env = {}

    def sub(m):
        tok = m[0]
        if tok[0] == "p":
            v = Poly.atom(("w", T("field", param(tok), "wire")))
        elif tok[0] == "r":
            v = Poly.atom(("w", param("p" + tok[1:])))
        elif tok[0] == "k":
            v = Poly.atom(("v", param("p" + tok[1:])))
        elif tok[0] == "u":
            v = Poly.atom(("g", "spec", int(tok[1:])))
        elif tok == "B":
            v = Poly.atom("B")
        else:
            v = Poly.atom(("c", tok))
        n = f"_{len(env)}"
        env[n] = v
        return n

    t = re.sub(r"[pkru]\d+(?:\.\w+)*|[A-Z]\w*", sub, text)
    t = re.sub(r"(?<![\w.])(\d+)(?!\w)", r"C(\1)", t)
    return eval(t, {"C": Poly.const, **env}) if t != "C(0)" else Poly()


def norm(p):
    """Curve constant and coefficient atoms in the spelling of the specification."""
    mp = {}
    for a in p.atoms():
        if isinstance(a, tuple) and a[0] in ("k", "v", "c") and not isinstance(a[1], str) and a[1].op == "call" and a[1].args[0].endswith("CurveAffine::b"):
            mp[a] = "B"
    return p.rename(mp)


def same_up_to_sign(a, b):
    return a == b or a == -b


def matches(eqs, outs, seqs, souts):
    """Whether the system equals the specified one under some naming of the internal wires."""
    if set(outs) != set(souts) or len(eqs) != len(seqs):
        return False
    fr = sorted({a for p in list(eqs) + list(outs.values()) for a in p.atoms() if isinstance(a, tuple) and a[0] == "g"}, key=repr)
    sf = sorted({a for p in list(seqs) + list(souts.values()) for a in p.atoms() if isinstance(a, tuple) and a[0] == "g"}, key=repr)
    if len(fr) != len(sf) or len(fr) > 6:
        return False
    for perm in itertools.permutations(sf):
        for signs in itertools.product((1, -1), repeat=len(fr)) if len(fr) <= 3 else [(1,) * len(fr)]:
            def mv(p):
                q = p.rename({a: ("m", b) for a, b in zip(fr, perm)})
                for b, s in zip(perm, signs):
                    q = q.subst(("m", b), Poly.atom(b).scale(s))
                return q

            if any(mv(outs[k]) != souts[k] for k in outs):
                continue
            left = [mv(e) for e in eqs]
            for s in seqs:
                i = next((i for i, e in enumerate(left) if same_up_to_sign(e, s)), None)
                if i is None:
                    break
                left.pop(i)
            else:
                return True
    return False


def system(rep, fn, args, extra_hooks=None, tsub=None):
    h = {**std_hooks(), **cs.hooks(), **(extra_hooks or {})}
    fl, nodes, v = rep.flow(fn, hooks=h, args=args, tsub=tsub)
    if v is NEVER:
        raise cs.Unknown("never returns")
    ex = cs.Extract(list(flat(nodes)))
    return fl, nodes, unresult(v), ex


def bool_params(fn):
    return {i for i, t in enumerate([t for p, t in zip(fn.body["params"], fn.ins)])}


def linker(bools):
    """The value of an input wire: the `value` beside it; a truth value for Booleans."""

    def link(t):
        if t.op == "field" and t.args[1] == "wire":
            owner = t.args[0]
            v = T("unmaybe", T("field", owner, "value"))
            return T("b2f", v) if owner in bools else v
        return T("unmaybe", t)

    return link


def truth_owner(adt):
    return adt.endswith("boolean::Boolean")


def boolean_params(fn, args):
    out = set()
    i = 0
    for p, ty in zip(fn.body["params"], fn.ins):
        if p is None or p["k"] != "bind" or p["name"] not in args:
            continue
        if "boolean::Boolean" in (ty.adt or "") or "boolean::Boolean" in ty.peeled.split("<")[0]:
            out.add(args[p["name"]])
    return out


def value_term(v, adt):
    v = T("unmaybe", v) if v.op != "maybe" else v.args[0]
    return T("b2f", v) if truth_owner(adt) else v


def verify(rep, key, fn, ex, result, spec, bools, line=None):
    where = fn.where
    outs = {p: ex.wire(w) for p, w, _, _ in wires(result)} if result is not UNIT_ else {}
    for p in spec[1]:
        if p not in outs:
            t = result
            for x in p.split(".") if p else ():
                t = FLD.field(t, x)
            outs[p] = ex.wire(FLD.field(t, "wire"))
    eqs, o = ex.canonical(outs)
    eqs = [norm(e) for e in eqs]
    o = {k: norm(v) for k, v in o.items()}
    seqs, souts = [parse(e) for e in spec[0]], {k: parse(v) for k, v in spec[1].items()}
    seqs = [e.subst("ONE", Poly.const(1)) for e in seqs]
    rep.check(matches(eqs, o, seqs, souts), f"{key}/relation", where,
              f"{fn.path} imposes {eqs} with outputs {o}; its defining relation is {spec[0]} with outputs {spec[1]}")
    if not any(key == e or key.startswith(e + "/") for e in ENFORCING):
        assigned(rep, key, fn, ex, result, bools)


def assigned(rep, key, fn, ex, result, bools):
    ov = [(p or "result", ex.wire(w), value_term(v, a)) for p, w, v, a in wires(result) if v is not None]
    bad = list(ex.checks(linker(bools), ov))
    rep.check(not bad, f"{key}/assignment", fn.where,
              f"{fn.path}: its own assignment does not satisfy " + "; ".join(f"{d}{' of ' + e.path.split('::')[-1] + ' at ' + e.where if e else ''}: residue {r}" for e, d, r in bad[:3]))


FLD = Flow(None)
UNIT_ = T("tuple")


def simple(rep):
    for suf, spec in SPECS.items():
        fn = rep.need(P + suf, public=not suf.endswith("boolean::is_zero"))
        if fn is None:
            continue
        args = canon_args(fn, rep.prog)
        try:
            fl, nodes, v, ex = system(rep, fn, args)
            if any(n.kind == "loop" for n in flat(nodes)):
                raise cs.Unknown("an unexpected loop")
            verify(rep, suf, fn, ex, v, spec, boolean_params(fn, args))
        except cs.Unknown as e:
            rep.undecided(suf, f"not modelled: {e}")


def add_incomplete(rep):
    fn = rep.need(P + "point::Point::add_incomplete")
    if fn is None:
        return
    args = canon_args(fn, rep.prog)
    names = {t.args[0]: n for n, t in args.items()}
    nz = names["p2"]
    a = dict(args)
    a[nz] = T("adt", "core::option::Option", "None", ())
    fl, nodes, v, ex = system(rep, fn, a)
    verify(rep, "point::Point::add_incomplete/none", fn, ex, v, ADD, set())
    # with an accumulator: it is multiplied by the difference of the abscissae
    h = {**std_hooks(), **cs.hooks()}
    fl = Flow(rep.prog, hooks=h)
    a[nz] = T("adt", "core::option::Option", "Some", (("0", T("ref", "acc:*acc", ())),))
    fl.seed = {"acc:*acc": T("param", "p2")}
    nodes, v = fl.run(fn, args=a)
    ex = cs.Extract(list(flat(nodes)))
    acc = fl.env["acc:*acc"]
    v = unresult(v)
    spec = (ADD[0], {**{"0." + k: s for k, s in ADD[1].items()}, "1": "p2*(p1.x-p0.x)"})
    both = T("tuple", v, acc)
    verify(rep, "point::Point::add_incomplete/some", fn, ex, both, spec, set())


def constant_point(rep):
    fn = rep.need(P + "point::Point::constant")
    if fn is None:
        return
    fl, nodes, v, ex = system(rep, fn, canon_args(fn, rep.prog))
    assigned(rep, "point::Point::constant", fn, ex, v, set())
    for p, w, _, _ in wires(v):
        f = ex.wire(w)
        rep.check(len(f.m) == 1 and all(len(k) == 2 and any(a == "ONE" for a, _ in k) for k in f.m), f"point::Point::constant/{p}", fn.where, f"coordinate {p} of a constant point is {f}, not a multiple of the constant wire")
        names = [a[1] for a in f.atoms() if a != "ONE"]
        ok = len(names) == 1 and re.search(rf"\b{p}\(", str(names[0])) is not None
        rep.check(ok, f"point::Point::constant/{p}/coordinate", fn.where, f"coordinate {p} of a constant point is taken from {names}")


def iterated(rep):
    """Iterating gadgets at fixed lengths."""
    el = lambda i: T("param", f"e{i}")  # noqa: E731
    E_ = lambda i: f"e{i}"  # noqa: E731

    def put(text):
        return text

    def inst(suf, n, args, spec, key, extra=None, bools=()):
        fn = rep.need(P + suf)
        if fn is None:
            return
        base = canon_args(fn, rep.prog)
        names = {t.args[0]: k for k, t in base.items()}
        a = dict(base)
        for k, v in args.items():
            a[names[k]] = v
        try:
            fl, nodes, v, ex = system(rep, fn, a, extra)
            if any(x.kind == "loop" for x in flat(nodes)):
                raise cs.Unknown("a loop whose length is not that of its input")
            eqs, souts = spec
            verify(rep, key, fn, ex, v, (eqs, souts), set(bools) | boolean_params(fn, a))
        except cs.Unknown as e:
            rep.undecided(key, f"not modelled: {e}")

    seq = lambda n: T("seq", *[T("param", f"p{10 + i}") for i in range(n)])  # noqa: E731
    for n in range(0, 5):
        e = [f"p{10 + i}" for i in range(n)]
        acc = "0"
        for i, x in enumerate(e):
            acc = x if i == 0 else f"({acc})*p1+{x}"
        inst("element::Element::fold", n, {"p0": seq(n)}, ([], {"": acc}), f"element::Element::fold/{n}")
        inst("element::Element::sum", n, {"p0": seq(n)}, ([], {"": "+".join(e) or "0"}), f"element::Element::sum/{n}")
        inst("element::Element::enforce_root_of_unity", n, {"p1": lit(n)}, (["*".join(["p0"] * (1 << n)) + "-1"], {}), f"element::Element::enforce_root_of_unity/{n}")
        ks = T("seq", *[T("param", f"p{20 + i}") for i in range(n)])
        inst("element::multiadd", n, {"p0": seq(n), "p1": ks}, ([], {"": "+".join(f"k{20 + i}*{x}" for i, x in enumerate(e)) or "0"}), f"element::multiadd/{n}")
        bl = [T("param", f"p{10 + i}") for i in range(n)]
        outs = {}
        for c in range(0, n, 3):
            outs[str(c // 3)] = "+".join(f"{1 << j}*p{10 + c + j}" for j in range(min(3, n - c)))
        inst("boolean::multipack", n, {"p0": T("seq", *bl)}, ([], outs), f"boolean::multipack/{n}", {"const:CAPACITY": lit(3)}, bl)


def enforce_consistent(rep):
    for head, spec in (("boolean::Boolean", (["p0*p0-p0"], {})), ("point::Point", (["p0.x*p0.x*p0.x+B-p0.y*p0.y"], {}))):
        path = f"<{P}{head} as {P}consistent::Consistent>::enforce_consistent"
        fn = rep.need(path)
        if fn is None:
            continue
        fl, nodes, v, ex = system(rep, fn, canon_args(fn, rep.prog))
        eqs, _ = ex.canonical({})
        eqs = [norm(e) for e in eqs]
        rep.check(matches(eqs, {}, [parse(e) for e in spec[0]], {}), f"{head}/consistent", fn.where,
                  f"{path} enforces {eqs} on the gadget's wires; a consistent gadget satisfies {spec[0]}")


ENDO = P + "endoscalar::"
N = 4


def endo_self(n=N):
    return T("adt", ENDO + "Endoscalar", "Endoscalar", (("bits", T("seq", *[T("param", f"p{10 + i}") for i in range(n)])), ("value", T("param", "pv"))))


def strip(t):
    while t.op == "into":
        t = t.args[-1]
    return t


def bit_index(t, word):
    """i when the term tests bit i of the word, else None; (i, negated)."""
    if t.op == "un" and t.args[0] == "Not":
        r = bit_index(t.args[1], word)
        return None if r is None else (r[0], not r[1])
    if t.op != "bin" or t.args[0] not in ("Eq", "Ne"):
        return None
    a, b = strip(t.args[1]), strip(t.args[2])
    if a.op == "lit":
        a, b = b, a
    if a.op != "bin" or a.args[0] != "BitAnd" or b.op != "lit":
        return None
    x, m = strip(a.args[1]), strip(a.args[2])
    if x.op == "lit":
        x, m = m, x
    if m.op == "bin" and m.args[0] == "Shl" and strip(m.args[1]) is lit(1) and strip(m.args[2]).op == "lit":
        m = lit(1 << int(strip(m.args[2]).args[0]))
    if m.op != "lit" or not m.args[0].isdigit():
        return None
    mv = int(m.args[0])
    if mv == 0 or mv & (mv - 1):
        return None
    sh = 0
    while x.op == "bin" and x.args[0] == "Shr" and strip(x.args[2]).op == "lit":
        sh += int(strip(x.args[2]).args[0])
        x = strip(x.args[1])
    if word is not None and x is not word:
        return None
    c = int(b.args[0])
    if c not in (0, mv):
        return None
    set_ = (t.args[0] == "Eq") == (c == mv)
    return sh + mv.bit_length() - 1, not set_


def lift_poly():
    """(((2(Z+1))·2 + t_0)·2 + t_1) .. with t_i = (1-2n_i)(1+(Z-1)e_i)."""
    z, one, two = Poly.atom(("c", "ZETA")), Poly.const(1), Poly.const(2)
    acc = two * (z + one)
    for i in range(N // 2):
        n, e = Poly.atom(("bit", 2 * i)), Poly.atom(("bit", 2 * i + 1))
        acc = two * acc + (one - two * n) * (one + (z - one) * e)
    return acc


def bits_of(p, mp):
    return p.rename(mp)


def endoscalar(rep):
    hk = {**std_hooks(), **cs.hooks(), "const:BITS": lit(N)}
    want = lift_poly()
    # allocation: bit i of the word is the i-th constrained Boolean
    fn = rep.need(ENDO + "Endoscalar::alloc")
    if fn:
        args = canon_args(fn, rep.prog)
        fl, nodes, v, ex = system(rep, fn, args, {"const:BITS": lit(N)})
        outs = {p: ex.wire(w) for p, w, _, _ in wires(v)}
        eqs, o = ex.canonical(outs)
        spec = ([f"u{i}*u{i}-u{i}" for i in range(N)], {f"bits.{i}": f"u{i}" for i in range(N)})
        rep.check(matches(eqs, o, [parse(e) for e in spec[0]], {k: parse(x) for k, x in spec[1].items()}), "Endoscalar::alloc/relation", fn.where,
                  f"an endoscalar's bits are constrained by {eqs} and exposed as {o}")
        for p, w, val, _ in wires(v):
            i = int(p.split(".")[-1])
            got = bit_index(val.args[0], None) if val is not None and val.op == "maybe" else None
            rep.check(got == (i, False), f"Endoscalar::alloc/bit{i}", fn.where, f"bit {i} of an endoscalar is assigned {show(val, 6) if val is not None else None}")
    # the bits come out in the same order, each with its own value
    fn = rep.need(ENDO + "Endoscalar::bits")
    if fn:
        args = canon_args(fn, rep.prog)
        args["self"] = endo_self()
        fl, nodes, v = rep.flow(fn, hooks=hk, args=args)
        items = []
        while True:
            r = fl.next_of(v)
            if r is None or r[0] is None or len(items) > N:
                break
            items.append(fl.deref_all(r[0]))
            v = r[1]
        rep.check(len(items) == N, "Endoscalar::bits/count", fn.where, f"{len(items)} of {N} bits are yielded")
        for i, it in enumerate(items):
            val = fl.field(it, "value")
            got = bit_index(val.args[0], None) if val.op == "maybe" else None
            root = it
            while root.op == "with":
                root = root.args[0]
            rep.check(root is T("param", f"p{10 + i}") and (got == (i, False)), f"Endoscalar::bits/{i}", fn.where,
                      f"the {i}-th bit yielded is the wire of {show(root)} with value {show(val, 6)}")
    # extraction
    fn = rep.need(ENDO + "Endoscalar::extract")
    if fn:
        for n in (1, 2):
            args = canon_args(fn, rep.prog)
            fl, nodes, v, ex = system(rep, fn, args, {"const:BITS": lit(n)})
            outs = {p: ex.wire(w) for p, w, _, _ in wires(v)}
            eqs, o = ex.canonical(outs)
            g = "MULTIPLICATIVE_GENERATOR"
            seqs, souts = [], {}
            for i in range(n):
                b, r = f"u{2 * i + 1}", f"u{2 * i + 2}"
                seqs += [f"{b}*{b}-{b}", f"{r}*{r}-({b}*(p0+{i})+(1-{b})*{g}*(p0+{i}))"]
                souts[f"bits.{i}"] = b
            rep.check(matches(eqs, o, [parse(e) for e in seqs], {k: parse(x) for k, x in souts.items()}), f"Endoscalar::extract/relation/{n}", fn.where,
                      f"extraction of {n} bits imposes {eqs}; each bit must decide whether element+i, or its product with the generator, is a square")
            # the returned word holds the bits in place: every way of choosing them is spelled out
            bs = [w for w in wires(v)]
            word = fl.field(v, "value")
            ok = word_is(fl, word, [b[2] for b in bs])
            rep.check(ok, f"Endoscalar::extract/value/{n}", fn.where, f"the extracted word is {show(word, 7)}, not the sum of its bits")
    # lift, group_scale and the native lift agree
    fn = rep.need(ENDO + "Endoscalar::lift")
    wmap = {("w", T("field", T("param", f"p{10 + i}"), "wire")): ("bit", i) for i in range(N)}
    if fn:
        args = canon_args(fn, rep.prog)
        args["self"] = endo_self()
        fl, nodes, v, ex = system(rep, fn, args, {"const:BITS": lit(N)})
        eqs, o = ex.canonical({p: ex.wire(w) for p, w, _, _ in wires(v)})
        got = list(o.values())
        rep.check(not eqs and len(got) == 1 and bits_of(got[0], wmap) == want, "Endoscalar::lift", fn.where, f"lift computes {[bits_of(g, wmap) for g in got]} (constraining {eqs}) instead of {want}")
    fn = rep.need(ENDO + "Endoscalar::group_scale")
    if fn:
        pt = P + "point::Point::"
        args = canon_args(fn, rep.prog)
        args["self"] = endo_self()
        names = {t.args[0]: k for k, t in args.items() if t.op == "param"}
        fl = Flow(rep.prog, hooks=hk, opaque=lambda p: p.startswith(pt))
        nodes, v = fl.run(fn, args=args)
        rep.seen(fn)
        evs = {n.ev.id: n.ev for n in flat(nodes) if n.kind == "ev" and n.ev.id}

        def point(t):
            t = unresult(t)
            if t.op == "try":
                return point(t.args[0])
            if t.op == "ev":
                e = evs[t.args[0]]
                a = [x for x in e.args if x.op != "dr"]
                z, one = Poly.atom(("c", "ZETA")), Poly.const(1)
                bit = lambda x: Poly.atom(("bit", bits.index(root(x))))  # noqa: E731
                m = e.name
                if m == "endo":
                    return z * point(a[0])
                if m == "negate":
                    return -point(a[0])
                if m == "double":
                    return point(a[0]).scale(2)
                if m == "add_incomplete":
                    return point(a[0]) + point(a[1])
                if m == "double_and_add_incomplete":
                    return point(a[0]).scale(2) + point(a[1])
                if m == "conditional_negate":
                    return (one - bit(a[1]).scale(2)) * point(a[0])
                if m == "conditional_endo":
                    return (one + bit(a[1]) * (z - one)) * point(a[0])
                raise cs.Unknown(m)
            if t.op == "param":
                return Poly.const(1)
            raise cs.Unknown(show(t))

        def root(x):
            while x.op == "with":
                x = x.args[0]
            return x

        bits = [T("param", f"p{10 + i}") for i in range(N)]
        got = point(v)
        rep.check(got == want, "Endoscalar::group_scale", fn.where, f"group_scale multiplies by {got} instead of {want}")
    fn = rep.need(ENDO + "lift_endoscalar")
    if fn:
        fl, nodes, v = rep.flow(fn, hooks=hk, args=canon_args(fn, rep.prog))
        r = cs.value(v)
        mp, bad = {}, []
        for a in r.n.atoms():
            if isinstance(a, tuple) and a[0] == "b":
                b = bit_index(a[1], T("param", "p0"))
                if b is None:
                    bad.append(a[1])
                else:
                    mp[a] = b
        got = r.n
        for a, (i, negated) in mp.items():
            x = Poly.atom(("bit", i))
            got = got.subst(a, Poly.const(1) - x if negated else x)
        got = idem(got)
        rep.check(not bad and got == want, "lift_endoscalar", fn.where, f"the native lift computes {got} instead of {want}")
    fn = rep.need(ENDO + "extract_endoscalar")
    if fn:
        fl, nodes, v = rep.flow(fn, opaque=lambda p: p.endswith("Endoscalar::extract") or p.endswith("::emulate_wireless"), hooks=hk, args=canon_args(fn, rep.prog))
        names = [n.ev.path for n in flat(nodes) if n.kind == "ev"]
        rep.check(any(n.endswith("Endoscalar::extract") for n in names), "extract_endoscalar", fn.where, "the native extraction does not run the circuit's extraction")


def idem(p):
    m = {}
    for k, v in p.m.items():
        kk = tuple(sorted(((a, 1 if isinstance(a, tuple) and a[0] == "bit" else e) for a, e in k), key=repr))
        m[kk] = m.get(kk, 0) + v
    return Poly(m)


def word_is(fl, word, vals):
    """Whether a word is the sum of 2^i over the set bits, for every choice of the bits."""

    def tr(v):
        return v.args[0] if v.op == "maybe" else T("unmaybe", v)

    conds = [tr(v) for v in vals]

    def run(t, env):
        t = strip(t)
        if t.op in ("maybe", "unmaybe"):
            return run(t.args[0], env)
        if t.op == "lit":
            return int(t.args[0])
        if t.op == "ite":
            c = t.args[0]
            if c not in env:
                raise cs.Unknown("a word that depends on something else")
            return run(t.args[1] if env[c] else t.args[2], env)
        if t.op == "bin" and t.args[0] in ("BitOr", "Shl", "Add"):
            a, b = run(t.args[1], env), run(t.args[2], env)
            return a | b if t.args[0] == "BitOr" else a << b if t.args[0] == "Shl" else a + b
        raise cs.Unknown(show(t))

    for choice in itertools.product((True, False), repeat=len(conds)):
        if run(word, dict(zip(conds, choice))) != sum(1 << i for i, c in enumerate(choice) if c):
            return False
    return True


PARTS = {"simple": simple, "add_incomplete": add_incomplete, "constant": constant_point, "iterated": iterated, "consistent": enforce_consistent, "endoscalar": endoscalar}
