"""Coefficient arithmetic and linear-expression accumulators denote the field values they stand for."""
import cs
from alg import Poly, Rat
from q import *

LEVEL = "other"
RULE = ("Every pair of coefficient variants is pushed through the value numbering of addition, multiplication, evaluation and the "
        "zero test, and the resulting variant must denote the sum, product, value or zero test of what the operands denote (as "
        "polynomials over opaque payloads). Every linear-expression accumulator is started empty and given a term, a gain change, "
        "another gain change and a further term with every combination of variants: it must denote exactly the sum of "
        "coefficient times accumulated gain times wire; add, sub and extend must equal the corresponding terms.")
ASSUME = ["field operations of the ff traits obey the field laws"]
FLOOR = 150
CO = "ragu_arithmetic::coeff::Coeff"
LE = "ragu_core::drivers::linexp::LinearExpression"
VARS = {"Zero": 0, "One": 1, "Two": 2, "NegativeOne": -1, "Arbitrary": None, "NegativeArbitrary": None}


def variant(v, name):
    if VARS[v] is None:
        return T("adt", CO, v, (("0", T("param", name)),))
    return T("adt", CO, v, ())


def denotes(v, name):
    if VARS[v] is None:
        p = Poly.atom(("v", T("param", name)))
        return p if v == "Arbitrary" else -p
    return Poly.const(VARS[v])


def rat(p):
    return Rat(p)


def coeffs(rep):
    sc = Scene(rep)
    adt = rep.prog.adts.get(CO)
    if not adt:
        rep.need(CO)
        return
    extra = [x["name"] for x in adt["variants"] if x["name"] not in VARS]
    if extra:
        rep.undecided("variants", f"unknown coefficient variants {extra}")
    for v in VARS:
        f = rep.need(CO + "::value")
        if f:
            r = sc.call(f, variant(v, "a"))
            same_value(rep, r, rat(denotes(v, "a")), f"value/{v}", f.where, f"Coeff::{v} evaluates to {r!r}")
        f = rep.need(CO + "::is_zero")
        if f:
            r = sc.call(f, variant(v, "a"))
            want = {"Zero": TRUE}.get(v, FALSE)
            if VARS[v] is None:
                ok = any(x.op == "call" and x.args[0].endswith("is_zero") and T("param", "a") in subterms(x.args[1]) for x in subterms(r)) or \
                    (r.op == "bin" and r.args[0] == "Eq" and T("param", "a") in r.args)
                ok = ok and not any(x.op == "un" and x.args[0] == "Not" for x in subterms(r))
                ok = ok or any(x.op == "call" and not x.args[0].endswith("is_zero") for x in subterms(r))
            else:
                ok = r is want
            rep.check(ok, f"is_zero/{v}", f.where, f"Coeff::{v}.is_zero() is {r!r}")
    for op, tr in (("mul", "core::ops::Mul"), ("add", "core::ops::Add")):
        f = rep.need(f"<{CO} as {tr}>::{op}")
        if not f:
            continue
        for a in VARS:
            for b in VARS:
                r = sc.call(f, variant(a, "a"), variant(b, "b"))
                want = denotes(a, "a") * denotes(b, "b") if op == "mul" else denotes(a, "a") + denotes(b, "b")
                same_value(rep, r, rat(want), f"{op}/{a}/{b}", f.where, f"Coeff::{a} {op} Coeff::{b} is {r!r}")
    f = rep.need(f"<{CO} as core::convert::From>::from")
    if f:
        r = sc.call(f, T("param", "a"))
        same_value(rep, r, rat(denotes("Arbitrary", "a")), "from", f.where, f"Coeff::from(a) is {r!r}")


def le_impls(rep):
    return impl_fn(rep.prog, LE, "add_term")


def sums(rep):
    """Accumulators that hold a field value."""
    for head, start, wirev in (
        ("ragu_core::drivers::linexp::DirectSum", "<ragu_core::drivers::linexp::DirectSum as core::default::Default>::default", False),
        ("ragu_circuits::s::common::WireEvalSum", "ragu_circuits::s::common::WireEvalSum::new", True),
    ):
        at = rep.need(f"<{head} as {LE}>::add_term", public=not wirev)
        ga = rep.need(f"<{head} as {LE}>::gain", public=not wirev)
        st = rep.need(start, public=not wirev)
        if not (at and ga and st):
            continue
        we = "ragu_circuits::s::common::WireEval"
        val = rep.prog.fn(head + "::value")
        for wname in ("Value", "One") if wirev else ("",):
            def wire(n):
                if not wirev:
                    return T("param", n)
                return T("adt", we, "Value", (("0", T("param", n)),)) if wname == "Value" or n == "w2" else T("adt", we, "One", ())
            for c in VARS:
                for g in VARS:
                    sc = Scene(rep)
                    s = sc.call(st, *([T("param", "one")] if wirev else []))
                    s = sc.call(at, s, wire("w1"), variant(c, "c"))
                    s1 = s
                    s = sc.call(ga, s, variant(g, "g"))
                    s = sc.call(ga, s, variant(c, "h"))
                    s = sc.call(at, s, wire("w1"), variant(g, "d"))
                    s = sc.call(at, s, wire("w2"), variant(c, "e"))
                    w1 = Poly.atom(("v", T("param", "one" if wirev and wname == "One" else "w1")))
                    w2 = Poly.atom(("v", T("param", "w2")))
                    gain = denotes(g, "g") * denotes(c, "h")
                    want = denotes(c, "c") * w1 + gain * (denotes(g, "d") * w1 + denotes(c, "e") * w2)
                    key = f"{head.split('::')[-1]}/{wname}/{c}/{g}"
                    if val is not None:
                        got = [sc.call(val, s)]
                    elif s.op == "adt":
                        got = [x for _, x in s.args[2]]
                    else:
                        got = []
                    got = [cs.value(x) for x in got if x is not NEVER]
                    if not got:
                        rep.undecided(key, f"the accumulator {s!r} is not understood")
                        continue
                    hit = [x for x in got if (x - rat(want)).zero()]
                    if not hit:
                        hit = [x for x in got if strange(x)] or got
                    same_value(rep, hit[0], rat(want), key, at.where,
                               f"{head}: c·w1, gains g and h, d·w1, e·w2 with c,h,e={c} and g,d={g} accumulates {s!r}")


def collectors(rep):
    """Accumulators that record terms, or pass them on."""
    for f in le_impls(rep):
        head = f.path.split(" as ")[0].lstrip("<")
        if head.split("::")[-1] in ("DirectSum", "WireEvalSum"):
            continue
        ga = rep.prog.fn(f"<{head} as {LE}>::gain")
        if ga is None:
            continue
        rep.seen(f, ga)
        key = head.split("::")[-1]
        if head == "()":
            sc = Scene(rep)
            rep.check(sc.call(f, UNIT, T("param", "w"), T("param", "c")) is UNIT and sc.call(ga, UNIT, T("param", "c")) is UNIT, f"{key}/unit", f.where, "the trivial expression is not trivial")
            continue
        if key == "TermCollector":
            new = rep.need(head + "::new", public=False)
            if not new:
                continue
            for c in VARS:
                for g in VARS:
                    sc = Scene(rep, hooks={"ragu_circuits::s::sy::Wire::increment_refcount": lambda fl, e, fr, p, a: UNIT})
                    s = sc.call(new)
                    s = sc.call(f, s, T("param", "w1"), variant(c, "c"))
                    s = sc.call(ga, s, variant(g, "g"))
                    s = sc.call(ga, s, variant(c, "h"))
                    s = sc.call(f, s, T("param", "w2"), variant(g, "d"))
                    seqs = [x for _, x in s.args[2] if x.op == "seq"] if s.op == "adt" else []
                    ok = len(seqs) == 1 and len(seqs[0].args) == 2
                    if ok:
                        t1, t2 = seqs[0].args
                        w = [denotes(c, "c"), denotes(g, "g") * denotes(c, "h") * denotes(g, "d")]
                        for t, p, want in ((t1, "w1", w[0]), (t2, "w2", w[1])):
                            ok = ok and t.op == "tuple" and len(t.args) == 2 and (cs.value(t.args[1]) - rat(want)).zero()
                            ok = ok and T("param", p) in subterms(t.args[0])
                    rep.check(ok, f"{key}/{c}/{g}", f.where, f"{head}: two terms under gains are recorded as {s!r}")
            continue
        if key == "TermEnforcer":
            seen = []

            def add(fl, e, fr, p, a):
                seen.append((fl.deref_all(fl.val(a[1])), fl.deref_all(fl.val(a[2]))))
                return UNIT

            for c in VARS:
                for g in VARS:
                    seen.clear()
                    sc = Scene(rep, hooks={"ragu_circuits::s::sy::VirtualTable::add": add})
                    fields = rep.prog.adts[head]["variants"][0]["fields"]
                    y = T("adt", CO, "Arbitrary", (("0", T("param", "y")),))
                    s = T("adt", head, head.split("::")[-1], tuple(sorted((x["name"], y if x["ty"].adt == CO else T("param", "table")) for x in fields)))
                    s = sc.call(f, s, T("param", "w1"), variant(c, "c"))
                    s = sc.call(ga, s, variant(g, "g"))
                    s = sc.call(ga, s, variant(c, "h"))
                    s = sc.call(f, s, T("param", "w2"), variant(g, "d"))
                    Y = Poly.atom(("v", T("param", "y")))
                    w = [denotes(c, "c") * Y, denotes(g, "g") * denotes(c, "h") * denotes(g, "d") * Y]
                    ok = len(seen) == 2
                    if ok:
                        for (i, co), p, want in zip(seen, ("w1", "w2"), w):
                            ok = ok and T("param", p) in subterms(i) and (cs.value(co) - rat(want)).zero()
                    elif not seen:
                        rep.undecided(f"{key}/{c}/{g}", "the terms are not accumulated through the table's add")
                        continue
                    rep.check(ok, f"{key}/{c}/{g}", f.where, f"{head}: two terms under gains and a factor y add {seen}")


def defaults(rep):
    """add, sub and extend, wherever they come from."""
    for name, co in (("add", "One"), ("sub", "NegativeOne")):
        for f in [x for x in rep.prog.all_fns() if x.trait == LE and x.name == name]:
            head = f.path.split(" as ")[0].lstrip("<")
            at = rep.prog.fn(f"<{head} as {LE}>::add_term") if not f.provided else None
            sc = Scene(rep)
            r = sc.call(f, T("param", "s"), T("param", "w"))
            rep.seen(f)
            if at is not None:
                w = sc.call(at, T("param", "s"), T("param", "w"), variant(co, ""))
            else:
                w = T("call", f"{LE}::add_term", T("param", "s"), T("param", "w"), variant(co, ""))
            ok = r is w or (r.op == "call" and r.args[0].endswith("add_term") and r.args[1:] == w.args[1:] if w.op == "call" else False)
            rep.check(ok, f"{'default' if f.provided else head}/{name}", f.where, f"{f.path}(w) is {r!r}, not the term with coefficient {co}")
    for f in [x for x in rep.prog.all_fns() if x.trait == LE and x.name == "extend"]:
        sc = Scene(rep)
        items = T("seq", T("tuple", T("param", "w1"), T("param", "c1")), T("tuple", T("param", "w2"), T("param", "c2")))
        r = sc.call(f, T("param", "s"), items)
        head = f.path.split(" as ")[0].lstrip("<")
        at = rep.prog.fn(f"<{head} as {LE}>::add_term") if not f.provided else None
        w = T("param", "s")
        for i in "12":
            a = (w, T("param", "w" + i), T("param", "c" + i))
            w = sc.call(at, *a) if at is not None else T("call", f"{LE}::add_term", *a)
        rep.check(r is w, f"{'default' if f.provided else head}/extend", f.where, f"{f.path}([(w1, c1), (w2, c2)]) is {r!r}, not the terms one after the other")


PARTS = {"coefficients": coeffs, "sums": sums, "collectors": collectors, "defaults": defaults}
