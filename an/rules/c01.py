"""Present witness values are transparent; absent ones never run the code that would produce them."""
import errs
from q import *

LEVEL = "other"
RULE = ("Value numbering of every operation of the two witness-value representations over an opaque value and opaque closures: the "
        "present one must apply the given closure exactly once to exactly the held value and hold exactly its result, the absent one "
        "must contain no application of a closure and yield the absent value; reading an absent value must diverge. The casts of "
        "every tuple size and of arrays must put the i-th component in the i-th place. For every driver, the closures handed to its gate "
        "operations are never applied when its witness may be absent and are applied exactly once, with the error propagated, on "
        "every path of a driver whose witness is always present.")
ASSUME = []
FLOOR = 100
M = "ragu_core::maybe::"
ALW, EMP, MAYBE = M + "always::Always", M + "empty::Empty", M + "Maybe"
P = lambda n: T("param", n)
X, F0 = P("x"), P("f")
CALLS = ("core::ops::FnOnce::call_once", "core::ops::Fn::call", "core::ops::FnMut::call_mut")


def always(v):
    return T("adt", ALW, "Always", (("0", v),))


def held(t):
    """The value a present witness value holds."""
    if t.op == "maybe":
        return t.args[0]
    if t.op == "adt" and t.args[0] == ALW:
        return t.args[2][0][1]
    return None


def applied(nodes):
    return [e for e in node_events(nodes) if e.path in CALLS or e.path == "<apply>"]


def deep(nodes):
    out = []
    for n in flat(nodes):
        if n.kind == "ev":
            out.append(n.ev)
    return out


def app(*xs):
    return T("call", CALLS[0], F0, T("tuple", *xs))


def scene(rep):
    sc = Scene(rep)
    sc.rawmaybe = True
    return sc


def present(rep):
    me = {"take", "as_ref", "as_mut", "clone"}
    for name in ("just", "try_just", "take", "as_ref", "as_mut", "clone", "map", "and_then", "into", "cast"):
        f = rep.need(f"<{ALW} as {MAYBE}>::{name}")
        if f is None:
            continue
        sc = scene(rep)
        cell = sc.cell(always(X))
        args = {"just": [F0], "try_just": [F0], "map": [always(X), F0], "and_then": [always(X), F0], "as_mut": [cell], "as_ref": [always(X)]}.get(name, [always(X)])
        nodes_before = None
        r = sc.call(f, *args)
        raw = sc.raw
        ev = applied(sc.nodes)
        want = {"just": [()], "try_just": [()], "map": [(X,)], "and_then": [(X,)]}.get(name, [])
        got = [tuple(e.args[1].args) if len(e.args) > 1 and e.args[1].op == "tuple" else None for e in ev if e.args[0] is F0]
        strange_calls = [e for e in ev if e.args[0] is not F0]
        cs_ = counts(sc.nodes, lambda e: e.path in CALLS)
        rep.check(got == want and (not want or cs_ == {1}) and not strange_calls, f"present/{name}/closure", f.where,
                  f"on a present value {name} applies the closure to {got}, expected {want} on every path")
        if name == "just":
            ok = held(r) is app()
        elif name == "try_just":
            inner = unresult(r) if r.op in ("adt", "ite") else r
            ok = (held(inner) is T("try", app()) if inner is not r else False)
            if not ok and r.op == "call":  # f().map(Always)
                rep.undecided(f"present/{name}", f"{r!r} is not understood")
                continue
            ok = ok or (r.op == "ite" and held(unresult(r)) is T("try", app()))
        elif name == "map":
            ok = held(r) is app(X)
        elif name == "and_then":
            ok = r is app(X)
        elif name == "take":
            ok = r is X
        elif name in ("as_ref", "clone"):
            ok = held(r) is X
        elif name == "as_mut":
            h = held(raw)
            ok = h is not None and h.op == "ref" and h.args[0] == cell.args[0] and h.args[1] == ("0",)
        elif name == "into":
            h = held(r)
            ok = h is not None and ((h.op == "into" and h.args[1] is X) or (h.op == "call" and h.args[-1] is X and h.args[0].endswith(("Into::into", "From::from"))))
        elif name == "cast":
            ok = (r.op in ("cast",) and r.args[0] is X) or (r.op == "call" and r.args[0].endswith("MaybeCast::cast") and r.args[1] is X)
        if not ok and any(x.op in ("top",) or (x.op == "call" and x.args[0] not in CALLS) for x in subterms(r)):
            rep.undecided(f"present/{name}", f"{r!r} is not understood")
            continue
        rep.check(ok, f"present/{name}", f.where, f"on a present value x, {name} yields {r!r}")
    diverges(rep, f"<{ALW} as {M}MaybeKind>::empty", "an absent value of the present kind")


def diverges(rep, path, what):
    """No value comes out of the function: it panics, at compile time or when called."""
    f = rep.need(path)
    if f is None:
        return
    sc = scene(rep)
    r = sc.call(f)
    bad = [x for x in walk(f.body["e"]) if x["k"] == "Call" and callee(x) and any(w in str(callee(x)) for w in ("zeroed", "MaybeUninit", "transmute", "uninit", "from_raw", "dangling", "unreachable_unchecked", "read"))]
    if bad:
        rep.bad(f"diverges/{path}", f"{f.file}:{bad[0]['l']}", f"{what} is conjured up by {callee(bad[0])}")
        return
    if r is NEVER or r.op == "constblock" or any(x["k"] == "ConstBlock" for x in walk(f.body["e"])):
        rep.ok(f"diverges/{path}")
    else:
        rep.undecided(f"diverges/{path}", f"{r!r} is not understood")


def absent(rep):
    for name in ("just", "try_just", "as_ref", "as_mut", "clone", "map", "and_then", "into", "cast"):
        f = rep.need(f"<{EMP} as {MAYBE}>::{name}")
        if f is None:
            continue
        sc = scene(rep)
        r = sc.call(f)
        ev = applied(sc.nodes)
        rep.check(not ev, f"absent/{name}/closure", ev[0].where if ev else f.where, f"on an absent value {name} applies a closure")
        if name == "cast":
            ok = r.op == "call" and r.args[0].endswith("MaybeCast::empty")
        elif name == "try_just":
            ok = r.op == "adt" and r.args[1] == "Ok" and r.args[2][0][1].op == "adt" and r.args[2][0][1].args[0] == EMP
        else:
            ok = r.op == "adt" and r.args[0] == EMP or r is P("self")
        rep.check(ok, f"absent/{name}", f.where, f"on an absent value {name} yields {r!r}")
    diverges(rep, f"<{EMP} as {MAYBE}>::take", "the value of an absent witness")
    f = rep.need(f"<{EMP} as {M}MaybeKind>::empty")
    if f:
        r = scene(rep).call(f)
        rep.check(r.op == "adt" and r.args[0] == EMP, "absent/empty", f.where, f"the absent kind's empty value is {r!r}")


def defaults(rep):
    for f in rep.prog.all_fns():
        if f.provided and f.trait in (MAYBE, M + "MaybeKind", "ragu_core::drivers::Driver"):
            sc = Scene(rep)
            if f.name == "snag":
                r = sc.call(f, P("self"))
                ok = r is T("unmaybe", P("self"))
            elif f.name in ("maybe_just", "just"):
                r = sc.call(f, F0)
                ok = r.op == "maybe" and F0 in subterms(r) and r.args[0].op == "call" and r.args[0].args[1] is F0
            elif f.name in ("maybe_try_just", "try_just"):
                r = sc.call(f, F0)
                i = unresult(r)
                ok = i.op == "maybe" and i.args[0].op == "try" and i.args[0].args[0].op == "call" and i.args[0].args[0].args[1] is F0
            elif f.name == "unit":
                r = sc.call(f)
                ok = r is T("maybe", UNIT)
            else:
                continue
            rep.check(ok, f"default/{f.path}", f.where, f"the provided {f.name} yields {r!r}")
    for f in rep.prog.all_fns():
        if f.trait == MAYBE and f.name == "snag" and not f.provided:
            rep.undecided(f"snag/{f.path}", "an overridden snag is not analysed")


def subterm_op(t, ops):
    return any(x.op in ops for x in subterms(t))


def casts(rep):
    sizes = set()
    for f in rep.prog.all_fns():
        if f.trait != M + "MaybeCast" or f.name not in ("cast", "empty"):
            continue
        head = f.path.split(" as ")[0].lstrip("<")
        if head.startswith("("):
            n = len([x for x in head.strip("()").split(",") if x.strip()])
            key = f"tuple{n}"
            tsub = None
            arg = T("tuple", *[P(f"t{i}") for i in range(n)])
        elif head.startswith("["):
            key = "array"
        else:
            continue
        for n in (n,) if key != "array" else (1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 17, 33):
            tsub = None
            if key == "array":
                tsub = {"N": str(n)}
                for g in f.generics:
                    if f"; {g}]" in head:
                        tsub = {g: str(n)}
                arg = T("seq", *[P(f"t{i}") for i in range(n)])
            sc = Scene(rep)
            r = sc.call(f, *([arg] if f.name == "cast" else []), tsub=tsub)
            els = r.args if r.op in ("tuple", "seq") else ()
            full = f"{key}/{n}" if key == "array" else key
            if f.name == "cast":
                sizes.add(key)
                if r is NEVER:
                    rep.bad(f"cast/{full}", f.where, f"casting {n} components always aborts")
                    continue
                if key == "array" and (not els or any(x.op in ("each", "splice") or subterm_op(x, ("after", "call")) for x in els)):
                    rep.undecided(f"cast/{full}", f"{r!r} is not understood"[:300])
                    continue
                ok = len(els) == n and all(x is T("maybe", P(f"t{i}")) for i, x in enumerate(els))
                rep.check(ok, f"cast/{full}", f.where, f"casting {arg!r} yields {r!r}")
            else:
                ok = (len(els) == n or key == "array") and els and all(y.op == "call" and y.args[0].endswith("MaybeKind::empty") for x in els for y in (x.args[1:] if x.op == "each" else [x]))
                rep.check(bool(ok), f"empty/{full}", f.where, f"the absent {key} is {r!r}")
    for n in range(2, 33):
        rep.check(f"tuple{n}" in sizes, f"cast/tuple{n}/exists", "crates/ragu_core/src/maybe/cast.rs", f"tuples of {n} components have no cast") if not rep.prog.broken else None


def kinds(rep):
    """(owner, trait, kind type) of everything that executes gates."""
    for i in rep.prog.impls:
        if i.get("trait") in ("ragu_core::drivers::DriverTypes", "ragu_core::drivers::emulator::Mode"):
            k = [it for it in i["items"] if it.get("name") == "MaybeKind" and "ty" in it]
            yield i["self"], i["trait"], (k[0]["ty"].s if k else "?")


def drivers(rep):
    n = 0
    for owner, trait, kind in kinds(rep):
        ops = [f for f in rep.prog.all_fns() if not f.provided and f.path.startswith(f"<{owner} as ") and f.name in ("gate", "alloc", "mul")
               and f.trait in ("ragu_core::drivers::Driver", "ragu_core::drivers::DriverTypes", "ragu_core::drivers::emulator::Mode")]
        for f in ops:
            if f.broken:
                rep.undecided(f"driver/{f.path}", "the body does not type-check")
                continue
            n += 1
            fl, nodes, v = rep.flow(f, hooks={})
            params = {p["name"] for p in f.body.get("params", []) if p and p["k"] == "bind" and p["name"] != "self"}
            clo = {P(x) for x in params}
            mine = [e for e in node_events(nodes) if e.path in CALLS and e.args and e.args[0] in clo]
            if "Always<()>" in kind:
                c = counts(nodes, lambda e: e in mine)
                if v is NEVER:
                    rep.ok(f"driver/{f.path}")
                    continue
                forwarded = [e for e in node_events(nodes) if e not in mine and any(a in clo or (a.op == "lam" and any(s in clo for s in subterms(a))) for a in e.args)]
                if forwarded and not mine:
                    rep.undecided(f"driver/{f.path}", f"the closure is handed to {forwarded[0].path}")
                    continue
                rep.check(c == {1}, f"driver/{f.path}", f.where, f"{owner} always has a witness, yet {f.name} evaluates the value closure {sorted(c)} times (3 stands for many) on its paths")
                sel = lambda e: str(callee(e)) in CALLS and e["args"] and any(x["k"] == "Var" and x["v"] in pv for x in walk(e["args"][0]))
                pv = {p["v"] for p in f.body.get("params", []) if p and p["k"] == "bind" and p["name"] != "self"}
                for e, vd, why in errs.Errs(f, sel).sites():
                    if vd != "unknown":
                        rep.check(vd == "ok", f"driver/{f.path}/error", f"{f.file}:{e['l']}", f"{owner}::{f.name} drops the error of the value closure: {why}")
            else:
                rep.check(not mine, f"driver/{f.path}", mine[0].where if mine else f.where, f"the witness of {owner} may be absent ({kind}), yet {f.name} evaluates the value closure")
    rep.check(n >= 10, "drivers/enough", "-", f"only {n} gate operations of drivers were found")


PARTS = {"present": present, "absent": absent, "defaults": defaults, "casts": casts, "drivers": drivers}
