"""Every traversal of a gadget visits every one of its wires exactly once, in its place."""
from q import *

LEVEL = "other"
RULE = ("Every gadget kind of the library and of a witness crate (derived from shapes the library does not use: wires, values, skipped "
        "and phantom fields, renamed drivers, const parameters) is analysed after macro expansion. Value numbering of its map over an "
        "opaque gadget must put the conversion of each wire or gadget field in that field and clone each value; its equality must "
        "compare every wire and gadget field with its counterpart; its serialization must write every unskipped gadget field once, "
        "in declared order; its consistency check must cover every constrained field; its clone must be the identity. Containers are "
        "unrolled. The wire maps must convert each wire to what their users assume.")
ASSUME = ["Fields marked as skipped in a derived serialization are read from the witness crate only; the library marks none."]
FLOOR = 300
G = "ragu_core::gadgets::"
P = lambda n: T("param", n)
OK = lambda v: T("adt", "core::result::Result", "Ok", (("0", v),))


def conv(x):
    """The conversion of a container is that of its components."""
    if x.op in ("seq", "tuple"):
        return T(x.op, *[T("each", y.args[0], conv(y.args[1])) if y.op == "each" else conv(y) for y in x.args])
    return T("conv", x)


def hooks():
    n = len(SEQ.args)
    h = {k: v for k, v in std_hooks().items() if "FixedVec::" not in k and "FixedVec as" not in k}
    h["fold_consts"] = True
    h["len"] = lit(n)

    def mapped(i, j):
        def f(fl, e, fr, path, args):
            x = fl.deref_all(args[i])
            record(fl, e, fr, "conv", [x])
            return OK(conv(x))
        return f

    def pair(fl, e, fr, path, args):
        record(fl, e, fr, "equal", [fl.deref_all(a) for a in args if not fl_driver(fl, a)][-2:])
        return OK(T("tuple"))

    def one(kind, i):
        def f(fl, e, fr, path, args):
            record(fl, e, fr, kind, [fl.deref_all(args[i])])
            return OK(T("tuple"))
        return f

    h[G + "GadgetKind::map_gadget"] = mapped(0, 1)
    h[G + "Gadget::map"] = mapped(0, 1)
    h["ragu_core::convert::WireMap::convert_wire"] = mapped(1, 0)
    h["ragu_core::drivers::Driver::enforce_equal"] = lambda fl, e, fr, path, args: rec2(fl, e, fr, args[1], args[2])
    h[G + "GadgetKind::enforce_equal_gadget"] = lambda fl, e, fr, path, args: rec2(fl, e, fr, args[1], args[2])
    h[G + "Gadget::enforce_equal"] = lambda fl, e, fr, path, args: rec2(fl, e, fr, args[0], args[2])
    h["ragu_primitives::io::Write::write_gadget"] = one("write", 0)
    h["ragu_primitives::GadgetExt::write"] = one("write", 0)
    h["ragu_primitives::io::Buffer::write"] = one("write", 2)
    h["ragu_primitives::consistent::Consistent::enforce_consistent"] = one("consistent", 0)
    # a sequence of a known number of elements converts to an array of that number
    whole = lambda fl, e, fr, path, args: OK(args[0]) if args and args[0].op == "seq" else None
    h["core::convert::TryInto::try_into"] = whole
    h["core::convert::TryFrom::try_from"] = whole
    h["ragu_primitives::vec::Len::len"] = lambda fl, e, fr, path, args: lit(n)
    return h


def rec2(fl, e, fr, a, b):
    record(fl, e, fr, "equal", [fl.deref_all(a), fl.deref_all(b)])
    return OK(T("tuple"))


def fl_driver(fl, a):
    return False


def kind_of(ty):
    s = ty.s
    if ty.adt and ty.adt.endswith("PhantomData"):
        return "phantom"
    if s.startswith("<") and s.endswith(("::ImplWire", "::Wire")):
        return "wire"
    if "MaybeKind" in s and s.startswith("<<") and "::Rebind<" in s:
        return "value"
    return "gadget"


def proj(x, n):
    return FLOW.project(x, n)


def same(got, want):
    """Equality up to rewrapping of witness values."""
    if got is want:
        return True
    g = rewrite(got, norm)
    w = rewrite(want, norm)
    return g is w


def norm(t):
    if t.op == "maybe" and t.args[0].op == "unmaybe":
        return t.args[0].args[0]
    if t.op == "conv" and t.args[0].op == "unmaybe":
        return t.args[0].args[0]
    return t


def opaque_in(t):
    return any(x.op in ("top", "call", "ev", "ite", "phi") for x in subterms(t))


def evs(nodes, kind):
    return [n.ev for n in flat(nodes) if n.kind == "ev" and n.ev.path == kind]


def once(nodes, kind, arg):
    return counts(nodes, lambda e: e.path == kind and e.args[0] is arg)


SEQ = T("seq", P("x0"), P("x1"), P("x2"))


def shape(prog, kind, imp):
    """(gadget value, name of its type, [(field, kind, term)]) of the gadget a kind stands for."""
    it = next((i for i in imp["items"] if i.get("name") == "Rebind" and "ty" in i), None)
    if it is None:
        return None
    ty = it["ty"]
    if ty.adt and ty.adt.endswith("boxed::Box"):
        return P("g"), "Box", [("", "gadget", P("g"))]
    if ty.adt:
        a = prog.adts.get(ty.adt)
        if a is None or a["kind"] != "Struct":
            return None
        fs = a["variants"][0]["fields"]
        if len(fs) >= 1 and ty.adt.endswith("FixedVec"):
            v = T("adt", ty.adt, a["variants"][0]["name"], tuple(sorted((f["name"], SEQ if kind_of(f["ty"]) != "phantom" else T("adt", "core::marker::PhantomData", "PhantomData", ())) for f in fs)))
            return v, ty.adt, [(str(i), "gadget", x) for i, x in enumerate(SEQ.args)]
        g = P("g")
        return g, ty.adt, [(f["name"], kind_of(f["ty"]), proj(g, f["name"])) for f in fs]
    if ty.s == "()":
        return T("tuple"), "()", []
    if ty.s.startswith("("):
        return T("tuple", P("x0"), P("x1")), "(..)", [("0", "gadget", P("x0")), ("1", "gadget", P("x1"))]
    if ty.s.startswith("["):
        return SEQ, "[..]", [(str(i), "gadget", x) for i, x in enumerate(SEQ.args)]
    return None


def other(g, a="a"):
    """The same gadget with other contents."""
    return rewrite(g, lambda t: T("param", a + "." + t.args[0]) if t.op == "param" else t)


def members(prog, imp, name):
    return [f for f in prog.all_fns() if f.impl == imp["did"] and f.crate == imp["crate"] and f.name == name and not f.provided and not f.broken and f.trait == imp["trait"]]


def kinds(rep, prog, crates, tag):
    for i in prog.impls:
        if i.get("trait") != G + "GadgetKind" or (crates and i["crate"] not in crates):
            continue
        if not container(i) and len(SEQ.args) != 3:
            continue
        sh = shape(prog, i["self"], i)
        if sh is None:
            rep.undecided(f"{tag}{i['self']}/shape", "the gadget's structure is not understood")
            continue
        g, owner, fields = sh
        for f in members(prog, i, "map_gadget"):
            rep.seen(f)
            fl = Flow(prog, hooks=hooks())
            nodes, v = fl.run(f, pos=[g, P("wm")], tsub={"N": str(len(SEQ.args))})
            r = unresult(fl.deref_all(v)) if v is not NEVER else v
            mapped(rep, f, tag + owner, nodes, r, g, fields, prog)
        for f in members(prog, i, "enforce_equal_gadget"):
            rep.seen(f)
            fl = Flow(prog, hooks=hooks())
            a, b = other(g, "a"), other(g, "b")
            nodes, v = fl.run(f, pos=[T("dr"), a, b], tsub={"N": str(len(SEQ.args))})
            got = [frozenset(e.args[:2]) for e in evs(nodes, "equal")]
            for n, k, x in fields:
                if k not in ("wire", "gadget"):
                    continue
                key = f"{tag}{owner}/equal/{n}"
                want = frozenset((other(x, "a"), other(x, "b")))
                c = counts(nodes, lambda e: e.path == "equal" and frozenset(e.args[:2]) == want)
                if c == {1}:
                    rep.ok(key)
                elif c == {0} and any(opaque_in(y) for s in got for y in s):
                    rep.undecided(key, "some compared terms are not understood")
                else:
                    rep.bad(key, f.where, f"equality of {owner} does not compare the field {n} of both gadgets exactly once on every path")
            allowed = {frozenset((other(x, "a"), other(x, "b"))) for n, k, x in fields}
            for s in got:
                if s not in allowed and not any(opaque_in(y) for y in s):
                    rep.bad(f"{tag}{owner}/equal/extra", f.where, f"equality of {owner} compares {list(s)!r}, which are not counterparts")


def mapped(rep, f, owner, nodes, r, g, fields, prog):
    if r is NEVER:
        rep.bad(f"{owner}/map", f.where, f"mapping {owner} never returns")
        return
    for n, k, x in fields:
        key = f"{owner}/map/{n}"
        got = part(r, n, owner)
        if got is None:
            rep.undecided(key, f"the result {r!r} is not a gadget"[:200])
            continue
        want = conv(x) if k in ("wire", "gadget") else x
        if k == "phantom":
            rep.ok(key)
            continue
        if not same(got, want):
            if opaque_in(got):
                rep.undecided(key, f"{got!r} is not understood"[:200])
            else:
                rep.bad(key, f.where, f"the field {n} of a mapped {owner} is {got!r}, not the {'conversion' if k != 'value' else 'copy'} of the original field")
            continue
        if k == "value":
            rep.ok(key)
            continue
        c = once(nodes, "conv", x)
        rep.check(c == {1} or (3 in c and False), key, f.where, f"mapping {owner} converts the field {n} {sorted(c)} times, not once")
    want = {x for n, k, x in fields}
    for e in evs(nodes, "conv"):
        if e.args[0] not in want and e.args[0] is not g and not opaque_in(e.args[0]) and not any(t.op == "elem" for t in subterms(e.args[0])):
            rep.bad(f"{owner}/map/extra", f.where, f"mapping {owner} converts {e.args[0]!r}, which is not one of its fields")


def part(r, n, owner):
    if n == "":
        return r
    if r.op == "adt":
        d = dict(r.args[2])
        if n in d:
            return d[n]
        if len(d) >= 1:
            for v in d.values():
                if v.op == "seq" and n.isdigit() and int(n) < len(v.args):
                    return v.args[int(n)]
        return None
    if r.op in ("seq", "tuple") and n.isdigit() and int(n) < len(r.args):
        return r.args[int(n)]
    return None


SKIP = {"ragu_witness::gadgets::Skips": {"skipped"}}
SELF_WRITERS = ("ragu_pcd::step::internal::padded::PaddedContent",)


def writes(rep, prog, crates, tag):
    by = {}
    for i in prog.impls:
        if i.get("trait") == G + "GadgetKind":
            by.setdefault(i["self"], []).append(i)
    for i in prog.impls:
        if i.get("trait") != "ragu_primitives::io::Write" or (crates and i["crate"] not in crates):
            continue
        if i["self"] in SELF_WRITERS or (not container(i) and len(SEQ.args) != 3):
            continue
        cand = by.get(i["self"], [])
        if not cand:
            rep.undecided(f"{tag}{i['self']}/write", "no gadget kind was found for it")
            continue
        sh = shape(prog, i["self"], cand[0])
        if sh is None:
            rep.undecided(f"{tag}{i['self']}/write", "the gadget's structure is not understood")
            continue
        g, owner, fields = sh
        for f in members(prog, i, "write_gadget"):
            rep.seen(f)
            fl = Flow(prog, hooks=hooks())
            nodes, v = fl.run(f, pos=[g, T("dr"), P("buf")], tsub={"N": str(len(SEQ.args))})
            got = [e.args[0] for e in evs(nodes, "write")]
            want = [x for n, k, x in fields if k == "gadget" and n not in SKIP.get(owner, ())]
            if owner.endswith("element::Element"):
                want = [g]
            if owner.endswith("boolean::Boolean"):
                okb = len(got) == 1 and got[0].op == "adt" and dict(got[0].args[2]).get("wire") is proj(g, "wire")
                rep.check(okb, f"{tag}{owner}/write", f.where, f"a boolean is written as {got!r}, not as the element of its wire")
                continue
            got = [y for x in got for y in (x.args if x.op == "seq" else [x])]
            want = [y for x in want for y in (x.args if x.op == "seq" else [x])]
            got = [x for x in got if x.op != "tuple" or x.args]
            key = f"{tag}{owner}/write"
            straight = all(once(nodes, "write", x) == {1} for x in got)
            if got == want and straight:
                rep.ok(key)
            elif any(opaque_in(x) or x.op == "elem" for x in got):
                rep.undecided(key, f"{got!r} is not understood"[:300])
            else:
                rep.bad(key, f.where, f"{owner} is serialized as {[show(x, 4) for x in got]}, expected each of {[show(x, 4) for x in want]} once, in this order")


def trivially(ty):
    return ty.adt == "ragu_primitives::element::Element" or ty.s.startswith("ragu_primitives::Element<") or ty.s == "()"


def consist(rep, prog, crates, tag):
    for i in prog.impls:
        if i.get("trait") != "ragu_primitives::consistent::Consistent" or (crates and i["crate"] not in crates):
            continue
        if i["self"] in ("ragu_primitives::boolean::Boolean", "ragu_primitives::point::Point"):
            continue  # their own constraint is judged with the gadgets
        if not container(i) and len(SEQ.args) != 3:
            continue
        a = prog.adts.get(i["self"])
        for f in members(prog, i, "enforce_consistent"):
            rep.seen(f)
            free = set()
            if a is not None and not i["self"].endswith(("FixedVec", "Box")):
                g = P("g")
                fields = [(x["name"], proj(g, x["name"])) for x in a["variants"][0]["fields"] if kind_of(x["ty"]) == "gadget"]
                free = {x["name"] for x in a["variants"][0]["fields"] if trivially(x["ty"])}
            elif i["self"].startswith("["):
                g, fields = SEQ, [(str(n), x) for n, x in enumerate(SEQ.args)]
            elif i["self"].startswith("("):
                k = i["self"].count(",") + 1 if i["self"] != "()" else 0
                g = T("tuple", *[P(f"x{n}") for n in range(k)])
                fields = [(str(n), x) for n, x in enumerate(g.args)]
            elif i["self"].endswith("FixedVec") and a is not None:
                v = a["variants"][0]
                g = T("adt", i["self"], v["name"], tuple(sorted((f["name"], T("adt", "core::marker::PhantomData", "PhantomData", ()) if kind_of(f["ty"]) == "phantom" else SEQ) for f in v["fields"])))
                fields = [(str(n), x) for n, x in enumerate(SEQ.args)]
            else:
                g, fields = P("g"), [("", P("g"))]
            fl = Flow(prog, hooks=hooks())
            nodes, v = fl.run(f, pos=[g, T("dr")], tsub={"N": str(len(SEQ.args))})
            got = [e.args[0] for e in evs(nodes, "consistent")]
            for n, x in fields:
                key = f"{tag}{i['self']}/consistent/{n}"
                c = once(nodes, "consistent", x)
                if c == {1} or (c == {0} and n in free) or any(y is g or y is SEQ for y in got):
                    rep.ok(key)
                elif any(opaque_in(y) or y.op == "elem" for y in got):
                    rep.undecided(key, "not understood")
                else:
                    rep.bad(key, f.where, f"consistency of {i['self']} does not check its field {n} exactly once on every path")


def clones(rep, prog, crates, tag):
    for i in prog.impls:
        if i.get("trait") != "core::clone::Clone" or (crates and i["crate"] not in crates):
            continue
        if not any(j.get("trait") == G + "Gadget" and j["self"] == i["self"] for j in prog.impls):
            continue
        a = prog.adts.get(i["self"])
        if a is None or a["kind"] != "Struct":
            continue
        for f in members(prog, i, "clone"):
            rep.seen(f)
            g = T("adt", i["self"], a["variants"][0]["name"], tuple(sorted((x["name"], P("f." + x["name"])) for x in a["variants"][0]["fields"])))
            fl = Flow(prog, hooks={})
            nodes, v = fl.run(f, pos=[g])
            r = fl.deref_all(v)
            for x in a["variants"][0]["fields"]:
                n = x["name"]
                key = f"{tag}{i['self']}/clone/{n}"
                if r.op != "adt" or n not in dict(r.args[2]):
                    rep.undecided(key, f"{r!r}"[:200])
                    continue
                y = dict(r.args[2])[n]
                if same(y, P("f." + n)) or kind_of(x["ty"]) == "phantom":
                    rep.ok(key)
                elif opaque_in(y):
                    rep.undecided(key, f"{y!r}"[:200])
                else:
                    rep.bad(key, f.where, f"the field {n} of a cloned {i['self']} is {y!r}")


def container(i):
    return i["self"].startswith("[") or i["self"].endswith("FixedVec")


def library(rep):
    global SEQ
    for n in (1, 2, 4, 3):
        SEQ = T("seq", *[P(f"x{j}") for j in range(n)])
        for part in (kinds, writes, consist) + ((clones,) if n == 3 else ()):
            part(rep, rep.prog, None, "" if n == 3 else f"{n}/")


def witness(rep):
    w = rep.witness()
    if w is None:
        return
    for part in (kinds, writes, consist, clones):
        part(rep, w, {"ragu_witness"}, "witness/")


def maps(rep):
    """The wire maps, and the provided traversals over them."""
    prog = rep.prog
    W = P("wire")
    for path, what, want in (
        ("<ragu_core::convert::CloneWires as ragu_core::convert::WireMap>::convert_wire", "the wire itself", W),
        ("<ragu_core::convert::StripWires as ragu_core::convert::WireMap>::convert_wire", "no wire", T("tuple")),
    ):
        f = rep.need(path)
        if f is None:
            continue
        fl = Flow(prog)
        nodes, v = fl.run(f, pos=[P("wm"), W])
        r = unresult(fl.deref_all(v))
        rep.check(r is want, f"wiremap/{path}", f.where, f"{f.path} yields {r!r}, expected {what}")
    f = rep.need("ragu_core::gadgets::Gadget::num_wires")
    if f is not None:
        # counts what one traversal converts, each conversion adding one
        h = {}
        def two(fl, e, fr, path, args):
            wm = args[1]
            for w in ("w1", "w2"):
                c = next((x for x in prog.all_fns() if x.name == "convert_wire" and "WireCounter" in x.path and "num_wires" in x.path), None)
                if c is None:
                    return None
                inline(fl, c, [wm, P(w)], fr)
            return OK(P("mapped"))
        h[G + "Gadget::map"] = two
        h[G + "GadgetKind::map_gadget"] = two
        fl = Flow(prog, hooks=h)
        nodes, v = fl.run(f, pos=[P("g")])
        r = unresult(fl.deref_all(v)) if v is not NEVER else v
        if r is lit(2):
            rep.ok("num_wires")
        elif opaque_in(r):
            rep.undecided("num_wires", f"{r!r}"[:200])
        else:
            rep.bad("num_wires", f.where, f"a gadget of two wires is counted as {r!r}")
    for name, hk, args, want in (("map", "GadgetKind::map_gadget", [P("g"), P("wm")], [P("g"), P("wm")]),
                                 ("enforce_equal", "GadgetKind::enforce_equal_gadget", [P("g"), T("dr"), P("h")], [P("g"), P("h")])):
        f = rep.need(G + "Gadget::" + name)
        if f is None:
            continue
        fl = Flow(prog)
        nodes, v = fl.run(f, pos=args)
        es = [e for e in node_events(nodes) if e.path.endswith(hk)]
        got = [a for a in es[0].args if a.op != "dr"] if len(es) == 1 else None
        rep.check(got == want or (got is not None and name == "enforce_equal" and got == want[::-1]), f"provided/{name}", f.where, f"Gadget::{name} hands {got!r} to its kind")


PARTS = {"library": library, "witness": witness, "maps": maps}
