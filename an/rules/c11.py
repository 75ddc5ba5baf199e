"""Fixed-length vectors hold exactly their declared length."""
from q import *

LEVEL = "other"
RULE = ("Every way of making a fixed-length vector is evaluated over opaque elements for declared lengths 0 to 4 and supplied lengths 0 "
        "to 5: the right length yields the elements in order, any other the error naming both; construction by index calls its "
        "closure once per index in order. What leaves or copies the vector carries the same elements. Ownership: the backing vector is "
        "a private field, nothing hands out mutable access to it beyond slices, and no function grows or shrinks it in place. The "
        "declared lengths themselves are constants.")
ASSUME = ["Declared and supplied lengths are enumerated up to 5; the code has no other case distinction on them."]
FLOOR = 80
V = "ragu_primitives::vec::"
FV = V + "FixedVec"
P = lambda n: T("param", n)
MARK = T("adt", "core::marker::PhantomData", "PhantomData", ())
KEEP = ("shrink_to_fit", "shrink_to", "reserve", "reserve_exact")
GROW = ("push", "pop", "insert", "remove", "swap_remove", "truncate", "clear", "resize", "resize_with", "extend", "extend_from_slice", "extend_from_within",
        "append", "drain", "retain", "retain_mut", "split_off", "dedup", "dedup_by", "dedup_by_key", "splice", "set_len", "extract_if", "pop_if", "leak")


def calm(t):
    """Drops operations on a vector that leave its elements alone."""
    return rewrite(t, lambda x: x.args[2] if x.op == "after" and str(x.args[0]).split("::")[-1] in KEEP else x)


def res(v):
    return v if v is NEVER else calm(v)


def vector(r):
    """The elements of a term that is a fixed vector, or None."""
    if r.op == "adt" and r.args[0] == FV:
        for _, v in r.args[2]:
            if v.op == "seq" and all(x.op not in ("each", "splice") for x in v.args):
                return list(v.args)
    return None


def hooks(n):
    return {V + "Len::len": lambda fl, e, fr, path, args: lit(n), V + "Len::range": lambda fl, e, fr, path, args: T("range", lit(0), lit(n)), "fold_consts": True,
            "core::ops::FnMut::call_mut": called, "core::ops::Fn::call": called, "core::ops::FnOnce::call_once": called}


def called(fl, e, fr, path, args):
    f = fl.deref_all(args[0])
    if f is P("f") and args[1].op == "tuple":
        return T("call", "<apply>", f, *[fl.deref_all(a) for a in args[1].args])
    return None


def run1(rep, f, n, args):
    h = hooks(n)
    for m in ("collect_fixed", "try_collect_fixed"):
        c = rep.prog.fn(V + "CollectFixed::" + m)
        if c is not None and c is not f:
            h[c.path] = lambda fl, e, fr, path, args, c=c: inline(fl, c, args, fr)
    fl = Flow(rep.prog, hooks=h)
    nodes, v = fl.run(f, pos=args)
    return nodes, v if v is NEVER else res(fl.deref_all(v))


def judge(rep, key, f, n, xs, r):
    """r has to be Ok(the vector of xs) if its length is n, else the error naming both, whatever else is the case."""
    ls = leaves(r) if r is not NEVER else None
    for i, (_, x) in enumerate(ls or [({}, r)]):
        judge1(rep, key + (f"/{i}" if i else ""), f, n, xs, x)


def judge1(rep, key, f, n, xs, r):
    if r is not NEVER and r.op == "adt" and r.args[1] == "Ok":
        got = vector(dict(r.args[2])["0"])
        if got is None:
            rep.undecided(key, f"{r!r}"[:200])
        else:
            rep.check(len(xs) == n and got == xs, key, f.where, f"{f.path} makes a vector of declared length {n} out of {xs} with the elements {got}")
    elif r is not NEVER and r.op == "adt" and r.args[1] == "Err":
        e = dict(r.args[2])["0"]
        if len(xs) == n:
            rep.bad(key, f.where, f"{f.path} refuses {n} elements for the declared length {n}")
        elif e.op != "adt":
            rep.undecided(key, f"{r!r}"[:200])
        else:
            d = dict(e.args[2])
            rep.check(e.args[1] == "VectorLengthMismatch" and d.get("expected") is lit(n) and d.get("actual") is lit(len(xs)), key, f.where,
                      f"{f.path} reports {e!r} for {len(xs)} elements with declared length {n}")
    elif r is NEVER:
        rep.bad(key, f.where, f"{f.path} does not return for {len(xs)} elements with declared length {n}")
    else:
        rep.undecided(key, f"{r!r}"[:200])


def constructors(rep):
    okv = lambda x: T("adt", "core::result::Result", "Ok", (("0", x),))
    for path in (f"<{FV} as core::convert::TryFrom>::try_from", f"{FV}::new", V + "CollectFixed::collect_fixed", V + "CollectFixed::try_collect_fixed"):
        f = rep.need(path)
        if f is None:
            continue
        for n in range(5):
            for k in range(6):
                xs = [P(f"x{i}") for i in range(k)]
                arg = T("seq", *[okv(x) if "try_collect" in path else x for x in xs])
                nodes, r = run1(rep, f, n, [arg])
                judge(rep, f"{path}/{n}/{k}", f, n, xs, r)
    f = rep.need(V + "CollectFixed::try_collect_fixed")
    if f is not None:
        # elements that may fail: each is unwrapped in order
        xs = [P(f"x{i}") for i in range(3)]
        nodes, r = run1(rep, f, 3, [T("seq", *xs)])
        got = vector(dict(r.args[2])["0"]) if r is not NEVER and r.op == "adt" and r.args[1] == "Ok" else None
        if got is None or any(x.op not in ("try",) for x in got):
            rep.undecided("try_collect/order", f"{r!r}"[:200])
        else:
            rep.check([x.args[0] for x in got] == xs, "try_collect/order", f.where, f"{f.path} collects {got}")
    for path, tr in ((f"{FV}::from_fn", False), (f"{FV}::try_from_fn", True)):
        f = rep.need(path)
        if f is None:
            continue
        for n in range(5):
            nodes, r = run1(rep, f, n, [P("f")])
            key = f"{path}/{n}"
            if tr and r is not NEVER:
                r = dict(r.args[2])["0"] if r.op == "adt" and r.args[1] == "Ok" else r
            if r is not NEVER and r.op == "try" and r.args[0].op == "adt":
                r = dict(r.args[0].args[2]).get("0", r)
            got = None if r is NEVER else vector(r)
            calls = {c.id: c.args[1].args[0] for c in node_events(nodes) if c.args and c.args[0] is P("f") and c.args[1].op == "tuple" and len(c.args[1].args) == 1}
            if got is None:
                if r is not NEVER and r.op == "adt" and r.args[1] == "Err":
                    rep.bad(key, f.where, f"{path} fails for the declared length {n}")
                else:
                    rep.undecided(key, f"{r!r}"[:200])
                continue
            idx = []
            for x in got:
                x = x.args[0] if x.op == "try" else x
                if x.op == "call" and x.args[0] == "<apply>" and x.args[1] is P("f") and len(x.args) == 3:
                    idx.append(x.args[2])
                elif x.op == "ev" and x.args[0] in calls:
                    idx.append(calls[x.args[0]])
                else:
                    idx = None
                    break
            if idx is None:
                rep.undecided(key, f"{r!r}"[:200])
                continue
            ok = idx == [lit(i) for i in range(n)] and (not calls or list(calls.values()) == idx)
            rep.check(ok, key, f.where, f"{path} fills a vector of length {n} by calling its closure with {idx}, giving {got}")


def whole(rep):
    """What leaves or copies a vector carries its elements, in order."""
    for n in range(4):
        xs = [P(f"x{i}") for i in range(n)]
        fv = T("adt", FV, "FixedVec", (("_marker", MARK), ("v", T("seq", *xs))))
        for path in (f"{FV}::into_inner", f"<{FV} as core::clone::Clone>::clone", f"<{FV} as core::iter::IntoIterator>::into_iter", f"<{FV} as core::ops::Deref>::deref", f"<{FV} as core::ops::DerefMut>::deref_mut"):
            f = rep.need(path)
            if f is None:
                continue
            nodes, r = run1(rep, f, n, [fv])
            got = None if r is NEVER else vector(r) if r.op == "adt" else list(r.args) if r.op == "seq" and all(x.op not in ("each", "splice") for x in r.args) else None
            if r is NEVER:
                rep.bad(f"{path}/{n}", f.where, f"{path} does not return for a vector of its declared length {n}")
            elif got is None:
                rep.undecided(f"{path}/{n}", f"{r!r}"[:200])
            else:
                rep.check(got == xs, f"{path}/{n}", f.where, f"{path} of {xs} is {got}")


def ownership(rep):
    prog = rep.prog
    a = prog.adts.get(FV)
    if a is None:
        rep.bad("adt", "-", "the fixed-length vector type is gone")
        return
    vs = [x for x in a["variants"][0]["fields"] if "Vec<" in x["ty"].s]
    for x in vs:
        rep.check(x["vis"] != "Public" and "Restricted(DefId(0:0" not in x["vis"], f"private/{x['name']}", f"{a['file']}:1", f"the field {x['name']} of the fixed-length vector is accessible outside its module ({x['vis']})")
    names = {x["name"] for x in vs}
    known = {f"<{FV} as core::convert::TryFrom>::try_from", f"<{FV} as core::clone::Clone>::clone"}
    for f in prog.all_fns():
        if f.crate != "ragu_primitives" or f.broken:
            continue
        makes = grows = False
        for e in walk(f.body["e"]):
            if e["k"] == "Adt" and (e.get("adt") or e.get("path") or "") == FV:
                makes = True
            c = str(callee(e) or "") if e["k"] in ("Call", "MethodCall") else ""
            if c.startswith("alloc::vec::Vec") or "alloc::vec::Vec as" in c:
                if c.split("::")[-1].rstrip(">") in GROW and e.get("args") and of_vector(e["args"][0], f, names):
                    rep.bad(f"{f.path}/{c}", f"{f.file}:{e['l']}", f"{f.path} changes the length of a fixed-length vector in place with {c.split('::')[-1]}")
                    grows = True
        if makes:
            rep.seen(f)
            if f.path in known or f.trait == "ragu_core::gadgets::GadgetKind":
                rep.ok(f"made/{f.path}")
            else:
                made(rep, f)
        out = f.out.s if f.out is not None else ""
        if "&mut " in out.replace("&'", "&").replace("'dr ", "") and "Vec<" in out and "FixedVec" not in out and any("FixedVec" in (t.s or "") for t in f.ins if t is not None):
            rep.bad(f"escape/{f.path}", f.where, f"{f.path} hands out the backing vector: {out}")
        if not grows and any("FixedVec" in (t.s or "") for t in f.ins if t is not None):
            rep.ok(f"length/{f.path}")
    for i in prog.impls:
        if i["self"] == FV and i.get("trait") in ("core::ops::Deref", "core::ops::DerefMut"):
            for it in i["items"]:
                if it.get("name") == "Target" and "ty" in it:
                    rep.check(it["ty"].s.startswith("["), "deref", f"{i['file']}:1", f"a fixed-length vector dereferences to {it['ty'].s}, through which it can grow")


def made(rep, f):
    """A function of the module that builds the structure itself: its length has to be checked or preserved."""
    for n in (2, 3):
        xs = [P(f"x{i}") for i in range(n)]
        for k in (n - 1, n, n + 1):
            args = []
            for t in f.ins:
                if t is not None and "FixedVec" in t.s:
                    args.append(T("adt", FV, "FixedVec", (("_marker", MARK), ("v", T("seq", *xs)))))
                elif t is not None and "Vec<" in t.s:
                    args.append(T("seq", *[P(f"y{i}") for i in range(k)]))
                else:
                    args.append(P(f"a{len(args)}"))
            nodes, r = run1(rep, f, n, args)
            for s in () if r is NEVER else subterms(r):
                if s.op == "adt" and s.args[0] == FV:
                    got = vector(s)
                    if got is None:
                        rep.undecided(f"made/{f.path}/{n}/{k}", f"{s!r}"[:200])
                    else:
                        rep.check(len(got) == n, f"made/{f.path}/{n}/{k}", f.where, f"{f.path} makes a vector of declared length {n} with {len(got)} elements")


def of_vector(e, f, names):
    while e["k"] in ("Borrow", "Deref", "Scope", "Use", "Coerce"):
        e = e["e"]
    return e["k"] == "Field" and e.get("name") in names and f.types[e["e"]["t"]].peeled.startswith("ragu_primitives::vec::FixedVec") if e["k"] == "Field" and e["e"].get("t") is not None else False


def lengths(rep):
    """Declared lengths are constants: no argument, no state."""
    f = rep.need(V + "Len::range")
    if f is not None:
        fl = Flow(rep.prog, hooks={V + "Len::len": lambda fl, e, fr, path, args: lit(3)})
        nodes, v = fl.run(f, pos=[])
        v = fl.deref_all(v)
        got = fl.known_items(v)
        if got is None:
            rep.undecided("range", f"{v!r}"[:100])
        else:
            rep.check(got == [lit(0), lit(1), lit(2)], "range", f.where, f"the range of a length of 3 is {got}")
    for f in rep.prog.impl_fns(V + "Len", "len"):
        if f.provided or f.broken:
            continue
        rep.seen(f)
        fl = Flow(rep.prog)
        nodes, v = fl.run(f, pos=[])
        bad = [e.path for e in node_events(nodes) if "rand" in e.path or "Atomic" in e.path or "Cell" in e.path]
        rep.check(not bad, f"len/{f.path}", f.where, f"a declared length depends on {bad}")
    for f in rep.prog.impl_fns(V + "Len", "range"):
        if not f.provided:
            rep.bad(f"range/{f.path}", f.where, "a length overrides its own range")
    f = rep.need(f"<{V}ConstLen as {V}Len>::len")
    if f is not None:
        fl = Flow(rep.prog)
        nodes, v = fl.run(f, pos=[], tsub={"N": "7"})
        rep.check(v is lit(7), "ConstLen", f.where, f"the constant length 7 is {v!r}")


PARTS = {"constructors": constructors, "whole": whole, "ownership": ownership, "lengths": lengths}
