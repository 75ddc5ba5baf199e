"""Rerandomizing keeps the header; seeding starts from trivial proofs."""
from pcd import *
from fuse import solid
from rules.c19 import Enc, want, what, bare, differ, DRV, EN, ELM

LEVEL = "other"
RULE = ("The rerandomization step is evaluated, by value numbering over its typed body, for headers of 2 to 5 elements and data of every length that fits: its output header must be, wire for wire, its left header, "
        "that must be the data's encoding, the data handed on must be the left data, and what is asked of the driver must not depend on the length of the data. "
        "Application::rerandomize and Application::seed are evaluated with the fusing of two proofs abstract: the proof returned must be the one fused by the rerandomization step from the given proof and a proof "
        "seeded by the trivial step, or by the given step from two trivial proofs with the given witness.")
ASSUME = ["Fusing is what C15-C28 and C19 say; a lazily created value is what its constructor yields or the same from an earlier call."]
FLOOR = 18

APPL = "ragu_pcd::Application::"


def run(rep):
    steps(rep)
    seeding(rep)
    rerandomizing(rep)


def sidedness(box):
    def encode(fl, e, fr, p, a):
        t = fl.subst(fr.fn.types[e["targs"][0]], fr).s if e.get("targs") and isinstance(e["targs"][0], int) else None
        if t == "()":
            return None
        return box[0].encode(fl, e, fr, p, a)
    return encode


def of_step(rep, name):
    fns = [f for f in rep.prog.impl_fns("ragu_pcd::step::Step", "witness") if f.path.split(" as ")[0].rsplit("::", 1)[-1] == name]
    return fns[0] if len(fns) == 1 else None


def steps(rep):
    fn, wr = of_step(rep, "Rerandomize"), rep.need(EN + "write", public=False)
    if fn is None or wr is None:
        return rep.undecided("step", "the rerandomization step")
    rep.seen(fn, wr)
    asked = {}
    for size in (2, 3, 5):
        for k in range(size):
            key = f"step/{k} elements in a header of {size}"
            try:
                box = []
                E = Enc(rep, size, {"ragu_pcd::header::Header::encode": sidedness(box)})
                E.k = k
                box.append(E)
                r = E.run(fn, E.sc.cell(T("param", "step")), E.dr, T("maybe", UNIT), T("maybe", T("param", "leftdata")), T("maybe", UNIT))
                if r is None:
                    rep.bad(key, fn.where, f"rerandomizing a header of {size} with data of {k} elements is refused")
                    continue
                if r.op != "tuple" or len(r.args) != 3 or r.args[0].op != "tuple" or len(r.args[0].args) != 3:
                    raise Odd("what it yields")
                got = []
                for enc in r.args[0].args:
                    buf = E.sc.cell(T("seq"))
                    if E.run(wr, enc, E.dr, buf) is None:
                        raise Odd("writing its headers")
                    s = solid(E.sc.fl, E.sc.get(buf))
                    if s.op != "seq":
                        raise Odd("a header")
                    got.append(s.args)
                left, right, out = got
                d = differ([what(x) for x in left], want(size, k))
                rep.check(not d, key + "/left", fn.where, d and f"the left header of a rerandomization {d}")
                d = differ([what(x) for x in right], want(size, 0))
                rep.check(not d, key + "/right", fn.where, d and f"the right header of a rerandomization, that is trivial, {d}")
                ws = [[dict(x.args[2])["wire"] for x in xs] for xs in (left, out)]
                d = differ([what(x) for x in out], want(size, k))
                if d:
                    rep.bad(key + "/output", fn.where, f"the output header of a rerandomization {d}")
                elif ws[0] == ws[1]:
                    rep.ok(key + "/output")
                elif any(x.path.startswith(DRV) and x.name in ("enforce_equal", "enforce_zero", "mul", "gate", "add") for x in E.evs):
                    rep.undecided(key + "/output", "whether the headers are held equal")
                else:
                    rep.bad(key + "/output", fn.where, f"the output header of a rerandomization is not held to the left header's values: element {next(i for i in range(size) if ws[0][i] is not ws[1][i])} is on another wire")
                x = bare(r.args[1])
                if x is T("param", "leftdata"):
                    rep.ok(key + "/data")
                elif "leftdata" in repr(x):
                    rep.undecided(key + "/data", "the data handed on")
                else:
                    rep.bad(key + "/data", fn.where, "the data that a rerandomization hands on is not the left data")
                asked.setdefault(size, {})[k] = [x.name for x in E.evs if x.path.startswith(DRV)]
            except Odd as e:
                rep.undecided(key, str(e))
    for size, by in asked.items():
        a = by.get(0) or next(iter(by.values()))
        k = next((k for k, v in by.items() if v != a), None)
        rep.check(k is None, f"step/uniform headers of {size}", fn.where, k is not None and f"a rerandomization asks {len(by[k])} things of the driver for data of {k} elements, but {len(a)} for another length: its circuit depends on the header")


class App:
    """Evaluates a function of an application; fusing is abstract."""

    def __init__(self, rep):
        self.rep, self.fused = rep, []
        hooks = dict(std_hooks())
        hooks.update({"eval_consts": True, "err_returns": True, APPL + "fuse": self.fuse})
        for m in ("get_or_init", "get_or_try_init"):
            hooks["core::cell::once::OnceCell::" + m] = hooks["std::sync::OnceLock::" + m] = hooks["core::cell::OnceCell::" + m] = self.once
        hooks["ragu_pcd::proof::Proof::trivial"] = lambda fl, e, fr, p, a: T("param", "trivial")
        hooks[APPL + "trivial_proof"] = lambda fl, e, fr, p, a: T("param", "trivial")
        self.sc = Scene(rep, hooks=hooks)

    def once(self, fl, e, fr, p, a):
        return fl.apply(a[1], [])

    def fuse(self, fl, e, fr, p, a):
        n = len(self.fused)
        self.fused.append([solid(fl, fl.deref_all(fl.val(x))) for x in a[2:6]])
        pcd = T("adt", "ragu_pcd::proof::Pcd", "Pcd", (("proof", T("param", f"proof{n}")), ("data", T("param", f"data{n}"))))
        return okay(T("tuple", pcd, T("param", f"aux{n}")))

    def run(self, fn, *pos):
        v = self.sc.call(fn, *pos)
        lv = [] if v is NEVER else leaves(self.sc.fl.deref_all(v))
        return [solid(self.sc.fl, self.sc.fl.deref_all(x)) for _, x in lv]


def trivials(x):
    """Whether a pcd is the trivial proof with the unit header."""
    if x.op != "adt" or not x.args[0].endswith("Pcd"):
        return None
    d = dict(x.args[2])
    p = d.get("proof")
    if p is None or not trivial(p):
        return None
    return bare(d.get("data")) in (UNIT, T("tuple"))


def trivial(p):
    return p is T("param", "trivial") or p.op == "call" and "trivial" in p.args[0].rsplit("::", 1)[-1] and "seeded" not in p.args[0]


def named(x):
    """A step's type."""
    return x.args[0].rsplit("::", 1)[-1] if x.op == "adt" else None


def parts(x):
    if x.op == "adt" and x.args[0].endswith("Pcd"):
        d = dict(x.args[2])
        return d.get("proof"), d.get("data")
    return None


def seeding(rep):
    fn = rep.need(APPL + "seed")
    if fn is None:
        return
    try:
        A = App(rep)
        out = A.run(fn, T("param", "app"), T("param", "rng"), T("param", "step"), T("param", "witness"))
        rep.seen(fn)
        if len(A.fused) != 1 or len(out) != 1 or len(A.fused[0]) != 4:
            raise Odd("what it fuses")
        step, wit, left, right = A.fused[0]
        rep.check(step is T("param", "step") and wit is T("param", "witness"), "seed/step", fn.where, "seeding does not run the given step with the given witness")
        for side, x in (("left", left), ("right", right)):
            t = trivials(x)
            if t is None:
                rep.undecided(f"seed/{side}", f"the {side} child")
            else:
                rep.check(t, f"seed/{side}", fn.where, f"seeding's {side} child is not the trivial proof of the unit header")
        returned(rep, "seed", fn, out[0], 0, True)
    except Odd as e:
        rep.undecided("seed", str(e))


def returned(rep, key, fn, x, n, aux):
    if x.op != "adt" or x.args[1] != "Ok":
        return rep.undecided(key + "/returned", "what it returns")
    x = x.args[2][0][1]
    if aux:
        if x.op != "tuple" or len(x.args) != 2:
            return rep.undecided(key + "/returned", "what it returns")
        rep.check(x.args[1] is T("param", f"aux{n}"), key + "/aux", fn.where, "the auxiliary data returned is not the step's")
        x = x.args[0]
    p = parts(x)
    if p is None:
        return rep.undecided(key + "/returned", "what it returns")
    rep.check(p[0] is T("param", f"proof{n}"), key + "/proof", fn.where, "the proof returned is not the fused one")
    ok = p[1] is T("param", f"data{n}")
    rep.check(ok, key + "/data", fn.where, "the data returned with the proof is not what its step hands on")


def rerandomizing(rep):
    fn = rep.need(APPL + "rerandomize")
    if fn is None:
        return
    try:
        A = App(rep)
        pcd = T("adt", "ragu_pcd::proof::Pcd", "Pcd", (("proof", T("param", "theirs")), ("data", T("param", "theirdata"))))
        out = A.run(fn, T("param", "app"), pcd, T("param", "rng"))
        rep.seen(fn)
        if not A.fused or len(out) != 1 or any(len(f) != 4 for f in A.fused):
            raise Odd("what it fuses")
        *seeds, last = A.fused
        nm = named(last[0])
        if nm is None:
            raise Odd("the step it fuses with")
        rep.check(nm == "Rerandomize", "rerandomize/step", fn.where, f"rerandomizing fuses by the step {nm}")
        p = parts(last[2])
        if p is None:
            rep.undecided("rerandomize/left", "the left child")
        else:
            rep.check(p[0] is T("param", "theirs") and p[1] is T("param", "theirdata"), "rerandomize/left", fn.where, "the left child of a rerandomization is not the given proof with its data")
        p = parts(last[3])
        i = next((i for i in range(len(seeds)) if p and p[0] is T("param", f"proof{i}")), None)
        if p and trivial(p[0]):
            rep.bad("rerandomize/right", fn.where, "the right child of a rerandomization is a trivial proof itself, not one of the trivial step: its circuits take it for a base case")
        elif p and p[0] is T("param", "theirs"):
            rep.bad("rerandomize/right", fn.where, "the right child of a rerandomization is the given proof")
        elif i is None:
            rep.undecided("rerandomize/right", "the right child")
        else:
            s = seeds[i]
            ts = trivials(s[2]), trivials(s[3])
            if named(s[0]) is None or None in ts:
                rep.undecided("rerandomize/right", "how the right child is made")
            else:
                rep.check(named(s[0]) == "Trivial" and all(ts), "rerandomize/right", fn.where, "the right child of a rerandomization is not seeded by the trivial step from trivial proofs")
            d = bare(p[1])
            rep.check(d in (UNIT, T("tuple")) or d is T("param", f"data{i}"), "rerandomize/right data", fn.where, "the right child of a rerandomization does not carry the unit header")
        returned(rep, "rerandomize", fn, out[0], len(seeds), False)
    except Odd as e:
        rep.undecided("rerandomize", str(e))
