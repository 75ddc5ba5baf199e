"""Headers: a step's data as the elements that a proof commits to, and rerandomizing."""
from pcd import *
from fuse import solid
import fuse

LEVEL = "other"
RULE = ("Encoding a header is evaluated, by value numbering over its typed body, for header sizes from 1 to 6 and data of 0 elements up to one more than the size: the elements written "
        "must be the data's own, in order, then zeros, then the number of the header's suffix, as many as the size in all; data with no room for the suffix must be an error. "
        "The uniform encoding must be the same values on wires newly allocated, one for each and nothing else asked of the driver, whatever the header. "
        "A step's circuit must output its left, right and output headers in this order, and hand on the values of the first two, the output's data "
        "and what the step hands on; the proof must keep them where the verifier reads them.")
ASSUME = ["A header's data is what Header::encode yields for it; field conversion of suffix numbers is injective."]
FLOOR = 60
EN = "ragu_pcd::step::encoder::Encoded::"
DRV = "ragu_core::drivers::Driver::"
ADAPT = "crates/ragu_pcd/src/step/internal/adapter.rs:1"
ELM = "ragu_primitives::element::Element"


class Enc:
    """Encodes headers of a size, whose data has k elements."""

    def __init__(self, rep, size, more=None, counts=None):
        self.rep, self.size = rep, size
        self.k = 0
        self.made = 0
        hooks = dict(std_hooks())
        hooks.update(buffers(rep.prog))
        hooks.update({"unroll": 64, "range": 64, "eval_consts": True, "err_returns": True, "const:HEADER_SIZE": lit(size),
                      "ragu_pcd::header::Header::encode": self.encode, "ragu_pcd::header::Suffix::get": lambda fl, e, fr, p, a: T("param", "suffix")})
        hooks["ragu_core::gadgets::Gadget::num_wires"] = self.wires
        for m in ("alloc", "gate", "mul", "add", "constant", "enforce_zero", "enforce_equal", "routine"):
            hooks[DRV + m] = self.emulated
        hooks.update(more or {})
        self.sc = Scene(rep, hooks=hooks)
        self.dr = self.sc.cell(T("param", "dr"))
        self.given = []
        self.evs = []

    def emulated(self, fl, e, fr, p, a):
        """What is asked of an emulator is no matter."""
        v = fl.deref_all(fl.val(a[0])) if a else None
        if v is not None and v.op == "adt" and "emulator" in v.args[0]:
            self.made += 1
            t = T("emulated", lit(self.made))
            return okay(t) if p.rsplit("::", 1)[-1] in ("alloc", "gate", "mul") else t
        return None

    def encode(self, fl, e, fr, p, a):
        self.given.append(fl.deref_all(fl.val(a[1])))
        return okay(T("seq", *[element(f"data{i}") for i in range(self.k)]))

    def wires(self, fl, e, fr, p, a):
        v = fl.deref_all(fl.val(a[0]))
        return okay(lit(len(v.args))) if v.op == "seq" and all(x.op == "adt" for x in v.args) else None

    def run(self, fn, *pos):
        v = self.sc.call(fn, *pos)
        self.evs += [n.ev for n in flat(self.sc.nodes) if n.kind == "ev"]
        lv = [] if v is NEVER else leaves(self.sc.fl.deref_all(v))
        if len(lv) != 1 or lv[0][1].op != "adt" or lv[0][1].args[1] not in ("Ok", "Err"):
            raise Odd("the outcome")
        r = lv[0][1]
        return solid(self.sc.fl, self.sc.fl.deref_all(r.args[2][0][1])) if r.args[1] == "Ok" else None


def what(x):
    """An element's value."""
    if x.op != "adt" or x.args[0] != ELM:
        raise Odd("an element")
    return what_(dict(x.args[2])["value"])


def what_(v):
    while v.op in ("maybe", "unmaybe", "into", "try") and v.args:
        v = v.args[-1]
    if v.op == "named" and v.args[0].endswith("ZERO"):
        return "0"
    if v.op == "adt" and v.args[1] == "Zero":
        return "0"
    if v.op == "narrow":
        return f"{what_(v.args[1])} cut to {v.args[0]}"
    if v.op in ("param", "named", "lit"):
        return str(v.args[0]).rsplit("::", 1)[-1]
    if v.op == "adt" and not v.args[2]:
        return v.args[1]
    raise Odd(f"a value {v!r}"[:60])


def want(size, k):
    return [f"data{i}" for i in range(k)] + ["0"] * (size - 1 - k) + ["suffix"]


def differ(got, exp):
    if len(got) != len(exp):
        return f"has {len(got)} elements"
    d = next((i for i in range(len(got)) if got[i] != exp[i]), None)
    return None if d is None else f"has {got[d]} at {d}, where {exp[d]} should be"


def run(rep):
    new, uni, wr = rep.need(EN + "new"), rep.need(EN + "new_uniform", public=False), rep.need(EN + "write", public=False)
    if new is None or uni is None or wr is None:
        return
    for size in range(1, 7):
        for k in range(size + 1):
            for nm, fn in (("new", new), ("new_uniform", uni)):
                encoding(rep, nm, fn, wr, size, k)
    adapter(rep)
    kept(rep)


def encoding(rep, nm, fn, wr, size, k):
    key = f"{nm}/{k} elements in a header of {size}"
    uniform = nm == "new_uniform"
    try:
        E = Enc(rep, size)
        E.k = k
        enc = E.run(fn, E.dr, T("param", "w"))
        rep.seen(fn, wr)
        if not E.given or any(bare(g) is not T("param", "w") for g in E.given):
            raise Odd("the data encoded")
        if enc is not None:
            buf = E.sc.cell(T("seq", T("param", "before")))
            done = E.run(wr, enc, E.dr, buf)
        if enc is None or done is None:
            return rep.check(k >= size, key, fn.where, f"data of {k} elements is refused for a header of {size}")
        if k >= size:
            return rep.bad(key, fn.where, f"data of {k} elements is accepted for a header of {size}, which has to hold its suffix too")
        got = solid(E.sc.fl, E.sc.get(buf))
        if got.op != "seq" or got.args[0] is not T("param", "before"):
            raise Odd("what is written")
        els = got.args[1:]
        d = differ([what(x) for x in els], want(size, k))
        if d:
            return rep.bad(key, fn.where, f"data of {k} elements, encoded by {nm} for a header of {size}, {d}")
        if uniform:
            evs = [x for x in E.evs if x.path.startswith(DRV)]
            if any(x.name != "alloc" for x in evs):
                return rep.bad(key, fn.where, f"the uniform encoding asks the driver for {next(x.name for x in evs if x.name != 'alloc')}")
            if len(evs) != size:
                return rep.bad(key, fn.where, f"the uniform encoding of {k} elements in a header of {size} allocates {len(evs)} wires")
            ws = [dict(x.args[2])["wire"] for x in els]
            ws = [w.args[0] if w.op == "try" else w for w in ws]
            if any(w.op != "ev" for w in ws):
                raise Odd("a wire")
            if len(set(ws)) != size:
                return rep.bad(key, fn.where, f"two elements of the uniform encoding are on one wire")
        rep.ok(key)
    except Odd as e:
        rep.undecided(key, str(e))


def adapter(rep):
    """A step's circuit."""
    fns = [f for f in rep.prog.impl_fns("ragu_circuits::Circuit", "witness") if "adapter::Adapter" in f.path]
    if len(fns) != 1:
        return rep.undecided("circuit", "the circuit of a step")
    fn = fns[0]
    for size in (2, 3, 5):
        for shape in (("g", "g", "g"), ("u", "g", "u")):
            key = f"circuit/{'uniform' if 'u' in shape else 'plain'} headers of {size}"
            asked = []

            def step(fl, e, fr, p, a):
                asked.append([fl.deref_all(fl.val(x)) for x in a])
                encs = []
                for side, how in zip(("left", "right", "output"), shape):
                    n = 1 if how == "g" else size
                    s = T("seq", *[element(f"{side}{i}") for i in range(n)])
                    encs.append(T("adt", EN[:-2], "Encoded", (("0", T("adt", EN[:-2].replace("Encoded", "EncodedInner"), "Gadget" if how == "g" else "Uniform", (("0", s),))),)))
                return okay(T("tuple", T("tuple", *encs), T("maybe", T("param", "outdata")), T("maybe", T("param", "stepaux"))))

            try:
                E = Enc(rep, size, {"ragu_pcd::step::Step::witness": step})
                me = E.sc.cell(T("adt", "ragu_pcd::step::internal::adapter::Adapter", "Adapter", (("step", T("param", "step")), ("_marker", T("param", "m")))))
                r = E.run(fn, me, E.dr, T("maybe", T("tuple", T("param", "leftdata"), T("param", "rightdata"), T("param", "witness"))))
                if r is None or r.op != "adt" or r.args[1] != "WithAux":
                    raise Odd("what it yields")
                d = dict(r.args[2])
                out, aux = d["output"], d["aux"]
                if len(asked) != 1:
                    raise Odd("the step")
                given = [bare(x) for x in asked[0]]
                if [g.args[0] for g in given if g.op == "param" and g.args[0] in ("leftdata", "rightdata", "witness")] != ["witness", "leftdata", "rightdata"]:
                    d = [g for g in given if g.op == "param"]
                    if len(d) == 5:
                        rep.bad(key + "/given", fn.where, f"a step is given {', '.join(g.args[0] for g in d[2:])} as its witness, left and right data")
                    else:
                        rep.undecided(key + "/given", "what the step is given")
                else:
                    rep.ok(key + "/given")
                exp = []
                for side, how in zip(("left", "right", "output"), shape):
                    exp += [f"{side}{i}" for i in range(size)] if how == "u" else [f"{side}0"] + ["0"] * (size - 2) + ["suffix"]
                if out.op != "seq":
                    raise Odd("its output")
                x = differ([what(o) for o in out.args], exp)
                rep.check(not x, key + "/output", ADAPT, x and f"the output of a step's circuit {x}")
                aux = bare(aux)
                if aux.op != "tuple" or len(aux.args) != 3 or aux.args[0].op != "tuple":
                    raise Odd("what it hands on")
                for j, side in enumerate(("left", "right")):
                    got = aux.args[0].args[j]
                    if got.op != "seq":
                        raise Odd(f"the {side} header handed on")
                    x = differ([plainly(o) for o in got.args], exp[j * size:(j + 1) * size])
                    rep.check(not x, f"{key}/{side}", ADAPT, x and f"the {side} header that a step's circuit hands on {x}")
                for j, nm, w in ((1, "data", "outdata"), (2, "aux", "stepaux")):
                    rep.check(bare(aux.args[j]) is T("param", w), f"{key}/{nm}", ADAPT, f"a step's {'output data' if j == 1 else 'auxiliary data'} is not handed on as it is")
            except Odd as e:
                rep.undecided(key, str(e))


def bare(x):
    while x.op in ("maybe", "unmaybe"):
        x = x.args[0]
    return x


def plainly(x):
    x = bare(x)
    if x.op == "param":
        return x.args[0]
    if x.op == "named" and x.args[0].endswith("ZERO") or x.op == "adt" and x.args[1] == "Zero":
        return "0"
    if x.op == "into":
        return plainly(x.args[-1])
    raise Odd(f"a value {x!r}"[:60])


def kept(rep):
    """What the prover keeps of it."""
    try:
        F = fuse.Fuse(rep)
    except Odd as e:
        return rep.undecided("proof", str(e))
    key = "proof"
    v = solid(F.fl, F.value)
    if v.op == "adt" and v.args[1] == "Ok":
        v = v.args[2][0][1]
    if v.op != "tuple" or len(v.args) != 2 or v.args[0].op != "adt":
        return rep.undecided(key, "what the prover returns")
    pcd, aux = dict(v.args[0].args[2]), v.args[1]
    proof = pcd.get("proof")
    app = dict(proof.args[2]).get("application") if proof is not None and proof.op == "adt" else None
    if app is None or app.op != "adt":
        return rep.undecided(key, "the proof's application part")
    app = dict(app.args[2])
    for what_, got, want_ in (("left header", app.get("left_header"), (0, 0)), ("right header", app.get("right_header"), (0, 1)), ("data", pcd.get("data"), (1,)), ("auxiliary data", aux, (2,))):
        w = where(got)
        if w is None:
            rep.undecided(f"{key}/{what_}", "where it is from")
        else:
            rep.check(w == want_, f"{key}/{what_}", F.fn.where, f"the {what_} returned is not the one that the step's circuit hands on")
    tr = next((t for t in F.assembled if t.args[1].op == "trace" and "Adapter" in str(t.args[1].args[0].args[:1])), None)
    w = solid(F.fl, tr.args[1].args[1]) if tr is not None else None
    if w is None or w.op != "tuple" or len(w.args) != 3:
        rep.undecided(f"{key}/given", "what the step's circuit is given")
    else:
        ps = [path_of(x) for x in w.args]
        if None in ps:
            rep.undecided(f"{key}/given", "what the step's circuit is given")
        else:
            rep.check(ps == [("left", "data"), ("right", "data"), ("witness", "")], f"{key}/given", F.fn.where, f"the step's circuit is given {', '.join('.'.join(x for x in p if x) for p in ps)}")


def where(t):
    """Which part of what the circuit hands on a value is."""
    path = []
    while t is not None and t.op != "aux":
        if t.op == "field" and str(t.args[1]).isdigit():
            path.append(int(t.args[1]))
            t = t.args[0]
        elif t.op == "index" and t.args[1].op == "lit":
            path.append(int(t.args[1].args[0]))
            t = t.args[0]
        elif t.op in ("into", "maybe", "unmaybe"):
            t = t.args[-1]
        elif t.op == "call" and t.args[0].rsplit("::", 1)[-1] in ("into_inner", "clone", "to_vec") and len(t.args) == 2:
            t = t.args[1]
        elif t.op == "field" and "inner" in str(t.args[1]) or t.op == "field" and str(t.args[1]) in ("v", "0"):
            t = t.args[0]
        else:
            return None
    return tuple(reversed(path)) if t is not None else None
