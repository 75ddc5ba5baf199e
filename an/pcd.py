"""The proof system's verifier: what a proof's components are called, its claims as linear forms of polynomials."""
from alg import Poly
from q import *

SP = "ragu_circuits::polynomials::sparse::Polynomial::"
RG = "ragu_circuits::registry::Registry::"
CIX = "ragu_circuits::registry::CircuitIndex"
APP = "ragu_pcd::Application"
COW = "alloc::borrow::Cow"

# where a proof keeps each component
NATIVE = {
    "Application": "application.rx_triple.rx", "Hashes1": "circuits.hashes_1.rx", "Hashes2": "circuits.hashes_2.rx",
    "InnerCollapse": "circuits.inner_collapse.rx", "OuterCollapse": "circuits.outer_collapse.rx", "ComputeV": "circuits.compute_v.rx",
    "Preamble": "preamble.native.rx", "InnerError": "inner_error.native.rx_triple.rx", "OuterError": "outer_error.native.rx",
    "Query": "query.native.rx_triple.rx", "Eval": "eval.native.rx", "AbA": "ab.native.a_poly", "AbB": "ab.native.b_poly",
}
NESTED = {
    "EndoscalarStage": "p.nested.endoscalar_rx", "PointsStage": "p.nested.points_rx", "BridgePreamble": "preamble.bridge.rx",
    "BridgeSPrime": "s_prime.bridge.rx", "BridgeInnerError": "inner_error.bridge.rx", "BridgeOuterError": "outer_error.bridge.rx",
    "BridgeAB": "ab.bridge.rx", "BridgeQuery": "query.bridge.rx", "BridgeF": "f.bridge.rx", "BridgeEval": "eval.bridge.rx",
}
# the polynomials whose sum each internal circuit's claim is about
CIRCUITS = {
    "Hashes1Circuit": ("Hashes1", "Preamble", "OuterError"), "Hashes2Circuit": ("Hashes2", "OuterError"),
    "InnerCollapseCircuit": ("InnerCollapse", "Preamble", "InnerError", "OuterError"),
    "OuterCollapseCircuit": ("OuterCollapse", "Preamble", "OuterError"), "ComputeVCircuit": ("ComputeV", "Preamble", "Query", "Eval"),
}
# the polynomials each stage mask applies to
MASKS = {
    "PreambleStage": ("Preamble",), "InnerErrorStage": ("InnerError",), "OuterErrorStage": ("OuterError",), "QueryStage": ("Query",),
    "EvalStage": ("Eval",), "InnerErrorFinalStaged": ("InnerCollapse",), "OuterErrorFinalStaged": ("Hashes1", "Hashes2", "OuterCollapse"),
    "EvalFinalStaged": ("ComputeV",),
}
KY = {"Hashes1Circuit": "unified_bridge_ky", **{k: "unified_ky" for k in ("Hashes2Circuit", "InnerCollapseCircuit", "OuterCollapseCircuit", "ComputeVCircuit")}}


class Odd(Exception):
    """A construct with no meaning here."""


def path_of(t):
    """A field path below a parameter, as (parameter, 'a.b.c'), or None."""
    names = []
    while t.op in ("field", "index"):
        if t.op == "index":
            i = t.args[1]
            if i.op != "lit":
                return None
            names.append(f"[{i.args[0]}]")
        else:
            names.append(str(t.args[1]))
        t = t.args[0]
    if t.op != "param":
        return None
    return t.args[0], ".".join(reversed(names)).replace(".[", "[")


def has_path(prog, adt, path):
    """Whether a type has a field path."""
    for n in path.split("."):
        d = prog.adts.get(adt)
        if d is None:
            return False
        f = next((x for v in d["variants"] for x in v["fields"] if x["name"] == n), None)
        if f is None:
            return False
        adt = f["ty"].adt
    return True


def add(a, b, k=1):
    r = dict(a)
    for x, c in b.items():
        r[x] = r.get(x, Poly()) + c.scale(k)
        if r[x].zero():
            del r[x]
    return r


class Forms:
    """Polynomials as linear forms: sums of coefficient times named polynomial."""

    def __init__(self, fl, names):
        self.fl, self.names = fl, names

    def scalar(self, t):
        t = self.fl.deref_all(self.fl.val(t))
        if t.op == "lit":
            return Poly.const(int(t.args[0]))
        if t.op == "named" and str(t.args[0]).endswith("::ONE"):
            return Poly.const(1)
        if t.op == "named" and str(t.args[0]).endswith("::ZERO"):
            return Poly()
        if t.op == "bin" and t.args[0] in ("Mul", "Add", "Sub"):
            a, b = self.scalar(t.args[1]), self.scalar(t.args[2])
            return a * b if t.args[0] == "Mul" else a + b if t.args[0] == "Add" else a - b
        return Poly.atom(self.name(t))

    def name(self, t):
        return full(t)

    def form(self, t):
        t = self.fl.deref_all(self.fl.val(t))
        if t.op == "adt" and t.args[0].endswith("borrow::Cow"):
            return self.form(t.args[2][0][1])
        if t.op == "adt" and t.args[0].endswith("TrackedPoly"):
            return self.form(dict(t.args[2])["poly"])
        if t.op in ("padd", "psub"):
            return add(self.form(t.args[0]), self.form(t.args[1]), 1 if t.op == "padd" else -1)
        if t.op == "pscale":
            c = self.scalar(t.args[1])
            return {k: v * c for k, v in self.form(t.args[0]).items()}
        if t.op == "dilate":
            z = self.name(self.fl.deref_all(t.args[1]))
            return {("dilate", k, z): v for k, v in self.form(t.args[0]).items()}
        if t.op == "fold":
            items = self.fl.iterate(self.fl.val(t.args[0]), lambda x: x, self.fl.stack[-1] if self.fl.stack else None, 0)
            if any(x.op in ("each", "splice") for x in items):
                raise Odd("a fold over unknown polynomials")
            z, r = self.scalar(t.args[1]), {}
            for x in items:
                r = add({k: v * z for k, v in r.items()}, self.form(x))
            return r
        if t.op == "circuit_y":
            reg, cid, y = t.args
            cid = self.fl.deref_all(cid)
            if cid.op == "adt" and cid.args[0] == CIX:
                cid = self.fl.deref_all(cid.args[2][0][1])
            return {("s", self.name(self.fl.deref_all(reg)), cid.args[0] if cid.op == "lit" else self.name(cid), self.name(self.fl.deref_all(y))): Poly.const(1)}
        if t.op == "tz":
            return {("t", self.name(self.fl.deref_all(t.args[0]))): Poly.const(1)}
        if t.op == "call" and t.args[0].endswith(("Default>::default", "Default::default", "Polynomial::default")):
            return {}
        p = path_of(t)
        if p is None:
            raise Odd(f"a polynomial of unknown origin: {str(t)[:120]}")
        return {("rx", self.name(t)): Poly.const(1)}


def poly_hooks():
    def upd(name):
        def h(fl, e, fr, p, a):
            if a[0].op != "ref":
                return None
            fl.write(a[0].args[0], a[0].args[1], T(name, fl.val(a[0]), *[fl.deref_all(fl.val(x)) for x in a[1:]]))
            return UNIT

        return h

    def pure(name):
        return lambda fl, e, fr, p, a: T(name, *[fl.deref_all(fl.val(x)) for x in a])

    def fold(fl, e, fr, p, a):
        items = fl.iterate(fl.val(a[0]), lambda x: fl.deref_all(fl.val(x)), fr, e["l"])
        return T("fold", T("seq", *items), fl.deref_all(fl.val(a[1])))

    def to_mut(fl, e, fr, p, a):
        v = fl.val(a[0])
        if a[0].op != "ref":
            return None
        inner = fl.deref_all(v.args[2][0][1]) if v.op == "adt" and v.args[0].endswith("borrow::Cow") else T("into", "owned", v)
        fl.write(a[0].args[0], a[0].args[1], T("adt", COW, "Owned", (("0", inner),)))
        return T("ref", a[0].args[0], a[0].args[1] + (("v", "Owned", "0"),))

    def owned(fl, e, fr, p, a):
        v = fl.deref_all(fl.val(a[0]))
        return fl.deref_all(v.args[2][0][1]) if v.op == "adt" and v.args[0].endswith("borrow::Cow") else None

    return {
        SP + "dilate": upd("dilate"), SP + "add_assign": upd("padd"), SP + "sub_assign": upd("psub"), SP + "scale": upd("pscale"),
        SP + "revdot": pure("revdot"), SP + "eval": pure("peval"), SP + "commit_to_affine": pure("commit"), SP + "fold": fold,
        RG + "circuit_y": pure("circuit_y"), RG + "wxy": pure("wxy"), RG + "circuit_in_domain": pure("in_domain"),
        "ragu_circuits::polynomials::Rank::tz": pure("tz"), COW + "::to_mut": to_mut, COW + "::into_owned": owned,
    }


def full(t):
    """A term's name, nothing abbreviated, so that different terms have different names."""
    p = path_of(t)
    if p:
        return ".".join(x for x in p if x)
    if t.op == "call" and len(t.args) == 2 and t.args[0].split("::")[-1] in ("x", "y"):
        q = [s for s in subterms(t) if path_of(s) and path_of(s)[1]]
        q = [s for s in q if not any(s is not r and s in set(subterms(r)) for r in q)]
        if len(q) == 1:
            return f"{full(q[0])}.{t.args[0].split('::')[-1]}"
    if t.op == "into":
        return full(t.args[-1])
    if t.op in ("unmaybe", "maybe"):
        return full(t.args[0])
    return t.op + "(" + ",".join(full(x) if isinstance(x, T) else str(x) for x in t.args) + ")"


ELEM = "ragu_primitives::element::Element"


def element(name):
    return T("adt", ELEM, "Element", (("value", T("param", name)), ("wire", UNIT)))


def facts_at(fl):
    """The conditions known to hold at the point now being evaluated."""
    known = []

    def hold(c):
        if c.op == "and":
            for x in c.args:
                hold(x)
        elif c.op == "un" and c.args[0] == "Not":
            fail(c.args[1])
        else:
            known.append(c)

    def fail(c):
        if c.op == "or":
            for x in c.args:
                fail(x)
        elif c.op == "un" and c.args[0] == "Not":
            hold(c.args[1])
        elif c.op == "bin" and c.args[0] == "Ne":
            known.append(T("bin", "Eq", *c.args[1:]))
        elif c.op == "and":
            rest = [x for x in c.args if x not in known]
            if len(rest) == 1:
                fail(rest[0])

    for c in fl.pc:
        hold(c)
    for _ in range(2):
        for f in fl.stack:
            for c, _v in f.returns:
                fail(c)
    return known


H = 4  # the header size the verifier is laid out for
ENC = 2  # elements the header's own encoding has


def symbolic(prog, ty, prefix, size=H):
    """A gadget of a type, its wires named after the fields they are in."""
    a = ty.adt
    if a == ELEM:
        return element(prefix)
    if a and a.endswith("point::Point"):
        return T("adt", a, "Point", (("x", element(prefix + ".x")), ("y", element(prefix + ".y"))))
    if a and a.endswith("vec::FixedVec"):
        return T("seq", *[symbolic(prog, ty.args[0], f"{prefix}[{i}]", size) for i in range(size)])
    d = prog.adts.get(a)
    if d is None or d["kind"] != "Struct":
        raise Odd(f"a gadget of type {ty}")
    return T("adt", a, d["variants"][0]["name"], tuple((x["name"], symbolic(prog, x["ty"], f"{prefix}.{x['name']}" if prefix else x["name"], size)) for x in d["variants"][0]["fields"] if not x["name"].startswith("_")))


class Verify:
    """One pass over the verifier: its outcomes, each with the conditions it is reached under."""

    def __init__(self, rep):
        self.fn = rep.need(APP + "::verify")
        if self.fn is None:
            raise Odd("no verifier")
        self.draws = []
        self.guards = []  # (what, facts known there)
        hooks = poly_hooks()

        def rnd(fl, e, fr, p, a):
            self.draws.append(f"random{len(self.draws) + 1}")
            return T("param", self.draws[-1])

        def guarded(what, h):
            def g(fl, e, fr, p, a):
                self.guards.append((what, [fl.deref_all(fl.val(x)) for x in a], facts_at(fl)))
                return h(fl, e, fr, p, a)

            return g

        self.headers = []

        def encode(fl, e, fr, p, a):
            self.headers.append(fl.deref_all(fl.val(a[1])))
            self.guards.append(("instance", [], facts_at(fl)))
            return okay(T("seq", *[element(f"encoded{i}") for i in range(ENC)]))

        hooks["ff::Field::random"] = rnd
        hooks[RG + "circuit_y"] = guarded("circuit", hooks[RG + "circuit_y"])
        hooks["ragu_pcd::header::Header::encode"] = encode
        hooks["ragu_pcd::header::Suffix::get"] = lambda fl, e, fr, p, a: T("param", "suffix")
        hooks.update(std_hooks())
        hooks.update(buffers(rep.prog))
        hooks.update({"unroll": 256, "eval_consts": True, "err_returns": True, "const:HEADER_SIZE": lit(H)})
        self.fl = Flow(rep.prog, hooks=hooks)
        self.fl.maxdepth, self.fl.budget = 80, 800000
        _, v = self.fl.run(self.fn)
        rep.seen(self.fn, *self.fl.visited.values())
        v = self.fl.deref_all(v) if v is not NEVER else v
        self.leaves = leaves(v) if v is not NEVER else []


# ---- gadgets, buffers: dispatch by value ----

def buffers(prog):
    """Writing gadgets into buffers, each implementation chosen by the value at hand."""
    W, B = "ragu_primitives::io::Write", "ragu_primitives::io::Buffer"
    head = lambda f: f.path.split(" as ")[0].lstrip("<")
    writers = {head(f): f for f in prog.impl_fns(W, "write_gadget")}
    sinks = {head(f): f for f in prog.impl_fns(B, "write")}

    def put(fl, fr, buf, dr, x, line):
        v = fl.deref_all(fl.val(buf))
        ref = buf
        while ref.op == "ref":
            inner = fl.read(ref.args[0], ref.args[1])
            if inner.op != "ref":
                break
            ref = inner
        if v.op == "seq":
            fl.write(ref.args[0], ref.args[1], T("seq", *v.args, fl.deref_all(fl.val(x))))
            return okay(UNIT)
        if v.op == "adt" and v.args[0] in sinks:
            return inline(fl, sinks[v.args[0]], [ref, dr, x], fr)
        if v is UNIT:
            return okay(UNIT)
        return None

    def emit(fl, fr, g, dr, buf, line):
        v = fl.deref_all(fl.val(g))
        if v.op == "adt" and v.args[0].endswith("element::Element"):
            return put(fl, fr, buf, dr, v, line)
        if v.op == "adt" and v.args[0] in writers:
            return inline(fl, writers[v.args[0]], [g, dr, buf], fr)
        if v.op in ("seq", "tuple"):
            for x in v.args:
                if x.op in ("each", "splice"):
                    return None
                r = emit(fl, fr, x, dr, buf, line)
                if r is None:
                    return None
                fl.do_try(r, fr, line)
            return okay(UNIT)
        return None

    def h_emit(fl, e, fr, p, a):
        return emit(fl, fr, a[0], a[1], a[2], e["l"])

    def h_put(fl, e, fr, p, a):
        return put(fl, fr, a[0], a[1], a[2], e["l"])

    return {"ragu_primitives::GadgetExt::write": h_emit, W + "::write_gadget": h_emit, B + "::write": h_put}


def okay(v):
    return T("adt", "core::result::Result", "Ok", (("0", v),))
