"""Straight-line circuits made of driver operations, composed with the interpreters' own transfer
functions by value numbering, and the meaning they ought to have.

A circuit is a list of operations; names stand for wires:
  ("gate", [a, b, c, d])           a gate, its four wires
  ("mul", [a, b, c])               a multiplication, its three wires
  ("alloc", w)                     an allocated wire
  ("add", w, lc)                   a virtual wire
  ("const", w, k)                  a constant
  ("zero", lc) / ("eq", u, v)      a constraint
  ("routine", ins, ops, outs, ws)  a routine with given input wires; its body names them i0, i1, ..
  ("onwrite", ops)                 what writing the outputs does besides
  ("fail",)                        a failure
A linear combination is a list of ("t", wire, coefficient) and ("g", coefficient)."""
from fractions import Fraction

import cs
from q import *
from flow import Frame
from ir import Ty

DRV = "ragu_core::drivers::Driver"
DRT = "ragu_core::drivers::DriverTypes"
LEX = "ragu_core::drivers::linexp::LinearExpression"
COEFF = "ragu_arithmetic::coeff::Coeff"
PREDICTION = "ragu_core::routines::Prediction"
ELEMENT = "ragu_primitives::element::Element"


# ------------------------------------------------------------------ Laurent polynomials
class Unknown(Exception):
    pass


class L:
    """A Laurent polynomial: monomials are sorted tuples of (atom, exponent)."""

    __slots__ = ("m",)

    def __init__(self, m=None):
        self.m = m or {}

    @staticmethod
    def const(c):
        return L({(): Fraction(c)} if c else {})

    @staticmethod
    def atom(a, e=1):
        return L({((a, e),): Fraction(1)})

    def __add__(self, o):
        m = dict(self.m)
        for k, v in o.m.items():
            s = m.get(k, 0) + v
            if s:
                m[k] = s
            else:
                m.pop(k, None)
        return L(m)

    def __neg__(self):
        return L({k: -v for k, v in self.m.items()})

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        m = {}
        for k, v in self.m.items():
            for k2, v2 in o.m.items():
                d = dict(k)
                for a, e in k2:
                    d[a] = d.get(a, 0) + e
                kk = tuple(sorted((a, e) for a, e in d.items() if e))
                s = m.get(kk, 0) + v * v2
                if s:
                    m[kk] = s
                else:
                    m.pop(kk, None)
        return L(m)

    def pow(self, n):
        if len(self.m) == 1:
            (k, v), = self.m.items()
            if n >= 0 or v in (1, -1):
                return L({tuple((a, e * n) for a, e in k): v ** n} if n else {(): Fraction(1)})
        if n < 0 or n > 64:
            raise Unknown("power")
        r = L.const(1)
        for _ in range(n):
            r = r * self
        return r

    def inv(self):
        if len(self.m) != 1:
            raise Unknown("inverse of a sum")
        (k, v), = self.m.items()
        return L({tuple((a, -e) for a, e in k): 1 / v})

    def zero(self):
        return not self.m

    def __eq__(self, o):
        return isinstance(o, L) and self.m == o.m

    def __hash__(self):
        return hash(frozenset(self.m.items()))

    def __repr__(self):
        if not self.m:
            return "0"
        return " + ".join("*".join([str(v)] * (v != 1 or not k) + [a if e == 1 else f"{a}^{e}" for a, e in k]) for k, v in sorted(self.m.items(), key=repr)[:6])


class Laurent:
    """Field terms as Laurent polynomials; names maps opaque terms to atoms."""

    def __init__(self, names=None):
        self.memo = {}
        self.names = names or {}

    def __call__(self, t):
        if t.id in self.memo:
            return self.memo[t.id]
        r = self.go(t)
        self.memo[t.id] = r
        return r

    def go(self, t):
        o = t.op
        if t in self.names:
            return self.names[t]
        if o == "param":
            return L.atom(t.args[0])
        if o == "lit" and t.args[0].split("_")[0].lstrip("-").isdigit():
            return L.const(int(t.args[0].split("_")[0]))
        if o == "named":
            last = t.args[0].split("::")[-1]
            if last == "ZERO":
                return L()
            if last == "ONE":
                return L.const(1)
        if o == "bin" and t.args[0] in ("Add", "Sub", "Mul"):
            a, b = self(t.args[1]), self(t.args[2])
            return a + b if t.args[0] == "Add" else a - b if t.args[0] == "Sub" else a * b
        if o == "un" and t.args[0] == "Neg":
            return -self(t.args[1])
        if o == "sum":
            r = L()
            for x in t.args:
                r = r + self(x)
            return r
        if o == "adt" and t.args[0] == COEFF:
            v = t.args[1]
            if v in ("Zero", "One", "Two", "NegativeOne"):
                return L.const({"Zero": 0, "One": 1, "Two": 2, "NegativeOne": -1}[v])
            x = self(t.args[2][0][1])
            return x if v == "Arbitrary" else -x
        if o == "into":
            return self(t.args[1])
        if o == "call":
            last = t.args[0].split("::")[-1]
            if last == "square":
                return self(t.args[1]).pow(2)
            if last == "double":
                return self(t.args[1]) + self(t.args[1])
            if last == "cube":
                return self(t.args[1]).pow(3)
            if last in ("pow_vartime", "pow"):
                return self(t.args[1]).pow(self.exponent(t.args[2]))
            if last == "from" and len(t.args) == 2:
                return self(t.args[1])
        inner = None
        if o == "try":
            inner = t.args[0]
        elif o == "call" and t.args[0].endswith(("CtOption::unwrap", "CtOption::expect")):
            inner = t.args[1]
        while inner is not None and inner.op == "call" and inner.args[0].endswith("into_option"):
            inner = inner.args[1]
        if inner is not None and inner.op == "call" and inner.args[0].split("::")[-1] in ("invert", "invert_vartime"):
            return self(inner.args[1]).inv()
        raise Unknown(f"{t!r}"[:120])

    def exponent(self, t):
        while t.op in ("cast", "into") or (t.op == "seq" and len(t.args) == 1) or (t.op == "tuple" and len(t.args) == 1):
            t = t.args[-1] if t.op == "into" else t.args[0]
        if t.op == "seq" and t.args and all(x is lit(0) for x in t.args[1:]):
            t = t.args[0]
        if t.op == "lit" and t.args[0].isdigit():
            return int(t.args[0])
        raise Unknown(f"exponent {t!r}"[:120])


# ------------------------------------------------------------------ reference meaning
class Seg:
    def __init__(self):
        self.gates = 0
        self.cons = []


class Meaning:
    """What a circuit with its outputs means: segments in the order they are entered, gates numbered
    within a segment, and constraints as linear forms over gate wires ("a", segment, gate)."""

    def __init__(self, ops, outs, coeffs):
        self.k = coeffs
        self.segs = []
        env = {}
        s = self.seg()
        self.wit = {}
        self.system = self.gate(s)
        env.update(zip(("sa", "sb", "sc", "sd"), self.system))
        self.order = []
        self.allocs = []
        spare = [None]
        self.body(ops, env, s, spare)
        for op in ops:
            if op[0] == "onwrite":
                self.body(op[1], {}, s, spare, "w.")
        for o in outs:
            self.segs[s].cons.append(self.form(env[o]))
        self.segs[s].cons.append(self.one())
        self.outs = [env[o] for o in outs]
        self.env = env

    def one(self):
        return {("b", 0, 0): L.const(1)}

    def seg(self):
        self.segs.append(Seg())
        return len(self.segs) - 1

    def gate(self, s):
        g = self.segs[s].gates
        self.segs[s].gates += 1
        return [{(w, s, g): L.const(1)} for w in "abcd"]

    def form(self, w):
        return dict(w)

    def lc(self, lc, env):
        f, gain = {}, L.const(1)
        for x in lc:
            if x[0] == "g":
                gain = gain * self.k(x[1])
            else:
                c = gain * self.k(x[2])
                w = self.one() if x[1] == "ONE" else env[x[1]]
                for a, v in w.items():
                    f[a] = f.get(a, L()) + c * v
        return {a: v for a, v in f.items() if not v.zero()}

    def note(self, w, name):
        """The wire w carries the witness value of that name."""
        (a, _), = w.items()
        self.wit[a] = L.atom("v_" + name)

    def body(self, ops, env, s, spare, path=""):
        calls = 0
        for op in ops:
            k = op[0]
            if k in ("gate", "mul"):
                ws = self.gate(s)[: len(op[1])]
                env.update(zip(op[1], ws))
                for i, w in enumerate(ws):
                    self.note(w, f"{path}{'.'.join(op[1])}_{i}")
            elif k == "alloc":
                if spare[0] is not None:
                    env[op[1]], spare[0] = spare[0], None
                else:
                    g = self.gate(s)
                    env[op[1]], spare[0] = g[1], g[3]
                self.note(env[op[1]], path + op[1])
            elif k == "add":
                env[op[1]] = self.lc(op[2], env)
            elif k == "const":
                env[op[1]] = self.lc([("t", "ONE", op[2])], env)
            elif k == "zero":
                self.segs[s].cons.append(self.lc(op[1], env))
            elif k == "eq":
                self.segs[s].cons.append(self.lc([("t", op[1], "1"), ("t", op[2], "-1")], env))
            elif k == "fail":
                raise Unknown("this circuit fails")
            elif k == "routine":
                _, ins, ops2, outs, ws = op
                s2 = self.seg()
                e2 = {f"i{n}": env[w] for n, w in enumerate(ins)}
                calls += 1
                self.body(ops2, e2, s2, [None], f"{path}r{calls}.")
                for w, o in zip(ws, outs):
                    env[w] = e2[o]

    def plan(self):
        """(gate_start, constraint_start) of every segment."""
        out, g, c = [], 0, 0
        for s in self.segs:
            out.append((g, c))
            g += s.gates
            c += len(s.cons)
        return out

    def terms(self):
        """(wire letter, gate index, constraint index, coefficient) of the whole wiring polynomial."""
        plan = self.plan()
        for (g0, c0), s in zip(plan, self.segs):
            for j, f in enumerate(s.cons):
                q = c0 + len(s.cons) - 1 - j
                for (w, s2, g), v in f.items():
                    yield w, plan[s2][0] + g, q, v

    def monomial(self, w, g, n):
        return {"a": 2 * n - 1 - g, "b": 2 * n + g, "c": 4 * n - 1 - g, "d": g}[w]

    def sxy(self, n):
        r = L()
        for w, g, q, v in self.terms():
            r = r + v * L.atom("x", self.monomial(w, g, n)) * (L.atom("y", q) if q else L.const(1))
        return r

    def sx(self, n):
        """Coefficients of powers of y."""
        out = {}
        for w, g, q, v in self.terms():
            out[q] = out.get(q, L()) + v * (L.atom("x", self.monomial(w, g, n)) if self.monomial(w, g, n) else L.const(1))
        return out

    def sy(self):
        """Coefficients of wires, as polynomials in y."""
        out = {}
        for w, g, q, v in self.terms():
            out[w, g] = out.get((w, g), L()) + v * (L.atom("y", q) if q else L.const(1))
        return out


# ------------------------------------------------------------------ composing with the code
class Machine:
    """Runs a circuit against the driver operations of one interpreter."""

    def __init__(self, rep, ops, outs, coeffs, rank=6, types=None):
        self.rep, self.prog = rep, rep.prog
        self.ops, self.outs = ops, outs
        self.k = coeffs
        self.lcs = {}
        self.routines = {}
        self.rank = rank
        self.hooks = {
            "const:RANK": lit(rank),
            "eval_consts": True,
            "err_returns": True,
            "unroll": 4096,
            "ragu_core::gadgets::GadgetKind::map_gadget": self.map_gadget,
            "ragu_core::gadgets::Gadget::map": self.gmap,
            "ragu_primitives::io::Write::write_gadget": self.write_gadget,
            "ragu_primitives::GadgetExt::write": self.write_gadget,
            "ragu_circuits::polynomials::Rank::n": self.provided,
            "ragu_circuits::polynomials::Rank::num_coeffs": self.provided,
            "ragu_circuits::polynomials::Rank::log2_n": self.provided,
            "ragu_primitives::GadgetExt::sendable": self.provided,
            "ragu_circuits::staging::StageExt::num_gates": self.provided,
            "ragu_circuits::staging::Stage::skip_gates": self.provided,
            "ragu_core::routines::Routine::execute": self.execute,
            "ragu_core::routines::Routine::predict": self.predict,
            "ragu_circuits::raw::RawCircuit::witness": self.raw,
            "ragu_circuits::Circuit::witness": self.circuit,
            "core::cell::RefCell::new": self.cell,
            "core::cell::Cell::new": self.cell,
            "core::cell::RefCell::borrow_mut": lambda fl, e, fr, p, a: self.inside(fl, a[0]),
            "core::cell::RefCell::borrow": lambda fl, e, fr, p, a: self.inside(fl, a[0]),
            "core::cell::RefCell::get_mut": lambda fl, e, fr, p, a: self.inside(fl, a[0]),
            "core::cell::RefCell::into_inner": lambda fl, e, fr, p, a: fl.val(self.inside(fl, a[0])),
        }
        for n in ("add", "sub", "extend", "add_term", "gain"):
            self.hooks[f"{LEX}::{n}"] = self.linexp
        self.trace = []
        self.onwrite = []
        self.known = lambda sub: False

    def cell(self, fl, e, fr, path, args):
        """Shared mutable contents: a place of their own, however the cell is borrowed."""
        root = f"cell:*{len(fl.env)}"
        fl.env[root] = fl.val(args[0])
        return T("cell", root)

    def inside(self, fl, v):
        v = fl.val(v)
        if v.op != "cell":
            raise Unknown("cell")
        return T("ref", v.args[0], ())

    def flow(self):
        fl = Flow(self.prog, hooks=self.hooks)
        fl.maxdepth = 80
        fl.recurse = True
        fl.budget = 400_000
        return fl

    # -- calling the code
    def bodies(self, head, trait, name):
        """(Fn, tsub) of head's trait::name, the provided body included."""
        c = self.prog.fns.get(f"<{head} as {trait}>::{name}", [])
        if len(c) == 1:
            return c[0], {}
        f = self.prog.fn(f"{trait}::{name}")
        if f is None or f.broken:
            raise Unknown(f"{head} has no {name}")
        ty = next(i["self_ty"] for i in self.prog.impl_of[(trait, head)])
        return f, {"Self": ty}

    def call(self, fl, fr, fn, args, sub=None):
        fl.visited[fn.path] = fn
        new = Frame(fn, sub or {})
        v = fl.call_body(new, fn.body, args)
        return v

    def drive(self, fl, fr, head, name, args):
        fn, sub = self.bodies(head, DRV if name not in ("gate",) else DRT, name)
        return self.call(fl, fr, fn, args, sub)

    def un(self, fl, fr, v):
        """The value of a fallible operation, or a failure that ends the circuit."""
        if v is NEVER:
            raise Stopped(None)
        v = fl.val(v)
        r = fl.tryval(v)
        if r is NEVER:
            raise Stopped(v)
        if r.op == "try":
            raise Unknown(f"fallible {v!r}"[:100])
        return r

    def coeff(self, k):
        return coeff_term(k)

    def lc(self, lc):
        """A callable that builds the linear combination lc, with wires resolved in env."""
        n = f"verif::lc{len(self.lcs)}"
        self.lcs[n] = lc

        def h(fl, e, fr, path, args):
            cur = args[0]
            head = fl.val(cur)
            head = head.args[0] if head.op == "adt" else "ragu_core::drivers::linexp::LinearExpression"
            terms = self.lcs[n]
            for x in terms:
                if x[0] == "g":
                    fn, sub = self.bodies(head, LEX, "gain")
                    cur = self.call(fl, fr, fn, [cur, self.coeff(x[1])], sub)
                else:
                    fn, sub = self.bodies(head, LEX, "add_term")
                    cur = self.call(fl, fr, fn, [cur, x[1], self.coeff(x[2])], sub)
            return cur

        self.hooks[n] = h
        return T("fnref", n, n, "")

    def closure(self, v):
        """A callable yielding v without effect."""
        n = f"verif::k{len(self.lcs)}"
        self.lcs[n] = v
        self.hooks[n] = lambda fl, e, fr, path, args: v
        return T("fnref", n, n, "")

    def witness(self, name, k):
        """The witness closure of an operation; interpreters without witnesses must not use it."""
        n = f"verif::w{len(self.lcs)}"
        self.lcs[n] = name

        def h(fl, e, fr, path, args):
            vals = [T("adt", COEFF, "Arbitrary", (("0", T("param", f"v_{name}_{i}" if k > 1 else f"v_{name}")),)) for i in range(k)]
            self.trace.append(("witness", name))
            return ok1(T("tuple", *vals) if k > 1 else vals[0])

        self.hooks[n] = h
        return T("fnref", n, n, "")

    # -- the circuit
    def head_of(self, fl, dr):
        v = fl.val(dr)
        while v.op == "ref":
            v = fl.val(v)
        while v.op in ("with", "withv"):
            v = v.args[0]
        if v.op != "adt":
            raise Unknown(f"driver {v!r}"[:100])
        return v.args[0]

    def one(self, fl, head):
        """The interpreter's constant-one wire, from the initializer of its constant."""
        c = self.prog.consts.get(f"<{head} as {DRV}>::ONE")
        if c is None:
            raise Unknown("ONE")
        from flow import constant

        if isinstance(c.get("cv"), (dict, list)):
            return constant(c["cv"])
        if c.get("body") and "e" in c["body"]:
            return fl.constbody(c, fl.stack[-1])
        raise Unknown("ONE")

    def clone(self, fl, fr, w):
        if w.op == "adt":
            f = self.prog.fns.get(f"<{w.args[0]} as core::clone::Clone>::clone", [])
            if len(f) == 1 and not f[0].derived:
                return self.call(fl, fr, f[0], [w])
        return w

    def drop(self, fl, fr, w):
        if w.op == "adt":
            f = self.prog.fns.get(f"<{w.args[0]} as core::ops::Drop>::drop", [])
            if len(f) == 1:
                n = f"{fr.id}:dropped{len(fl.env)}"
                fl.env[n] = w
                self.call(fl, fr, f[0], [T("ref", n, ())])

    def own(self, fl, fr, w):
        """fr's value drops w unless it moves it on."""
        if w.op == "adt" and f"<{w.args[0]} as core::ops::Drop>::drop" in self.prog.fns:
            fr.owned.append((w, lambda x: self.drop(fl, fr, x)))

    def body(self, fl, fr, dr, ops, env, outs, path=""):
        """The operations in order; every wire that does not leave is dropped at the end."""
        head = self.head_of(fl, dr)
        one = self.one(fl, head)

        def wire(n):
            return one if n == "ONE" else env[n]

        def lcw(lc):
            return self.lc([x if x[0] == "g" else ("t", wire(x[1]), x[2]) for x in lc])

        calls = 0
        for n, op in enumerate(ops):
            k = op[0]
            if k in ("gate", "mul"):
                r = self.un(fl, fr, self.drive(fl, fr, head, k, [dr, self.witness(path + ".".join(op[1]), len(op[1]))]))
                for i, w in enumerate(op[1]):
                    env[w] = fl.val(fl.field(fl.val(r), str(i)))
            elif k == "alloc":
                env[op[1]] = fl.val(self.un(fl, fr, self.drive(fl, fr, head, "alloc", [dr, self.witness(path + op[1], 1)])))
            elif k == "add":
                env[op[1]] = fl.val(self.drive(fl, fr, head, "add", [dr, lcw(op[2])]))
            elif k == "const":
                env[op[1]] = fl.val(self.drive(fl, fr, head, "constant", [dr, self.coeff(op[2])]))
            elif k == "zero":
                self.un(fl, fr, self.drive(fl, fr, head, "enforce_zero", [dr, lcw(op[1])]))
            elif k == "eq":
                self.un(fl, fr, self.drive(fl, fr, head, "enforce_equal", [dr, wire(op[1]), wire(op[2])]))
            elif k == "routine":
                _, ins, ops2, outs2, ws = op
                calls += 1
                name = f"verif::routine{len(self.routines)}"
                self.routines[name] = (ops2, outs2, f"{path}r{calls}.")
                inp = T("tuple", *[self.clone(fl, fr, wire(w)) for w in ins])
                r = self.un(fl, fr, self.drive(fl, fr, head, "routine", [dr, T("named", name), inp]))
                r = fl.val(r)
                for i, w in enumerate(ws):
                    env[w] = fl.val(fl.field(r, str(i)))
            elif k == "drop":
                self.drop(fl, fr, env.pop(op[1]))
            elif k == "onwrite":
                self.onwrite = op[1]
            elif k == "fail":
                raise Stopped(T("adt", "core::result::Result", "Err", (("0", T("param", "failure")),)))
        res = []
        kept = set()
        for o in outs:
            if o in kept:
                res.append(self.clone(fl, fr, env[o]))
            else:
                res.append(env[o])
            kept.add(o)
        for w in list(env):
            if w not in kept:
                self.drop(fl, fr, env[w])
        return T("tuple", *res)

    def raw(self, fl, e, fr, path, args):
        circuit, dr, sysg, wit = args
        env = {}
        sysg = fl.val(sysg)
        for n, w in zip(("a", "b", "c", "d"), ("sa", "sb", "sc", "sd")):
            env[w] = fl.val(fl.field(sysg, n))
        return self.failing(self.done, fl, fr, dr, env)

    def circuit(self, fl, e, fr, path, args):
        return self.failing(self.done, fl, fr, args[1], {})

    def failing(self, f, *args, unit=False):
        """What circuit code returns: f's value, or the failure that ended it."""
        try:
            v = f(*args)
        except Stopped as s:
            if s.v is None:
                raise
            return s.v
        return ok1(UNIT if unit else v)

    def done(self, fl, fr, dr, env):
        out = self.body(fl, fr, dr, self.ops, env, self.outs)
        for w in out.args:
            self.own(fl, fr, w)
        wa = self.prog.fn("ragu_circuits::WithAux::new")
        return self.call(fl, fr, wa, [out, T("maybe", T("param", "aux"))])

    def linexp(self, fl, e, fr, path, args):
        """A linear-expression method on a type parameter, found by the value's type."""
        v = fl.val(args[0])
        if v.op != "adt":
            return None
        name = e.get("fn", path).split("::")[-1]
        fn, sub = self.bodies(v.args[0], LEX, name)
        return self.call(fl, fr, fn, args, sub)

    def provided(self, fl, e, fr, path, args):
        f = self.prog.fn(e.get("fn", path))
        return self.call(fl, fr, f, args) if f is not None and not f.broken else None

    def execute(self, fl, e, fr, path, args):
        ro, dr, inp, aux = args[:4]
        ro = fl.val(ro)
        if ro.op != "named" or ro.args[0] not in self.routines:
            return None
        ops, outs, sub = self.routines[ro.args[0]]
        inp = fl.val(inp)
        if inp.op != "tuple":
            raise Unknown(f"input of a routine: {inp!r}"[:120])
        env = {f"i{i}": fl.val(w) for i, w in enumerate(inp.args)}
        self.trace.append(("execute", sub, fl.deref_all(fl.val(aux)) if aux is not NEVER else None))
        return self.failing(self.body, fl, fr, dr, ops, env, outs, sub)

    def predict(self, fl, e, fr, path, args):
        """What the routine predicts: its auxiliary data, and its outputs when they are known."""
        ro = fl.val(args[0])
        if ro.op != "named" or ro.args[0] not in self.routines:
            return None
        ops, outs, sub = self.routines[ro.args[0]]
        aux = T("param", "aux_" + sub)
        self.trace.append(("predict", sub))
        if self.known(sub):
            v = T("adt", PREDICTION, "Known", (("0", T("tuple", *[UNIT] * len(outs))), ("1", aux)))
        else:
            v = T("adt", PREDICTION, "Unknown", (("0", aux),))
        return ok1(v)

    # -- gadgets are tuples of wires
    def map_gadget(self, fl, e, fr, path, args):
        g, wm = fl.val(args[0]), args[1]
        if g.op != "tuple":
            return None
        v = fl.val(wm)
        while v.op in ("with", "withv", "ref"):
            v = v.args[0] if v.op != "ref" else fl.val(v)
        fn, sub = self.bodies(v.args[0], "ragu_core::convert::WireMap", "convert_wire")
        out = []
        for w in g.args:
            out.append(fl.val(self.un(fl, fr, self.call(fl, fr, fn, [wm, w], sub))))
        return ok1(T("tuple", *out))

    def gmap(self, fl, e, fr, path, args):
        return self.map_gadget(fl, e, fr, path, args)

    def write_gadget(self, fl, e, fr, path, args):
        g, dr, buf = fl.val(args[0]), args[1], args[2]
        if g.op != "tuple":
            return None
        if fl.val(buf) is UNIT:
            return self.failing(self.body, fl, fr, dr, self.onwrite, {}, [], "w.", unit=True)
        for w in g.args:
            el = T("adt", ELEMENT, "Element", (("value", T("maybe", T("param", "v"))), ("wire", self.clone(fl, fr, w))))
            cur = fl.val(buf)
            if cur.op != "seq" or buf.op != "ref":
                raise Unknown("outputs buffer")
            fl.write(buf.args[0], buf.args[1], T("seq", *cur.args, el))
            owner = [f for f in fl.stack if str(f.id) == buf.args[0].split(":")[0]]
            if owner:
                self.own(fl, owner[0], fl.field(el, "wire"))
        return self.failing(self.body, fl, fr, dr, self.onwrite, {}, [], "w.", unit=True)


class Stopped(Exception):
    """A driver operation failed (v is the error) or did not return (None)."""

    def __init__(self, v):
        self.v = v


def ok1(v):
    return T("adt", "core::result::Result", "Ok", (("0", v),))


def coeff_term(k):
    """Coefficient of the script: "0", "1", "2", "-1", "p" (Arbitrary p) or "-p"."""
    for n, v in (("0", "Zero"), ("1", "One"), ("2", "Two"), ("-1", "NegativeOne")):
        if k == n:
            return T("adt", COEFF, v, ())
    if k.startswith("-"):
        return T("adt", COEFF, "NegativeArbitrary", (("0", T("param", k[1:])),))
    return T("adt", COEFF, "Arbitrary", (("0", T("param", k)),))


def coeff_l(k):
    if k.lstrip("-").isdigit():
        return L.const(int(k))
    return -L.atom(k[1:]) if k.startswith("-") else L.atom(k)


# ------------------------------------------------------------------ the interpreters
PATHS = {
    "metrics": "ragu_circuits::metrics::eval_raw",
    "plan": "ragu_circuits::floor_planner::floor_plan",
    "sxy": "ragu_circuits::s::sxy::eval",
    "sx": "ragu_circuits::s::sx::eval",
    "sy": "ragu_circuits::s::sy::eval",
    "trace": "ragu_circuits::trace::eval",
    "assemble": "ragu_circuits::trace::Trace::assemble",
    "object": "ragu_circuits::into_circuit_object",
}
SPARSE = "ragu_circuits::polynomials::sparse::"


class Composed:
    """One circuit under every interpreter."""

    def __init__(self, rep, name, ops, outs, rank=6):
        self.rep, self.name, self.ops, self.outs, self.rank = rep, name, ops, outs, rank
        self.n = 1 << (rank - 2)
        try:
            self.m = Meaning(ops, outs, coeff_l)
        except Unknown:
            self.m = None
        self._plan = None

    def machine(self, **hooks):
        m = Machine(self.rep, self.ops, self.outs, coeff_l, self.rank)
        m.hooks[SPARSE + "Polynomial::from_coeffs"] = lambda fl, e, fr, p, a: T("coeffs", fl.deref_all(a[0]))
        m.hooks[SPARSE + "view::View::build"] = lambda fl, e, fr, p, a: T("built", fl.deref_all(a[0]))
        m.hooks["ragu_arithmetic::low_u64"] = lambda fl, e, fr, p, a: T("low", fl.deref_all(a[0]))
        m.hooks["core::any::TypeId::of"] = lambda fl, e, fr, p, a: T("typeid", str(fl.subst(fr.fn.types[e["targs"][0]], fr)) if e.get("targs") else "?")
        m.hooks.update(hooks)
        return m

    def run(self, which, *pos, machine=None):
        """Every outcome of the interpreter: (conditions, value or None when it does not return normally)."""
        fn = self.rep.need(PATHS[which])
        if fn is None:
            return None
        m = machine or self.machine()
        fl = m.flow()
        try:
            nodes, v = fl.run(fn, pos=list(pos))
        except Stopped as s:
            nodes, v = [], (NEVER if s.v is None else s.v)
        self.rep.seen(fn, *fl.visited.values())
        self.rep.sites += sum(1 for n in flat(nodes) if n.kind == "ev")
        self.last = m
        if v is NEVER:
            return []
        lv = leaves(fl.deref_all(v))
        if lv is None:
            raise Unknown("too many outcomes")
        return lv

    def metrics(self):
        lv = self.run("metrics", T("param", "circuit"))
        if not lv:
            return None
        return lv

    def plan(self):
        if self._plan is None:
            lv = self.metrics()
            if not lv or len(lv) != 1:
                raise Unknown("metrics")
            t = unresult(lv[0][1])
            segs = next((x for n, x in t.args[2] if x.op == "seq"), None)
            if segs is None:
                raise Unknown("segments")
            self.records = segs
            lv = self.run("plan", segs)
            if not lv or len(lv) != 1 or lv[0][1].op != "seq":
                raise Unknown("floor plan")
            self._plan = lv[0][1]
        return self._plan


def at(conds):
    """Which points an outcome speaks about: {"x": True/False (zero or not), "y": ..}; None if a
    condition is not such a one."""
    out = {}
    for c, v in conds.items():
        neg = v is FALSE
        while c.op == "un" and c.args[0] == "Not":
            c, neg = c.args[1], not neg
        p = None
        if c.op == "bin" and c.args[0] in ("Eq", "Ne"):
            a, b = c.args[1], c.args[2]
            if a.op != "param":
                a, b = b, a
            if a.op == "param" and b.op == "named" and b.args[0].endswith("::ZERO"):
                p = a.args[0]
                neg ^= c.args[0] == "Ne"
        else:
            while c.op in ("into", "cast") or c.op == "call" and c.args[0].split("::")[-1] in ("from", "into", "unwrap_u8"):
                c = c.args[-1]
            if c.op == "call" and c.args[0].split("::")[-1] in ("is_zero", "is_zero_vartime") and c.args[-1].op == "param":
                p = c.args[-1].args[0]
        if p is None:
            return None
        out[p] = not neg
    return out


def restrict(p, z):
    """A polynomial at the points where the given atoms vanish."""
    return L({k: v for k, v in p.m.items() if not any(z.get(a) for a, e in k)})


# ------------------------------------------------------------------ the trace
class Trace:
    """Hooks for the trace interpreter: ordering of literal keys, and tasks that run at an arbitrary
    later time, their messages arriving in an arbitrary order."""

    def __init__(self, m, lifo=False, early=False):
        self.m, self.lifo, self.early = m, lifo, early
        self.chans = {}
        self.tasks = []
        ORD = "core::cmp::Ordering"

        def key(t):
            if t.op == "lit" and t.args[0].lstrip("-").isdigit():
                return int(t.args[0])
            if t.op in ("seq", "tuple") and all(x.op not in ("each", "splice") for x in t.args):
                return tuple(key(x) for x in t.args)
            raise Unknown(f"order of {t!r}"[:80])

        def order(n):
            return T("adt", ORD, "Less" if n < 0 else "Greater" if n > 0 else "Equal", ())

        def cmp(fl, e, fr, p, a):
            x, y = key(fl.deref_all(fl.val(a[0]))), key(fl.deref_all(fl.val(a[1])))
            return order((x > y) - (x < y))

        def sort(fl, e, fr, p, a):
            from functools import cmp_to_key

            name = p.split("::")[-1]
            cur = fl.val(a[0])
            if a[0].op != "ref" or cur.op != "seq" or any(x.op in ("each", "splice") for x in cur.args):
                raise Unknown("sort")
            if name.endswith("_by"):
                def c(x, y):
                    r = fl.deref_all(fl.val(fl.apply(a[1], [x, y])))
                    if r.op != "adt" or r.args[0] != ORD:
                        raise Unknown(f"order {r!r}"[:80])
                    return {"Less": -1, "Equal": 0, "Greater": 1}[r.args[1]]

                xs = sorted(cur.args, key=cmp_to_key(c))
            else:
                k = (lambda x: key(fl.deref_all(fl.val(fl.apply(a[1], [x]))))) if "key" in name else lambda x: key(fl.deref_all(x))
                xs = sorted(cur.args, key=k)
            fl.write(a[0].args[0], a[0].args[1], T("seq", *xs))
            return UNIT

        def reverse(fl, e, fr, p, a):
            t = fl.val(a[0])
            if t.op == "adt" and t.args[0] == ORD:
                return T("adt", ORD, {"Less": "Greater", "Greater": "Less"}.get(t.args[1], "Equal"), ())
            return None

        def channel(fl, e, fr, p, a):
            n = f"chan{len(self.chans)}"
            self.chans[n] = []
            return T("tuple", T("tx", n), T("rx", n))

        def send(fl, e, fr, p, a):
            tx = fl.val(a[0])
            self.chans[tx.args[0]].append(fl.deref_all(fl.val(a[1])) if a[1] is not NEVER else NEVER)
            return ok1(UNIT)

        def recv(fl, e, fr, p, a):
            rx = fl.val(a[0])
            if rx.op != "rx":
                return None
            xs = self.chans[rx.args[0]]
            return T("seq", *(reversed(xs) if self.lifo else xs))

        def scope(fl, e, fr, p, a):
            r = fl.apply(a[0], [T("param", "scope")])
            self.drain(fl)
            return r

        def spawn(fl, e, fr, p, a):
            if self.early:
                fl.apply(a[-1], [T("param", "scope")])
            else:
                self.tasks.append(a[-1])
            return UNIT

        h = m.hooks
        for n in ("sort", "sort_by", "sort_by_key", "sort_unstable", "sort_unstable_by", "sort_unstable_by_key", "sort_by_cached_key"):
            h[f"[T]::{n}"] = sort
        h["core::cmp::Ord::cmp"] = cmp
        h["core::cmp::PartialOrd::partial_cmp"] = lambda fl, e, fr, p, a: T("adt", "core::option::Option", "Some", (("0", cmp(fl, e, fr, p, a)),))
        h["core::cmp::Ordering::reverse"] = reverse
        h["std::sync::mpsc::channel"] = channel
        h["std::sync::mpsc::Sender::send"] = send
        h["items"] = lambda src: (list(reversed(self.chans[src.args[0]])) if self.lifo else list(self.chans[src.args[0]])) if src.op == "rx" else None
        h["std::sync::mpsc::Receiver::iter"] = recv
        h["std::sync::mpsc::Receiver::try_iter"] = recv
        for c in ("maybe_rayon", "rayon", "rayon_core", "rayon_core::scope", "rayon::scope", "maybe_rayon::scope"):
            h[f"{c}::scope"] = scope
            h[f"{c}::Scope::spawn"] = spawn
            h[f"{c}::in_place_scope"] = scope

    def drain(self, fl):
        while self.tasks:
            t = self.tasks.pop(-1 if self.lifo else 0)
            fl.apply(t, [T("param", "scope")])
