"""The internal circuits, evaluated over wires: what each constrains, absorbs, squeezes and outputs.

Every operation of a field-element gadget is its value, as a polynomial over allocated wires; what is enforced is recorded
with the facts it is enforced under.  The circuits' own code is composed as it stands."""
from alg import Poly
from pcd import *

EL = "ragu_primitives::element::Element"
BO = "ragu_primitives::boolean::Boolean"
SPG = "ragu_primitives::poseidon::Sponge"
SST = "ragu_primitives::poseidon::SpongeState"
SB = "ragu_circuits::staging::builder::StageBuilder::"
SG = "ragu_circuits::staging::builder::StageGuard::"
NC = "ragu_pcd::internal::native::circuits::"
NS = "ragu_pcd::internal::native::stages::"
MSC = "ragu_circuits::staging::MultiStageCircuit"
STG = "ragu_circuits::staging::Stage"
POINT = "ragu_primitives::point::Point"
ENDO = "ragu_primitives::endoscalar::Endoscalar::"
FP = "ragu_pcd::internal::native::RevdotParameters"
WITHAUX = "ragu_circuits::circuit::WithAux"
WIRES = ("hashes_1", "hashes_2", "inner_collapse", "outer_collapse", "compute_v")


def elem(w):
    return T("adt", ELEM, "Element", (("value", T("maybe", w)), ("wire", w)))


def boolean(w):
    return T("adt", BO, "Boolean", (("value", T("maybe", w)), ("wire", w)))


def wire(fl, x):
    """The wire of an element or boolean."""
    x = fl.deref_all(fl.val(x))
    if x.op == "adt" and x.args[0] in (ELEM, BO):
        return fl.deref_all(fl.val(dict(x.args[2])["wire"]))
    return T("wireof", x)


class Wires:
    """Hooks that read gadget operations as arithmetic over wires, with a record of everything enforced."""

    def __init__(self):
        self.enforced = []  # (kind, args…, facts)
        self.allocs = []
        self.stages = []  # (stage type, enforced, witness, output)
        self.log = []

    def new(self, what, *args):
        w = T("wire", len(self.allocs), what, *args)
        self.allocs.append(w)
        return w

    def record(self, fl, kind, *args):
        self.enforced.append((kind, args, facts_at(fl)))

    def hooks(self):
        def h_alloc(fl, e, fr, p, a):
            v = fl.deref_all(fl.val(a[-1]))
            return okay(elem(self.new("alloc", fl.deref_all(fl.val(v.args[0])) if v.op == "maybe" else v)))

        def bin_(op, ok=False):
            def h(fl, e, fr, p, a):
                x = T("bin", op, wire(fl, a[0]), wire(fl, a[2]))
                return okay(elem(x)) if ok else elem(x)

            return h

        def h_square(fl, e, fr, p, a):
            w = wire(fl, a[0])
            return okay(elem(T("bin", "Mul", w, w)))

        def h_neg(fl, e, fr, p, a):
            return elem(T("un", "Neg", wire(fl, a[0])))

        def h_const(v):
            def h(fl, e, fr, p, a):
                return elem(lit(v) if v is not None else T("konst", fl.deref_all(fl.val(a[1]))))

            return h

        def h_scale(fl, e, fr, p, a):
            return elem(T("bin", "Mul", wire(fl, a[0]), T("konst", fl.deref_all(fl.val(a[2])))))

        def h_addc(fl, e, fr, p, a):
            return elem(T("bin", "Add", wire(fl, a[0]), T("bin", "Mul", wire(fl, a[2]), T("konst", fl.deref_all(fl.val(a[3]))))))

        def h_inv(fl, e, fr, p, a):
            return okay(elem(T("inv", wire(fl, a[0]))))

        def h_div(fl, e, fr, p, a):
            return okay(elem(T("bin", "Mul", wire(fl, a[0]), T("inv", wire(fl, a[2])))))

        def h_value(fl, e, fr, p, a):
            return T("maybe", wire(fl, a[0]))

        def h_zero(fl, e, fr, p, a):
            self.record(fl, "zero", wire(fl, a[0]))
            return okay(UNIT)

        def h_eq(fl, e, fr, p, a):
            x, y = fl.deref_all(fl.val(a[0])), fl.deref_all(fl.val(a[2]))
            self.record(fl, "eq", x, y)
            return okay(UNIT)

        def h_eqk(fl, e, fr, p, a):
            return h_eq(fl, e, fr, p, [a[1], a[0], a[2]])

        def h_iszero(fl, e, fr, p, a):
            return okay(boolean(T("iszero", wire(fl, a[-1]))))

        def h_not(fl, e, fr, p, a):
            return boolean(T("bin", "Sub", lit(1), wire(fl, a[0])))

        def h_and(fl, e, fr, p, a):
            return okay(boolean(T("bin", "Mul", wire(fl, a[0]), wire(fl, a[2]))))

        def h_belem(fl, e, fr, p, a):
            return elem(wire(fl, a[0]))

        def h_cond(fl, e, fr, p, a):
            self.record(fl, "zero", T("bin", "Mul", wire(fl, a[0]), T("bin", "Sub", wire(fl, a[2]), wire(fl, a[3]))))
            return okay(UNIT)

        def h_sel(fl, e, fr, p, a):
            c, x, y = wire(fl, a[0]), wire(fl, a[2]), wire(fl, a[3])
            return okay(elem(T("bin", "Add", x, T("bin", "Mul", c, T("bin", "Sub", y, x)))))

        def h_root(fl, e, fr, p, a):
            self.record(fl, "root", wire(fl, a[0]), fl.deref_all(fl.val(a[2])))
            return okay(UNIT)

        def h_point(fl, e, fr, p, a):
            v = fl.deref_all(fl.val(a[-1]))
            v = fl.deref_all(fl.val(v.args[0])) if v.op == "maybe" else v
            x, y = self.new("x", v), self.new("y", v)
            return okay(T("adt", POINT, "Point", (("x", elem(x)), ("y", elem(y)))))

        # the sponge: the sequence of what it absorbed and squeezed
        def spot(fl, r):
            while r.op == "ref":
                v = fl.read(r.args[0], r.args[1])
                if v.op != "ref":
                    return r, fl.deref_all(v)
                r = v
            return None, fl.deref_all(fl.val(r))

        def s_new(fl, e, fr, p, a):
            return T("sponge")

        def s_absorb(fl, e, fr, p, a):
            r, h = spot(fl, a[0])
            if r is None or h.op != "sponge":
                return None
            fl.write(r.args[0], r.args[1], T("sponge", *h.args, T("absorbed", wire(fl, a[2]))))
            self.log.append(("absorb", h, wire(fl, a[2])))
            return okay(UNIT)

        def s_squeeze(fl, e, fr, p, a):
            r, h = spot(fl, a[0])
            if r is None or h.op != "sponge":
                return None
            fl.write(r.args[0], r.args[1], T("sponge", *h.args, T("squeezed")))
            self.log.append(("squeeze", h))
            return okay(elem(T("challenge", h)))

        def s_save(fl, e, fr, p, a):
            h = fl.deref_all(fl.val(a[0]))
            if h.op != "sponge":
                return None
            return okay(T("state", h))

        def s_resume(fl, e, fr, p, a):
            return T("sponge", T("resumed", fl.deref_all(fl.val(a[0]))))

        def s_elems(fl, e, fr, p, a):
            h = fl.deref_all(fl.val(a[0]))
            if h.op == "state":
                return T("seq", *[elem(T("stateword", h, lit(i))) for i in range(5)])
            return None

        # stages
        def b_add(used):
            def h(fl, e, fr, p, a):
                ts = [fl.subst(fr.fn.types[t], fr) for t in e.get("targs", []) if isinstance(t, int)]
                ty = ts[-1] if ts else None
                if ty is None:
                    return None
                self.types[ty.s] = ty
                self.order.append((ty.adt, used))
                return okay(T("tuple", T("guard", ty.s), T("builder")) if used else T("builder"))

            return h

        def b_fin(fl, e, fr, p, a):
            return T("param", "dr")

        def g_use(enforced):
            def h(fl, e, fr, p, a):
                g = fl.deref_all(fl.val(a[0]))
                if g.op != "guard":
                    return None
                ty = self.types[g.args[0]]
                v = stage_witness(fl, fr, ty, [UNIT, T("param", "dr"), a[2]])
                if v is None:
                    return None
                out = okay_of(fl, v)
                self.stages.append((ty.adt, enforced, fl.deref_all(fl.val(a[2])), out))
                return okay(out)

            return h

        self.types, self.order = {}, []

        def endo(name):
            def h(fl, e, fr, p, a):
                x = fl.deref_all(fl.val(a[-1] if name == "endo" else a[0]))
                if name == "endo":
                    return okay(T("endo", wire(fl, x)))
                return okay(elem(T("lift", x)))

            return h

        def routine(fl, e, fr, p, a):
            r = fl.deref_all(fl.val(a[1]))
            if r.op == "adt" and r.args[1] == "Evaluate":
                xz = fl.deref_all(fl.val(a[2]))
                if xz.op == "tuple":
                    return okay(elem(T("txz", *[wire(fl, x) for x in xz.args])))
            return None

        return {
            EL + "::alloc": h_alloc, EL + "::mul": bin_("Mul", True), EL + "::add": bin_("Add"), EL + "::sub": bin_("Sub"),
            EL + "::square": h_square, EL + "::negate": h_neg, EL + "::zero": h_const(0), EL + "::one": h_const(1), EL + "::constant": h_const(None),
            EL + "::scale": h_scale, EL + "::add_coeff": h_addc, EL + "::invert": h_inv, EL + "::invert_with": h_inv, EL + "::div_nonzero": h_div,
            EL + "::value": h_value, EL + "::enforce_zero": h_zero, "ragu_core::gadgets::Gadget::enforce_equal": h_eq, "ragu_core::gadgets::GadgetKind::enforce_equal_gadget": h_eqk,
            "ragu_primitives::boolean::is_zero": h_iszero, EL + "::is_zero": lambda fl, e, fr, p, a: h_iszero(fl, e, fr, p, a[:1]), EL + "::enforce_root_of_unity": h_root,
            BO + "::not": h_not, BO + "::and": h_and, BO + "::element": h_belem, BO + "::conditional_enforce_equal": h_cond, BO + "::conditional_select": h_sel,
            "ragu_primitives::point::Point::alloc": h_point, "ragu_primitives::point::Point::constant": h_point,
            SPG + "::new": s_new, SPG + "::absorb": s_absorb, SPG + "::squeeze": s_squeeze, SPG + "::save_state": s_save, SPG + "::resume": s_resume,
            SST + "::into_elements": s_elems,
            SB + "add_stage": b_add(True), SB + "skip_stage": b_add(False), SB + "finish": b_fin, SG + "unenforced": g_use(False), SG + "enforced": g_use(True),
            ENDO + "extract": endo("endo"), ENDO + "lift": endo("lift"), "ragu_core::drivers::Driver::routine": routine,
        }


def okay_of(fl, v):
    v = fl.deref_all(v)
    return v.args[2][0][1] if v.op == "adt" and v.args[1] == "Ok" else T("try", v)


def stage_witness(fl, fr, ty, args):
    """The gadget a stage's witness function allocates."""
    c = [f for f in fl.prog.fns.get(f"<{ty.adt} as {STG}>::witness", [])]
    if len(c) != 1:
        return None
    fn = c[0]
    sub = {}
    impl = fl.prog_impl(fn)
    for x, y in zip(impl["self_ty"].args, ty.args):
        if x.k == "param" and x.s != y.s:
            sub[x.s] = y
    new = type(fr)(fn, sub)
    fl.visited[fn.path] = fn
    save, fl.out = fl.out, []
    v = fl.call_body(new, fn.body, args)
    fl.out = save
    return v


class Native:
    """One internal circuit: its wires, what it enforces and what it outputs."""

    def __init__(self, rep, name, witness=None, me=None):
        self.rep, self.name = rep, name
        self.fn = rep.need(f"<{NC}{name}::Circuit as {MSC}>::witness", public=False)
        if self.fn is None:
            raise Odd(f"no circuit {name}")
        self.w = Wires()
        hooks = poly_hooks()
        hooks.update(std_hooks())
        hooks.update(buffers(rep.prog))
        hooks.update({"unroll": 512, "range": 512, "eval_consts": True, "const:HEADER_SIZE": lit(H), "const:T": lit(5)})
        hooks["ragu_circuits::registry::CircuitIndex::omega_j"] = omega
        hooks.update(self.w.hooks())
        self.fl = Flow(rep.prog, hooks=hooks)
        self.fl.maxdepth, self.fl.budget = 80, 4000000
        tsub = {}
        fp = next((i["self_ty"] for i in rep.prog.impls if i.get("trait") == "ragu_pcd::internal::fold_revdot::Parameters" and i["self_ty"].adt), None)
        if fp is not None:
            tsub["FP"] = fp
        args = [me or T("param", "self"), T("builder"), T("maybe", witness or T("param", "witness"))]
        self.nodes, v = self.fl.run(self.fn, pos=args, tsub=tsub)
        self.value = self.fl.deref_all(v)
        self.aborts = v is NEVER


def omega(fl, e, fr, p, a):
    return T("omega", fl.deref_all(fl.val(a[0])))


class Staged:
    """A stage's witness function, run on one witness: the wires of the gadget it allocates."""

    def __init__(self, rep, ty, witness):
        c = rep.prog.fns.get(f"<{ty.adt} as {STG}>::witness", [])
        if len(c) != 1:
            raise Odd(f"the stage {ty.s}")
        self.fn, self.w = c[0], Wires()
        hooks = poly_hooks()
        hooks.update(std_hooks())
        hooks.update(buffers(rep.prog))
        hooks.update({"unroll": 512, "range": 512, "eval_consts": True, "const:HEADER_SIZE": lit(H), "const:T": lit(5)})
        hooks["ragu_circuits::registry::CircuitIndex::omega_j"] = omega
        hooks.update(self.w.hooks())
        self.fl = Flow(rep.prog, hooks=hooks)
        self.fl.maxdepth, self.fl.budget = 80, 4000000
        impl = self.fl.prog_impl(self.fn)
        sub = {x.s: y for x, y in zip(impl["self_ty"].args, ty.args) if x.k == "param" and x.s != y.s}
        from flow import generic_args
        for a, b in zip(generic_args(impl["self_ty"].s), generic_args(ty.s)):
            if b.isdigit() and a not in sub:
                sub[a] = b
        self.nodes, v = self.fl.run(self.fn, pos=[UNIT, T("param", "dr"), T("maybe", witness)], tsub=sub)
        self.value = self.fl.deref_all(v)
        self.out = okay_of(self.fl, v)
