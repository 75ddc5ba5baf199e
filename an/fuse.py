"""The proof system's prover, `fuse`, evaluated to the proof it returns."""
from pcd import *

TR = "ragu_primitives::poseidon::Sponge::"
STATE = 5
INSTANCE = "ragu_pcd::internal::native::unified::Instance"


def sponge_hooks(log):
    """The sponge as the sequence of what it absorbed and squeezed."""

    def new(fl, e, fr, p, a):
        return T("sponge")

    def hist(fl, r):
        v = fl.deref_all(fl.val(r))
        return v if v.op == "sponge" else None

    def root(fl, r):
        while r.op == "ref":
            v = fl.read(r.args[0], r.args[1])
            if v.op != "ref":
                break
            r = v
        return r

    def absorb(fl, e, fr, p, a):
        h = hist(fl, a[0])
        if h is None or a[0].op != "ref":
            return None
        r = root(fl, a[0])
        x = fl.deref_all(fl.val(a[2]))
        log.append(("absorb", h, x))
        fl.write(r.args[0], r.args[1], T("sponge", *h.args, value_of(fl, x)))
        return okay(UNIT)

    def squeeze(fl, e, fr, p, a):
        h = hist(fl, a[0])
        if h is None or a[0].op != "ref":
            return None
        r = root(fl, a[0])
        c = T("challenge", h)
        log.append(("squeeze", h))
        fl.write(r.args[0], r.args[1], T("sponge", *h.args, T("squeezed")))
        return okay(T("adt", ELEM, "Element", (("value", T("maybe", c)), ("wire", c))))

    def save(fl, e, fr, p, a):
        h = hist(fl, a[0])
        return None if h is None else okay(T("state", h))

    def elems(fl, e, fr, p, a):
        h = fl.deref_all(fl.val(a[0]))
        if h.op != "state":
            return None
        ws = [T("stateword", h, lit(i)) for i in range(STATE)]
        return T("seq", *[T("adt", ELEM, "Element", (("value", T("maybe", w)), ("wire", w))) for w in ws])

    return {TR + "new": new, TR + "absorb": absorb, TR + "squeeze": squeeze, TR + "save_state": save, "ragu_primitives::poseidon::SpongeState::into_elements": elems}


def value_of(fl, x):
    if x.op == "adt" and x.args[0] == ELEM:
        d = dict(x.args[2])
        v = fl.deref_all(fl.val(d["value"]))
        return v.args[0] if v.op == "maybe" else v
    return x


class Fuse:
    def __init__(self, rep):
        self.fn = rep.need(APP + "::fuse")
        if self.fn is None:
            raise Odd("no prover")
        self.log, self.draws, self.drawn = [], [], {}
        hooks = poly_hooks()

        def rnd(fl, e, fr, p, a):
            return self.draw(fl.deref_all(fl.val(a[0])) if a else None)

        def pure(name, ok=False):
            def h(fl, e, fr, p, a):
                t = T(name, *[fl.deref_all(fl.val(x)) for x in a])
                return okay(t) if ok else t

            return h

        hooks["ff::Field::random"] = rnd
        hooks.update(sponge_hooks(self.log))
        hooks.update(std_hooks())
        hooks.update(buffers(rep.prog))
        hooks.update({"unroll": 512, "range": 512, "eval_consts": True, "const:HEADER_SIZE": lit(H)})
        hooks.update(self.more(rep))
        self.hooks = hooks
        self.fl = Flow(rep.prog, hooks=hooks)
        self.fl.maxdepth, self.fl.budget = 80, 4000000
        self.nodes, v = self.fl.run(self.fn)
        self.value = self.fl.deref_all(v) if v is not NEVER else v

    def draw(self, source):
        t = T("param", f"random{len(self.draws) + 1}")
        self.draws.append(t.args[0])
        self.drawn[t] = source
        return t

    def more(self, rep):
        def pure(name, ok=False, drop=()):
            def h(fl, e, fr, p, a):
                t = T(name, *[fl.deref_all(fl.val(x)) for i, x in enumerate(a) if i not in drop])
                return okay(t) if ok else t

            return h

        def same(fl, e, fr, p, a):
            return fl.deref_all(fl.val(a[0]))

        def advance(fl, e, fr, p, a):
            # iterators advanced together by a loop: each stands for its current term
            r = a[0]
            while r.op == "ref":
                r = fl.read(r.args[0], r.args[1])
            if r.op == "index" and r.args[0].op == "phi" and r.args[1].op == "lit" and len(r.args[0].args) == 3:
                init = fl.deref_all(fl.val(r.args[0].args[2]))
                items = init.args if init.op == "seq" else ()
                k = int(r.args[1].args[0])
                it = fl.deref_all(fl.val(items[k])) if k < len(items) else None
                if it is not None and it.op == "factored":
                    self.advanced[r] = self.advanced.get(r, 0) + 1
                    return T("adt", "core::option::Option", "Some", (("0", T("term", it)),))
            return None

        def normalize(fl, e, fr, p, a):
            src, dst = fl.deref_all(fl.val(a[0])), a[1]
            while dst.op == "ref":
                v = fl.read(dst.args[0], dst.args[1])
                if v.op != "ref":
                    break
                dst = v
            if dst.op != "ref" or src.op != "seq":
                return None
            fl.write(dst.args[0], dst.args[1], src)
            return UNIT

        self.advanced = {}
        self.stages, self.traces, self.assembled, self.types = [], [], [], {}

        def rx(fl, e, fr, p, a):
            t = T("stage_rx", self.self_ty(fl, e, fr), *[fl.deref_all(fl.val(x)) for x in a])
            self.stages.append(t)
            return okay(t)

        def trace(fl, e, fr, p, a):
            c, w = fl.deref_all(fl.val(a[0])), fl.deref_all(fl.val(a[1]))
            t = T("trace", c, w)
            self.traces.append(t)
            return okay(T("adt", "ragu_circuits::circuit::WithAux", "WithAux", (("output", t), ("aux", self.aux(fl, c, w, t)))))

        def assemble(fl, e, fr, p, a):
            t = T("assembled", *[fl.deref_all(fl.val(x)) for x in a[:3]], self.draw(fl.deref_all(fl.val(a[3]))))
            self.assembled.append(t)
            return okay(t)

        def blinded(fl, e, fr, p, a):
            t = T("assembled", *[fl.deref_all(fl.val(x)) for x in a[:4]])
            self.assembled.append(t)
            return okay(t)

        return {
            RG + "assemble_with_alpha": blinded,
            "ragu_circuits::staging::StageExt::rx": rx, "ragu_circuits::CircuitExt::trace": trace, RG + "assemble": assemble,
            RG + "at": pure("reg_at"), "ragu_circuits::registry::RegistryAt::x": pure("reg_wx"), "ragu_circuits::registry::RegistryAt::y": pure("reg_wy"),
            RG + "xy": pure("reg_xy"), SP + "commit": pure("commit"), SP + "from_coeffs": pure("coeffs"), "ragu_arithmetic::batch_to_affine": same,
            "ragu_arithmetic::util::batch_to_affine": same, "ragu_arithmetic::mul": pure("msm"), "ragu_arithmetic::util::mul": pure("msm"),
            "ragu_arithmetic::factor_iter": pure("factored"), "ragu_arithmetic::util::factor_iter": pure("factored"),
            "ragu_circuits::registry::CircuitIndex::omega_j": pure("omega"),
            SP + "iter_coeffs": pure("coeffs_of"), "core::iter::Iterator::next": advance, "group::Curve::batch_normalize": normalize,
            "group::prime::PrimeCurveAffine::to_curve": same, "group::WnafBase::new": same, "group::WnafScalar::new": same,
            "group::wnaf::WnafBase::new": same, "group::wnaf::WnafScalar::new": same,
            "ragu_primitives::extract_endoscalar": pure("endo"), "ragu_primitives::lift_endoscalar": pure("lift"),
            "ragu_primitives::endoscalar::extract_endoscalar": pure("endo"), "ragu_primitives::endoscalar::lift_endoscalar": pure("lift"),
        }

    def self_ty(self, fl, e, fr):
        """The stage whose `rx` is called: the trait's Self, the first type argument."""
        ts = [fl.subst(fr.fn.types[t], fr) for t in e.get("targs", []) if isinstance(t, int)]
        if not ts:
            return T("lit", "")
        self.types[ts[0].s] = ts[0]
        return T("lit", ts[0].s)

    def aux(self, fl, c, w, t):
        """An internal circuit hands on the instance it was given, marked with what it covered."""
        if w.op == "adt":
            for k, x in w.args[2]:
                x = fl.deref_all(fl.val(x))
                if x.op == "adt" and x.args[0] == INSTANCE:
                    return T("adt", INSTANCE, x.args[1], tuple((k, y if k != "coverage" else T("covered", t)) for k, y in x.args[2]))
        return T("aux", t)


def solid(fl, t, memo=None):
    """The term with every reference followed."""
    memo = {} if memo is None else memo

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T):
            return x
        k = id(x)
        if k in memo:
            return memo[k][1]
        y = fl.deref_all(fl.val(x))
        if y is not x and y is not NEVER and isinstance(y, T):
            r = go(y)
        else:
            r = T(x.op, *[go(z) for z in x.args]) if any(isinstance(z, (T, tuple)) for z in x.args) else x
        memo[k] = (x, r)
        return r

    return go(t)
