"""Every interpreter hands a routine's predicted data on to its execution, exactly once per call."""
from script import *
from scripts import SCRIPTS
from rules.c10 import KNOWN, calls, depth

LEVEL = "other"
SERIAL = True
RULE = ("Each interpreter's routine operation is composed, by value numbering over its typed body, with circuits calling routines "
        "(alone, one after another, nested), every mixture of predicted and unpredicted calls, and predictions that fail. Every call "
        "must ask the routine for its prediction exactly once and, unless an interpreter without wires takes over a known prediction, "
        "execute it exactly once afterwards with exactly the data the prediction gave, in the order of the calls. A predicted output "
        "must be the value the routine's own execution computes.")
ASSUME = ["Routines and their predicted data are opaque, but for the library's own routines that predict an output."]
FLOOR = 60
EMU = "ragu_core::drivers::emulator::Emulator"
SIM = "ragu_primitives::simulator::Simulator"
BOND = "ragu_circuits::staging::bonding::BondingValidator"
OTHER = {
    "Emulator<Wired>": (EMU, "Wired<"),
    "Emulator<Wireless>": (EMU, "Wireless<"),
    "Simulator": (SIM, ""),
    "BondingValidator": (BOND, ""),
}


class Direct(Machine):
    """A circuit run straight against a driver, selected among the implementations for one type."""

    def __init__(self, rep, ops, outs, head, pick, rank=6):
        super().__init__(rep, ops, outs, coeff_l, rank)
        self.dhead, self.pick = head, pick
        im = [i for i in self.prog.impl_of.get((DRV, head), []) if pick in str(i["self_ty"])]
        self.self_ty = im[0]["self_ty"] if len(im) == 1 else None
        for n in ("gate", "mul", "alloc", "add", "constant", "enforce_zero", "enforce_equal", "routine"):
            self.hooks[f"{DRV if n != 'gate' else DRT}::{n}"] = self.op

    def op(self, fl, e, fr, path, args):
        """A driver operation the default bodies call, of the selected implementation."""
        try:
            head = self.head_of(fl, args[0])
        except Unknown:
            return None
        if head != self.dhead:
            return None
        return self.drive(fl, fr, head, e.get("fn", path).split("::")[-1], args)

    def bodies(self, head, trait, name):
        if head != self.dhead:
            return super().bodies(head, trait, name)
        if self.self_ty is None:
            raise Unknown(f"{head} implements no such driver")
        sub = {"Self": self.self_ty}
        c = self.prog.fns.get(f"<{head} as {trait}>::{name}", [])
        if trait == DRV:
            c = [f for f in c if self.pick in str(next((i["self_ty"] for i in self.prog.impls if (i["crate"], i["did"]) == (f.crate, f.impl)), self.pick))]
        if len(c) == 1:
            if trait == DRT and self.self_ty.args:
                sub["M"] = self.self_ty.args[0]
            return c[0], sub
        f = self.prog.fn(f"{trait}::{name}")
        if f is None or f.broken:
            raise Unknown(f"{head} has no {name}")
        return f, sub

    def one(self, fl, head):
        if head != self.dhead:
            return super().one(fl, head)
        c = [c for c in self.prog.const_list if c["path"] == f"<{head} as {DRV}>::ONE"]
        if len(c) > 1:
            im = {(i["crate"], i["did"]): str(i["self_ty"]) for i in self.prog.impls}
            c = [x for x in c if self.pick in im.get((x["crate"], x.get("impl")), "")]
        if len(c) != 1:
            raise Unknown("ONE")
        from flow import constant

        if isinstance(c[0].get("cv"), (dict, list)):
            return constant(c[0]["cv"])
        return fl.constbody(c[0], fl.stack[-1])

    def go(self, new, public=True):
        """The circuit run on a newly made driver: its outputs (or failure) and the driver afterwards."""
        fn = self.rep.need(new, public=public)
        if fn is None:
            return None
        fl = self.flow()
        nodes, dr = fl.run(fn)
        root = "driver:*0"
        fl.env[root] = fl.val(dr)
        fr = Frame(fn, {})
        fl.stack.append(fr)
        try:
            v = self.body(fl, fr, T("ref", root, ()), self.ops, {}, self.outs)
        except Stopped as s:
            v = NEVER if s.v is None else s.v
        self.rep.seen(fn, *fl.visited.values())
        return (v if v is NEVER else fl.deref_all(v)), fl.deref_all(fl.env[root])


NEWS = {"Emulator<Wired>": EMU + "::extractor", "Emulator<Wireless>": EMU + "::wireless", "Simulator": SIM + "::new", "BondingValidator": BOND + "::new"}


def direct(rep, which, ops, outs, known=None):
    m = Direct(rep, ops, outs, *OTHER[which])
    if known:
        m.known = known
    return m


# ------------------------------------------------------------------ forwarding
def want(ops, known, path="", skip=False):
    """The calls in order: (path, executed)."""
    n = 0
    out = []
    for op in ops:
        if op[0] == "routine":
            n += 1
            p = f"{path}r{n}."
            done = not (skip and known(p))
            out.append((p, done))
            if done:
                out += want(op[2], known, p, skip)
    return out


def judge(rep, key, where, who, trace, exp):
    pred = [x[1] for x in trace if x[0] == "predict"]
    exe = [(x[1], x[2]) for x in trace if x[0] == "execute"]
    for p, done in exp:
        n, k = pred.count(p), [a for q, a in exe if q == p]
        if n != 1:
            return rep.bad(key, where, f"{who}: call {p} is predicted {n} times")
        if len(k) != int(done):
            return rep.bad(key, where, f"{who}: call {p} is executed {len(k)} times where {int(done)} is due")
        if done and k[0] is not T("param", "aux_" + p):
            return rep.bad(key, where, f"{who}: call {p} is executed with {show(k[0]) if k[0] is not None else 'nothing'}, not with its predicted data")
        if done and [x[:2] for x in trace].index(("predict", p)) > [x[:2] for x in trace].index(("execute", p)):
            return rep.bad(key, where, f"{who}: call {p} is executed before it is predicted")
    extra = [q for q, _ in exe if q not in {p for p, _ in exp}] + [q for q in pred if q not in {p for p, _ in exp}]
    if extra:
        return rep.bad(key, where, f"{who}: call {extra[0]} should not take place")
    rep.ok(key)


def mixtures(ops):
    ks = ["none predicted"]
    if calls(ops):
        ks.append("all predicted")
    if depth(ops) > 1:
        ks += ["outer predicted", "inner predicted"]
    if sum(1 for o in ops if o[0] == "routine") > 1:
        ks += ["first predicted", "later predicted"]
    return ks


POINTS = {"metrics": [T("param", "circuit")], "sxy": "xy", "sx": "x", "sy": "y", "trace": [T("param", "circuit"), T("param", "w")]}
AT = {"metrics": "crates/ragu_circuits/src/metrics.rs:1", "sxy": "crates/ragu_circuits/src/s/sxy.rs:1", "sx": "crates/ragu_circuits/src/s/sx.rs:1",
      "sy": "crates/ragu_circuits/src/s/sy.rs:1", "trace": "crates/ragu_circuits/src/trace.rs:1", "Simulator": "crates/ragu_primitives/src/simulator.rs:1",
      "BondingValidator": "crates/ragu_circuits/src/staging/bonding.rs:1"}
CALLING = {n: s for n, s in SCRIPTS.items() if calls(s[0])}


def run(c, which, m):
    pos = POINTS[which]
    if isinstance(pos, str):
        pos = [T("param", "circuit")] + [T("param", p) for p in pos] + [c.plan()]
    m.trace.clear()
    lv = c.run(which, *pos, machine=m)
    return lv


def forwarding(rep, serial=False):
    for name, (ops, outs) in CALLING.items():
        for known in mixtures(ops):
            k = KNOWN[known]
            for which in POINTS if not serial else ["trace"]:
                if which == "trace" and name == "system":
                    continue
                key = f"{which}{'/serial' if serial else ''}/{name}/{known}"
                try:
                    c = Composed(rep, name, ops, outs)
                    m = c.machine()
                    m.known = k
                    if which == "trace":
                        Trace(m)
                    lv = run(c, which, m)
                    if lv is None:
                        continue
                    # at zero points the evaluators do not synthesise at all
                    judge(rep, key, AT[which], f"{which}, circuit '{name}', {known}", m.trace, want(ops, k))
                except Unknown as e:
                    rep.undecided(key, str(e))
            for which in OTHER if not serial else []:
                if name == "system":
                    continue
                key = f"{which}/{name}/{known}"
                try:
                    m = direct(rep, which, ops, outs, k)
                    r = m.go(NEWS[which], which != "BondingValidator")
                    if r is None:
                        continue
                    judge(rep, key, AT.get(which, "crates/ragu_core/src/drivers/emulator.rs:1"), f"{which}, circuit '{name}', {known}", m.trace, want(ops, k, skip=which == "Emulator<Wireless>"))
                except Unknown as e:
                    rep.undecided(key, str(e))


# ------------------------------------------------------------------ failing predictions
def failing(rep, serial=False):
    ops, outs = [("alloc", "w"), ("routine", ["w"], [("alloc", "p")], ["p"], ["z"])], ["z"]
    nest = [("alloc", "w"), ("routine", ["w"], [("routine", ["i0"], [("alloc", "p")], ["p"], ["q"])], ["q"], ["z"])], ["z"]

    def predict(m, at):
        base = m.predict

        def h(fl, e, fr, path, args):
            ro = fl.val(args[0])
            if ro.op == "named" and ro.args[0] in m.routines and m.routines[ro.args[0]][2] == at:
                return T("adt", "core::result::Result", "Err", (("0", T("param", "failure")),))
            return base(fl, e, fr, path, args)

        m.hooks["ragu_core::routines::Routine::predict"] = h

    for (ops, outs), at, tag in (((ops, outs), "r1.", "call"), (nest, "r1.r1.", "nested call")):
        for which in POINTS if not serial else ["trace"]:
            key = f"fail/{which}{'/serial' if serial else ''}/{tag}"
            try:
                c = Composed(rep, "fails", ops, outs)
                c.plan() if which in ("sxy", "sx", "sy") else None
                m = c.machine()
                predict(m, at)
                if which == "trace":
                    Trace(m)
                lv = run(c, which, m)
                if lv is None:
                    continue
                good = [t for _, t in lv if not (t.op == "adt" and t.args[1] == "Err")]
                # the evaluators do not synthesise where a point is zero, and abort on failures
                if which in ("sxy", "sx", "sy"):
                    good = []
                rep.check(not good, key, AT[which], f"{which}: the prediction of a {tag} fails, and the run succeeds")
                rep.check(("execute", at) not in [x[:2] for x in m.trace], key + "/executed", AT[which], f"{which}: a {tag} whose prediction fails is executed")
            except Unknown as e:
                rep.undecided(key, str(e))
        for which in OTHER if not serial else []:
            key = f"fail/{which}/{tag}"
            try:
                m = direct(rep, which, ops, outs)
                predict(m, at)
                r = m.go(NEWS[which], which != "BondingValidator")
                if r is None:
                    continue
                w = AT.get(which, "crates/ragu_core/src/drivers/emulator.rs:1")
                rep.check(r[0] is NEVER or r[0].op == "adt" and r[0].args[1] == "Err", key, w, f"{which}: the prediction of a {tag} fails, and the run succeeds")
                rep.check(("execute", at) not in [x[:2] for x in m.trace], key + "/executed", w, f"{which}: a {tag} whose prediction fails is executed")
            except Unknown as e:
                rep.undecided(key, str(e))


# ------------------------------------------------------------------ predicted outputs
def outputs(rep):
    """The interpreter without wires answers a predicted call with the predicted output."""
    which = "Emulator<Wireless>"
    for name, (ops, outs) in CALLING.items():
        if name == "system":
            continue
        key = f"output/{name}"
        try:
            m = direct(rep, which, ops, outs)

            def predict(fl, e, fr, path, args):
                ro = fl.val(args[0])
                if ro.op != "named" or ro.args[0] not in m.routines:
                    return None
                _, outs2, sub = m.routines[ro.args[0]]
                out = T("tuple", *[T("param", f"predicted_{sub}{o}") for o in outs2])
                return ok1(T("adt", PREDICTION, "Known", (("0", out), ("1", T("param", "aux")))))

            m.hooks["ragu_core::routines::Routine::predict"] = predict
            want = {}
            n = 0
            for op in ops:
                if op[0] == "routine":
                    n += 1
                    for w, o in zip(op[4], op[3]):
                        want[w] = T("param", f"predicted_r{n}.{o}")
            m.outs = list(want)
            m.ops = [o for o in ops if o[0] == "routine" or o[0] in ("gate", "mul", "alloc", "const", "add")]
            r = m.go(NEWS[which])
            if r is None:
                continue
            rep.check(r[0].op == "tuple" and list(r[0].args) == list(want.values()), key, "crates/ragu_core/src/drivers/emulator.rs:1",
                      f"calls with predicted outputs {[show(x) for x in want.values()]} yield {show(r[0])}")
        except Unknown as e:
            rep.undecided(key, str(e))


TXZ = "ragu_circuits::polynomials::txz::Evaluate"


def txz(rep, log2n):
    """(predicted, executed) value of the library's predicting routine at x, z."""
    p, e = (rep.need(f"<{TXZ} as ragu_core::routines::Routine>::{n}") for n in ("predict", "execute"))
    if p is None or e is None:
        return None

    def el(n):
        return T("adt", ELEMENT, "Element", (("value", T("maybe", T("param", n))), ("wire", T("param", "w_" + n))))

    la = Laurent()

    def value(t):
        v = dict(t.args[2]).get("value") if t.op == "adt" else None
        if v is None:
            raise Unknown(f"element {t!r}"[:80])
        return la(v.args[0] if v.op == "maybe" else v)

    sc = Scene(rep, hooks={"ragu_circuits::polynomials::Rank::log2_n": lambda *a: lit(log2n), "const:RANK": lit(log2n + 2), "eval_consts": True, "unroll": 64})
    r = unresult(sc.call(p, T("named", "routine"), sc.cell(T("param", "dr")), T("tuple", el("x"), el("z"))))
    if r.op != "adt" or r.args[0] != PREDICTION:
        raise Unknown(f"prediction {r!r}"[:80])
    aux = r.args[2][-1][1]
    pred = value(r.args[2][0][1]) if r.args[1] == "Known" else None
    x = sc.call(e, T("named", "routine"), sc.cell(T("param", "dr")), T("tuple", el("x"), el("z")), aux)
    return pred, value(unresult(x)), e


def predictions(rep):
    for k in (1, 2, 3):
        r = txz(rep, k)
        if r is None:
            return
        pred, got, e = r
        if pred is None:
            rep.ok(f"t(x, z)/{k}")
            continue
        rep.check(pred == got, f"t(x, z)/{k}", e.where, f"at 2^{k} gates the routine predicts {pred} and executes to {got}")


def both(f):
    def g(rep):
        f(rep)
        if rep.serial is not None:
            prog = rep.prog
            rep.prog = rep.serial
            try:
                f(rep, True)
            finally:
                rep.prog = prog
    return g


PARTS = {"forwarding": both(forwarding), "failing": both(failing), "outputs": outputs, "predictions": predictions}
