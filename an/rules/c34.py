"""The simulator accepts exactly the satisfying assignments; the wired emulator computes the same wires and accepts all."""
from script import *
from scripts import SCRIPTS
from rules.c09 import Direct, OTHER, NEWS, SIM, EMU

LEVEL = "other"
RULE = ("The simulator's and the wired emulator's driver operations are composed, by value numbering over their typed bodies, with "
        "circuits that exercise every operation, the witness values being opaque. The conditions under which an operation fails must be, as "
        "polynomials in the witness values, exactly the operation's gate equations and linear constraints (none for the emulator); every wire "
        "must be the value the circuit gives it, and the simulator's counters the numbers of operations.")
ASSUME = ["Witness values are opaque."]
FLOOR = 60
AT = {"Simulator": "crates/ragu_primitives/src/simulator.rs:1", "Emulator<Wired>": "crates/ragu_core/src/drivers/emulator.rs:1"}


class Judged(Direct):
    """Notes every operation's outcomes with their conditions."""

    def __init__(self, *a):
        super().__init__(*a)
        self.outcomes = []
        self.quiet = False

    def map_gadget(self, *a):
        was, self.quiet = self.quiet, True
        try:
            return super().map_gadget(*a)
        finally:
            self.quiet = was

    def un(self, fl, fr, v):
        if v is not NEVER and not self.quiet:
            lv = leaves(fl.deref_all(fl.val(v)))
            if lv is None:
                raise Unknown("too many outcomes")
            good = [c for c, t in lv if not (t.op == "adt" and t.args[1] == "Err")]
            bad = [c for c, t in lv if t.op == "adt" and t.args[1] == "Err"]
            self.outcomes.append((good, bad))
            if not good:
                raise Stopped(lv[0][1])
        return super().un(fl, fr, v)


def lvalue(ops, la):
    """(values of wires, conditions, counts) the circuit means."""
    conds, n = [], dict(gates=0, allocs=0, cons=0)

    def body(ops, env, path):
        calls = 0

        def lc(terms):
            r, g = L(), L.const(1)
            for x in terms:
                if x[0] == "g":
                    g = g * coeff_l(x[1])
                else:
                    r = r + g * coeff_l(x[2]) * (L.const(1) if x[1] == "ONE" else env[x[1]])
            return r

        for op in ops:
            k = op[0]
            if k in ("gate", "mul"):
                vs = [L.atom(f"v_{path}{'.'.join(op[1])}_{i}") for i in range(len(op[1]))]
                env.update(zip(op[1], vs))
                conds.append([vs[0] * vs[1] - vs[2]] + ([vs[2] * vs[3]] if k == "gate" else []))
                n["gates"] += 1
            elif k == "alloc":
                env[op[1]] = L.atom(f"v_{path}{op[1]}")
                conds.append([])
                n["allocs"] += 1
            elif k == "add":
                env[op[1]] = lc(op[2])
            elif k == "const":
                env[op[1]] = coeff_l(op[2])
            elif k in ("zero", "eq"):
                conds.append([lc(op[1]) if k == "zero" else env[op[1]] - env[op[2]]])
                n["cons"] += 1
            elif k == "routine":
                calls += 1
                e2 = {f"i{i}": env[w] for i, w in enumerate(op[1])}
                body(op[2], e2, f"{path}r{calls}.")
                for w, o in zip(op[4], op[3]):
                    env[w] = e2[o]
                conds.append([])
        return env

    env = body(ops, {}, "")
    return env, conds, n


def monic(p):
    """The polynomial up to a constant factor."""
    k = min(p.m, key=repr)
    return L({m: v / p.m[k] for m, v in p.m.items()})


def facts(conds, la):
    """(vanishing, nonvanishing) polynomials of an outcome; None if it cannot come about."""
    zs, nz = set(), set()
    for c, v in conds.items():
        neg = v is FALSE
        while c.op == "un" and c.args[0] == "Not":
            c, neg = c.args[1], not neg
        if c.op == "bin" and c.args[0] in ("Eq", "Ne"):
            p = la(c.args[1]) - la(c.args[2])
            zero = (c.args[0] == "Eq") != neg
        else:
            while c.op in ("into", "cast") or c.op == "call" and c.args[0].split("::")[-1] in ("from", "into", "unwrap_u8"):
                c = c.args[-1]
            if c.op != "call" or c.args[0].split("::")[-1] not in ("is_zero", "is_zero_vartime"):
                raise Unknown(f"condition {c!r}"[:100])
            p, zero = la(c.args[-1]), not neg
        if p.zero():
            if not zero:
                return None
        elif list(p.m) == [()]:
            if zero:
                return None
        else:
            (zs if zero else nz).add(monic(p))
    return (zs, nz) if not any(implied(p, zs) for p in nz) else None


def implied(p, zs):
    """p vanishes where all of zs do (p a sum of multiples by monomials)."""
    if p.zero():
        return True
    if monic(p) in zs:
        return True
    for z in zs:
        for a in p.m:
            for b in z.m:
                d = dict(a)
                for x, e in b:
                    d[x] = d.get(x, 0) - e
                if any(e < 0 for e in d.values()):
                    continue
                r = p - z * L({tuple(sorted((x, e) for x, e in d.items() if e)): p.m[a] / z.m[b]})
                if len(r.m) < len(p.m) and implied(r, zs):
                    return True
    return False


def run(rep):
    cases = {n: s for n, s in SCRIPTS.items() if n != "system"}
    cases["odd allocs"] = ([("alloc", "a"), ("alloc", "b"), ("alloc", "c"), ("zero", [("t", "a", "1"), ("t", "c", "-1")])], ["a", "b", "c"])
    cases["gates"] = ([("gate", ["a", "b", "c", "d"]), ("gate", ["e", "f", "g", "h"]), ("zero", [("t", "a", "1")]), ("zero", [("t", "h", "p"), ("t", "a", "1")])], ["d", "g"])
    cases["ones"] = ([("alloc", "a"), ("const", "k", "p"), ("add", "s", [("t", "ONE", "2"), ("g", "q"), ("t", "a", "-p"), ("t", "ONE", "1")]),
                      ("zero", [("g", "2"), ("t", "ONE", "-1"), ("t", "s", "p")]), ("eq", "k", "s")], ["k", "s"])
    for name, (ops, outs) in cases.items():
        ops = [o for o in ops if o[0] not in ("drop", "onwrite")]
        for which in AT:
            key = f"{which}/{name}"
            tag = f"{which}, circuit '{name}'"
            try:
                la = Laurent()
                env, conds, n = lvalue(ops, la)
                m = Judged(rep, ops, outs, *OTHER[which])
                r = m.go(NEWS[which])
                if r is None:
                    return
                v, dr = r
                if v is NEVER or v.op != "tuple":
                    rep.bad(key, AT[which], f"{tag}: always fails ({'aborts' if v is NEVER else show(v)[:100]})")
                    continue
                for o, x in zip(outs, v.args):
                    got = la(x)
                    rep.check(got == env[o], f"{key}/{o}", AT[which], f"{tag}: wire {o} is {got} where the circuit gives {env[o]}")
                if len(m.outcomes) != len(conds):
                    raise Unknown("operations")
                bad = None
                for (good, fail), want in zip(m.outcomes, conds):
                    want = [p for p in want if not p.zero()] if which == "Simulator" else []
                    for c in good:
                        f = facts(c, la)
                        p = f and next((p for p in want if not implied(p, f[0])), None)
                        if p:
                            bad = bad or f"an assignment with {p} nonzero is accepted"
                    for c in fail:
                        f = facts(c, la)
                        if f and not any(monic(p) in f[1] for p in want):
                            bad = bad or f"an assignment is rejected for {' and '.join(map(str, f[1])) or 'nothing'} being nonzero, where it must satisfy {' and '.join(map(str, want)) or 'nothing'}"
                rep.check(bad is None, key + "/accepts", AT[which], bad and f"{tag}: {bad}")
                if which == "Simulator":
                    for acc, k in (("num_gates", "gates"), ("num_allocations", "allocs"), ("num_constraints", "cons")):
                        f = rep.need(f"{SIM}::{acc}")
                        if f is None:
                            continue
                        got = Scene(rep).call(f, dr)
                        if got.op != "lit":
                            rep.undecided(f"{key}/{acc}", f"count {got!r}"[:100])
                            continue
                        rep.check(got is lit(n[k]), f"{key}/{acc}", AT[which], f"{tag}: {acc} is {show(got)} where the circuit has {n[k]}")
            except Unknown as e:
                rep.undecided(key, str(e))


def counters(rep):
    """Resetting starts every count anew."""
    f, new = rep.need(f"{SIM}::reset"), rep.need(f"{SIM}::new")
    if f is None or new is None:
        return
    sc = Scene(rep)
    fresh = sc.call(new)
    if fresh.op != "adt":
        return rep.undecided("reset", "simulator")
    used = T("adt", fresh.args[0], fresh.args[1], tuple((n, T("param", "old_" + n) if v.op == "lit" else v) for n, v in fresh.args[2]))
    c = sc.cell(used)
    sc.call(f, c)
    got = sc.fl.deref_all(sc.get(c))
    rep.check(got is fresh, "reset", f.where, f"after a reset the simulator is {show(got)}")


PARTS = {"operations": run, "counters": counters}
