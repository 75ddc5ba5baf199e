"""What fits is accepted; what does not fit is rejected with the error that names the limit."""
from script import *

LEVEL = "other"
RULE = ("Registration of circuits, the evaluators, the assembly of traces, stage masks, stage traces, stage allocation and registry "
        "finalization are composed, by value numbering over their typed bodies, with circuits, stages and registries whose size is a "
        "known number just below, at and just above each limit, the gates and constraints being placed in the body, in calls and in "
        "the outputs. At or below the limit the outcome must be a success; above it, the error of that limit carrying the limit.")
ASSUME = ["Ranks of 4, 8 and 16 gates stand for all ranks (the limits are read off the rank in each)."]
FLOOR = 150
ERR = "ragu_core::errors::Error"
OBJ = "crates/ragu_circuits/src/lib.rs:1"
ST = "crates/ragu_circuits/src/staging/"
REG = "ragu_circuits::registry::RegistryBuilder"


def outcome(lv):
    """What a run yields: [] for abort, else a list of "ok" and (error, limit)."""
    out = []
    for _, t in lv:
        if t.op == "adt" and t.args[1] == "Err":
            x = t.args[2][0][1]
            if x.op != "adt":
                raise Unknown(f"error {x!r}"[:100])
            d = dict(x.args[2])
            lim = d.get("limit")
            if lim is not None and (lim.op != "lit" or not lim.args[0].isdigit()):
                raise Unknown(f"limit {lim!r}"[:100])
            out.append((x.args[1], int(lim.args[0]) if lim is not None else None))
        elif t.op == "adt" and t.args[1] == "Ok" or t.op in ("coeffs", "built", "bin", "un", "call", "named", "lit", "ite", "adt"):
            out.append("ok")
        else:
            raise Unknown(f"outcome {t!r}"[:100])
    return out


def judge(rep, key, where, what, got, want):
    """want: set of acceptable outcomes."""
    def say(o):
        return "accepts it" if o == "ok" else f"reports {o[0]}" + (f" with limit {o[1]}" if o[1] is not None else "")

    if not got:
        rep.bad(key, where, f"{what}: aborts instead of reporting the limit" if "ok" not in want else f"{what}: aborts although it fits")
        return
    bad = [o for o in got if o not in want]
    if bad and len(got) > 1:
        rep.undecided(key, "several outcomes")
        return
    rep.check(not bad, key, where, bad and f"{what}: {say(bad[0])} where it should be one of: {', '.join(say(o) for o in sorted(want, key=str))}")


# ------------------------------------------------------------------ circuits
def body(gates, cons, how):
    """A circuit with the given numbers of gates (the system gate included) and constraints (that of
    the constant one included)."""
    ops, outs = [], []
    g, c = gates - 1, cons - 1
    if how == "muls":
        ops = [("mul", [f"a{i}", f"b{i}", f"c{i}"]) for i in range(g)] + [("zero", [("t", "ONE", f"k{i}")]) for i in range(c)]
    elif how == "allocs":
        ops = [("alloc", f"w{i}") for i in range(2 * g - 1)] + [("zero", [("t", "ONE", "1")])] * c
    elif how == "full allocs":
        ops = [("alloc", f"w{i}") for i in range(2 * g)] + [("zero", [])] * c
    elif how == "gates":
        ops = [("gate", [f"a{i}", f"b{i}", f"c{i}", f"d{i}"]) for i in range(g)] + [("const", "o", "1")] + [("eq", "o", "o")] * c
    elif how == "outputs":
        ops = [("gate", [f"a{i}", f"b{i}", f"c{i}", f"d{i}"]) for i in range(g)] + [("const", "o", "1")]
        outs = ["o"] * c
    elif how == "a call":
        h, k = g // 2, c // 2
        sub = [("mul", [f"a{i}", f"b{i}", f"c{i}"]) for i in range(g - h)] + [("zero", [("t", "i0", "1")])] * (c - k)
        ops = [("mul", [f"m{i}", f"n{i}", f"o{i}"]) for i in range(h)] + [("const", "w", "1"), ("routine", ["w"], sub, [], [])] + [("zero", [("t", "w", "2")])] * k
    elif how == "nested calls":
        sub = [("alloc", f"p{i}") for i in range(2 * g)] + [("zero", [("t", "i0", "1")])] * c
        ops = [("const", "w", "1"), ("routine", ["w"], [("routine", ["i0"], sub, [], [])], [], [])]
    return ops, outs


HOWS = ("muls", "allocs", "full allocs", "gates", "outputs", "a call", "nested calls")


def sizes(n):
    m = 4 * n - 1
    return [(n - 1, m), (n, m - 1), (n, m), (n + 1, 3), (n + 2, m - 1), (3, m + 1), (n, m + 1), (3, m + 2), (2, 2 * m), (2 * n, 3)]


def fits(g, c, n):
    w = set()
    if g > n:
        w.add(("GateBoundExceeded", n))
    if c > 4 * n - 1:
        w.add(("ConstraintBoundExceeded", 4 * n - 1))
    return w or {"ok"}


def circuits(rep):
    for rank in (4, 5):
        n = 1 << (rank - 2)
        for how in HOWS:
            for g, c in sizes(n):
                if how == "allocs" and g < 2:
                    continue
                ops, outs = body(g, c, how)
                x = Composed(rep, how, ops, outs, rank=rank)
                if x.m is not None:
                    rec = (sum(s.gates for s in x.m.segs), sum(len(s.cons) for s in x.m.segs))
                    assert rec == (g, c), (how, rec, g, c)
                key = f"register/{how}/{g} gates {c} constraints of rank {rank}"
                what = f"registering a circuit of {g} gates and {c} constraints (in {how}) at {n} gates and {4 * n - 1} constraints"
                try:
                    lv = x.run("object", T("param", "circuit"))
                    if lv is None:
                        return
                    judge(rep, key, OBJ, what, outcome(lv), fits(g, c, n))
                except Unknown as e:
                    rep.undecided(key, str(e))


def evaluators(rep):
    rank, n = 4, 4
    for which, pos in (("sxy", ("x", "y")), ("sx", ("x",)), ("sy", ("y",))):
        where = f"crates/ragu_circuits/src/s/{which}.rs:1"
        for how in HOWS:
            for g, c in sizes(n):
                if fits(g, c, n) != {"ok"}:  # never registered
                    continue
                ops, outs = body(g, c, how)
                x = Composed(rep, how, ops, outs, rank=rank)
                key = f"{which}/{how}/{g} gates {c} constraints"
                try:
                    plan = Composed(rep, how, ops, outs, rank=8).plan()
                    lv = x.run(which, T("param", "circuit"), *[T("param", p) for p in pos], plan)
                    if lv is None:
                        return
                    lv = [(k, t) for k, t in lv if at(k) is None or not any(at(k).values())]
                    judge(rep, key, where, f"evaluating ({which}) a circuit of {g} gates and {c} constraints (in {how}) at {n} gates", outcome(lv), fits(g, c, n))
                except Unknown as e:
                    rep.undecided(key, str(e))


def traces(rep):
    rank, n = 4, 4
    for how in ("muls", "allocs", "full allocs", "gates", "a call", "nested calls"):
        for g in (2, n - 1, n, n + 1, n + 2, 2 * n):
            ops, outs = body(g, 4, how)
            x = Composed(rep, how, ops, outs, rank=rank)
            key = f"assemble/{how}/{g} gates"
            try:
                m = x.machine()
                Trace_(m)
                lv = x.run("trace", T("param", "circuit"), T("param", "w"), machine=m)
                if lv is None:
                    return
                if not lv or len(lv) != 1:
                    raise Unknown("no trace")
                d = dict(unresult(lv[0][1]).args[2])
                tr = next((y for y in d.values() if y.op == "adt" and y.args[0].endswith("::Trace")), None)
                if tr is None:
                    raise Unknown("no trace")
                plan = Composed(rep, how, ops, outs, rank=8).plan()
                lv = x.run("assemble", tr, plan, T("param", "alpha"))
                judge(rep, key, "crates/ragu_circuits/src/trace.rs:1", f"assembling a trace of {g} gates (in {how}) at {n}", outcome(lv), fits(g, 4, n))
            except Unknown as e:
                rep.undecided(key, str(e))


Trace_ = Trace


# ------------------------------------------------------------------ stages
def stage_hooks(rep, rank, **k):
    m = Machine(rep, [], [], coeff_l, rank)
    h = m.hooks
    h[SPARSE + "view::View::build"] = lambda fl, e, fr, p, a: T("built", fl.deref_all(a[0]))
    for n, v in k.items():
        h[f"ragu_circuits::staging::Stage::{n}"] = (lambda v: lambda fl, e, fr, p, a: lit(v))(v)
    return m


def stages(rep):
    SE = "ragu_circuits::staging::StageExt::"
    for rank in (4, 6):
        n = 1 << (rank - 2)
        for name in ("mask", "final_mask"):
            fn = rep.need(SE + name)
            if fn is None:
                continue
            for skip in (1, 2, n - 1, n, n + 1):
                for vals in (0, 1, 2, 3, 2 * (n - skip), 2 * (n - skip) - 1, 2 * (n - skip) + 1, 2 * (n - skip) + 2, 2 * n):
                    if vals < 0:
                        continue
                    m = stage_hooks(rep, rank, skip_gates=skip, values=vals)
                    key = f"{name}/{skip} gates before {vals} values of rank {rank}"
                    try:
                        fl = m.flow()
                        nodes, v = fl.run(fn)
                        rep.seen(fn, *fl.visited.values())
                        lv = [] if v is NEVER else leaves(fl.deref_all(v))
                        judge(rep, key, ST + "mask.rs:1", f"the {name.replace('_', ' ')} of a stage with {vals} values after {skip} gates at {n} gates", outcome(lv), fits(skip + (vals + 1) // 2, 1, n))
                    except Unknown as e:
                        rep.undecided(key, str(e))


def values(rep):
    """More values than a stage declares."""
    fn = rep.need("ragu_circuits::staging::StageExt::rx_configured")
    for vals in (0, 1, 2, 3, 4):
        for k in range(0, vals + 3):
            m = stage_hooks(rep, 6, skip_gates=2, values=vals)
            seq = T("seq", *[T("param", f"v{i}") for i in range(k)])
            m.hooks["ragu_circuits::staging::Stage::witness"] = lambda fl, e, fr, p, a: ok1(T("param", "gadget"))
            m.hooks["ragu_core::drivers::emulator::Emulator::wires"] = lambda fl, e, fr, p, a: ok1(seq)
            key = f"stage trace/{k} values where {vals} are declared"
            try:
                fl = m.flow()
                nodes, v = fl.run(fn, pos=[T("param", "stage"), T("param", "alpha"), T("param", "w")])
                rep.seen(fn, *fl.visited.values())
                lv = [] if v is NEVER else leaves(fl.deref_all(v))
                judge(rep, key, ST + "mod.rs:1", f"the trace of a stage that yields {k} values and declares {vals}", outcome(lv), {"ok"} if k <= vals else {("GateBoundExceeded", (vals + 1) // 2)})
            except Unknown as e:
                rep.undecided(key, str(e))
    fn = rep.need("ragu_circuits::staging::builder::StageBuilder::configure_stage")
    for vals in (0, 1, 2, 3, 4):
        for k in range(0, vals + 3):
            m = stage_hooks(rep, 6, skip_gates=2, values=vals)
            m.hooks["ragu_circuits::staging::Stage::witness"] = lambda fl, e, fr, p, a: ok1(T("param", "gadget"))
            m.hooks["ragu_core::gadgets::Gadget::num_wires"] = lambda fl, e, fr, p, a: ok1(lit(k))
            allocs = []
            m.hooks["ragu_core::drivers::Driver::alloc"] = lambda fl, e, fr, p, a: (allocs.append(1), ok1(T("param", f"w{len(allocs)}")))[1]
            key = f"stage wires/{k} wires where {vals} are declared"
            try:
                fl = m.flow()
                b = T("adt", "ragu_circuits::staging::builder::StageBuilder", "StageBuilder", (("driver", T("param", "driver")), ("_marker", UNIT)))
                nodes, v = fl.run(fn, pos=[b, T("param", "stage")])
                rep.seen(fn, *fl.visited.values())
                lv = [] if v is NEVER else leaves(fl.deref_all(v))
                judge(rep, key, ST + "builder.rs:1", f"laying out a stage of {k} wires that declares {vals}", outcome(lv), {"ok"} if k <= vals else {("GateBoundExceeded", (vals + 1) // 2)})
                if k <= vals:
                    want = 2 * ((vals + 1) // 2)
                    rep.check(len(allocs) == want, key + "/allocations", ST + "builder.rs:1", f"laying out a stage of {k} wires that declares {vals} allocates {len(allocs)} wires, not {want}")
            except Unknown as e:
                rep.undecided(key, str(e))


# ------------------------------------------------------------------ registries
def registries(rep):
    new, fin = rep.need(REG + "::new"), rep.need(REG + "::finalize")
    regs = [rep.need(f"{REG}::{x}") for x in ("register_internal_circuit", "register_bonding", "register_internal_step", "register_circuit")]
    if None in (new, fin, *regs):
        return
    for rank in (4, 5):
        n = 1 << rank
        splits = [(0, 0, 0, 0), (1, 0, 0, 0), (0, 0, 0, 1), (n // 4,) * 4, (n // 4, n // 4 + 1, n // 4, n // 4), (n // 4, n // 4, n // 4 + 1, n // 4), (n // 2, n // 2, 1, 1)]
        for i in range(4):
            splits += [tuple(n + d if j == i else 0 for j in range(4)) for d in (-1, 0, 1)]
        for cats in splits:
            m = Machine(rep, [], [], coeff_l, rank)
            h = m.hooks
            h[PATHS["object"]] = lambda fl, e, fr, p, a: ok1(T("param", "object"))
            h["ragu_circuits::BondingObject::into_inner"] = lambda fl, e, fr, p, a: T("param", "object")
            h[PATHS["plan"]] = lambda fl, e, fr, p, a: T("param", "plan")
            h["ragu_circuits::registry::Registry::compute_registry_digest"] = lambda fl, e, fr, p, a: T("param", "digest")
            key = f"registry/{'+'.join(map(str, cats))} circuits of rank {rank}"
            try:
                fl = m.flow()
                nodes, v = fl.run(new)
                for k, f in zip(cats, regs):
                    for _ in range(k):
                        fl = m.flow()
                        nodes, v = fl.run(f, pos=[v, T("param", "c")])
                        v = fl.deref_all(v)
                        if v.op == "adt" and v.args[1] in ("Ok", "Err"):
                            v = unresult(v)
                fl = m.flow()
                nodes, v = fl.run(fin, pos=[v])
                rep.seen(fin, *fl.visited.values())
                lv = [] if v is NEVER else leaves(fl.deref_all(v))
                judge(rep, key, "crates/ragu_circuits/src/registry.rs:1", f"a registry of {sum(cats)} circuits ({'+'.join(map(str, cats))}) at {n}", outcome(lv), {"ok"} if sum(cats) <= n else {("CircuitBoundExceeded", n)})
            except Unknown as e:
                rep.undecided(key, str(e))


PARTS = {"circuits": circuits, "evaluators": evaluators, "traces": traces, "stages": stages, "values": values, "registries": registries}
