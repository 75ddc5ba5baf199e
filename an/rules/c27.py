"""Registration: each claim a proof makes names the circuit, or the mask of the stage, it is about."""
from joint import *
from fuse import solid
import fuse
from flow import constant

LEVEL = "other"
RULE = ("The registration of all circuits is evaluated, for applications of 0 to 17 steps, to the list of circuits in the final registries; so are the prover, "
        "with a term for each trace it makes and for the index it assembles it at, and the index of each internal circuit, mask and step. "
        "At the index of each internal circuit must be that circuit, the very value that the prover traces and assembles there and puts into the proof where the claim about "
        "that index is checked; at the index of each mask, the mask of the stage whose polynomial the claim is about, the final mask of the last stage "
        "of the circuit where the claim is about a circuit's own trace; at the index of each internal step, that step; at the index of "
        "the i-th step of an application, the i-th that was registered. Both registries must hold nothing else.")
ASSUME = ["Claims name circuits by their index, and are about the polynomials they should be (C16, C23).",
          "The registry gives the circuit at a position for that position's index (C17)."]
FLOOR = 60
RB = "ragu_circuits::registry::RegistryBuilder"
AB = APP + "Builder"
INT = "ragu_pcd::internal::"
STEPX = "ragu_pcd::step::"
NMASKS = {"EndoscalarStage": "EndoscalarStage", "PointsStage": "PointsStage", **{b: b for b in NESTED if b.startswith("Bridge")}}


def run(rep):
    prog = rep.prog
    try:
        F = fuse.Fuse(rep)
    except Odd as e:
        return rep.undecided("prover", str(e))
    fn, reg = rep.need(AB + "::finalize"), rep.need(AB + "::register")
    if fn is None:
        return
    steps = (0, 1, 2, 5, 17)
    for n in steps:
        table = registries(rep, fn, n)
        if table is None:
            continue
        for nested in (False, True):
            one(rep, F, fn, table[nested], nested, n)
        steps_(rep, fn, table[False], n)


def self_ty(fl, e, fr):
    ts = [fl.subst(fr.fn.types[t], fr) for t in e.get("targs", []) if isinstance(t, int)]
    return ts[0] if ts else None


def registries(rep, fn, n):
    """The circuits of both final registries, for an application of n steps."""
    prog = rep.prog
    tys = {}

    def obj(fl, e, fr, p, a):
        return okay(T("object", fl.deref_all(fl.val(a[0]))))

    def mask(k):
        def h(fl, e, fr, p, a):
            ty = self_ty(fl, e, fr)
            if ty is None:
                return None
            tys[ty.s] = ty
            return okay(T("mask", lit(ty.s), lit(k)))

        return h

    hooks = dict(std_hooks())
    hooks.update({"unroll": 512, "range": 512, "eval_consts": True, "const:HEADER_SIZE": lit(H), "ragu_circuits::into_circuit_object": obj,
                  "ragu_circuits::staging::StageExt::mask": mask("mask"), "ragu_circuits::staging::StageExt::final_mask": mask("final mask"),
                  "ragu_circuits::registry::Registry::compute_registry_digest": lambda fl, e, fr, p, a: T("param", "digest"),
                  "ragu_circuits::floor_planner::floor_plan": lambda fl, e, fr, p, a: T("param", "plan"),
                  "ragu_arithmetic::domain::Domain::new": lambda fl, e, fr, p, a: T("param", "domain")})
    fl = Flow(prog, hooks=hooks)
    fl.maxdepth = 80

    def builder(app):
        d = prog.adts.get(RB)
        fs = [f["name"] for f in d["variants"][0]["fields"]]
        if not {"application_steps", "internal_circuits", "bonding", "internal_steps"} <= set(fs):
            raise Odd("the builder of a registry")
        return T("adt", RB, "RegistryBuilder", tuple((f, T("seq", *(app if f == "application_steps" else ()))) for f in fs))

    key = f"registration/{n} steps"
    try:
        vals = {"native_registry": builder([T("object", T("param", f"step{i}")) for i in range(n)]), "nested_registry": builder([]), "num_application_steps": lit(n)}
        fs = [f["name"] for f in prog.adts[AB]["variants"][0]["fields"]]
        if not set(vals) <= set(fs):
            raise Odd("the builder of an application")
        me = T("adt", AB, "ApplicationBuilder", tuple((f, vals.get(f, T("param", f))) for f in fs))
        nodes, v = fl.run(fn, pos=[me, T("param", "params")])
        rep.seen(fn, *fl.visited.values())
        if v is NEVER:
            rep.bad(key, fn.where, f"no application of {n} steps can be finalized: it ends in a panic")
            return None
        v = solid(fl, fl.deref_all(v))
        if v.op == "adt" and v.args[1] == "Ok":
            v = v.args[2][0][1]
        out = []
        for f in ("native_registry", "nested_registry"):
            r = dict(v.args[2]).get(f) if v.op == "adt" else None
            c = dict(r.args[2]).get("circuits") if r is not None and r.op == "adt" else None
            if c is None or c.op != "seq" or any(x.op in ("splice", "each") for x in c.args):
                raise Odd("the circuits of the registry")
            out.append([inner(x) for x in c.args])
        return out[0], out[1], tys
    except Odd as e:
        rep.undecided(key, str(e))
    except (KeyError, AttributeError, IndexError) as e:
        rep.undecided(key, f"{type(e).__name__} {e}")


def inner(x):
    while x.op == "field" and x.args[0].op in ("mask", "object", "field"):
        x = x.args[0]
    return x


def index(rep, fn, v, **hooks):
    """The number that the circuit index of a value is, or None."""
    h = dict(std_hooks())
    h.update({"unroll": 512, "range": 512, "eval_consts": True, **hooks})
    fl = Flow(rep.prog, hooks=h)
    nodes, r = fl.run(fn, pos=[v] if not isinstance(v, list) else v)
    rep.seen(fn, *fl.visited.values())
    r = fl.deref_all(r) if r is not NEVER else r
    lv = leaves(r) if r is not NEVER else []
    if len(lv) != 1:
        return None
    r = lv[0][1]
    while r.op == "adt" and len(r.args[2]) == 1:
        r = fl.deref_all(r.args[2][0][1])
    return int(r.args[0]) if r.op == "lit" and str(r.args[0]).isdigit() else None


def place(F, path):
    """What the prover puts at a place in the proof."""
    t = F.value
    for k in path.split("."):
        t = F.fl.deref_all(F.fl.val(t))
        if t.op == "adt" and t.args[1] == "Ok":
            t = F.fl.deref_all(F.fl.val(t.args[2][0][1]))
        if t.op == "tuple":
            t = F.fl.deref_all(F.fl.val(t.args[0]))
        if t.op != "adt":
            raise Odd(f"the proof's {path}")
        d = dict(t.args[2])
        if k not in d and "proof" in d:
            t = F.fl.deref_all(F.fl.val(d["proof"]))
            d = dict(t.args[2]) if t.op == "adt" else {}
        if k not in d:
            raise Odd(f"the proof's {path}")
        t = d[k]
    return F.fl.deref_all(F.fl.val(t))


def settle(F, t):
    """The proof's polynomial as its stage's or its trace, with everything followed."""
    t = solid(F.fl, t)
    return t


def strip(t, n):
    """A circuit's value without what depends on where it is made: the parameters given, the number of steps."""
    if t.op == "adt":
        return (t.args[0], t.args[1], tuple((k, strip(x, n)) for k, x in t.args[2] if not k.startswith("_")))
    if t.op == "lit":
        return t.args[0]
    p = path_of(t)
    if p and (p[0], p[1]) in (("params", ""), ("self", "params")):
        return "params"
    k = number_of(t, n)
    return t if k is None else str(k)


def number_of(t, n):
    """The value of a term in the number of steps of the application."""
    if t.op == "lit":
        return int(t.args[0]) if str(t.args[0]).isdigit() else None
    if t.op in ("field", "param") and "num_application_steps" in str(t.args[-1]):
        return n
    if t.op == "bin":
        a, b = number_of(t.args[1], n), number_of(t.args[2], n)
        return None if a is None or b is None else a + b if t.args[0] == "Add" else a - b if t.args[0] == "Sub" else None
    if t.op == "call" and len(t.args) == 2:
        x, f = number_of(t.args[1], n), t.args[0].split("::")[-1]
        if x is None:
            return None
        up = 1 << max(0, x - 1).bit_length() if x else 1
        return {"next_power_of_two": up, "trailing_zeros": (x & -x).bit_length() - 1 if x else None, "ilog2": x.bit_length() - 1 if x else None}.get(f)
    return None


def name(t):
    if t.op == "mask":
        return f"the {t.args[1].args[0]} of {short(t.args[0].args[0])}"
    if t.op == "object":
        return "the circuit " + deep(t.args[0])
    return "something else"


def deep(t):
    if t.op == "adt":
        fs = [(k, x) for k, x in t.args[2] if not k.startswith("_")]
        kid = next((x for k, x in fs if k in ("circuit", "step") and x.op == "adt"), None)
        if kid is not None:
            return deep(kid)
        nums = [x.args[0] for k, x in fs if x.op == "lit" and k not in ("log2_circuits",)]
        return short(t.args[0]) + "".join(f" {x}" for x in nums)
    return t.args[0] if t.op == "param" else "unknown"


def short(s):
    s = s.split("<")[0]
    for w in ("ragu_pcd::internal::", "ragu_pcd::step::internal::", "ragu_pcd::", "stages::", "circuits::", "::Stage", "::Circuit"):
        s = s.replace(w, "")
    return s.replace("::", " ")


def one(rep, F, fn, objs, nested, n):
    prog = rep.prog
    side = "nested" if nested else "native"
    E = INT + side + "::InternalCircuitIndex"
    d = prog.adts.get(E)
    f = rep.need(E + "::circuit_index")
    if d is None or f is None:
        return rep.undecided(side, "the indexes of circuits")
    seen = {}
    for v in d["variants"]:
        vn = v["name"]
        if len(v["fields"]) == 0:
            pick = [(vn, T("adt", E, vn, ()))]
        else:
            pick = [(f"{vn} {i}", T("adt", E, vn, ((v["fields"][0]["name"], lit(i)),))) for i in range(steps_of(F))]
        for label, val in pick:
            key = f"{side}/{label}/{n} steps"
            k = index(rep, f, val)
            if k is None:
                rep.undecided(key, "its index")
                continue
            if k in seen:
                rep.bad(key, f.where, f"{label} and {seen[k]} have the same index")
                continue
            seen[k] = label
            if k >= len(objs):
                rep.bad(key, fn.where, f"nothing is registered at {k}, the index of {label}")
                continue
            judge(rep, F, fn, key, side, label, vn, objs[k], k, n)
    extra = [o for i, o in enumerate(objs) if i not in seen]
    want = n + 2 if not nested else 0
    key = f"{side}/nothing else/{n} steps"
    if len(extra) == want:
        rep.ok(key)
    elif all(o.op in ("mask", "object") for o in extra):
        rep.bad(key, fn.where, f"the {side} registry has {len(objs)} circuits for an application of {n} steps; {len(seen)} are named by an index, and {want} are steps")
    else:
        rep.undecided(key, "what is registered")


def steps_of(F):
    return sum(1 for t in F.assembled if "EndoscalingStep" in deep(solid(F.fl, F.fl.deref_all(t.args[1].args[0])) if t.args[1].op == "trace" else t))


def judge(rep, F, fn, key, side, label, vn, got, k, n):
    if got.op not in ("mask", "object"):
        return rep.undecided(key, "what is registered")
    comps = CIRCUITS.get(vn, ())[:1] if side == "native" else ()
    try:
        if vn == "EndoscalingStep":
            path = None
            want = [t for t in F.assembled if registry(F, t) == "nested_registry" and number(F, t) == k]
            if len(want) != 1:
                raise Odd("what the prover assembles at this index")
            i = label.split()[-1]
            c = solid(F.fl, F.fl.deref_all(want[0].args[1].args[0]))
            if got.op != "object" or strip(got.args[0], n) != strip(c, n):
                return rep.bad(key, fn.where, f"at the index of {label}, {name(got)} is registered, but the prover assembles a trace of the circuit {deep(c)}")
            if not deep(c).endswith(" " + i):
                return rep.bad(key, fn.where, f"at the index of step {i} of endoscaling is {deep(c)}")
            return rep.ok(key)
        if side == "native" and comps:
            p = place(F, NATIVE[comps[0]])
            if p.op != "assembled":
                raise Odd(f"the proof's {comps[0]}")
            c = solid(F.fl, F.fl.deref_all(p.args[1].args[0]))
            num = number(F, p)
            if num is None or registry(F, p) is None:
                raise Odd("the index it is assembled at")
            if num != k or registry(F, p) != "native_registry":
                return rep.bad(key, F.fn.where, f"the prover assembles the trace that is claimed to be of {label} as the circuit at {num}, and {label} is at {k}")
            if got.op != "object" or strip(got.args[0], n) != strip(c, n):
                if known(got) and clean(strip(c, n)) and clean(strip(got.args[0], n) if got.op == "object" else 0):
                    return rep.bad(key, fn.where, f"at the index of {label}, {name(got)} is registered, but the prover assembles a trace of the circuit {deep(c)}, or one made otherwise")
                raise Odd("the circuit's value")
            return rep.ok(key)
        # masks
        if side == "native":
            parts = MASKS.get(vn)
            if parts is None:
                raise Odd(f"an index with no known claim, {vn}")
            final = parts[0] in [c[0] for c in CIRCUITS.values()]
            paths = [NATIVE[x] for x in parts]
        else:
            final = vn.endswith("FinalStaged")
            parts = NMASKS.get(vn)
            if parts is None and not final:
                raise Odd(f"an index with no known claim, {vn}")
            paths = [NESTED[parts]] if not final else []
        want = set()
        if final and side == "nested":
            cs = [solid(F.fl, F.fl.deref_all(t.args[1].args[0])) for t in F.assembled if registry(F, t) == "nested_registry"]
            want = {last(rep, F, c) for c in cs}
        for p in paths:
            t = place(F, p)
            if final:
                if t.op != "assembled":
                    raise Odd(f"the proof's {p}")
                want.add(last(rep, F, solid(F.fl, F.fl.deref_all(t.args[1].args[0]))))
            else:
                if t.op != "stage_rx":
                    raise Odd(f"the proof's {p}")
                want.add(norm(t.args[0].args[0]))
        if len(want) != 1 or None in want:
            raise Odd("the stage it should be of")
        w = want.pop()
        kind = "final mask" if final else "mask"
        if got.op != "mask":
            return rep.bad(key, fn.where, f"at the index of {label}, {name(got)} is registered, and should be the {kind} of {short(w)}")
        if norm(got.args[0].args[0]) != w or got.args[1].args[0] != kind:
            return rep.bad(key, fn.where, f"at the index of {label}, {name(got)} is registered, and should be the {kind} of {short(w)}")
        rep.ok(key)
    except Odd as e:
        rep.undecided(key, str(e))


def known(got):
    return got.op in ("mask", "object")


def clean(s):
    """A value of which everything is known."""
    if isinstance(s, tuple) and len(s) == 3:
        return all(clean(x) for _k, x in s[2])
    return not isinstance(s, T) or s.op == "param"


def norm(s):
    """A stage by its type, with the names of generic parameters left out."""
    head = s.split("<")[0]
    return head


def number(F, t):
    c = F.fl.deref_all(F.fl.val(t.args[2]))
    while c.op == "adt" and len(c.args[2]) == 1:
        c = F.fl.deref_all(F.fl.val(c.args[2][0][1]))
    return int(c.args[0]) if c.op == "lit" and str(c.args[0]).isdigit() else None


def registry(F, t):
    p = path_of(solid(F.fl, t.args[0]))
    return p[1] if p and p[0] == "self" else None


def last(rep, F, c):
    """The last stage of a circuit with stages."""
    if c.op == "adt" and c.args[1] == "MultiStage":
        c = dict(c.args[2]).get("circuit", c)
    if c.op != "adt":
        return None
    for im in rep.prog.impls:
        if im.get("trait") == "ragu_circuits::staging::MultiStageCircuit" and im["self_ty"].adt == c.args[0]:
            for it in im["items"]:
                if it.get("name") == "Last" and it.get("ty") is not None:
                    return norm(it["ty"].s)
    return None


def steps_(rep, fn, objs, n):
    """The index of each step."""
    prog = rep.prog
    IX = STEPX + "Index"
    f = rep.need(IX + "::circuit_index", public=False)
    if f is None:
        return
    names = {"Rerandomize": None, "Trivial": None}
    for im in prog.impls:
        if im.get("trait") == STEPX + "Step" and im["crate"] == "ragu_pcd" and "::internal::" in (im["self_ty"].adt or ""):
            names[im["self_ty"].adt.split("::")[-1]] = im["self_ty"].adt
    for nm, adt in names.items():
        key = f"steps/{nm}/{n} steps"
        if adt is None:
            rep.undecided(key, "no such step")
            continue
        c = prog.consts.get(f"<{adt} as {STEPX}Step>::INDEX") or next((x for p, x in prog.consts.items() if p.startswith(f"<{adt}") and p.endswith("Step>::INDEX")), None)
        fl = Flow(prog, hooks={**std_hooks(), "eval_consts": True})
        try:
            fl.run(f, pos=[T("param", "x"), T("param", "n")])
            v = constant(c["cv"]) if c.get("cv") is not None else fl.deref_all(fl.constbody(c, None))
        except Exception as e:
            rep.undecided(key, f"its index: {type(e).__name__}")
            continue
        k = index(rep, f, [v, lit(n)])
        if k is None:
            rep.undecided(key, "its index")
            continue
        got = objs[k] if k < len(objs) else None
        if got is not None and got.op not in ("mask", "object"):
            rep.undecided(key, "what is registered")
            continue
        rep.check(got is not None and got.op == "object" and adapted(got.args[0]) == adt, key, fn.where, f"at {k}, the index of the step {nm} with {n} steps in the application, is {name(got) if got is not None else 'nothing'}")
    for i in range(n):
        key = f"steps/application {i}/{n} steps"
        k = index(rep, f, [T("adt", IX, "Index", (("index", appindex(prog, i)),)), lit(n)])
        if k is None:
            rep.undecided(key, "its index")
            continue
        got = objs[k] if k < len(objs) else None
        rep.check(got is T("object", T("param", f"step{i}")), key, f.where, f"at {k}, the index of step {i} of {n} in the application, is {name(got) if got is not None else 'nothing'}")


def appindex(prog, i):
    d = prog.adts[STEPX + "Index"]
    e = d["variants"][0]["fields"][0]["ty"].adt
    return T("adt", e, "Application", (("0", lit(i)),))


def adapted(t):
    if t.op == "adt":
        s = dict(t.args[2]).get("step")
        return s.args[0] if s is not None and s.op == "adt" else None
