"""Blinding: every polynomial a proof commits to has randomness of its own."""
from joint import *
import fuse

LEVEL = "other"
RULE = ("The prover is evaluated by value numbering with every draw from a random source a term of its own that remembers its source. Every stage's "
        "polynomial and every circuit's trace in the proof must be blinded by a draw from the caller's source; no draw may blind two of them or occur "
        "anywhere else in what the prover computes, sends or hands on; and no such polynomial may be one of a child's. The assembly of a "
        "trace must draw its blinding value from the source it is given and hand it on, with the trace and the plan of the circuit named; and the value "
        "handed on must be on a wire of the first gate that nothing else is on.")
ASSUME = ["The caller's source is random.", "Where the blinding value goes in the polynomial is checked for traces by C10 and for stages by C20."]
FLOOR = 60
REG = "ragu_circuits::registry::Registry::"
RNG = T("param", "rng")


def run(rep):
    try:
        F = fuse.Fuse(rep)
    except Odd as e:
        return rep.undecided("fuse", str(e))
    draws(Told(rep), F)
    assembly(rep)


def source(t):
    while t.op in ("ref", "after"):
        t = t.args[2] if t.op == "after" and len(t.args) > 2 else t.args[0]
    return t


def draws(rep, F):
    where = F.fn.where
    owner = {}
    hidden = {}
    for kind, terms, at, name in (("stage", F.stages, 1, lambda t: short(t.args[0].args[0])), ("trace", F.assembled, 3, lambda t: f"trace {1 + F.assembled.index(t)}")):
        for i, t in enumerate(terms):
            n = name(t)
            key = f"{kind}/{i}"
            a = F.fl.deref_all(t.args[at])
            hidden[t] = at
            if a not in F.drawn:
                if plain(a):
                    rep.bad(key, f"the polynomial of {n} is blinded by {say(a)}, which is no draw from a random source", where)
                else:
                    rep.undecided(key, f"what blinds the polynomial of {n}")
                continue
            s = source(F.drawn[a]) if F.drawn[a] is not None else None
            if s is not RNG:
                if s is not None and s.op in ("call", "named", "lit"):
                    rep.bad(key, f"what blinds the polynomial of {n} is not drawn from the caller's source", where)
                else:
                    rep.undecided(key, f"the source of what blinds the polynomial of {n}")
                continue
            if a in owner:
                rep.bad(key, f"one draw blinds both the polynomial of {owner[a]} and that of {n}", where)
                continue
            owner[a] = n
            rep.ok(key, f"{n} is blinded by a draw of its own", where)
    # no blinding value is given away
    seen, todo, leaked = set(), [F.value], set()
    todo += [x for l in F.log for x in (l if isinstance(l, (list, tuple)) else [l]) if isinstance(x, T)]
    todo += list(F.stages) + list(F.assembled) + list(F.traces)
    while todo:
        t = todo.pop()
        if t.id in seen:
            continue
        seen.add(t.id)
        if t.op == "ref":
            todo.append(F.fl.deref_all(t))
            continue
        for i, x in enumerate(t.args):
            for y in kids(x):
                if t in hidden and i == hidden[t]:
                    continue
                if y in owner:
                    leaked.add(y)
                elif y not in F.drawn:
                    todo.append(y)
    for a, n in owner.items():
        if a in leaked:
            rep.bad(f"kept/{n}", f"what blinds the polynomial of {n} is used elsewhere too", where)
        else:
            rep.ok(f"kept/{n}")


    old(rep, F, where)


def old(rep, F, where):
    """No polynomial of the proof is a child's."""
    seen, todo = set(), [F.fl.deref_all(F.value)]
    while todo:
        t = F.fl.deref_all(F.fl.val(todo.pop()))
        if t.id in seen:
            continue
        seen.add(t.id)
        if t.op == "adt":
            decl = F.fl.prog.adts.get(t.args[0])
            tys = {f["name"]: str(f["ty"]) for v in (decl or {}).get("variants", []) if v["name"] == t.args[1] for f in v["fields"]}
            for k, x in t.args[2]:
                x = F.fl.deref_all(F.fl.val(x))
                q = path_of(x)
                if "Polynomial" in tys.get(k, "") or q and "poly" in q[1].rsplit(".", 1)[-1]:
                    if q and q[0] in ("left", "right"):
                        rep.bad(f"new/{t.args[0].split('::')[-1]}.{k}", f"the {k} of the proof's {t.args[0].split('::')[-1]} is the {q[0]} child's", where)
                    elif x.op in ("stage_rx", "assembled"):
                        rep.ok(f"new/{t.args[0].split('::')[-1]}.{k}/{x.id}")
                todo.append(x)
        elif t.op in ("seq", "tuple"):
            todo.extend(t.args)


def kids(x):
    if isinstance(x, T):
        yield x
    elif isinstance(x, tuple):
        for y in x:
            yield from kids(y)


def short(s):
    s = s.split("<")[0].replace("ragu_pcd::internal::", "")
    return s.replace("::stages", "").replace("::Stage", "").replace("endoscalar::", "").replace("::", " ")


def plain(t):
    """A value computed from known ones, no random source among them."""
    if t.op == "param":
        return t is not RNG and not t.args[0].startswith(("random", "draw"))
    return t.op in ("named", "lit", "field", "vfield", "call", "bin", "un", "adt", "index", "challenge", "squeezed", "state", "endo", "lift", "seq", "absorbed", "tuple") and \
        all(plain(y) for x in t.args for y in kids(x))


def say(a):
    return a.args[0].split("::")[-1] if a.op in ("named", "lit", "param") else str((path_of(a) or ["", "", "a value that is known"])[-1])


def assembly(rep):
    """Assembling draws once from the source given."""
    fn = rep.need(REG + "assemble")
    if fn is None:
        return
    drawn = []

    def rnd(fl, e, fr, p, a):
        drawn.append(fl.deref_all(fl.val(a[0])) if a else None)
        return T("param", f"draw{len(drawn)}")

    got = []

    def assemble(fl, e, fr, p, a):
        got.append([fl.deref_all(fl.val(x)) for x in a])
        return okay(T("param", "assembled"))

    fl = Flow(rep.prog, hooks={"ff::Field::random": rnd, "ragu_circuits::trace::Trace::assemble": assemble})
    nodes, v = fl.run(fn, pos=[T("param", "self"), T("param", "trace"), T("param", "circuit"), RNG])
    rep.seen(fn, *fl.visited.values())
    key = "assemble"
    if len(got) != 1:
        return rep.undecided(key, "how a trace is assembled")
    tr, plan, alpha = got[0][0], got[0][1], got[0][-1]
    if alpha.op == "param" and alpha.args[0].startswith("draw"):
        k = int(alpha.args[0][4:]) - 1
        rep.check(drawn[k] is RNG, key + "/source", fn.where, "a trace is blinded by a draw from another source than the one given")
    elif plain(alpha):
        rep.bad(key + "/source", fn.where, "a trace is not blinded by a draw")
    else:
        rep.undecided(key + "/source", "what blinds a trace")
    rep.check(tr is T("param", "trace"), key + "/trace", fn.where, "the trace assembled is not the one given")
    ps = [x for x in leafs(plan)]
    if plan.op == "index" and "circuit" in ps:
        rep.check("floor_plans" in str(plan), key + "/plan", fn.where, "a trace is not assembled by its circuit's plan")
    else:
        rep.undecided(key + "/plan", "the plan a trace is assembled by")


def leafs(t):
    if t.op == "param":
        yield t.args[0]
    for x in t.args:
        for y in kids(x):
            yield from leafs(y)
