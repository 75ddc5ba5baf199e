"""Registration of steps: in order, no suffix for two headers, and the step's own circuit."""
from pcd import *
from fuse import solid
from rules.c27 import adapted, self_ty
import itertools

LEVEL = "other"
RULE = ("Registering a step is evaluated, by value numbering over its typed body with the map of suffixes as what was put into it, for every index from 0 to 3 with 0 to 3 steps "
        "registered, for every way in which the step's three headers and one registered before are the same types or not and have the same suffixes or not. "
        "It must fail when the index is not the number of steps registered so far, and when two different headers have one suffix; "
        "else it must succeed, append the step's own circuit, adapted, to the application's circuits and to nothing else, count it, and remember all suffixes. "
        "The number of a suffix must be different for all suffixes, an application's never an internal one's.")
ASSUME = ["No suffix is within two of the largest machine word.", "Two types have one TypeId only if they are the same; BTreeMap is a map."]
FLOOR = 60
AB = APP + "Builder"
RB = "ragu_circuits::registry::RegistryBuilder"
MAP = "alloc::collections::BTreeMap::"
OUT, IDX = "ragu_pcd::header::HeaderSuffix", "ragu_pcd::step::"


def run(rep):
    fn = rep.need(AB + "::register")
    if fn is None:
        return
    # the order of indexes
    for n in range(4):
        for i in range(4):
            scene(rep, fn, n, i, {"Output": ("O", 0), "Left": ("L", 1), "Right": ("R", 2)}, {}, f"order/step {i} after {n}")
    # suffixes: the types and suffixes of the three headers and of one registered before
    k = 0
    for shape in itertools.product(range(4), repeat=4):
        if any(x > 1 + max(shape[:j], default=-1) for j, x in enumerate(shape)):
            continue  # types named in order of appearance
        for suff in itertools.product(range(4), repeat=len(set(shape))):
            if any(x > 1 + max(suff[:j], default=-1) for j, x in enumerate(suff)):
                continue
            prior, o, l, r = shape
            hd = {"Output": (f"T{o}", suff[o]), "Left": (f"T{l}", suff[l]), "Right": (f"T{r}", suff[r])}
            scene(rep, fn, 1, 1, hd, {suff[prior]: f"T{prior}"}, f"suffixes/{k}")
            k += 1
    internal(rep, fn)
    numbers(rep)


def suffix(k):
    return T("adt", "ragu_pcd::header::Suffix", "Suffix", (("suffix", T("adt", OUT, "Application", (("0", lit(k)),))),))


class Away(Exception):
    pass


def flow(rep, hd, index):
    prog = rep.prog

    def which(fl, e, fr):
        ts = [fl.subst(fr.fn.types[t], fr).s for t in e.get("targs", []) if isinstance(t, int)]
        for t in ts[:1]:
            n = t.rsplit("::", 1)[-1].rstrip(">")
            if n in hd:
                return hd[n]
        raise Odd(f"a header {ts}")

    def root(fl, r):
        while r.op == "ref":
            v = fl.read(r.args[0], r.args[1])
            if v.op != "ref":
                return r
            r = v
        return r

    def entries(fl, r):
        m = fl.deref_all(fl.val(r))
        if m.op != "map":
            raise Odd("the map of suffixes")
        return m

    def find(m, k):
        for j in range(len(m.args) - 2, -1, -2):
            if m.args[j] is k:
                return m.args[j + 1]
        if not plain(k):
            raise Odd("a key")
        return None

    def get(fl, e, fr, p, a):
        v = find(entries(fl, a[0]), fl.deref_all(fl.val(a[1])))
        return T("adt", "core::option::Option", "None", ()) if v is None else T("adt", "core::option::Option", "Some", (("0", v),))

    def has(fl, e, fr, p, a):
        v = find(entries(fl, a[0]), fl.deref_all(fl.val(a[1])))
        return FALSE if v is None else TRUE

    def insert(fl, e, fr, p, a):
        m = entries(fl, a[0])
        k, v = fl.deref_all(fl.val(a[1])), fl.deref_all(fl.val(a[2]))
        old = find(m, k)
        r = root(fl, a[0])
        rest = [x for j in range(0, len(m.args), 2) if m.args[j] is not k for x in m.args[j:j + 2]]
        fl.write(r.args[0], r.args[1], T("map", *rest, k, v))
        return T("adt", "core::option::Option", "None", ()) if old is None else T("adt", "core::option::Option", "Some", (("0", old),))

    hooks = dict(std_hooks())
    hooks.update({"unroll": 64, "range": 64, "eval_consts": True, "err_returns": True, "const:HEADER_SIZE": lit(H),
                  "const:SUFFIX": lambda fl, e, fr: suffix(which(fl, e, fr)[1]),
                  "const:INDEX": lambda fl, e, fr: index,
                  "core::any::TypeId::of": lambda fl, e, fr, p, a: T("type", lit(which(fl, e, fr)[0])),
                  "ragu_circuits::into_circuit_object": lambda fl, e, fr, p, a: okay(T("object", fl.deref_all(fl.val(a[0])))),
                  MAP + "get": get, MAP + "insert": insert, MAP + "contains_key": has})
    bin_ = Flow.binop

    class F2(Flow):
        def binop(self, op, a, b):
            x, y = self.deref_all(self.val(a)), self.deref_all(self.val(b))
            if op in ("Eq", "Ne") and x.op == y.op == "type":
                return TRUE if (x is y) == (op == "Eq") else FALSE
            return bin_(self, op, a, b)

    fl = F2(prog, hooks=hooks)
    fl.maxdepth = 60
    return fl


def plain(t):
    return t.op == "lit" or t.op == "adt" and all(plain(x) for _k, x in t.args[2])


def app_index(i):
    return T("adt", IDX + "Index", "Index", (("index", T("adt", IDX + "StepIndex", "Application", (("0", lit(i)),))),))


def builder(prog, n, prior):
    d = [f["name"] for f in prog.adts[RB]["variants"][0]["fields"]]
    reg = T("adt", RB, "RegistryBuilder", tuple((f, T("seq", *([T("object", T("param", f"step{i}")) for i in range(n)] if f == "application_steps" else []))) for f in d))
    vals = {"native_registry": reg, "num_application_steps": lit(n), "header_map": T("map", *[x for k, t in prior.items() for x in (suffix(k), T("type", lit(t)))])}
    fs = [f["name"] for f in prog.adts[AB]["variants"][0]["fields"]]
    if not set(vals) <= set(fs):
        raise Odd("the builder of an application")
    return T("adt", AB, "ApplicationBuilder", tuple((f, vals.get(f, T("param", f))) for f in fs))


def conflict(hd, prior):
    seen = dict(prior)
    for n in ("Output", "Left", "Right"):
        t, s = hd[n]
        if seen.setdefault(s, t) != t:
            return True
    return False


def scene(rep, fn, n, i, hd, prior, key):
    try:
        fl = flow(rep, hd, app_index(i))
        nodes, v = fl.run(fn, pos=[builder(rep.prog, n, prior), T("param", "step")])
        rep.seen(fn, *fl.visited.values())
        lv = [] if v is NEVER else leaves(fl.deref_all(v))
        if len(lv) != 1:
            raise Odd(f"{len(lv)} outcomes")
        r = lv[0][1]
        if r.op != "adt" or r.args[1] not in ("Ok", "Err"):
            raise Odd("the outcome")
        fail = i != n or conflict(hd, prior)
        what = f"a step of index {i} after {n} others" if key.startswith("order") else \
            "a step whose output, left and right headers are " + ", ".join(f"{t} with suffix {s}" for t, s in (hd["Output"], hd["Left"], hd["Right"])) + " after " + ", ".join(f"{t} with suffix {s}" for s, t in prior.items())
        if (r.args[1] == "Err") != fail:
            return rep.bad(key, fn.where, f"{what} is {'accepted' if fail else 'refused'}")
        if fail:
            return rep.ok(key)
        b = solid(fl, fl.deref_all(fl.val(r.args[2][0][1])))
        d = dict(b.args[2]) if b.op == "adt" else {}
        reg = dict(d["native_registry"].args[2]) if "native_registry" in d and d["native_registry"].op == "adt" else None
        if reg is None:
            raise Odd("the registry after")
        for f, s in reg.items():
            if s.op != "seq":
                raise Odd(f"the registry's {f} after")
            want = n + 1 if f == "application_steps" else 0
            if len(s.args) != want:
                return rep.bad(key, fn.where, f"after {what}, the registry has {len(s.args)} {f.replace('_', ' ')}, and should have {want}")
        got = reg["application_steps"].args[:n]
        if got != tuple(T("object", T("param", f"step{j}")) for j in range(n)):
            return rep.bad(key, fn.where, f"{what} changes the steps registered before")
        o = reg["application_steps"].args[n]
        if o.op != "object" or o.args[0].op != "adt":
            raise Odd("the circuit registered")
        st = dict(o.args[0].args[2]).get("step")
        if not o.args[0].args[0].endswith("::Adapter") or st is not T("param", "step"):
            return rep.bad(key, fn.where, f"what is registered for a step is not that step's circuit, adapted")
        c = d.get("num_application_steps")
        if c is None or c.op != "lit":
            raise Odd("the number of steps after")
        if int(c.args[0]) != n + 1:
            return rep.bad(key, fn.where, f"after {what}, {c.args[0]} steps are counted")
        m = d.get("header_map")
        if m is None or m.op != "map":
            raise Odd("the suffixes after")
        now = {m.args[j]: m.args[j + 1] for j in range(0, len(m.args), 2)}
        want = {suffix(s): T("type", lit(t)) for t, s in list(hd.values()) + [(t, s) for s, t in prior.items()]}
        if now != want:
            return rep.bad(key, fn.where, f"after {what}, not all suffixes are remembered with their headers")
        rep.ok(key)
    except Odd as e:
        rep.undecided(key, str(e))


def internal(rep, fn):
    """An internal step cannot be registered."""
    for name in ("Rerandomize", "Trivial"):
        key = f"order/internal {name}"
        ix = T("adt", IDX + "Index", "Index", (("index", T("adt", IDX + "StepIndex", "Internal", (("0", T("adt", IDX + "InternalStepIndex", name, ())),))),))
        try:
            fl = flow(rep, {"Output": ("O", 0), "Left": ("L", 1), "Right": ("R", 2)}, ix)
            nodes, v = fl.run(fn, pos=[builder(rep.prog, 0, {}), T("param", "step")])
            lv = [] if v is NEVER else leaves(fl.deref_all(v))
            ok = [x for _c, x in lv if x.op == "adt" and x.args[1] == "Ok"]
            if any(x.op != "adt" for _c, x in lv):
                raise Odd("the outcome")
            rep.check(not ok, key, fn.where, f"a step with the internal index {name} can be registered")
        except Odd as e:
            rep.undecided(key, str(e))


def numbers(rep):
    """Suffixes have numbers of their own."""
    get, new, mk = rep.need("ragu_pcd::header::Suffix::get", public=False), rep.need("ragu_pcd::header::Suffix::new"), rep.need("ragu_pcd::header::Suffix::internal", public=False)
    if get is None or new is None or mk is None:
        return
    seen = {}
    for kind, make in (("internal", mk), ("application", new)):
        for k in range(8):
            key = f"numbers/{kind} {k}"
            fl = Flow(rep.prog, hooks={**std_hooks(), "eval_consts": True})
            nodes, s = fl.run(make, pos=[lit(k)])
            if s is NEVER:
                continue
            fl2 = Flow(rep.prog, hooks={**std_hooks(), "eval_consts": True})
            nodes, v = fl2.run(get, pos=[solid(fl, fl.deref_all(s))])
            rep.seen(get, make)
            v = fl2.deref_all(v) if v is not NEVER else v
            if v is NEVER or v.op != "lit":
                rep.undecided(key, "its number")
                continue
            n = int(v.args[0])
            rep.check(n not in seen, key, get.where, f"the {kind} suffix {k} and the {seen.get(n)} have the same number, {n}")
            seen.setdefault(n, f"{kind} suffix {k}")
