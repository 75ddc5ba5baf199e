"""Witness values are read only where they exist: the shape of a circuit never depends on them."""
import errs
from q import *

LEVEL = "other"
RULE = ("Every place that takes the value out of a possibly absent witness is located in the typed syntax tree. It must lie inside a "
        "closure handed to an operation that runs it only when witnesses are present (the witness constructors and maps, the value "
        "closures of gates and allocations, or a function all of whose uses of that parameter are such positions), or in a function "
        "that is only ever called from such closures or with drivers whose witness is always present (computed over the call graph), "
        "or have a receiver whose type is the always-present representation.")
ASSUME = ["Code outside the workspace that instantiates crate-private helpers does not exist; public functions with naked reads are judged by their callers in the workspace."]
FLOOR = 80
MB = "ragu_core::maybe::"
TAKES = (MB + "Maybe::take", MB + "Maybe::snag")
SAFE = {MB + "Maybe::" + n for n in ("just", "try_just", "map", "and_then")} | {MB + "MaybeKind::maybe_just", MB + "MaybeKind::maybe_try_just",
    "ragu_core::drivers::Driver::just", "ragu_core::drivers::Driver::try_just", "ragu_core::drivers::Driver::mul", "ragu_core::drivers::Driver::alloc",
    "ragu_core::drivers::DriverTypes::gate", "ragu_core::drivers::emulator::Mode::gate"}
CALLS = ("core::ops::FnOnce::call_once", "core::ops::Fn::call", "core::ops::FnMut::call_mut")


def always(s):
    return "maybe::Always<" in s or "always::Always<" in s


class Who:
    def __init__(self, prog):
        self.prog = prog
        self.par = {}
        self.sites = {}  # callee path -> [(fn, call)]
        self.memo = {}
        self.busy = set()
        for f in prog.all_fns():
            if f.broken:
                continue
            for e in walk(f.body["e"]):
                if e["k"] == "Call":
                    for c in {str(e.get("fn")), str(e.get("res"))}:
                        self.sites.setdefault(c, []).append((f, e))
                elif e["k"] == "Fn":
                    for c in {str(e.get("fn")), str(e.get("res")), str(e.get("path"))}:
                        self.sites.setdefault(c, []).append((f, None))
        self.kinds = {}
        for i in prog.impls:
            if i.get("trait") == "ragu_core::drivers::DriverTypes":
                for it in i["items"]:
                    if it.get("name") == "MaybeKind" and "ty" in it:
                        self.kinds[i["self"]] = it["ty"].s

    def parents(self, f):
        if f not in self.par:
            self.par[f] = errs.parents(f.body["e"])
        return self.par[f]

    def present(self, t):
        """The driver type always carries its witness."""
        if not hasattr(t, "s"):
            return False
        if always(t.s):
            return True
        k = self.kinds.get(t.adt)
        return k is not None and always(k)

    def confined(self, f, e):
        """True, or why not: expression e of f runs only when witnesses are present."""
        key = (f.path, id(e))
        if key in self.memo:
            return self.memo[key]
        if key in self.busy:
            return True
        self.busy.add(key)
        r = self._confined(f, e)
        self.busy.discard(key)
        self.memo[key] = r
        return r

    def _confined(self, f, e):
        par = self.parents(f)
        x = e
        while id(x) in par:
            y = par[id(x)]
            if x["k"] == "Closure" and self.closure_safe(f, x, y):
                return True
            x = y
        return self.only_from(f)

    def closure_safe(self, f, c, p):
        if p["k"] == "Block":  # let-bound: every use must be safe
            for s in p["stmts"]:
                if s["k"] == "let" and s.get("init") is c and s["pat"]["k"] == "bind":
                    return self.var_safe(f, s["pat"]["v"], f.body["e"])
            return False
        while p is not None and p["k"] in ("Borrow", "Cast", "Use"):
            c, p = p, self.parents(f).get(id(p))
        return p is not None and p["k"] == "Call" and any(a is c for a in p["args"]) and self.arg_safe(f, p, [a is c for a in p["args"]].index(True))

    def var_safe(self, f, v, root):
        par = self.parents(f)
        uses = [x for x in walk(root) if x["k"] == "Var" and x["v"] == v]
        ok = bool(uses)
        for u in uses:
            c, p = u, par.get(id(u))
            while p is not None and p["k"] in ("Borrow", "Deref", "Cast", "Use"):
                c, p = p, par.get(id(p))
            if p is not None and p["k"] == "Call" and any(a is c for a in p["args"]):
                i = [a is c for a in p["args"]].index(True)
                if p.get("fn") in CALLS and i == 0:
                    if not self.inside(f, p):
                        ok = False
                    continue
                if self.arg_safe(f, p, i):
                    continue
            if self.inside(f, u):
                continue
            ok = False
        return ok

    def inside(self, f, e):
        """Within a safe closure (the function's own callers not considered)."""
        par = self.parents(f)
        x = e
        while id(x) in par:
            y = par[id(x)]
            if x["k"] == "Closure" and self.closure_safe(f, x, y):
                return True
            x = y
        return False

    def arg_safe(self, f, call, i):
        base, res = str(call.get("fn")), str(call.get("res") or "")
        if base in SAFE or res in SAFE:
            return True
        l = self.prog.fns.get(res or base) or self.prog.fns.get(base) or []
        if len(l) != 1 or l[0].broken:
            return False
        g = l[0]
        if g.trait in ("ragu_core::drivers::Driver", "ragu_core::drivers::DriverTypes") and g.name in ("mul", "gate", "alloc"):
            return True
        if g.trait == MB + "Maybe":
            return g.name in ("just", "try_just", "map", "and_then")
        ps = g.body.get("params", [])
        if i >= len(ps) or ps[i] is None or ps[i]["k"] != "bind":
            return False
        key = ("arg", g.path, i)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = True
        r = self.var_safe(g, ps[i]["v"], g.body["e"])
        self.memo[key] = r
        return r

    def only_from(self, g):
        """True, or the place that calls g with a witness possibly absent."""
        if any("MaybeKind == " in p and always(p) for p in g.preds):
            return True
        i = next((i for i in self.prog.impls if i["crate"] == g.crate and i["did"] == g.impl), None) if g.impl is not None else None
        if i is not None and (self.present(i["self_ty"]) or any("MaybeKind == " in p and always(p) for p in i.get("preds", []))):
            return True
        key = ("fn", g.path)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = True
        sites = self.sites.get(g.path, [])
        if g.trait and not g.provided:
            r = "it implements a trait and may run without witnesses"
        elif not sites:
            r = "nothing in the workspace calls it"
        else:
            r = True
            for f, c in sites:
                if c is None:
                    r = f"{f.path} passes it as a value"
                    break
                if any(self.present(f.types[t]) for t in c.get("targs", []) if not isinstance(t, str)):
                    continue
                q = self.confined(f, c)
                if q is not True:
                    r = f"{f.path} (line {c['l']}) calls it where witnesses may be absent"
                    break
        self.memo[key] = r
        return r


def run(rep):
    w = Who(rep.prog)
    for f in rep.prog.all_fns():
        if f.broken or f.crate.endswith("_build"):
            continue
        n = 0
        for e in walk(f.body["e"]):
            if e["k"] != "Call" or e.get("fn") not in TAKES:
                continue
            if f.trait == MB + "Maybe":
                continue
            n += 1
            rep.seen(f)
            rep.sites += 1
            key = f"{f.path}/{n}"
            t = f.types[e["args"][0]["t"]]
            if str(e.get("res") or "").startswith(f"<{MB}always::Always") or t.peeled.startswith((MB + "Always<", MB + "always::Always<")):
                rep.ok(key)
                continue
            r = w.confined(f, e)
            if r is True:
                rep.ok(key)
            elif "nothing in the workspace" in r:
                rep.undecided(key, f"a witness is read outside a witness closure of {f.path}, which {r}")
            else:
                rep.bad(f"{f.path}", f"{f.file}:{e['l']}", f"a witness value is read outside any closure that runs only when witnesses are present: {r}")


def structure(rep):
    """No driver operation depends on a branch over a witness: reads sit in closures, and closures have no driver."""
    w = Who(rep.prog)
    for f in rep.prog.all_fns():
        if f.broken or f.crate.endswith("_build"):
            continue
        for e in walk(f.body["e"]):
            if e["k"] != "Closure":
                continue
            p = w.parents(f).get(id(e))
            if p is None or not w.closure_safe(f, e, p) or "e" not in e["body"]:
                continue
            for x in walk(e["body"]["e"]):
                if x["k"] == "Call" and x.get("trait") in ("ragu_core::drivers::Driver", "ragu_core::drivers::DriverTypes") and str(x.get("fn")).split("::")[-1] in ("gate", "mul", "alloc", "add", "constant", "enforce_zero", "enforce_equal", "routine"):
                    t = f.types[x["targs"][0]] if x.get("targs") and not isinstance(x["targs"][0], str) else None
                    if t is not None and not w.present(t) and t.adt is None:
                        rep.bad(f"{f.path}/driver", f"{f.file}:{x['l']}", f"a driver operation ({x['fn']}) runs inside a witness closure: the circuit would differ between runs")
            rep.seen(f)
            inner = {v for x in walk(e["body"]["e"]) for v in bound(x)} | {v for q in e["body"].get("params", []) if q for v in errs.pat_binds(q)}
            for v, x in mutated(e["body"]["e"]):
                if v in inner:
                    continue
                out = [u for u in walk(f.body["e"]) if u["k"] == "Var" and u["v"] == v and not w.inside(f, u)]
                if f.path.startswith("<") and w.only_from(f) is True:
                    continue
                for u in out:
                    rep.bad(f"{f.path}/escape", f"{f.file}:{x.get('l', f.line)}", f"a witness closure changes a variable that line {u['l']} reads outside: what follows would differ between runs with and without witnesses")
                    break
                else:
                    rep.ok(f"{f.path}/captured/{v}")
    rep.ok("closures/no-driver")


def bound(x):
    if x["k"] == "Block":
        for s in x["stmts"]:
            if s["k"] == "let":
                yield from errs.pat_binds(s["pat"])
    elif x["k"] == "Match":
        for a in x["arms"]:
            yield from errs.pat_binds(a["pat"])
    elif x["k"] == "Let":
        yield from errs.pat_binds(x["pat"])
    elif x["k"] == "Closure":
        for q in x["body"].get("params", []):
            if q:
                yield from errs.pat_binds(q)


CELLS = ("cell::Cell::set", "cell::Cell::replace", "cell::RefCell::borrow_mut", "cell::RefCell::replace", "::store", "::fetch_add", "::fetch_or", "cell::OnceCell::set", "Mutex::lock", "mpsc::Sender::send", "::swap")


def root(x):
    while x["k"] in ("Field", "Index", "Deref", "Borrow", "Use", "Cast") or (x["k"] == "Call" and str(x.get("fn")).endswith(("Deref::deref", "DerefMut::deref_mut", "IndexMut::index_mut", "Index::index"))):
        x = x["args"][0] if x["k"] == "Call" else x["e"] if "e" in x else x["a"]
    return x["v"] if x["k"] == "Var" else None


def mutated(e):
    for x in walk(e):
        if x["k"] in ("Assign", "AssignOp"):
            v = root(x["a"])
        elif x["k"] == "Borrow" and x.get("mut"):
            v = root(x["e"])
        elif x["k"] == "Call" and x["args"] and str(callee(x)).endswith(CELLS):
            v = root(x["args"][0])
        else:
            continue
        if v:
            yield v, x


PARTS = {"reads": run, "closures": structure}
