"""Where a fallible call's error goes: an ownership question answered on the typed syntax tree."""
from ir import walk, children, callee

RES = "core::result::Result"
ERR = "ragu_core::errors::Error"
THROUGH = {"map", "map_err", "and_then", "inspect", "inspect_err", "as_ref", "as_mut", "cloned", "copied", "flatten", "transpose", "clone", "as_deref", "as_deref_mut", "and"}
DROPS = {"ok", "unwrap_or", "unwrap_or_default", "map_or", "or", "iter", "into_iter", "iter_mut", "is_ok_and", "unwrap_unchecked"}
MAYBE = {"unwrap_or_else", "map_or_else", "or_else"}
PANICS = {"expect", "unwrap", "unwrap_err", "expect_err"}


def ty(fn, e):
    return fn.types[e["t"]] if e.get("t") is not None else None


def is_result(fn, e):
    t = ty(fn, e)
    if t is None:
        return False
    if t.adt != RES or len(t.args) < 2:
        return False
    return t.args[1].adt == ERR or t.args[1].s == ERR


def handles(fn, e):
    """The expression leaves with an error, diverges, or makes one."""
    for x in walk(e):
        if x["k"] == "Adt" and x.get("adt") == RES and x.get("variant") == "Err":
            return True
        if x["k"] == "Call":
            c = str(callee(x))
            if c.split("::")[-1] == "Err" and "Result" in c or "panicking" in c or c.endswith(("Sender::send", "from_residual")):
                return True
            t = ty(fn, x)
            if t is not None and t.k == "never":
                return True
        if x["k"] == "Return" and "e" in x:
            y = x["e"]
            if not (y["k"] == "Adt" and y.get("variant") == "Ok"):
                return True
    return False


def parents(root):
    par = {}
    st = [root]
    while st:
        e = st.pop()
        for x in children(e):
            par[id(x)] = e
            st.append(x)
    return par


def pat_binds(p):
    k = p["k"]
    if k == "bind":
        yield p["v"]
        if "sub" in p:
            yield from pat_binds(p["sub"])
    elif k in ("leaf", "variant"):
        for _, s in p["sub"]:
            yield from pat_binds(s)
    elif k in ("deref", "guard"):
        yield from pat_binds(p["sub"])
    elif k == "or":
        for s in p["sub"]:
            yield from pat_binds(s)


def pat_variant(p):
    while p["k"] == "deref":
        p = p["sub"]
    return p.get("variant") if p["k"] == "variant" else ("_" if p["k"] in ("_", "bind") else None)


def res_ty(t):
    return t is not None and t.adt == RES and len(t.args) > 1 and t.args[0].adt != "core::convert::Infallible" and (t.args[1].adt == ERR or t.args[1].s == ERR)


def patterns(e):
    """Patterns that bind parts of a matched value, a let excepted."""
    if e["k"] == "Match" and not str(e["src"]).startswith("Try"):
        for a in e["arms"]:
            yield a["pat"]
    elif e["k"] == "Let":
        yield e["pat"]
    elif e["k"] == "Closure" and "e" in e["body"]:
        for q in e["body"].get("params", []):
            if q:
                yield q


def held(fn, p):
    """Variables of a pattern that hold a fallible result."""
    k = p["k"]
    if k == "bind":
        if "sub" not in p and res_ty(fn.types[p["t"]]) and not p.get("ref"):
            yield p["v"]
    elif k in ("leaf", "variant"):
        for _, s in p["sub"]:
            yield from held(fn, s)
    elif k in ("deref", "guard"):
        yield from held(fn, p["sub"])


class Errs:
    def __init__(self, fn, sel=None):
        self.fn = fn
        self.root = fn.body["e"]
        self.par = parents(self.root)
        self.sel = sel or (lambda e: is_result(fn, e))

    def sites(self):
        """(call expression, verdict, reason) of every fallible call; verdict: ok, bad or unknown."""
        fn = self.fn
        for e in walk(self.root):
            if e["k"] == "Call" and self.sel(e):
                c = str(callee(e))
                if c.startswith(RES) or "FromResidual" in c:
                    continue
                v, why = self.ctx(e, 0)
                yield e, v, why
                continue
            if e["k"] == "Call" and "item" in e and res_ty(fn.types[e["item"]]) and str(e.get("fn")).split("::")[-1] in ("flatten", "last", "count"):
                yield e, "bad", f"{e['fn'].split('::')[-1]} skips failed items"
            for p in patterns(e):
                for v in held(fn, p):
                    uses = [x for x in walk(self.root) if x["k"] == "Var" and x["v"] == v]
                    vs = [self.ctx(u, 1) for u in uses] or [("bad", "it is never looked at")]
                    for w in ("ok", "unknown", "bad"):
                        x = next((x for x in vs if x[0] == w), None)
                        if x:
                            yield e, x[0], "of a bound result: " + x[1]
                            break
            if e["k"] == "Fn" or (e["k"] == "Const" and "fn" in e):
                p = str(e.get("res") or e.get("fn") or e.get("path") or "")
                if p.startswith(RES) and p.split("::")[-1] in DROPS and p.split("::")[-1] not in ("into_iter", "iter", "iter_mut"):
                    t = ty(fn, e)
                    targs = e.get("targs", [])
                    if any(not isinstance(i, str) and fn.types[i].s == ERR for i in targs) or (t is not None and ERR in t.s):
                        yield e, "bad", f"{p.split('::')[-1]} is applied to fallible results"

    def ctx(self, e, d):
        if d > 60:
            return "unknown", "too deep"
        p = self.par.get(id(e))
        if p is None:
            return "ok", "returned"
        k = p["k"]
        fn = self.fn
        if k == "Block":
            if p.get("e") is e:
                return self.ctx(p, d + 1)
            for s in p["stmts"]:
                if s["k"] != "let":
                    if s["e"] is e:
                        t = ty(fn, e)
                        if t is not None and t.k == "never" or e["k"] in ("Return", "Break", "Continue"):
                            return "ok", "diverges"
                        return "bad", "its result is discarded"
                elif s.get("init") is e:
                    return self.let(s, d)
                elif s.get("else") is e:
                    return "ok", "diverges"
            return "unknown", "block"
        if k == "Closure":
            g = self.par.get(id(p))
            while g is not None and g["k"] == "Call":
                last = str(callee(g)).split("::")[-1]
                if last in ("flat_map", "flatten"):
                    return "bad", f"{last} skips failed items"
                if last in ("map", "enumerate", "zip", "chain", "rev", "take", "skip", "inspect"):
                    g = self.par.get(id(g))
                    continue
                if last in ("count", "for_each", "last", "max_by_key") and g["args"]:
                    return "unknown", last
                break
            return "ok", "returned by a closure"
        if k == "Return":
            return "ok", "returned"
        if k in ("Borrow", "Deref", "Use", "Cast", "Scope", "NeverToAny", "PlaceTypeAscription"):
            return self.ctx(p, d + 1)
        if k == "If":
            if p["c"] is e:
                return "unknown", "condition"
            return self.ctx(p, d + 1)
        if k == "Let":
            v = pat_variant(p["pat"])
            g, child = self.par.get(id(p)), p
            while g is not None and g["k"] == "Logical":
                child, g = g, self.par.get(id(g))
            if g is None or g["k"] != "If":
                return "unknown", "let"
            if v == "Ok":
                if "else" not in g:
                    return "bad", "the error case is skipped"
                return ("ok", "else") if handles(fn, g["else"]) or is_result(fn, g["else"]) else ("bad", "the error case goes on")
            if v == "Err":
                return ("ok", "then") if handles(fn, g["then"]) or is_result(fn, g["then"]) or self.used(p["pat"], g["then"]) else ("bad", "the error case goes on")
            return "unknown", "let"
        if k == "Match":
            if p["e"] is not e:
                return self.ctx(p, d + 1)
            if p["src"] != "Normal":
                return "ok", "?"
            for a in p["arms"]:
                v = pat_variant(a["pat"])
                if v in ("Err", "_", None):
                    if v is None:
                        return "unknown", "pattern"
                    if v == "_" and a["pat"]["k"] == "bind":
                        continue
                    if not (handles(fn, a["body"]) or self.used(a["pat"], a["body"]) or is_result(fn, a["body"])):
                        return "bad", "the error case goes on"
            return "ok", "matched"
        if k == "Call":
            c = str(callee(p) or "")
            last = c.split("::")[-1]
            if c.endswith("Try>::branch") or c.endswith("Try::branch"):
                return "ok", "?"
            if c.startswith((RES + "::", "std::result::Result::", "<" + RES)) and p["args"] and p["args"][0] is e:
                if last in PANICS:
                    return "ok", "panics"
                if last in THROUGH:
                    return self.ctx(p, d + 1)
                if last in DROPS:
                    return "bad", f"{last} forgets the error"
                if last in MAYBE:
                    h = p["args"][1] if len(p["args"]) > 1 else None
                    if h is not None and handles(fn, h):
                        return "ok", last
                    if h is not None and h["k"] == "Closure":
                        b = h["body"]
                        vs = [v for q in b.get("params", [])[1:] if q for v in pat_binds(q)]
                        if any(x["k"] == "Var" and x["v"] in vs for x in walk(b["e"])) if "e" in b else False:
                            return "ok", last
                        return "bad", f"{last} replaces the error"
                    return "unknown", last
                return "unknown", last
            if last in ("drop", "forget") and c.startswith(("core::mem", "std::mem", "alloc::")):
                return "bad", f"{last}ped"
            return "ok", "handed on"
        if k in ("Loop",):
            return "unknown", k
        return "ok", "stored"

    def used(self, pat, body):
        vs = set(pat_binds(pat))
        return any(x["k"] == "Var" and x["v"] in vs for x in walk(body))

    def let(self, s, d):
        pat = s["pat"]
        if pat["k"] == "_":
            return "bad", "its result is bound to _"
        if pat["k"] == "bind" and "sub" not in pat:
            uses = [x for x in walk(self.root) if x["k"] == "Var" and x["v"] == pat["v"]]
            if not uses:
                return "bad", "its result is never used"
            vs = [self.ctx(u, d + 1) for u in uses]
            for v in ("ok", "unknown", "bad"):
                for x in vs:
                    if x[0] == v:
                        return x
        v = pat_variant(pat)
        if v == "Ok" and "else" in s:
            return ("ok", "else") if handles(self.fn, s["else"]) else ("bad", "the error case goes on")
        return "unknown", "let"
