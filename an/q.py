"""What the rules share: obligations, reports, and questions about the program."""
import sys

sys.setrecursionlimit(50000)
from flow import Flow, T, TRUE, FALSE, UNIT, NEVER, TOP, flat, events, show, subterms, rewrite, lit, dump  # noqa: F401,E402
from ir import Program, Ty, Fn, walk, children, callee  # noqa: F401,E402


class Finding:
    def __init__(self, key, where, msg):
        self.key, self.where, self.msg = key, where, msg


class Report:
    """Collects obligations. A key names what is wrong without line numbers, so that a listed
    finding stays the same finding when code around it moves."""

    def __init__(self, prog, serial, status):
        self.prog, self.serial, self.status = prog, serial, status
        self.bads, self.oks, self.undec = [], [], []
        self.fns = set()
        self.sites = 0
        self.rules = []
        self.assume = []

    def rule(self, text):
        self.rules.append(text)

    def seen(self, *fns):
        for f in fns:
            if f is not None:
                self.fns.add(f.path if isinstance(f, Fn) else f)

    def ok(self, key):
        self.oks.append(key)

    def bad(self, key, where, msg):
        self.bads.append(Finding(key, where, msg))

    def undecided(self, key, why):
        self.undec.append((key, why))

    def merge(self, other, prefix):
        self.oks += [prefix + k for k in other.oks]
        have = {b.key for b in self.bads}
        self.bads += [Finding(prefix + b.key, b.where, b.msg) for b in other.bads if b.key not in have]
        self.undec += [(prefix + k, w) for k, w in other.undec]
        self.fns |= other.fns

    def check(self, cond, key, where, msg):
        if cond:
            self.ok(key)
        else:
            self.bad(key, where, msg)
        return cond

    def floor(self, n, what):
        """Fails closed when fewer obligations than expected were found."""
        total = len(self.oks) + len(self.bads) + len(self.undec)
        if self.undec or self.bads:
            # what is missing may hang on what was not understood
            return
        if total < n and not self.prog.broken:
            self.bad(f"floor/{what}", "-", f"only {total} obligations were found for {what}, at least {n} are expected: the anchors of this rule are gone")

    def need(self, path, public=True):
        """The function with this path. Its absence is a failure, unless its body is one that was cut."""
        f = self.prog.fn(path)
        if f is None:
            l = self.prog.find(path)
            f = l[0] if len(l) == 1 else None
        if f is None:
            if public and not self.prog.broken:
                self.bad(f"missing/{path}", "-", f"{path} no longer exists")
            else:
                self.undecided(f"missing/{path}", "the function was not found")
            return None
        if f.broken:
            self.undecided(f"broken/{path}", "the body does not type-check and was not analysed")
            return None
        self.seen(f)
        return f

    def flow(self, fn, **kw):
        run_args = kw.pop("args", None)
        tsub = kw.pop("tsub", None)
        fl = Flow(self.prog, **kw)
        nodes, v = fl.run(fn, args=run_args, tsub=tsub)
        self.seen(fn, *fl.visited.values())
        self.sites += sum(1 for n in flat(nodes) if n.kind == "ev")
        return fl, nodes, v


    def witness(self):
        """The program together with the macro witnesses, or None if they do not compile now."""
        import os
        bad = self.status.get("witness")
        if bad:
            self.undecided("witness", f"the macro witnesses do not compile: {bad[0]}")
            return None
        if getattr(self, "_wit", None) is None:
            self._wit = Program([os.path.join(self.dir, "main"), os.path.join(self.dir, "witness")])
        return self._wit


def record(fl, e, fr, path, args, res=None):
    """Notes an event of a rule's own making, from a hook."""
    from flow import Event, Node
    ev = Event()
    ev.path = ev.fn = path
    ev.name = path.split("::")[-1]
    ev.owner, ev.line, ev.args, ev.res = fr.fn, e["l"], list(args), res
    ev.targs, ev.ty, ev.id = [], None, 0
    fl.emit(Node("ev", fr.fn, e["l"], None, ev=ev))


def inline(fl, fn, args, fr):
    """Evaluates fn in place, from a hook."""
    from flow import Frame
    fl.visited[fn.path] = fn
    return fl.call_body(Frame(fn, {}), fn.body, args)


def canon_args(fn, prog, names=None):
    """Parameters renamed after their position (the driver excepted), so that a rename changes nothing."""
    out = {}
    i = 0
    for p, ty in zip(fn.body.get("params", []), fn.ins):
        if p is None:
            continue
        nm = p["name"] if p["k"] == "bind" else None
        drivers = {q.split(":")[0].strip() for q in fn.preds if ": ragu_core::drivers::Driver" in q}
        if ty.peeled in drivers:
            continue
        if nm:
            out[nm] = T("param", f"p{i}")
        i += 1
    return out


def wires(t, path=""):
    """(path, wire term, value term or None, owner adt) of every wire-carrying leaf of a result."""
    if t.op == "adt":
        names = [n for n, _ in t.args[2]]
        if "wire" in names:
            d = dict(t.args[2])
            yield path, d["wire"], d.get("value"), t.args[0]
            return
        for n, x in t.args[2]:
            if n.startswith("_") or n == "value":
                continue
            yield from wires(x, f"{path}.{n}" if path else n)
    elif t.op in ("tuple", "seq"):
        for i, x in enumerate(t.args):
            if x.op == "each":
                continue
            yield from wires(x, f"{path}.{i}" if path else str(i))


def unresult(t):
    """The value inside Ok(..); NEVER-free."""
    while t.op == "adt" and t.args[1] in ("Ok", "Some") and t.args[0].startswith("core::"):
        t = t.args[2][0][1]
    if t.op == "ite":
        a, b = t.args[1], t.args[2]
        if a.op == "adt" and a.args[1] in ("Err", "None"):
            return unresult(b)
        if b.op == "adt" and b.args[1] in ("Err", "None"):
            return unresult(a)
    return t


def std_hooks():
    """Containers and wrappers that only carry their contents: FixedVec, Demoted."""
    FV = "ragu_primitives::vec::FixedVec"
    CF = "ragu_primitives::vec::CollectFixed"
    DM = "ragu_primitives::promotion::Demoted"

    def ident(fl, e, fr, path, args):
        return fl.val(args[0])

    def identm(fl, e, fr, path, args):
        return args[0] if args[0].op == "ref" else fl.val(args[0])

    def okident(fl, e, fr, path, args):
        return T("adt", "core::result::Result", "Ok", (("0", fl.val(args[0])),))

    def collect(fl, e, fr, path, args):
        items = fl.iterate(args[0], lambda x: x, fr, e["l"])
        return T("adt", "core::result::Result", "Ok", (("0", T("seq", *items)),))

    def trycollect(fl, e, fr, path, args):
        def un(x):
            if x.op == "each":
                return T("each", x.args[0], *[un(y) for y in x.args[1:]])
            return fl.tryval(fl.val(x)) if x is not NEVER else x

        def step(x):
            return T("adt", "core::result::Result", "Ok", (("0", fl.do_try(x, fr, e["l"])),))

        items = fl.iterate(args[0], step, fr, e["l"])
        return T("adt", "core::result::Result", "Ok", (("0", T("seq", *[un(x) for x in items])),))

    def from_fn(tr):
        def h(fl, e, fr, path, args):
            ts = [t if isinstance(t, str) else fl.subst(fr.fn.types[t], fr).s for t in e.get("targs", [])]
            n = fl.hooks.get("len")
            if n is None and len(e.get("targs", [])) > 1 and isinstance(e["targs"][1], int):
                n = fl.len_of(fl.subst(fr.fn.types[e["targs"][1]], fr), fr)
            src = T("range", lit(0), n if n is not None else T("named", "len", ts[1] if len(ts) > 1 else "?"))

            def step(i):
                v = fl.apply(args[0], [i])
                if tr and v is not NEVER:
                    v = fl.do_try(v, fr, e["l"])
                return v

            r = T("seq", *fl.iterate(src, step, fr, e["l"]))
            return T("adt", "core::result::Result", "Ok", (("0", r),)) if tr else r

        return h

    def promote(fl, e, fr, path, args):
        v = fl.val(args[0])
        return fl.update(v, ("value",), args[1])

    return {
        f"{FV}::new": okident, f"<{FV} as core::convert::TryFrom>::try_from": okident,
        f"{FV}::into_inner": ident, f"<{FV} as core::ops::Deref>::deref": ident, f"<{FV} as core::ops::DerefMut>::deref_mut": identm,
        f"<{FV} as core::iter::IntoIterator>::into_iter": ident, f"<{FV} as core::clone::Clone>::clone": ident,
        f"{CF}::collect_fixed": collect, f"{CF}::try_collect_fixed": trycollect,
        f"{FV}::from_fn": from_fn(False), f"{FV}::try_from_fn": from_fn(True),
        f"{DM}::new": okident, f"<{DM} as core::ops::Deref>::deref": ident, f"{DM}::promote": promote,
        f"<{DM} as core::clone::Clone>::clone": ident,
    }


class Scene:
    """Composes functions: the value one of them yields is handed to the next, with one shared store."""

    def __init__(self, rep, hooks=None, opaque=None, tsub=None):
        self.rep, self.hooks, self.opaque, self.tsub = rep, hooks or {}, opaque, tsub
        self.env = {}
        self.rawmaybe = False
        self.n = 0
        self.nodes = []

    def cell(self, v):
        """A place holding v, and the borrow of it."""
        self.n += 1
        root = f"scene:*c{self.n}"
        self.env[root] = v
        return T("ref", root, ())

    def get(self, ref):
        v = self.env[ref.args[0]]
        for p in ref.args[1]:
            v = FLOW.project(v, p)
        return v

    def call(self, fn, *pos, tsub=None):
        fl = Flow(self.rep.prog, hooks=self.hooks, opaque=self.opaque)
        fl.rawmaybe = self.rawmaybe
        fl.seed = self.env
        fl.recurse = self.hooks.get("recurse", False)
        fl.maxdepth = self.hooks.get("depth", fl.maxdepth)
        nodes, v = fl.run(fn, pos=list(pos), tsub=tsub or self.tsub)
        self.env = dict(fl.env)
        self.rep.seen(fn, *fl.visited.values())
        self.rep.sites += sum(1 for n in flat(nodes) if n.kind == "ev")
        self.nodes = nodes
        self.fl = fl
        self.raw = v
        return fl.deref_all(v) if v is not NEVER else v


FLOW = Flow(None)


def impl_fn(prog, trait, name, head=None, pred=None):
    """The functions implementing trait::name for types whose head is given."""
    out = []
    for f in prog.all_fns():
        if f.trait == trait and f.name == name and not f.provided:
            h = f.path.split(" as ")[0].lstrip("<")
            if head is None or h == head:
                if pred is None or pred(f):
                    out.append(f)
    return out


def node_events(nodes, *names):
    for n in flat(nodes):
        if n.kind == "ev" and (not names or n.ev.name in names or n.ev.path in names):
            yield n.ev


def counts(nodes, pred):
    """How many events satisfying pred lie on each path that leaves normally, as a set of counts
    (capped at 3; a loop contributes 0 or many)."""

    def go(ns):
        """(counts that fall through, counts that have returned with something other than Err)"""
        cur, done = {0}, set()
        for n in ns:
            if n.kind == "ev":
                if pred(n.ev):
                    cur = {min(3, c + 1) for c in cur}
            elif n.kind == "branch":
                nx = set()
                for _, k in n.kids:
                    f, d = go(k)
                    nx |= {min(3, c + x) for c in cur for x in f}
                    done |= {min(3, c + x) for c in cur for x in d}
                cur = nx
            elif n.kind == "loop":
                f, d = go(n.kids)
                done |= {min(3, c + x) for c in cur for x in d}
                if any(f):
                    cur = cur | {3}
            elif n.kind == "closure":
                pass
            elif n.kind == "inline":
                f, d = go(n.kids)
                cur = {min(3, c + x) for c in cur for x in f | d}
            elif n.kind == "ret":
                v = n.a[1] if isinstance(n.a, tuple) and len(n.a) > 1 else None
                if not (isinstance(v, T) and v.op == "adt" and v.args[1] == "Err"):
                    done |= cur
                cur = set()
            elif n.kind == "panic":
                cur = set()
        return cur, done

    f, d = go(nodes)
    return f | d


PLAIN = {"param", "cparam", "field", "vfield", "ev", "named", "lit", "elem", "index", "nth"}


def strange(r, ok=()):
    """The atoms of a fraction that no rule of arithmetic explains (an unknown call, a merge, ..)."""
    out = []
    for p in (r.n, r.d):
        for a in p.atoms():
            x = a[1] if isinstance(a, tuple) else a
            if isinstance(x, T) and x.op not in PLAIN and x not in ok:
                out.append(x)
    return out


def same_value(rep, got, want, key, where, msg):
    """got (a term or fraction) denotes want; an atom that is not understood decides nothing."""
    import cs
    if got is NEVER:
        rep.bad(key, where, msg)
        return False
    g = cs.value(got) if isinstance(got, T) else got
    if (g - want).zero():
        rep.ok(key)
        return True
    s = strange(g)
    if s:
        rep.undecided(key, f"{msg}: {s[0]!r} is not understood"[:300])
        return False
    rep.bad(key, where, msg)
    return False


def simplify(t, env=None):
    """Folds conditions, comparisons and lengths, with some conditions known."""
    env = env or {}

    def f(x):
        if x in env:
            return env[x]
        if x.op == "bin":
            x = FLOW.binop(*x.args)
        elif x.op == "un" and x.args[0] == "Not":
            x = FLOW.neg(x.args[1])
        elif x.op == "and":
            x = FLOW.conj(*x.args)
        elif x.op == "or":
            x = FLOW.disj(*x.args)
        elif x.op == "ite":
            x = FLOW.ite(*x.args)
        elif x.op == "len" and x.args[0].op == "seq" and all(y.op not in ("each", "splice") for y in x.args[0].args):
            x = lit(len(x.args[0].args))
        if isinstance(x, T):
            if x in env:
                return env[x]
            n = FLOW.neg(x) if x.op in ("bin", "un") else None
            if n is not None and n in env:
                return FLOW.neg(env[n])
        return x

    return rewrite(t, f)


def leaves(t, limit=64):
    """(assumed conditions, term without alternatives) for every outcome of the conditions in t."""
    out = []
    work = [({}, simplify(t))]
    while work:
        env, x = work.pop()
        if len(out) + len(work) > limit:
            return None
        if x is NEVER:
            continue
        c = None
        for s in subterms(x):
            if s.op == "ite":
                cs = [s.args[0]]
                while cs:
                    k = cs.pop()
                    if k.op in ("and", "or"):
                        cs.extend(k.args)
                    elif k.op == "un" and k.args[0] == "Not":
                        cs.append(k.args[1])
                    elif not any(y.op == "ite" for y in subterms(k)):
                        c = k
                        break
                if c is not None:
                    break
        if c is None:
            out.append((env, x))
            continue
        for v in (FALSE, TRUE):
            e = {**env, c: v}
            work.append((e, simplify(x, e)))
    return out
