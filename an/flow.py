"""Flow-sensitive value numbering over the dumped bodies.

`Flow(program).run(fn)` walks one function in evaluation order and yields a structured list of
nodes (calls, branches, loops, exits) whose operands are value numbers: a local, a borrow, a clone,
an inlined helper or a rewritten loop leave no trace in them. Joins and loops are merged
(`ite`, `phi`), never enumerated; no path is handed to a solver and nothing is executed.
"""
import re

from ir import callee as callee_of


class T:
    """A hash-consed value number: an operator and its operands."""

    __slots__ = ("op", "args", "id", "refs")
    table = {}
    n = 0

    def __new__(cls, op, *args):
        key = (op, args)
        t = cls.table.get(key)
        if t is None:
            t = object.__new__(cls)
            t.op, t.args = op, args
            t.refs = op == "ref" or refs_in(args)
            cls.n += 1
            t.id = cls.n
            cls.table[key] = t
        return t

    def __repr__(self):
        return show(self)


def refs_in(xs):
    """Whether any reference occurs among terms."""
    for x in xs:
        if isinstance(x, T):
            if x.refs:
                return True
        elif isinstance(x, tuple) and refs_in(x):
            return True
    return False


def show(t, depth=6):
    if not isinstance(t, T):
        return str(t)
    if depth == 0:
        return "…"
    s = lambda x: show(x, depth - 1)
    o, a = t.op, t.args
    if o in ("lit", "named", "param", "cparam"):
        return str(a[0]).split("::")[-1] if o == "named" else str(a[0])
    if o == "field":
        return f"{s(a[0])}.{a[1]}"
    if o == "vfield":
        return f"{s(a[0])}.{a[1]}.{a[2]}"
    if o == "adt":
        return f"{a[0].split('::')[-1]}::{a[1]}{{" + ", ".join(f"{n}: {s(v)}" for n, v in a[2]) + "}"
    if o == "call" and '>' in a[0] and '::' not in a[0].rsplit('>')[0]:
        return f"{a[0]}(" + ", ".join(map(s, a[1:])) + ")"
    if o == "call":
        return f"{a[0].split(' as ')[-1].split('::')[-1] if '>' not in a[0] else '::'.join(x.rstrip('>') for x in a[0].rsplit('::', 2)[-2:])}(" + ", ".join(map(s, a[1:])) + ")"
    if o == "ev":
        return f"#{a[0]}"
    if o == "bin":
        return f"({s(a[1])} {a[0]} {s(a[2])})"
    return o + "(" + ", ".join(map(s, a)) + ")"


NEVER = T("never")
UNIT = T("tuple")
TRUE = T("lit", "true")
FALSE = T("lit", "false")
TOP = T("top")


def lit(v):
    return T("lit", str(v))


def adt(path, variant, **fields):
    return T("adt", path, variant, tuple(sorted(fields.items())))


OK = "core::result::Result"
OPT = "core::option::Option"


def ok(v):
    return T("adt", OK, "Ok", (("0", v),))


def subterms(t, seen=None):
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(x)
        elif isinstance(x, T) and x.id not in seen:
            seen.add(x.id)
            yield x
            stack.extend(x.args)


def rewrite(t, f, memo=None, within=None):
    """Rebuilds a term bottom-up with f applied to every node."""
    memo = {} if memo is None else memo

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T):
            return x
        if x.id in memo:
            return memo[x.id]
        if within is not None and not within(x):
            return x
        y = f(T(x.op, *[go(a) for a in x.args]))
        memo[x.id] = y
        return y

    return go(t)


class Node:
    __slots__ = ("kind", "fn", "line", "a", "kids", "ev")

    def __init__(self, kind, fn, line, a=None, kids=(), ev=None):
        self.kind, self.fn, self.line, self.a, self.kids, self.ev = kind, fn, line, a, list(kids), ev

    @property
    def where(self):
        return f"{self.fn.file}:{self.line}"


SKIP = T("skip")


class Event:
    __slots__ = ("path", "fn", "args", "res", "owner", "line", "targs", "ty", "argtys", "name", "id")

    @property
    def where(self):
        return f"{self.owner.file}:{self.line}"

    def __repr__(self):
        return f"{self.res!r}={self.path}({', '.join(map(repr, self.args))})"


def dump(nodes, ind=0, out=None):
    out = [] if out is None else out
    p = "  " * ind
    for n in nodes:
        if n.kind == "ev":
            out.append(f"{p}{n.ev!r}   @{n.where}")
        elif n.kind == "branch":
            out.append(f"{p}branch {n.a!r}")
            for lab, k in n.kids:
                out.append(f"{p} - {lab}")
                dump(k, ind + 2, out)
        elif n.kind in ("loop", "closure", "inline"):
            out.append(f"{p}{n.kind} {n.a!r}")
            dump(n.kids, ind + 1, out)
        else:
            out.append(f"{p}{n.kind} {n.a!r}")
    return out


def events(nodes, into=("branch", "loop", "inline", "closure")):
    """Every call event in source order, descending into the given node kinds."""
    for n in nodes:
        if n.kind == "ev":
            yield n.ev
        elif n.kind == "branch":
            if "branch" in into:
                for _, k in n.kids:
                    yield from events(k, into)
        elif n.kind in into:
            yield from events(n.kids, into)


OPS = {
    "add": "Add", "sub": "Sub", "mul": "Mul", "div": "Div", "rem": "Rem", "neg": "Neg", "not": "Not",
    "bitand": "BitAnd", "bitor": "BitOr", "bitxor": "BitXor", "shl": "Shl", "shr": "Shr",
    "add_assign": "Add", "sub_assign": "Sub", "mul_assign": "Mul", "eq": "Eq", "ne": "Ne", "lt": "Lt",
    "le": "Le", "gt": "Gt", "ge": "Ge", "bitand_assign": "BitAnd", "bitor_assign": "BitOr",
    "bitxor_assign": "BitXor", "shl_assign": "Shl", "shr_assign": "Shr", "div_assign": "Div", "rem_assign": "Rem",
}
COMM = {"Add", "Mul", "BitAnd", "BitOr", "BitXor", "Eq", "Ne"}

IDENT = {
    "core::clone::Clone::clone", "core::ops::Deref::deref", "core::ops::DerefMut::deref_mut",
    "core::convert::AsRef::as_ref", "core::convert::AsMut::as_mut", "core::borrow::Borrow::borrow",
    "alloc::borrow::ToOwned::to_owned", "core::convert::identity", "core::borrow::BorrowMut::borrow_mut",
    "core::iter::IntoIterator::into_iter", "core::iter::Iterator::by_ref", "core::iter::Iterator::cloned",
    "core::iter::Iterator::copied", "alloc::boxed::Box::new", "core::hint::must_use", "core::iter::Iterator::into_iter",
    "alloc::sync::Arc::new", "alloc::rc::Rc::new", "alloc::sync::Arc::clone", "core::iter::Iterator::fuse",
    "core::iter::IntoParallelIterator::into_par_iter", "core::iter::Iterator::peekable", "core::hint::black_box",
}
#: Inherent functions on std containers that only change the view of the same contents.
IDENT_LAST = {"iter", "iter_mut", "into_iter", "as_slice", "as_mut_slice", "to_vec", "into_vec", "into_boxed_slice",
              "as_ref", "as_mut", "as_deref", "as_deref_mut", "par_iter", "into_par_iter", "cloned", "copied", "to_owned", "drain"}


def is_std(p):
    return p.startswith(("core::", "alloc::", "std::", "<core::", "<alloc::", "<std::", "<[", "<&", "&", "bool::", "rayon", "maybe_rayon", "<rayon", "[T]", "<T as core", "<I as core", "slice::", "str::", "[T")) or p.startswith("ragu_arithmetic::alloc")


class Closure:
    def __init__(self, expr, frame):
        self.expr, self.frame = expr, frame


class Frame:
    n = 0

    def __init__(self, fn, tsub, parent=None):
        Frame.n += 1
        self.id = Frame.n
        self.fn, self.tsub, self.parent = fn, tsub, parent
        self.returns = []
        self.owned = []
        self.drivers = set()
        for p in fn.preds:
            if ": ragu_core::drivers::Driver" in p:
                self.drivers.add(p.split(":")[0].strip())
        if parent:
            self.pcbase = 0


def constant(x):
    """The term of a constant the compiler has evaluated."""
    if isinstance(x, dict):
        return T("adt", x["adt"], x["v"], tuple(sorted((n, constant(y)) for n, y in x["f"])))
    if isinstance(x, list):
        return T("seq", *[constant(y) for y in x])
    return lit(x)


def slots_in(src):
    """The places that an iterator hands out."""
    if src.op in ("zip", "chain", "enumerate", "rev", "skip", "take", "step_by", "filter", "imap", "skip_while", "take_while"):
        return [r for x in src.args if isinstance(x, T) for r in slots_in(x)]
    if src.op == "seq":
        return [x for x in src.args if x.op == "ref"]
    return []


def slice_of(v, i):
    """The bounds of a subslice of a sequence whose elements are known."""
    if v.op != "seq" or any(x.op in ("each", "splice") for x in v.args):
        return None
    n = len(v.args)
    if i.op == "adt" and "Range" in i.args[0]:
        d = dict(i.args[2])
        a, b = d.get("start", lit(0)), d.get("end", lit(n))
        inc = i.args[0].endswith(("RangeInclusive", "RangeToInclusive"))
    elif i.op == "range" and len(i.args) == 2:
        a, b, inc = i.args[0], i.args[1], False
    elif i.op in ("new", "call") and len(i.args) == 3 and str(i.args[0]).endswith("RangeInclusive::new"):
        a, b, inc = i.args[1], i.args[2], True
    else:
        return None
    if a.op != "lit" or b.op != "lit" or not a.args[0].isdigit() or not b.args[0].isdigit():
        return None
    a, b = int(a.args[0]), int(b.args[0]) + inc
    return (a, b) if a <= b <= n else None


def fitting(general, special):
    """Whether a type is, as far as its constructors go, an instance of another."""
    if general.k == "param" or special.k in ("param", "alias"):
        return True
    if general.adt != special.adt or (not general.adt and general.k != special.k):
        return False
    if len(general.args) != len(special.args):
        return False
    return all(fitting(a, b) for a, b in zip(general.args, special.args))


def bytes_of(s):
    """The bytes of a byte-string literal."""
    return [lit(x) for x in s[2:].encode()] if s.startswith('b"') and "\ufffd" not in s else None


def generic_args(s):
    """The generic arguments in a type's printed form, lifetimes left out."""
    i = s.find("<")
    if i <= 0 or not s.endswith(">"):
        return []
    out, depth, cur = [], 0, ""
    for c in s[i + 1 : -1]:
        depth += {"<": 1, "(": 1, "[": 1, ">": -1, ")": -1, "]": -1}.get(c, 0)
        if c == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    return [x for x in out + [cur.strip()] if x and not x.startswith("'")]


def mutably(e):
    """Whether a method's receiver iterates by mutable reference."""
    x = e["args"][0] if e.get("args") else None
    while x is not None and x["k"] in ("Borrow", "Block") and "e" in x:
        x = x["e"]
    return x is not None and x["k"] == "Call" and (callee_of(x) or "").split("::")[-1] == "iter_mut"


class Flow:
    def __init__(self, prog, opaque=None, depth=10, inline=None, hooks=None, unroll=True):
        self.prog = prog
        self.fnsubs = {}
        self.opaque = opaque or (lambda p: False)
        self.inline_ok = inline or (lambda p: True)
        self.maxdepth = depth
        self.hooks = hooks or {}
        self.recurse = False  # whether a function may be entered again while it is being evaluated
        self.steps = 0
        self.diverged = False
        self.budget = 20_000_000
        self.visited = {}
        self.pending = {}

    # ---------------------------------------------------------------- entry
    def run(self, fn, args=None, tsub=None, pos=None):
        """Returns (nodes, result value number)."""
        self.env = dict(getattr(self, "seed", {}))
        self.out = []
        self.pc = []
        self.stack = []
        self.evn = 0
        self.closures = {}
        self.loopdepth = 0
        self.writes = None
        self.statics = {}
        fr = Frame(fn, tsub or {})
        vals = []
        for i, p in enumerate(fn.body.get("params", [])):
            if p is None:
                vals.append(TOP)
                continue
            name = p["name"] if p["k"] == "bind" else f"arg{i}"
            ty = fn.ins[i] if i < len(fn.ins) else None
            v = T("param", name)
            if pos is not None and i < len(pos) and pos[i] is not None:
                v = pos[i]
            elif args and name in args:
                v = args[name]
            elif ty is not None and ty.is_mut_ref:
                root = f"{fr.id}:*{name}"
                self.env[root] = v
                v = T("ref", root, ())
            vals.append(v)
        self.params = vals
        val = self.call_body(fr, fn.body, vals)
        return self.out, val

    def deref_all(self, t):
        """A value number with references replaced by what they refer to now."""

        def f(x):
            if x.op == "ref":
                return self.deref_all(self.read(x.args[0], x.args[1]))
            return x

        return rewrite(t, f, within=lambda x: x.refs) if t.refs else t

    def call_body(self, fr, body, vals):
        self.stack.append(fr)
        base = len(self.pc)
        fr.pcbase = base
        for p, v in zip(body.get("params", []), vals):
            if p is not None:
                self.bind(p, v, fr)
        v = self.ev(body["e"], fr)
        # A reference to a local of this frame denotes its value once the frame is gone.
        v = self.settle(v, fr)
        rets = [(c, self.settle(x, fr)) for c, x in fr.returns]
        if fr.owned:
            self.release(fr, v)
        self.stack.pop()
        for c, x in reversed(rets):
            if v is NEVER:
                v = x
            else:
                v = self.ite(c, x, v)
        return v

    def release(self, fr, v):
        """Values with destructors that a frame owned: moved out with its result, or dropped."""
        seen = set(subterms(self.deref_all(v))) if v is not NEVER else set()
        for w, drop in fr.owned:
            if w in seen:
                if len(self.stack) > 1:
                    self.stack[-2].owned.append((w, drop))
            elif v is not NEVER:
                drop(w)

    def settle(self, v, fr):
        pre = f"{fr.id}:"

        def f(x):
            if x.op == "ref" and x.args[0].startswith(pre) and not x.args[0].startswith(pre + "*"):
                return self.settle(self.read(x.args[0], x.args[1]), fr)
            return x

        if v is NEVER or not v.refs:
            return v
        return rewrite(v, f, within=lambda x: x.refs)

    # ---------------------------------------------------------------- places
    def read(self, root, proj):
        v = self.env.get(root, TOP)
        for p in proj:
            v = self.project(v, p)
        return v

    def project(self, v, p):
        """p: field name, ('v', variant, name) or ('i', index)."""
        if v.op == "ref":
            v = self.read(v.args[0], v.args[1])
        if isinstance(p, str):
            return self.field(v, p)
        if p[0] == "v":
            return self.vfield(v, p[1], p[2])
        return self.index(v, p[1])

    def field(self, v, name):
        if v.op == "ref":
            return self.field(self.read(v.args[0], v.args[1]), name)
        if name == "?m":
            return v.args[0] if v.op == "maybe" else T("unmaybe", v)
        if v.op == "cast":
            m = v.args[0]
            m = m.args[0] if m.op == "maybe" else T("unmaybe", m)
            return T("maybe", self.field(m, name))
        if v.op == "adt":
            for n, x in v.args[2]:
                if n == name:
                    return x
        if v.op == "tuple" and name.isdigit() and int(name) < len(v.args):
            return v.args[int(name)]
        if v.op == "with":
            if v.args[1] == name:
                return v.args[2]
            return self.field(v.args[0], name)
        if v.op == "ite":
            return self.ite(v.args[0], self.field(v.args[1], name), self.field(v.args[2], name))
        return T("field", v, name)

    def vfield(self, v, variant, name):
        if v.op == "ref":
            return self.vfield(self.read(v.args[0], v.args[1]), variant, name)
        if v.op == "adt":
            if v.args[1] == variant:
                return self.field(v, name)
            return NEVER
        if v.op == "ite":
            a, b = self.vfield(v.args[1], variant, name), self.vfield(v.args[2], variant, name)
            if a is NEVER:
                return b
            if b is NEVER:
                return a
            return self.ite(v.args[0], a, b)
        if variant == "Ok" and name == "0":
            return T("try", v)
        return T("vfield", v, variant, name)

    def index(self, v, i):
        if v.op == "ref":
            return self.index(self.read(v.args[0], v.args[1]), i)
        if v.op == "seq" and i.op == "lit" and i.args[0].isdigit():
            n = int(i.args[0])
            if n < len(v.args) and all(x.op != "each" for x in v.args[: n + 1]):
                return v.args[n]
        b = slice_of(v, i)
        if b is not None:
            return T("seq", *v.args[b[0]:b[1]])
        if v.op == "setidx":
            if v.args[1] is i:
                return v.args[2]
            if v.args[1].op == "lit" and i.op == "lit":
                return self.index(v.args[0], i)
        if v.op == "seq" and len(v.args) == 1 and v.args[0].op == "each" and len(v.args[0].args) == 2:
            src, body = v.args[0].args
            if src.op == "range" and src.args[0] is lit(0):
                return rewrite(body, lambda x: i if x.op == "elem" and x.args[0] is src else x)
        if i.op == "elem" and i.args[0].op == "range" and i.args[0].args[0] is lit(0):
            n = i.args[0].args[1]
            if n.op == "len" and n.args[0] is v:
                return self.elem_of(v)
        return T("index", v, i)

    def write(self, root, proj, val):
        if self.writes is not None:
            self.writes.add(root)
        if not proj:
            self.env[root] = val
            return
        self.env[root] = self.update(self.env.get(root, TOP), proj, val)

    def update(self, v, proj, val):
        if not proj:
            return val
        if v.op == "ref":
            self.write(v.args[0], v.args[1] + tuple(proj), val)
            return v
        p, rest = proj[0], proj[1:]
        if p == "?m":
            return T("maybe", self.update(self.field(v, p), rest, val))
        if isinstance(p, str):
            new = self.update(self.field(v, p), rest, val)
            if v.op == "adt" and any(n == p for n, _ in v.args[2]):
                return T("adt", v.args[0], v.args[1], tuple((n, new if n == p else x) for n, x in v.args[2]))
            if v.op == "tuple" and p.isdigit() and int(p) < len(v.args):
                a = list(v.args)
                a[int(p)] = new
                return T("tuple", *a)
            if v.op == "with" and v.args[1] == p:
                v = v.args[0]
            return T("with", v, p, new)
        if p[0] == "v":
            new = self.update(self.vfield(v, p[1], p[2]), rest, val)
            if v.op == "adt" and v.args[1] == p[1]:
                return T("adt", v.args[0], v.args[1], tuple((n, new if n == p[2] else x) for n, x in v.args[2]))
            return T("withv", v, p[1], p[2], new)
        i = p[1]
        new = self.update(self.index(v, i), rest, val)
        b = slice_of(v, i)
        if b is not None and new.op == "seq" and len(new.args) == b[1] - b[0]:
            return T("seq", *v.args[:b[0]], *new.args, *v.args[b[1]:])
        if v.op == "seq" and i.op == "lit" and i.args[0].isdigit() and int(i.args[0]) < len(v.args) and all(x.op != "each" for x in v.args):
            a = list(v.args)
            a[int(i.args[0])] = new
            return T("seq", *a)
        return T("setidx", v, i, new)

    def place(self, e, fr):
        """The place an expression denotes: (root, projections), or None for a temporary."""
        k = e["k"]
        if k == "Var":
            root = self.varroot(e, fr)
            v = self.env.get(root)
            return root, ()
        if k == "Field":
            pl = self.place(e["e"], fr)
            if pl is None:
                return None
            root, proj = pl
            v = self.read(root, proj)
            if v.op == "ref":
                root, proj = v.args[0], v.args[1]
            return root, proj + (e["name"],)
        if k == "Deref":
            pl = self.place(e["e"], fr)
            key = (id(e["e"]), fr.id)
            if pl is None:
                self.pending.pop(key, None)
                v = self.ev(e["e"], fr)
            else:
                v = self.read(*pl)
            if v.op == "ref":
                return v.args[0], v.args[1]
            if pl is None:
                # evaluated: whoever asks for the value next must not run it again
                self.pending[key] = v
            if pl is not None and v.op not in ("call", "ev"):
                # a shared reference or a box: the value stands for its referent
                return pl
            return None
        if k == "Index":
            pl = self.place(e["e"], fr)
            if pl is None:
                return None
            root, proj = pl
            v = self.read(root, proj)
            if v.op == "ref":
                root, proj = v.args[0], v.args[1]
            i = self.val(self.ev(e["i"], fr))
            return root, proj + (("i", i),)
        if k == "Call":
            # Deref/Index overloads of containers: the place inside the receiver.
            p = callee_of(e) or ""
            base = e.get("fn", "")
            if base in ("core::ops::Deref::deref", "core::ops::DerefMut::deref_mut", "core::convert::AsMut::as_mut", "core::convert::AsRef::as_ref") and e["args"]:
                pl = self.refplace(e["args"][0], fr)
                v = self.read(*pl) if pl is not None else None
                return (v.args[0], v.args[1]) if v is not None and v.op == "ref" else pl
            if base in ("core::ops::Index::index", "core::ops::IndexMut::index_mut") and self.prog.fn(p) is None:
                pl = self.refplace(e["args"][0], fr)
                if pl is None:
                    return None
                i = self.val(self.ev(e["args"][1], fr))
                return pl[0], pl[1] + (("i", i),)
            last = p.split("::")[-1]
            if p.startswith("core::cell::") and p in self.hooks:
                v = self.ev(e, fr)
                return (v.args[0], v.args[1]) if v.op == "ref" else None
            if is_std(p) and last in ("as_mut", "as_mut_slice", "iter_mut", "as_deref_mut", "borrow_mut") and e["args"]:
                return self.refplace(e["args"][0], fr)
            return None
        if k == "Block" and not e["stmts"] and "e" in e:
            return self.place(e["e"], fr)
        return None

    def refplace(self, e, fr):
        """The place a reference-typed expression points to."""
        if e["k"] == "Borrow":
            return self.place(e["e"], fr)
        pl = self.place(e, fr)
        if pl is not None:
            v = self.read(*pl)
            if v.op == "ref":
                return v.args[0], v.args[1]
            return pl
        return None

    def varroot(self, e, fr):
        v = e["v"]
        f = fr
        while f is not None:
            root = f"{f.id}:{v}"
            if root in self.env:
                return root
            f = f.parent
        return f"{fr.id}:{v}"

    # ---------------------------------------------------------------- patterns
    def bind(self, p, v, fr, place=None):
        k = p["k"]
        if k == "bind":
            root = f"{fr.id}:{p['v']}"
            if p.get("ref") and place is not None:
                self.env[root] = T("ref", place[0], place[1]) if p.get("refmut") else v
            else:
                self.env[root] = v
            if "sub" in p:
                self.bind(p["sub"], v, fr, place)
        elif k == "leaf":
            for n, s in p["sub"]:
                pl = (place[0], place[1] + (n,)) if place else None
                if v.op == "ref":
                    pl = (v.args[0], v.args[1] + (n,))
                self.bind(s, self.field(v, n), fr, pl)
        elif k == "variant":
            for n, s in p["sub"]:
                key = ("v", p["variant"], n)
                pl = (place[0], place[1] + (key,)) if place else None
                if v.op == "ref":
                    pl = (v.args[0], v.args[1] + (key,))
                self.bind(s, self.vfield(v, p["variant"], n), fr, pl)
        elif k == "deref":
            pl = place
            if v.op == "ref":
                pl = (v.args[0], v.args[1])
                v = self.read(*pl)
            self.bind(p["sub"], v, fr, pl)
        elif k == "slice":
            for i, s in enumerate(p["prefix"]):
                self.bind(s, self.index(v, lit(i)), fr, None)
            n = len(p["suffix"])
            for i, s in enumerate(p["suffix"]):
                self.bind(s, T("index", v, T("fromend", n - i)), fr, None)
            if "slice" in p:
                self.bind(p["slice"], T("subslice", v, len(p["prefix"]), n), fr, None)
        elif k == "or":
            alts = []
            for s in p["sub"]:
                lab, known = self.pat_test(s, v)
                if known is not False:
                    alts.append((s, lab))
                if known is True:
                    break
            if not alts:
                alts = [(p["sub"][-1], "_")]
            self.bind(alts[-1][0], v, fr, place)
            for s, lab in reversed(alts[:-1]):
                rest = self.env
                self.env = dict(rest)
                self.bind(s, v, fr, place)
                self.join(self.patcond(v, lab), self.env, False, rest, False)
        elif k == "guard":
            self.bind(p["sub"], v, fr, place)

    def pat_test(self, p, v):
        """(label, known): known is True/False when the outcome is decided, else None."""
        k = p["k"]
        if k in ("_", "never"):
            return "_", True
        if k == "bind":
            if "sub" in p:
                return self.pat_test(p["sub"], v)
            return "_", True
        if k == "deref":
            return self.pat_test(p["sub"], self.val(v))
        if k == "guard":
            return self.pat_test(p["sub"], v)
        v = self.val(v)
        if k == "variant":
            known = None
            if v.op == "adt":
                known = v.args[1] == p["variant"]
            subs = [(n, *self.pat_test(s, self.vfield(v, p["variant"], n))) for n, s in p["sub"]] if known is not False else []
            lab = p["variant"]
            inner = [f"{n}:{l}" for n, l, _ in subs if l != "_"]
            if inner:
                lab += "{" + ",".join(inner) + "}"
            if known:
                if any(k2 is False for _, _, k2 in subs):
                    known = False
                elif any(k2 is None for _, _, k2 in subs):
                    known = None
            return lab, known
        if k == "leaf":
            subs = [(n, *self.pat_test(s, self.field(v, n))) for n, s in p["sub"]]
            inner = [f"{n}:{l}" for n, l, _ in subs if l != "_"]
            known = True
            if any(x is False for _, _, x in subs):
                known = False
            elif any(x is None for _, _, x in subs):
                known = None
            return "(" + ",".join(inner) + ")" if inner else "_", known
        if k == "const":
            val = p["val"].split(":")[0].split("_")[0] if p["val"][:1].isdigit() else p["val"]
            known = None
            if v.op == "lit":
                known = str(v.args[0]) == val
            return val, known
        if k == "or":
            ks = [self.pat_test(s, v) for s in p["sub"]]
            known = True if any(x is True for _, x in ks) else (False if all(x is False for _, x in ks) else None)
            return "|".join(l for l, _ in ks), known
        if k == "slice":
            known = None
            v = self.val(v)
            if v.op == "seq" and all(x.op != "each" for x in v.args) and "slice" not in p:
                known = len(v.args) == len(p["prefix"]) + len(p["suffix"])
            if "slice" in p and not p["prefix"] and not p["suffix"]:
                known = True
            return f"[{len(p['prefix'])}{'..' if 'slice' in p else ''}{len(p['suffix']) or ''}]", known
        return p.get("val", k), None

    # ---------------------------------------------------------------- helpers
    def val(self, v):
        n = 0
        while v.op == "ref" and n < 50:
            v = self.read(v.args[0], v.args[1])
            n += 1
        return v

    def ite(self, c, a, b):
        if a is b:
            return a
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        if c.op == "un" and c.args[0] == "Not":
            return self.ite(c.args[1], b, a)
        if a is NEVER:
            return b
        if b is NEVER:
            return a
        if a is TRUE and b is FALSE:
            return c
        if a is FALSE and b is TRUE:
            return self.neg(c)
        if b is FALSE:
            return self.conj(c, a)
        if a is FALSE:
            return self.conj(self.neg(c), b)
        if a is TRUE:
            return self.disj(c, b)
        if b is TRUE:
            return self.disj(self.neg(c), a)
        if a.op == "adt" and b.op == "adt" and a.args[:2] == b.args[:2] and [n for n, _ in a.args[2]] == [n for n, _ in b.args[2]]:
            return T("adt", a.args[0], a.args[1], tuple((n, self.ite(c, x, y)) for (n, x), (_, y) in zip(a.args[2], b.args[2])))
        if a.op == "tuple" and b.op == "tuple" and len(a.args) == len(b.args):
            return T("tuple", *[self.ite(c, x, y) for x, y in zip(a.args, b.args)])
        return T("ite", c, a, b)

    def neg(self, c):
        if c is TRUE:
            return FALSE
        if c is FALSE:
            return TRUE
        if c.op == "un" and c.args[0] == "Not":
            return c.args[1]
        if c.op == "bin":
            flip = {"Eq": "Ne", "Ne": "Eq", "Lt": "Ge", "Ge": "Lt", "Gt": "Le", "Le": "Gt"}
            if c.args[0] in flip:
                return self.binop(flip[c.args[0]], c.args[1], c.args[2])
        if c.op == "and":
            return T("or", *sorted([self.neg(x) for x in c.args], key=lambda x: x.id))
        if c.op == "or":
            return self.conj(*[self.neg(x) for x in c.args])
        return T("un", "Not", c)

    def conj(self, *xs):
        s = []
        for x in xs:
            if x is FALSE:
                return FALSE
            if x is TRUE:
                continue
            s.extend(x.args if x.op == "and" else [x])
        s = sorted(set(s), key=lambda x: x.id)
        if not s:
            return TRUE
        return s[0] if len(s) == 1 else T("and", *s)

    def disj(self, *xs):
        s = []
        for x in xs:
            if x is TRUE:
                return TRUE
            if x is FALSE:
                continue
            s.extend(x.args if x.op == "or" else [x])
        s = sorted(set(s), key=lambda x: x.id)
        if not s:
            return FALSE
        return s[0] if len(s) == 1 else T("or", *s)

    def ground_eq(self, a, b):
        """Whether two values made of constructors and literals only are equal, when equality on them is structural."""
        a, b = self.val(a), self.val(b)
        if a.op == "lit" and b.op == "lit":
            return a is b
        if a.op == "tuple" and b.op == "tuple" and len(a.args) == len(b.args):
            rs = [self.ground_eq(x, y) for x, y in zip(a.args, b.args)]
            return False if any(r is False for r in rs) else None if any(r is None for r in rs) else True
        if a.op == "adt" and b.op == "adt" and a.args[0] == b.args[0]:
            i = self.prog.impl_of.get(("core::cmp::PartialEq", a.args[0]))
            if a.args[0] not in (OPT, OK) and not (i and all(x.get("derived") for x in (i if isinstance(i, list) else [i]))):
                return None
            if a.args[1] != b.args[1]:
                return False
            rs = [self.ground_eq(x[1], y[1]) for x, y in zip(a.args[2], b.args[2])]
            return False if any(r is False for r in rs) else None if any(r is None for r in rs) else True
        return None

    def binop(self, op, a, b):
        if op in ("AddWithOverflow", "AddUnchecked"):
            op = "Add"
        if a is NEVER or b is NEVER:
            return NEVER
        if "binop" in self.hooks:
            r = self.hooks["binop"](self, op, a, b)
            if r is not None:
                return r
        if a.op == "lit" and b.op == "lit":
            x, y = a.args[0], b.args[0]
            if x.lstrip("-").isdigit() and y.lstrip("-").isdigit():
                x, y = int(x), int(y)
                r = {"Add": lambda: x + y, "Sub": lambda: x - y, "Mul": lambda: x * y, "Div": lambda: x // y if y else None,
                     "Rem": lambda: x % y if y else None, "Shl": lambda: x << y if 0 <= y < 200 else None, "Shr": lambda: x >> y if 0 <= y < 200 else None,
                     "Eq": lambda: x == y, "Ne": lambda: x != y, "Lt": lambda: x < y, "Le": lambda: x <= y,
                     "Gt": lambda: x > y, "Ge": lambda: x >= y, "BitAnd": lambda: x & y, "BitOr": lambda: x | y}.get(op)
                if r:
                    r = r()
                    if r is True:
                        return TRUE
                    if r is False:
                        return FALSE
                    if r is not None:
                        return lit(r)
        if op == "Gt":
            op, a, b = "Lt", b, a
        elif op == "Ge":
            op, a, b = "Le", b, a
        if op in ("Eq", "Le") and a is b and a.op in ("lit", "named", "param"):
            return TRUE
        if op in ("Eq", "Ne") and a.op in ("adt", "tuple") and b.op == a.op:
            d = self.ground_eq(a, b)
            if d is not None:
                return TRUE if d == (op == "Eq") else FALSE
        if op in ("Eq", "Ne") and a.op == "adt" and b.op == "adt" and not a.args[2] and not b.args[2] and a.args[0] == b.args[0]:
            return TRUE if (a.args[1] == b.args[1]) == (op == "Eq") else FALSE
        if op == "BitAnd" and (a in (TRUE, FALSE) or b in (TRUE, FALSE)):
            return self.conj(a, b)
        if op == "BitOr" and (a in (TRUE, FALSE) or b in (TRUE, FALSE)):
            return self.disj(a, b)
        if op in COMM and b.id < a.id:
            a, b = b, a
        return T("bin", op, a, b)

    def emit(self, n):
        self.out.append(n)

    def under(self, cond, thunk):
        """Runs thunk with its nodes collected apart and cond on the path."""
        save, self.out = self.out, []
        self.pc.append(cond)
        v = thunk()
        self.pc.pop()
        nodes, self.out = self.out, save
        return v, nodes

    def join(self, c, env1, d1, env2, d2):
        """Merges two environments after a branch on c; d1/d2: that side does not continue."""
        if d1 and d2:
            self.env = env2
            return
        if d1:
            self.env = env2
            return
        if d2:
            self.env = env1
            return
        out = dict(env1)
        for k, v in env2.items():
            w = env1.get(k)
            if w is None:
                out[k] = v
            elif w is not v:
                out[k] = self.ite(c, w, v)
        self.env = out

    # ---------------------------------------------------------------- expressions
    def ev(self, e, fr):
        self.steps += 1
        if self.steps > self.budget:
            raise RuntimeError("more steps than this analysis is given")
        if self.pending:
            v = self.pending.pop((id(e), fr.id), None)
            if v is not None:
                return v
        m = getattr(self, "e_" + e["k"], None)
        if m is None:
            return TOP
        return m(e, fr)

    def e_Error(self, e, fr):
        return TOP

    def e_Lit(self, e, fr):
        return T("lit", e["val"])

    def e_Const(self, e, fr):
        p = e.get("res", e["path"])
        if "trait" not in e and e.get("targs") and e.get("res") == e["path"]:
            # an associated constant of a type parameter: resolve through the substitution
            pass
        ov = self.hooks.get("const:" + p.split("::")[-1])
        if callable(ov):
            ov = ov(self, e, fr)
        if ov is not None:
            return ov
        c = self.prog.consts.get(p)
        if c is None and e.get("targs"):
            selfty = self.subst(fr.fn.types[e["targs"][0]], fr)
            tr, _, name = e["path"].rpartition("::")
            if selfty is not None and selfty.adt:
                c = self.prog.consts.get(f"<{selfty.adt} as {tr}>::{name}")
        if c is not None and "val" in c:
            t = c["types"][c["t"]]
            if t.s == "bool":
                return TRUE if c["val"] == "1" else FALSE
            if self.hooks.get("fold_consts"):
                return T("lit", c["val"])
        if c is not None and isinstance(c.get("cv"), (dict, list)):
            return constant(c["cv"])
        if c is not None and self.hooks.get("eval_consts") and c.get("body") and "e" in c["body"]:
            return self.constbody(c, fr)
        m = None if c is not None else re.search(r"(?:^|::|impl )([ui](?:8|16|32|64|128|size))>?::(BITS|MAX|MIN)$", p)
        if m:
            w = 64 if m.group(1)[1:] == "size" else int(m.group(1)[1:])
            signed = m.group(1)[0] == "i"
            return lit({"BITS": w, "MAX": (1 << w - signed) - 1, "MIN": -(1 << w - 1) if signed else 0}[m.group(2)])
        tn = ()
        if e.get("targs"):
            tn = (self.subst(fr.fn.types[e["targs"][0]], fr).s,)
        return T("named", c["path"] if c else p, *tn)

    def constbody(self, c, fr):
        """The initializer of a constant, evaluated in place."""
        class K:
            pass

        k = K()
        k.__dict__.update(crate=c["crate"], types=c["types"], path=c["path"], file=c["file"], preds=[], generics=[], body=c["body"], provided=False, trait=None)
        return self.call_body(Frame(k, {}), {"params": [], "e": c["body"]["e"]}, [])

    def e_ConstParam(self, e, fr):
        s = fr.tsub.get(e["path"])
        s = s if isinstance(s, str) else e["path"]
        if s.isdigit():
            return lit(s)
        ov = self.hooks.get("const:" + s)
        return ov if ov is not None else T("named", s)

    def e_Static(self, e, fr):
        return T("named", e["path"])

    def e_Fn(self, e, fr):
        path, fn, sub = self.resolve(e, fr)
        key = e.get("fn", "")
        if fn is not None and sub:
            key += " " + repr(sorted((g, str(t)) for g, t in sub.items()))
            self.fnsubs[key] = (fn, sub)
        return T("fnref", path, e.get("fn", ""), key)

    def e_Var(self, e, fr):
        root = self.varroot(e, fr)
        return self.env.get(root, T("free", e["v"]))

    def e_Field(self, e, fr):
        pl = self.place(e, fr)
        if pl is not None:
            return self.read(*pl)
        v = self.ev(e["e"], fr)
        if v is NEVER:
            return v
        return self.field(v, e["name"])

    def e_Index(self, e, fr):
        v = self.val(self.ev(e["e"], fr))
        i = self.val(self.ev(e["i"], fr))
        return self.index(v, i)

    def e_Deref(self, e, fr):
        v = self.ev(e["e"], fr)
        return self.val(v)

    def e_Borrow(self, e, fr):
        if e["mut"]:
            pl = self.place(e["e"], fr)
            if pl is not None:
                v = self.read(*pl)
                if v.op == "ref" and e["e"]["k"] == "Deref":
                    return v
                return T("ref", pl[0], pl[1])
            v = self.ev(e["e"], fr)
            if v.op == "ref" or v is NEVER:
                return v
            Frame.n += 1
            root = f"{fr.id}:tmp{Frame.n}"
            self.env[root] = v
            return T("ref", root, ())
        v = self.ev(e["e"], fr)
        return v

    def e_RawBorrow(self, e, fr):
        return self.ev(e["e"], fr)

    def e_Cast(self, e, fr):
        v = self.val(self.ev(e["e"], fr))
        if v.op == "adt" and not v.args[2]:
            # a variant cast to its number
            d = self.prog.adts.get(v.args[0])
            n = next((x.get("discr") for x in (d or {}).get("variants", ()) if x["name"] == v.args[1]), None)
            if n is not None and n.lstrip("-").isdigit():
                return lit(int(n))
        s, t = (fr.fn.types[x["t"]].s if isinstance(x.get("t"), int) else None for x in (e["e"], e))
        w = self.WIDTHS.get(t)
        if w and w < self.WIDTHS.get(s, 0) and (s, w) != ("usize", 32):
            # a cast that may drop bits (counts are taken to fit a u32)
            if v.op != "lit":
                return T("narrow", t, v)
            if isinstance(v.args[0], int) and not isinstance(v.args[0], bool):
                return lit(v.args[0] % 2 ** w) if t[0] == "u" else v
        return v

    WIDTHS = {f"{s}{n}": n for s in "ui" for n in (8, 16, 32, 64, 128)} | {"usize": 64, "isize": 64}

    def e_Unary(self, e, fr):
        v = self.val(self.ev(e["e"], fr))
        if e["op"] == "Not":
            return self.neg(v)
        return T("un", e["op"], v)

    def e_Binary(self, e, fr):
        a = self.val(self.ev(e["a"], fr))
        b = self.val(self.ev(e["b"], fr))
        return self.binop(e["op"], a, b)

    def e_Logical(self, e, fr):
        a = self.val(self.ev(e["a"], fr))
        env1 = dict(self.env)
        cond = a if e["op"] == "And" else self.neg(a)
        b, nodes = self.under(cond, lambda: self.val(self.ev(e["b"], fr)))
        if nodes:
            self.emit(Node("branch", fr.fn, e["l"], cond, [("true", nodes), ("false", [])]))
            self.join(cond, self.env, b is NEVER, env1, False)
        return self.conj(a, b) if e["op"] == "And" else self.disj(a, b)

    def e_Tuple(self, e, fr):
        xs = []
        for x in e["es"]:
            v = self.ev(x, fr)
            if v is NEVER:
                return NEVER
            xs.append(v)
        return T("tuple", *xs)

    def e_Array(self, e, fr):
        xs = []
        for x in e["es"]:
            v = self.ev(x, fr)
            if v is NEVER:
                return NEVER
            xs.append(v)
        return T("seq", *xs)

    def e_Repeat(self, e, fr):
        v = self.ev(e["e"], fr)
        n = e["n"]
        s = fr.tsub.get(n)
        if isinstance(s, str):
            n = s
        return T("repeat", v, lit(n) if n.isdigit() else T("named", n))

    def e_Adt(self, e, fr):
        fs = {}
        for n, x in e["fields"]:
            v = self.ev(x, fr)
            if v is NEVER:
                return NEVER
            fs[n] = v
        if "base" in e:
            b = self.ev(e["base"], fr)
            d = self.prog.adts.get(e["adt"])
            if d:
                for x in d["variants"][0]["fields"]:
                    fs.setdefault(x["name"], self.field(b, x["name"]))
            else:
                fs["..base"] = b
        if e["adt"] == "core::ops::Range":
            return T("range", self.val(fs["start"]), self.val(fs["end"]))
        return T("adt", e["adt"], e["variant"], tuple(sorted(fs.items())))

    def e_Closure(self, e, fr):
        key = len(self.closures)
        self.closures[key] = Closure(e, fr)
        return T("closure", key)

    def e_ConstBlock(self, e, fr):
        return T("constblock", e.get("did", 0))

    def e_Block(self, e, fr):
        for s in e["stmts"]:
            if s["k"] == "let":
                v = TOP
                pl = None
                if "init" in s:
                    if self.pat_has_ref(s["pat"]):
                        pl = self.place(s["init"], fr)
                    v = self.ev(s["init"], fr)
                    if v is NEVER:
                        return NEVER
                if "else" in s:
                    lab, known = self.pat_test(s["pat"], v)
                    if known is not True:
                        c = self.patcond(v, lab)
                        env1 = dict(self.env)
                        _, nodes = self.under(self.neg(c), lambda: self.ev(s["else"], fr))
                        self.env = env1
                        self.emit(Node("branch", fr.fn, e.get("l", 0), c, [("true", []), ("false", nodes)]))
                self.bind(s["pat"], v, fr, pl)
            else:
                if self.ev(s["e"], fr) is NEVER:
                    return NEVER
        if "e" in e:
            return self.ev(e["e"], fr)
        return UNIT

    def pat_has_ref(self, p):
        if p["k"] == "bind":
            return bool(p.get("ref")) or ("sub" in p and self.pat_has_ref(p["sub"]))
        if p["k"] in ("leaf", "variant"):
            return any(self.pat_has_ref(s) for _, s in p["sub"])
        return p["k"] in ("deref", "guard") and self.pat_has_ref(p["sub"])

    def patcond(self, v, lab):
        v = self.val(v)
        if lab == "true":
            return v
        if lab == "false":
            return self.neg(v)
        if lab == "_":
            return TRUE
        if lab == "None":
            return self.neg(T("is", v, "Some"))
        if lab == "Err":
            return self.neg(T("is", v, "Ok"))
        if v.op == "ite":
            a, b = (x if x.op == "adt" else None for x in v.args[1:])
            ka = None if a is None else a.args[1] == lab
            kb = None if b is None else b.args[1] == lab
            if ka is not None and kb is not None:
                return self.ite(v.args[0], TRUE if ka else FALSE, TRUE if kb else FALSE)
        return T("is", v, lab)

    def patcase(self, p, v):
        """The condition under which v matches p; tuples and alternatives are taken apart."""
        while p["k"] in ("deref", "guard") or p["k"] == "bind" and "sub" in p:
            if p["k"] == "deref":
                v = self.val(v)
            p = p["sub"]
        lab, known = self.pat_test(p, v)
        if known is not None:
            return TRUE if known else FALSE
        if p["k"] == "leaf":
            v = self.val(v)
            c = TRUE
            for n, s in p["sub"]:
                c = self.conj(c, self.patcase(s, self.field(v, n)))
            return c
        if p["k"] == "or":
            c = FALSE
            for s in p["sub"]:
                c = self.disj(c, self.patcase(s, v))
            return c
        return self.patcond(v, lab)

    def cond(self, e, fr):
        """Evaluates a condition; returns (cond, binder) where binder binds `if let` variables."""
        if e["k"] == "Let":
            pl = self.place(e["e"], fr) if self.pat_has_ref(e["pat"]) else None
            v = self.ev(e["e"], fr)
            if v is NEVER:
                return NEVER, None
            lab, known = self.pat_test(e["pat"], v)
            c = TRUE if known is True else FALSE if known is False else self.patcase(e["pat"], v)
            return c, lambda: self.bind(e["pat"], v, fr, pl)
        if e["k"] == "Logical" and e["op"] == "And" and any(x["k"] == "Let" or x["k"] == "Logical" for x in (e["a"], e["b"])):
            c1, b1 = self.cond(e["a"], fr)
            if c1 is NEVER:
                return NEVER, None
            if b1:
                b1()
            c2, b2 = self.cond(e["b"], fr)
            return self.conj(c1, c2) if c2 is not NEVER else c1, b2
        if e["k"] == "Block" and not e["stmts"] and "e" in e:
            return self.cond(e["e"], fr)
        v = self.ev(e, fr)
        return (NEVER if v is NEVER else self.val(v)), None

    def e_Let(self, e, fr):
        c, b = self.cond(e, fr)
        if b:
            b()
        return c

    def e_If(self, e, fr):
        c, binder = self.cond(e["c"], fr)
        if c is NEVER:
            return NEVER
        env0 = self.env

        def then():
            if binder:
                binder()
            return self.ev(e["then"], fr)

        if c is TRUE:
            return then()
        if c is FALSE:
            return self.ev(e["else"], fr) if "else" in e else UNIT
        self.env = dict(env0)
        a, n1 = self.under(c, then)
        env1, self.env = self.env, dict(env0)
        b, n2 = UNIT, []
        if "else" in e:
            b, n2 = self.under(self.neg(c), lambda: self.ev(e["else"], fr))
        env2 = self.env
        if n1 or n2:
            self.emit(Node("branch", fr.fn, e["l"], c, [("true", n1), ("false", n2)]))
        self.join(c, env1, a is NEVER, env2, b is NEVER)
        return self.ite(c, a, b)

    def e_Match(self, e, fr):
        src = e["src"]
        if src == "TryDesugar":
            inner = e["e"]["args"][0] if e["e"]["k"] == "Call" else e["e"]
            v = self.ev(inner, fr)
            return self.do_try(v, fr, e["l"])
        if src == "ForLoopDesugar":
            return self.for_loop(e, fr)
        pl = None
        if any(self.pat_has_ref(a["pat"]) for a in e["arms"]):
            pl = self.place(e["e"], fr)
        v = self.ev(e["e"], fr)
        if v is NEVER:
            return NEVER
        arms = []
        for a in e["arms"]:
            lab, known = self.pat_test(a["pat"], v)
            if known is False:
                continue
            arms.append((a, lab, known))
            if known is True and "guard" not in a:
                break
        if len(arms) == 1 and arms[0][2] is True and "guard" not in arms[0][0]:
            self.bind(arms[0][0]["pat"], v, fr, pl)
            return self.ev(arms[0][0]["body"], fr)
        env0 = dict(self.env)
        res = []
        rest = TRUE
        for n, (a, lab, known) in enumerate(arms):
            last = n == len(arms) - 1
            c = self.patcase(a["pat"], v) if known is not True else TRUE
            if last and "guard" not in a:
                c = TRUE
            self.env = dict(env0)
            self.bind(a["pat"], v, fr, pl)
            gnodes = []
            if "guard" in a:
                g, gnodes = self.under(c, lambda: self.cond(a["guard"], fr))
                g, gb = g
                if gb:
                    gb()
                c = self.conj(c, g)
            w, nodes = self.under(self.conj(rest, c) if c is not TRUE else rest, lambda: self.ev(a["body"], fr))
            res.append((c, lab, w, gnodes + nodes, self.env))
            rest = self.conj(rest, self.neg(c)) if c is not TRUE else rest
        if any(r[3] for r in res):
            kids = []
            for c, lab, w, nodes, _ in res:
                kids.append((lab, nodes))
            self.emit(Node("branch", fr.fn, e["l"], self.val(v), kids))
        # fold from the last arm
        c, lab, w, _, env = res[-1]
        self.env = env
        d = w is NEVER
        for c, lab, w2, _, env2 in reversed(res[:-1]):
            envr = self.env
            self.join(c, env2, w2 is NEVER, envr, d)
            w = self.ite(c, w2, w)
            d = d and w2 is NEVER
        return w

    def do_try(self, v, fr, line):
        if v is NEVER:
            return NEVER
        v = self.val(v)
        x = self.tryval(v)
        if self.hooks.get("err_returns"):
            f = fr
            while getattr(f, "is_block", False):
                f = f.parent
            for c, y in self.failures(v):
                f.returns.append((self.conj(*self.pc[f.pcbase:], *c), y))
        if x is NEVER:
            self.emit(Node("ret", fr.fn, line, ("err", v, len(self.stack))))
            return NEVER
        if any(s.op == "try" and s.args[0] is v for s in (x,)):
            self.emit(Node("try", fr.fn, line, v))
        return x

    def failures(self, v):
        """(conditions, value) of every alternative of v that is a failure."""
        if v.op == "adt" and v.args[1] in ("Err", "None"):
            yield (), v
        elif v.op == "ite":
            for c, y in self.failures(v.args[1]):
                yield (v.args[0], *c), y
            for c, y in self.failures(v.args[2]):
                yield (self.neg(v.args[0]), *c), y

    def tryval(self, v):
        if v.op == "adt":
            if v.args[1] in ("Ok", "Some"):
                return self.field(v, "0")
            return NEVER
        if v.op == "ite":
            a, b = self.tryval(v.args[1]), self.tryval(v.args[2])
            return self.ite(v.args[0], a, b)
        if v.op == "call" and v.args[0].endswith("::from_residual"):
            return NEVER
        return T("try", v)

    def e_Return(self, e, fr):
        v = self.ev(e["e"], fr) if "e" in e else UNIT
        if v is NEVER:
            return NEVER
        f = fr
        while getattr(f, "is_block", False):
            f = f.parent
        self.emit(Node("ret", fr.fn, e["l"], ("val", v, len(self.stack))))
        f.returns.append((self.conj(*self.pc[f.pcbase:]), v))
        return NEVER

    def e_Break(self, e, fr):
        v = self.ev(e["e"], fr) if "e" in e else UNIT
        self.emit(Node("break", fr.fn, e["l"], v))
        return NEVER

    def e_Continue(self, e, fr):
        self.emit(Node("continue", fr.fn, e["l"]))
        return NEVER

    def e_Assign(self, e, fr):
        v = self.ev(e["b"], fr)
        if v is NEVER:
            return NEVER
        pl = self.place(e["a"], fr)
        if pl is not None:
            self.write(pl[0], pl[1], v)
            r = pl[0].split(":")[1]
            if r.startswith("*"):
                self.emit(Node("write", fr.fn, e["l"], (T("ref", pl[0], pl[1]), v)))
            return UNIT
        return self.either(e["a"], fr, lambda old: v)

    def either(self, a, fr, new):
        """An assignment through a reference that is one of several places."""
        t = self.pending.pop((id(a["e"]), fr.id), None) if a["k"] == "Deref" else None
        if t is NEVER:
            return NEVER

        def go(t):
            if t.op == "ref":
                self.write(t.args[0], t.args[1], new(self.val(self.read(t.args[0], t.args[1]))))
                return True
            if t.op == "ite":
                before = dict(self.env)
                a = go(t.args[1])
                env1, self.env = self.env, dict(before)
                b = go(t.args[2])
                self.join(t.args[0], env1, False, self.env, False)
                return a and b
            return t is NEVER

        if t is not None:
            go(t)
        return UNIT

    def e_AssignOp(self, e, fr):
        b = self.val(self.ev(e["b"], fr))
        if b is NEVER:
            return NEVER
        pl = self.place(e["a"], fr)
        if pl is not None:
            a = self.val(self.read(*pl))
            v = self.binop(e["op"].replace("Assign", ""), a, b)
            self.write(pl[0], pl[1], v)
            if pl[0].split(":")[1].startswith("*"):
                self.emit(Node("write", fr.fn, e["l"], (T("ref", pl[0], pl[1]), v)))
            return UNIT
        return self.either(e["a"], fr, lambda old: self.binop(e["op"].replace("Assign", ""), old, b))

    # ---------------------------------------------------------------- loops
    def loop_body(self, fr, line, src, body):
        """Runs body() as the body of a loop over src, with loop-carried places as phis."""
        env0 = dict(self.env)
        saved_out, saved_w, saved_evn = self.out, self.writes, self.evn
        fns = [(f, len(f.returns)) for f in self.stack]
        self.out, self.writes = [], set()
        self.loopdepth += 1
        body()
        changed = [r for r in self.writes if r in env0]
        w = self.writes
        self.env = dict(env0)
        self.out, self.evn = [], saved_evn
        for f, n in fns:
            del f.returns[n:]
        changed.sort(key=lambda r: (int(r.split(":")[0]) if r.split(":")[0].isdigit() else 0, r))
        for i, r in enumerate(changed):
            self.env[r] = T("phi", self.loopdepth, i, env0[r])
        self.writes = set()
        v = body()
        nodes = self.out
        self.loopdepth -= 1
        self.out, self.writes = saved_out, saved_w
        if self.writes is not None:
            self.writes |= w
        for i, r in enumerate(changed):
            phi = T("phi", self.loopdepth + 1, i, env0[r])
            self.env[r] = self.loop_value(src, phi, env0[r], self.env.get(r, TOP))
        self.emit(Node("loop", fr.fn, line, src, nodes))
        return v, nodes

    def loop_value(self, src, phi, init, out):
        if out is phi:
            return init
        # pushes only
        items = []
        x = out
        if x.op == "seq" and x.args and x.args[0].op == "splice" and x.args[0].args[0] is phi:
            items = list(x.args[1:])
            if all(y.op != "splice" and not any(z is phi for z in subterms(y)) for y in items):
                base = init.args if init.op == "seq" else (T("splice", init),)
                return T("seq", *base, T("each", src, *items))
        return T("loop", src, phi, init, out)

    def for_loop(self, e, fr):
        # match into_iter(x) { mut iter => loop { match next(&mut iter) { None => break, Some(pat) => body } } }
        head = e["e"]
        itexpr = head["args"][0] if head["k"] == "Call" and head["args"] else head
        src = self.ev(itexpr, fr)
        if src is NEVER:
            return NEVER
        if src.op == "ref" and itexpr.get("t") is not None and fr.fn.types[itexpr["t"]].is_mut_ref:
            src = self.slots(src) or src
        loop = e["arms"][0]["body"]
        m = None
        for x in self._walk_block(loop):
            if x["k"] == "Match" and x["src"] == "ForLoopDesugar":
                m = x
                break
        some = next(a for a in m["arms"] if a["pat"].get("variant") == "Some")
        pat = some["pat"]["sub"][0][1]
        body = some["body"]

        def run(elem):
            self.bind(pat, elem, fr)
            return self.ev(body, fr)

        outer, self.diverged = self.diverged, False
        self.iterate(src, run, fr, e["l"], ordered=True)
        gone, self.diverged = self.diverged, outer
        return NEVER if gone else UNIT

    def slots(self, r):
        """References to each item of a known sequence behind a reference."""
        if r.op != "ref":
            return None
        v = self.read(r.args[0], r.args[1])
        while v.op == "ref":
            r, v = v, self.read(v.args[0], v.args[1])
        if v.op != "seq" or len(v.args) > 256 or any(x.op in ("each", "splice") for x in v.args):
            return None
        return T("seq", *[x if x.op == "ref" else T("ref", r.args[0], r.args[1] + (("i", lit(i)),)) for i, x in enumerate(v.args)])

    def _walk_block(self, e):
        from ir import walk

        return walk(e)

    def e_Loop(self, e, fr):
        src = T("forever")
        if self.hooks.get("unroll") and self.unrolled(e, fr):
            return UNIT
        # `while cond { body }` is loop { if cond { body } else { break } }
        v, nodes = self.loop_body(fr, e["l"], src, lambda: self.ev(e["e"], fr))
        brk = [n for n in _flat(nodes) if n.kind == "break" and n.a is not UNIT]
        if brk:
            return T("loopval", *[n.a for n in brk])
        return UNIT

    def unrolled(self, e, fr):
        """A loop whose every iteration ends in a decided way, laid out; False (and nothing done) otherwise."""
        env0, out0 = dict(self.env), self.out
        fns = [(f, len(f.returns)) for f in self.stack]
        self.out = []
        for _ in range(300):
            start = len(self.out)
            v = self.ev(e["e"], fr)
            new = self.out[start:]
            top = [n for n in new if n.kind in ("break", "continue")]
            inner = any(n.kind in ("break", "continue") for x in new for _, k in (x.kids if x.kind == "branch" else []) for n in _flat(k))
            if inner or any(n.kind == "break" and n.a is not UNIT for n in top):
                break
            self.out = self.out[:start] + [n for n in new if n.kind not in ("break", "continue")]
            if any(n.kind == "break" for n in top):
                self.out = out0 + self.out
                return True
            if v is NEVER and not top:
                break
        self.env, self.out = env0, out0
        for f, n in fns:
            del f.returns[n:]
        return False

    def elem_of(self, src):
        src = self.val(src)
        o = src.op
        if o == "imap":
            return self.apply(src.args[1], [self.elem_of(src.args[0])])
        if o == "zip":
            return T("tuple", self.elem_of(src.args[0]), self.elem_of(src.args[1]))
        if o == "enumerate":
            return T("tuple", T("pos", src.args[0]), self.elem_of(src.args[0]))
        if o in ("rev", "skip", "take", "step_by", "skip_while", "take_while"):
            return self.elem_of(src.args[0])
        if o == "seq" and len(src.args) == 1 and src.args[0].op == "each" and len(src.args[0].args) == 2:
            return src.args[0].args[1]
        if o == "seq" and len(src.args) == 1 and src.args[0].op == "splice":
            return self.elem_of(src.args[0].args[0])
        if o == "repeat":
            return src.args[0]
        return T("elem", src)

    def local_items(self, src):
        """The items of an iterator the program defines, when each is decided."""
        l = self.prog.fns.get(f"<{src.args[0]} as core::iter::Iterator>::next", [])
        if len(l) != 1 or l[0].body["e"]["k"] == "Error":
            return None
        n = f"iter:*{len(self.env)}"
        self.env[n] = src
        out = []
        n0 = len(self.out)
        for _ in range(self.hooks.get("range") or 64):
            v = self.val(self.call_body(Frame(l[0], {}), l[0].body, [T("ref", n, ())]))
            if v is NEVER or v.op != "adt" or v.args[1] not in ("Some", "None") or any(x.kind not in ("write", "ret") for x in self.out[n0:]):
                break
            del self.out[n0:]
            if v.args[1] == "None":
                del self.env[n]
                return out
            out.append(self.val(v.args[2][0][1]))
        del self.out[n0:]
        self.env.pop(n, None)
        return None

    def step_through(self, step):
        """The items that a closure gives one after another, when each is decided."""
        n0, out = len(self.out), []
        for i in range(self.hooks.get("range") or 64):
            v = step(i)
            v = v if v is None or v is NEVER else self.val(v)
            if v is None or v is NEVER or v.op != "adt" or v.args[1] not in ("Some", "None") or any(x.kind not in ("write", "ret") for x in self.out[n0:]):
                return None if v is None or v.op != "adt" or v.args[1] != "None" else out
            del self.out[n0:]
            if v.args[1] == "None":
                return out
            out.append(self.val(v.args[2][0][1]))
        return None

    def known_items(self, src):
        """The items of a sequence whose elements are all known, else None."""
        src = self.val(src)
        h = self.hooks.get("items")
        if h is not None:
            r = h(src)
            if r is not None:
                return r
        if src.op == "seq" and all(x.op not in ("each", "splice") for x in src.args):
            return list(src.args)
        if src.op == "adt" and self.hooks.get("local_iters"):
            return self.local_items(src)
        if src.op == "range" and all(x.op == "lit" and x.args[0].lstrip("-").isdigit() for x in src.args):
            a, b = (int(x.args[0]) for x in src.args)
            return [lit(i) for i in range(a, b)] if b - a <= (self.hooks.get("range") or 64) else None
        if src.op == "repeat" and len(src.args) == 2 and src.args[1].op == "lit" and src.args[1].args[0].isdigit() and int(src.args[1].args[0]) <= 64:
            return [src.args[0]] * int(src.args[1].args[0])
        if src.op == "lit" and src.args[0].startswith('b"'):
            return bytes_of(src.args[0])
        if src.op == "imap":
            return None
        if src.op == "chunks" and src.args[1].op == "lit":
            a = self.known_items(src.args[0])
            if a is not None:
                n = int(src.args[1].args[0])
                return [T("seq", *a[i : i + n]) for i in range(0, len(a) - (n - 1 if len(src.args) == 3 else 0), n)]
        if src.op == "empty":
            return []
        if src.op == "once":
            return [src.args[0]]
        if src.op == "rev":
            a = self.known_items(src.args[0])
            return None if a is None else a[::-1]
        if src.op == "zip":
            a, b = self.known_items(src.args[0]), self.known_items(src.args[1])
            if a is not None and b is not None:
                return [T("tuple", x, y) for x, y in zip(a, b)]
            # one side known: index the other
            if a is not None and self.val(src.args[1]).op in ("param", "field", "call", "try", "ev", "range", "repeat", "elem"):
                return [T("tuple", x, self.nth(src.args[1], i)) for i, x in enumerate(a)]
            if b is not None and self.val(src.args[0]).op in ("param", "field", "call", "try", "ev", "range", "repeat", "elem"):
                return [T("tuple", self.nth(src.args[0], i), x) for i, x in enumerate(b)]
        if src.op == "enumerate":
            a = self.known_items(src.args[0])
            if a is not None:
                return [T("tuple", lit(i), x) for i, x in enumerate(a)]
        if src.op == "chain":
            a, b = self.known_items(src.args[0]), self.known_items(src.args[1])
            if a is not None and b is not None:
                return a + b
        if src.op == "adt" and src.args[0] == OPT:
            return [src.args[2][0][1]] if src.args[1] == "Some" else []
        if src.op == "adt" and src.args[0] == "core::result::Result":
            return [src.args[2][0][1]] if src.args[1] == "Ok" else []
        if src.op in ("take", "skip", "step_by") and src.args[1].op == "lit":
            a = self.known_items(src.args[0])
            if a is not None:
                n = int(src.args[1].args[0])
                if src.op == "step_by":
                    return a[::n] if n else None
                return a[:n] if src.op == "take" else a[n:]
        return None

    def next_of(self, src):
        """(item or None at the end, rest) of a sequence whose head is known; None if it is not."""
        src = self.val(src)
        o = src.op
        if o == "adt" and self.hooks.get("local_iters"):
            xs = self.local_items(src)
            return None if xs is None else (xs[0], T("seq", *xs[1:])) if xs else (None, src)
        if o == "imap":
            r = self.next_of(src.args[0])
            if r is None:
                return None
            if r[0] is None:
                return None, src
            return self.apply(src.args[1], [r[0]]), T("imap", r[1], src.args[1])
        if o == "zip":
            a, b = self.next_of(src.args[0]), self.next_of(src.args[1])
            if a is None or b is None:
                return None
            if a[0] is None or b[0] is None:
                return None, src
            return T("tuple", a[0], b[0]), T("zip", a[1], b[1])
        if o == "chain":
            a = self.next_of(src.args[0])
            if a is None:
                return None
            if a[0] is None:
                return self.next_of(src.args[1])
            return a[0], T("chain", a[1], src.args[1])
        if o == "flat_map":
            outer = src.args[0]
            for _ in range(256):
                a = self.next_of(outer)
                if a is None:
                    return None
                if a[0] is None:
                    return None, src
                outer = a[1]
                y = self.apply(src.args[1], [a[0]])
                b = self.next_of(y)
                if b is None:
                    return None
                if b[0] is not None:
                    return b[0], T("chain", b[1], T("flat_map", outer, src.args[1]))
            return None
        if o == "repeat" and len(src.args) == 1:
            return src.args[0], src
        if o in ("skip", "take") and src.args[1].op == "lit" and self.known_items(src) is None:
            n = int(src.args[1].args[0])
            if o == "take":
                if n == 0:
                    return None, src
                a = self.next_of(src.args[0])
                return a if a is None or a[0] is None else (a[0], T("take", a[1], lit(n - 1)))
            rest = src.args[0]
            for _ in range(n):
                a = self.next_of(rest)
                if a is None or a[0] is None:
                    return a
                rest = a[1]
            return self.next_of(rest)
        items = self.known_items(src)
        if items is None:
            return None
        if not items:
            return None, src
        return items[0], T("seq", *items[1:])

    def stepped(self, src):
        """A lazy sequence laid out item by item, or None (and nothing done)."""
        env0, n0, d0 = dict(self.env), len(self.out), self.diverged
        items = []
        for _ in range(257):
            r = self.next_of(src)
            if r is None or self.diverged:
                break
            if r[0] is None:
                return items
            items.append(r[0])
            src = r[1]
        self.env, self.diverged = env0, d0
        del self.out[n0:]
        return None

    def nth(self, src, i):
        src = self.val(src)
        if src.op == "range" and src.args[0].op == "lit":
            return lit(int(src.args[0].args[0]) + i)
        if src.op == "repeat":
            return src.args[0]
        return self.index(src, lit(i))

    def iterate(self, src, run, fr, line, ordered=True):
        """Calls run(elem) for what src yields; returns the sequence items that run's results form."""
        src = self.val(src)
        o = src.op
        if o == "imap":
            f = src.args[1]
            return self.iterate(src.args[0], lambda x: self.then(self.apply(f, [x]), run), fr, line)
        if o == "chain":
            a = self.iterate(src.args[0], run, fr, line)
            b = self.iterate(src.args[1], run, fr, line)
            return a + b
        if o in ("filter", "filter_map", "flat_map", "inspect"):
            f = src.args[1]

            def step(x):
                y = self.apply(f, [x])
                if o == "filter" and self.val(y) in (TRUE, FALSE):
                    return run(x) if self.val(y) is TRUE else SKIP
                if o == "filter":
                    v, nodes = self.under(self.val(y), lambda: run(x))
                    self.emit(Node("branch", fr.fn, line, self.val(y), [("true", nodes), ("false", [])]))
                    return T("when", self.val(y), v) if v is not NEVER else v
                if o == "filter_map" and y.op == "adt" and y.args[1] == "None":
                    return SKIP
                if o == "filter_map":
                    return run(T("try", y) if y.op != "adt" else self.tryval(y))
                if o == "flat_map":
                    items = self.iterate(y, run, fr, line)
                    return T("seq", *items)
                return run(x)

            r = [x for x in self.iterate(src.args[0], step, fr, line) if x is not SKIP]
            if o == "flat_map":
                flat = []
                for x in r:
                    if x.op == "seq":
                        flat.extend(x.args)
                    elif x.op == "each" and x.args[-1].op == "seq":
                        flat.append(T("each", x.args[0], *x.args[-1].args))
                    else:
                        flat.append(x)
                return flat
            return r
        items = self.known_items(src)
        if items is None and o in ("zip", "skip", "take"):
            items = self.stepped(src)
        if items is not None and len(items) <= max(256, min(1024, self.hooks.get("unroll") or 0)):
            res = []
            for x in items:
                n = len(self.out)
                v = run(x)
                if v is NEVER:
                    if self.out[n:] and self.out[-1].kind == "continue":
                        self.out.pop()
                        continue
                    if not (self.out[n:] and self.out[-1].kind == "break"):
                        self.diverged = True  # it returned or panicked: nothing after the loop runs
                    break
                res.append(v)
            return res
        if o == "seq":
            res = []
            for x in src.args:
                if x.op == "each":
                    holder = []
                    for y in x.args[1:]:
                        def body(y=y):
                            v = run(y)
                            holder.append(v)
                            return v
                        v, _ = self.loop_body(fr, line, x.args[0], body)
                        res.append(T("each", x.args[0], holder[-1]))
                elif x.op == "splice":
                    res.extend(self.iterate(x.args[0], run, fr, line))
                else:
                    res.append(run(x))
            return res
        elem = None
        holder = []

        def body():
            v = run(self.elem_of(src))
            holder.append(v)
            return v

        base = self.base_src(src)
        self.loop_body(fr, line, base, body)
        for r in slots_in(src):
            # handed to the body one by one, which may have written there
            self.write(r.args[0], r.args[1], T("call", "iterated", self.read(r.args[0], r.args[1])))
        return [T("each", base, holder[-1])]

    def base_src(self, src):
        """The loop's domain, with element maps forgotten."""
        src = self.val(src)
        if src.op == "imap":
            return self.base_src(src.args[0])
        if src.op == "enumerate":
            return self.base_src(src.args[0])
        if src.op in ("rev", "skip", "take", "step_by"):
            return T(src.op, self.base_src(src.args[0]), *src.args[1:])
        if src.op == "zip":
            return T("zip", self.base_src(src.args[0]), self.base_src(src.args[1]))
        if src.op == "seq" and len(src.args) == 1 and src.args[0].op == "each":
            return src.args[0].args[0]
        return src

    def then(self, v, run):
        if v is NEVER:
            return NEVER
        return run(v)

    # ---------------------------------------------------------------- calls
    def apply(self, f, args):
        f = self.val(f)
        if f.op == "closure":
            c = self.closures[f.args[0]]
            body = c.expr["body"]
            if "e" not in body:
                return TOP
            fr = Frame(c.frame.fn, c.frame.tsub, c.frame)
            fr.drivers = c.frame.drivers
            return self.call_body(fr, {"params": body["params"][1:], "e": body["e"]}, args)
        if f.op == "fnref":
            k = self.fnsubs.get(f.args[2])
            if k is not None:
                e = {"fn": f.args[1], "res": f.args[0], "l": 0, "args": [], "t": None, "synthetic": True}
                return self.invoke(e, self.stack[-1], f.args[0], k[0], k[1], args)
            return self.invoke_path(f.args[0], f.args[1], args)
        return T("call", "<apply>", f, *[self.deref_all(a) for a in args])

    def subst(self, t, fr):
        """A type with the frame's type parameters replaced."""
        if t is None:
            return None
        if t.s in fr.tsub and not isinstance(fr.tsub[t.s], str):
            return fr.tsub[t.s]
        if t.is_ref and t.peeled in fr.tsub and not isinstance(fr.tsub[t.peeled], str):
            return fr.tsub[t.peeled]
        if t.k == "alias" and fr.tsub:
            return self.projected(t, fr)
        if t.k == "adt" and t.args and fr.tsub:
            args = tuple(self.subst(a, fr) for a in t.args)
            if any(a is not b for a, b in zip(args, t.args)):
                s = t.s
                for a, b in zip(args, t.args):
                    if a is not b:
                        s = re.sub(r"(?<![\w:])" + re.escape(b.s) + r"(?![\w:])", lambda _m: a.s, s)
                t = type(t)(s, t.adt, t.k, args, t.closure)
        if t.k == "adt" and "<" in t.s:
            # length parameters appear in the printed form only
            s = t.s
            for n, v in fr.tsub.items():
                if isinstance(v, str) and v.isdigit() and n in s:
                    s = re.sub(r"(?<![\w:])" + re.escape(n) + r"(?![\w:])", v, s)
            if s != t.s:
                return type(t)(s, t.adt, t.k, t.args, t.closure)
        return t

    def projected(self, t, fr):
        """An associated type of a type parameter, once that is known."""
        m = re.match(r"^<(\w+) as ([\w:]+)>::(\w+)$", t.s)
        st = fr.tsub.get(m.group(1)) if m else None
        if st is None or isinstance(st, str):
            return t
        impls = self.prog.impl_of.get((m.group(2), st.adt or st.peeled), [])
        if len(impls) != 1:
            return t
        it = next((x for x in impls[0]["items"] if x["name"] == m.group(3)), None)
        return it["ty"] if it is not None and it.get("ty") is not None else t

    def resolve(self, e, fr):
        """(path, Fn or None, tsub) for a call's callee."""
        path = callee_of(e)
        fn = None
        crate = fr.fn.crate
        if "rdid" in e:
            fn = self.prog.by_did.get((crate, e["rdid"]))
        elif "res" in e:
            l = self.prog.fns.get(e["res"], [])
            fn = l[0] if len(l) == 1 else None
        elif "did" in e:
            fn = self.prog.by_did.get((crate, e["did"]))
        else:
            l = self.prog.fns.get(path, []) if path else []
            fn = l[0] if len(l) == 1 else None
        targs = [fr.fn.types[t] if isinstance(t, int) else t for t in e.get("targs", [])]
        targs = [t if isinstance(t, str) else self.subst(t, fr) for t in targs]
        tr = e.get("trait")
        if tr and "res" not in e and targs and not isinstance(targs[0], str):
            # a trait function on a type parameter: resolved when the substitution makes it concrete
            st = targs[0]
            if st.k in ("param", "alias") and st.s not in fr.tsub:
                if not (fn and fn.provided and False):
                    fn = None
            else:
                name = path.split("::")[-1]
                h = st.adt or st.peeled
                cand = self.prog.fns.get(f"<{h} as {tr}>::{name}", [])
                if len(cand) > 1:
                    # several implementations under one head: the one whose self type fits
                    fits = [f for f in cand if (i := self.prog_impl(f)) is not None and fitting(i["self_ty"], st)]
                    cand = fits if len(fits) == 1 else cand
                if len(cand) == 1:
                    fn, path = cand[0], cand[0].path
                elif cand:
                    fn = None
                elif (tr, h) not in self.prog.impl_of:
                    fn = None
        if tr in ("core::borrow::Borrow", "core::borrow::BorrowMut") and len(targs) > 1 and fn is not None \
                and re.sub(r"^&('\w+ )?(mut )?", "", str(targs[0])) == str(targs[1]):
            # every type borrows as itself
            fn, path = None, tr + "::" + path.split("::")[-1]
        sub = {}
        if fn is not None:
            g = fn.generics
            if len(g) == len(targs) and not (tr and fn.trait and not fn.provided):
                sub = {n: t for n, t in zip(g, targs) if isinstance(t, str) or t.s != n}
            elif tr and fn.trait and not fn.provided and targs and not isinstance(targs[0], str) and targs[0].args:
                # impl generics from the self type's arguments, positionally
                impl = self.prog_impl(fn)
                if impl is not None:
                    for a, b in zip(impl["self_ty"].args, targs[0].args):
                        if a.k == "param":
                            sub[a.s] = b
            if tr and fn.trait and not fn.provided:
                # the method's own generics come last in both
                impl = self.prog_impl(fn)
                m = len(g) - len(impl["generics"]) if impl is not None and g[: len(impl["generics"])] == list(impl["generics"]) else 0
                if 0 < m < len(targs):
                    sub.update({n: t for n, t in zip(g[-m:], targs[-m:]) if isinstance(t, str) or t.s != n})
            if tr and fn.trait and not fn.provided and targs and not isinstance(targs[0], str) and targs[0].k == "adt" and "<" in targs[0].s:
                impl = self.prog_impl(fn)
                if impl is not None:
                    xs, ys = generic_args(impl["self_ty"].s), generic_args(targs[0].s)
                    for a, b in zip(xs, ys) if len(xs) == len(ys) else ():
                        if a in g and a not in sub and re.fullmatch(r"\d+|[A-Z_0-9]+", b) and a != b:
                            b = fr.tsub.get(b, b)
                            if isinstance(b, str):
                                sub[a] = b
        return path, fn, sub

    def len_of(self, ty, fr):
        """The number a length type stands for, if its `len` comes to one."""
        tr = "ragu_primitives::vec::Len"
        e = {"fn": tr + "::len", "trait": tr, "targs": [ty], "args": [], "l": 0, "t": None, "synthetic": True}
        path, fn, sub = self.resolve(e, fr)
        if fn is None or len(self.stack) >= self.maxdepth:
            return None
        v = self.invoke(e, fr, path, fn, sub, [])
        return v if v.op == "lit" else None

    def prog_impl(self, fn):
        for i in self.prog.impls:
            if i["crate"] == fn.crate and i["did"] == fn.impl:
                return i
        return None

    def e_Call(self, e, fr):
        if "f" in e:
            f = self.ev(e["f"], fr)
            args = [self.ev(a, fr) for a in e["args"]]
            if any(a is NEVER for a in args) or f is NEVER:
                return NEVER
            return self.apply(f, args)
        path, fn, sub = self.resolve(e, fr)
        args = []
        for a in e["args"]:
            v = self.ev(a, fr)
            if v is NEVER:
                return NEVER
            args.append(v)
        return self.invoke(e, fr, path, fn, sub, args)

    def invoke_path(self, path, base, args):
        fr = self.stack[-1]
        l = self.prog.fns.get(path, [])
        fn = l[0] if len(l) == 1 else None
        e = {"fn": base, "res": path, "l": 0, "args": [], "t": None, "synthetic": True}
        if path.split("::")[-1] and "::" in path and fn is None and path == base:
            # a tuple constructor used as a function, e.g. Some
            last, owner = path.split("::")[-1], path.rsplit("::", 1)[0]
            if path in self.prog.adts and len(self.prog.adts[path]["variants"]) == 1:
                return T("adt", path, last, tuple((str(i), a) for i, a in enumerate(args)))
            if owner in self.prog.adts and any(v["name"] == last for v in self.prog.adts[owner]["variants"]):
                return T("adt", owner, last, tuple((str(i), a) for i, a in enumerate(args)))
            for o, names in ((OPT, ("Some",)), (OK, ("Ok", "Err"))):
                if last in names and path.startswith("core::"):
                    return T("adt", o, last, tuple((str(i), a) for i, a in enumerate(args)))
        return self.invoke(e, fr, path, fn, {}, args)

    def invoke(self, e, fr, path, fn, sub, args):
        base = e.get("fn", path)
        if e.get("ctor"):
            name = path.split("::")[-1]
            owner = path.rsplit("::", 1)[0]
            return T("adt", owner, name, tuple((str(i), a) for i, a in enumerate(args)))
        h = self.hooks.get(path) or self.hooks.get(base)
        if h:
            r = h(self, e, fr, path, args)
            if r is not None:
                return r
        r = self.builtin(e, fr, path, base, args)
        if r is not None:
            return r
        if fn is not None and fn.body["e"]["k"] != "Error" and not self.opaque(path) and not self.opaque(base) and self.inline_ok(path) \
                and len(self.stack) < self.maxdepth and (self.recurse or all(f.fn is not fn or f.parent for f in self.stack)):
            new = Frame(fn, sub)
            self.visited[fn.path] = fn
            for g, t in sub.items():
                if not isinstance(t, str) and (t.s in fr.drivers or t.adt in self.prog.drivers):
                    new.drivers.add(g)
            save, self.out = self.out, []
            v = self.call_body(new, fn.body, args)
            nodes, self.out = self.out, save
            if nodes:
                self.emit(Node("inline", fr.fn, e["l"], fn.path, nodes))
            return v
        return self.opaque_call(e, fr, path, base, args)

    def is_driver(self, e, i, fr):
        if e.get("synthetic"):
            return False
        a = e["args"][i]
        if a.get("t") is None:
            return False
        t = fr.fn.types[a["t"]]
        p = t.peeled
        if p in fr.drivers:
            return True
        if p in fr.tsub and not isinstance(fr.tsub[p], str):
            t2 = fr.tsub[p]
            return t2.adt in self.prog.drivers or t2.s in fr.drivers
        return t.adt in self.prog.drivers

    def opaque_call(self, e, fr, path, base, args):
        ev = Event()
        ev.path, ev.fn, ev.owner, ev.line = path, base, fr.fn, e["l"]
        ev.name = path.split("::")[-1]
        ev.targs = [t if isinstance(t, str) else self.subst(fr.fn.types[t], fr) for t in e.get("targs", [])] if not e.get("synthetic") else []
        ev.ty = self.subst(fr.fn.types[e["t"]], fr) if e.get("t") is not None else None
        vals = []
        has_dr = False
        muts = []
        for i, a in enumerate(args):
            if self.is_driver(e, i, fr):
                has_dr = True
                vals.append(T("dr"))
                continue
            if a.op == "closure":
                vals.append(self.lam(a, path, base, fr, e))
                continue
            if a.op == "ref":
                muts.append((i, a))
            vals.append(self.deref_all(a))
        ev.args = vals
        ev.id = 0
        if has_dr:
            # an effect on the driver: its result is named after its place in the driver's history
            self.evn += 1
            ev.id = self.evn
            ev.res = T("ev", self.evn)
        else:
            ev.res = T("call", path, *vals)
        for i, a in muts:
            self.write(a.args[0], a.args[1], T("after", path, i, *vals))
            if a.args[0].split(":")[1].startswith("*"):
                pass
        if ev.ty is not None and ev.ty.k == "never":
            ev.res = NEVER
            self.emit(Node("panic", fr.fn, e["l"], path, ev=ev))
            return NEVER
        self.emit(Node("ev", fr.fn, e["l"], None, ev=ev))
        return ev.res

    def lam(self, clo, path, base, fr, e):
        """Evaluates a closure handed to an opaque callee once, with symbolic parameters."""
        c = self.closures[clo.args[0]]
        n = len(c.expr["body"].get("params", [])) - 1
        ps = [T("cparam", f"{path.split('::')[-1]}.{i}", len(self.stack)) for i in range(max(n, 0))]
        save, self.out = self.out, []
        env0 = dict(self.env)
        v = self.apply(clo, ps)
        nodes, self.out = self.out, save
        if nodes:
            self.emit(Node("closure", fr.fn, e["l"], path, nodes))
        return T("lam", n, self.deref_all(v) if v is not NEVER else v)

    # ---------------------------------------------------------------- modelled functions
    def builtin(self, e, fr, path, base, args):
        last = path.split("::")[-1]
        bl = base.split("::")[-1]
        if base == "core::default::Default::default" and e.get("targs") and not args and self.prog.fn(path) is None:
            t0 = e["targs"][0]
            t0 = self.subst(fr.fn.types[t0], fr) if isinstance(t0, int) else t0
            if not isinstance(t0, str) and t0.adt and t0.adt.endswith("borrow::Cow") and t0.args:
                inner = {"fn": base, "trait": "core::default::Default", "targs": [t0.args[-1]], "args": [], "l": e["l"], "t": None, "synthetic": True}
                p2, f2, s2 = self.resolve(inner, fr)
                if f2 is not None:
                    v = self.invoke(inner, fr, p2, f2, s2, [])
                    if v is not NEVER:
                        return T("adt", "alloc::borrow::Cow", "Owned", (("0", v),))
        if base in IDENT or path in IDENT:
            fnx = self.prog.fn(path)
            if fnx is None or fnx.derived or base == "core::clone::Clone::clone":
                return self.val(args[0]) if not (base.endswith("by_ref") or base.endswith("deref_mut") or base.endswith("as_mut") or base.endswith("borrow_mut")) else args[0]
            return None
        if base.startswith("core::ops::") or base.startswith("core::cmp::Partial"):
            if bl in OPS and self.prog.fn(path) is None:
                op = OPS[bl]
                a = self.val(args[0])
                if len(args) == 1:
                    if op == "Not":
                        return self.neg(a)
                    return T("un", op, a)
                b = self.val(args[1])
                r = self.binop(op, a, b)
                if bl.endswith("_assign"):
                    if args[0].op == "ref":
                        self.write(args[0].args[0], args[0].args[1], r)
                    return UNIT
                return r
            if bl in ("index", "index_mut") and self.prog.fn(path) is None:
                i = self.val(args[1])
                if bl == "index_mut" and args[0].op == "ref":
                    return T("ref", args[0].args[0], args[0].args[1] + (("i", i),))
                return self.index(self.val(args[0]), i)
            if bl in ("call", "call_mut", "call_once"):
                a = self.val(args[1])
                xs = list(a.args) if a.op == "tuple" else [a]
                f = self.val(args[0])
                if f.op in ("closure", "fnref"):
                    return self.apply(f, xs)
                return None
        if base == "core::convert::Into::into" or base == "core::convert::From::from":
            if path == base or self.prog.fn(path) is None:
                if e.get("synthetic"):
                    return T("into", "?", self.deref_all(args[0]))
                tt = self.subst(fr.fn.types[e["t"]], fr)
                src = self.subst(fr.fn.types[e["args"][0]["t"]], fr) if e["args"][0].get("t") is not None else None
                if src is not None and src.s == tt.s:
                    return self.val(args[0])
                if tt.adt and tt.adt.endswith(("vec::Vec", "collections::VecDeque", "vec_deque::VecDeque", "boxed::Box")) and self.val(args[0]).op == "seq":
                    return self.val(args[0])
                v = self.deref_all(args[0])
                return v if tt.s == "bool" and v in (TRUE, FALSE) else T("into", tt.adt or tt.s, v)
            return None
        # --- the Maybe API: the witness value itself
        if getattr(self, "rawmaybe", False) and self.prog.fn(path) is not None and path != base:
            pass
        elif "ragu_core::maybe::Maybe" in base or base in ("ragu_core::drivers::DriverTypes::just", "ragu_core::drivers::Driver::just", "ragu_core::drivers::DriverTypes::try_just", "ragu_core::drivers::Driver::try_just"):
            r = self.maybe(e, fr, path, base, bl, args)
            if r is not None:
                return r
        if re.match(r"(core::num::|[ui](8|16|32|64|128|size)::)", path) and len(args) == 2 and "_" in last and last.split("_")[0] in ("checked", "saturating", "wrapping", "overflowing"):
            how, _, op = last.partition("_")
            r = self.binop({"add": "Add", "sub": "Sub", "mul": "Mul"}.get(op, "?"), self.val(args[0]), self.val(args[1])) if op in ("add", "sub", "mul") else None
            if r is not None and r.op == "lit":
                neg = r.args[0].startswith("-")
                if how == "checked":
                    return T("adt", "core::option::Option", "None", ()) if neg else T("adt", "core::option::Option", "Some", (("0", r),))
                if how == "saturating":
                    return lit(0) if neg else r
                if how == "wrapping" and not neg:
                    return r
        m = re.match(r"(?:core::num::)?([ui])(8|16|32|64|128|size)::", path)
        if m and args and last in ("div_ceil", "div_euclid", "rem_euclid", "next_power_of_two", "is_power_of_two", "ilog2", "trailing_zeros", "leading_zeros", "count_ones", "reverse_bits", "next_multiple_of", "abs_diff", "pow", "is_multiple_of"):
            xs = [self.val(x) for x in args]
            if all(x.op == "lit" and x.args[0].isdigit() for x in xs):
                w = 64 if m[2] == "size" else int(m[2])
                a, *r = (int(x.args[0]) for x in xs)
                b = r[0] if r else None
                v = None
                if last in ("div_ceil", "div_euclid", "rem_euclid", "next_multiple_of", "is_multiple_of") and b == 0:
                    return TRUE if last == "is_multiple_of" and a == 0 else None
                if last == "div_ceil":
                    v = -(-a // b)
                elif last == "div_euclid":
                    v = a // b
                elif last == "rem_euclid":
                    v = a % b
                elif last == "next_multiple_of":
                    v = -(-a // b) * b
                elif last == "is_multiple_of":
                    return TRUE if a % b == 0 else FALSE
                elif last == "abs_diff":
                    v = abs(a - b)
                elif last == "pow" and b < 128:
                    v = a**b
                elif last == "next_power_of_two":
                    v = 1 << (a - 1).bit_length() if a > 1 else 1
                elif last == "is_power_of_two":
                    return TRUE if a and not a & (a - 1) else FALSE
                elif last == "ilog2" and a:
                    v = a.bit_length() - 1
                elif last == "trailing_zeros":
                    v = (a & -a).bit_length() - 1 if a else w
                elif last == "leading_zeros":
                    v = w - a.bit_length()
                elif last == "count_ones":
                    v = bin(a).count("1")
                elif last == "reverse_bits":
                    v = int(format(a, f"0{w}b")[::-1], 2)
                if v is not None and v < 1 << w:
                    return lit(v)
        if base in ("core::cmp::Ord::max", "core::cmp::Ord::min", "core::cmp::max", "core::cmp::min") and len(args) == 2:
            a, b = self.val(args[0]), self.val(args[1])
            if all(x.op == "lit" and str(x.args[0]).isdigit() for x in (a, b)):
                return lit((max if base.endswith("max") else min)(int(a.args[0]), int(b.args[0])))
        if is_std(path) or is_std(base):
            r = self.std(e, fr, path, base, last, args)
            if r is not None:
                return r
        return None

    def maybe(self, e, fr, path, base, name, args):
        def run(f, xs):
            save, self.out = self.out, []
            v = self.apply(f, xs)
            nodes, self.out = self.out, save
            if nodes:
                self.emit(Node("closure", fr.fn, e["l"], "witness", nodes))
            return v

        if name == "just" or name == "maybe_just":
            return T("maybe", run(args[0], []))
        if name in ("try_just", "maybe_try_just"):
            v = run(args[0], [])
            return ok(T("maybe", self.tryval(self.val(v)) if v is not NEVER else TOP))
        if not args:
            return None
        a = self.val(args[0])
        if name in ("as_mut", "view_mut") and args[0].op == "ref":
            return T("maybe", T("ref", args[0].args[0], args[0].args[1] + ("?m",)))
        un = a.args[0] if a.op == "maybe" else T("unmaybe", self.deref_all(a))
        if name in ("take", "snag"):
            return un
        if name in ("view", "as_ref", "cloned", "view_mut", "as_mut", "clone"):
            return a
        if name == "map":
            return T("maybe", run(args[1], [un]))
        if name == "and_then":
            return run(args[1], [un])
        if name == "into":
            return run(args[1], [a])
        if name == "cast":
            return T("cast", a)
        return None

    def std(self, e, fr, path, base, last, args):
        a0 = args[0] if args else None
        it = base.startswith("core::iter::") or "Iterator" in base
        line = e["l"]
        if last in IDENT_LAST and len(args) == 1 and "core::option::Option" not in path and "Option" not in path:
            v = a0
            if last == "iter_mut":
                each = self.slots(a0)
                if each is not None:
                    return each
            return self.val(v) if last not in ("iter_mut", "as_mut_slice", "as_mut") else (a0 if a0.op == "ref" else self.val(v))
        if last in ("as_ref", "as_mut", "cloned", "copied", "as_deref") and len(args) == 1:
            return self.val(a0)
        if path in ("core::mem::drop", "core::mem::forget") and len(args) == 1:
            return UNIT
        if last in ("get_or_insert", "get_or_insert_with") and "option::Option" in path and a0.op == "ref" and len(args) == 2:
            v = self.val(self.read(*a0.args))
            if v.op == "adt" and v.args[1] in ("Some", "None"):
                if v.args[1] == "None":
                    v = T("adt", OPT, "Some", (("0", args[1] if last == "get_or_insert" else self.apply(args[1], [])),))
                    self.write(a0.args[0], a0.args[1], v)
                return self.val(v.args[2][0][1])
        if last == "box_assume_init_into_vec_unsafe" and len(args) == 1:
            return self.val(a0)
        if last == "write_box_via_move" and len(args) == 2:
            return args[1]
        if path in ("bool::then_some", "bool::then") and len(args) == 2:
            c = self.val(a0)
            if c is FALSE:
                return T("adt", OPT, "None", ())
            if c is TRUE:
                return T("adt", OPT, "Some", (("0", args[1] if last == "then_some" else self.apply(args[1], [])),))
        if path in ("core::iter::once", "std::iter::once"):
            return T("once", a0)
        if path in ("core::iter::empty", "std::iter::empty"):
            return T("empty")
        if path in ("core::iter::zip", "std::iter::zip"):
            return T("zip", self.val(a0), self.val(args[1]))
        if path in ("core::iter::repeat_n", "core::iter::repeat"):
            return T("repeat", a0, *map(self.val, args[1:]))
        if path in ("core::iter::repeat_with", "core::iter::from_fn"):
            if path == "core::iter::from_fn" and self.hooks.get("local_iters") and a0.op == "closure":
                xs = self.step_through(lambda i: self.apply(a0, []))
                if xs is None:
                    return TOP
                return T("seq", *xs)
            v = self.apply(a0, []) if a0.op in ("closure", "fnref") else TOP
            return T("repeat", v)
        if it or "Iterator" in path or base.startswith("rayon"):
            if last in ("map",) and len(args) == 2:
                return T("imap", self.val(a0), self.val(args[1]))
            if last == "zip":
                return T("zip", self.val(a0), self.val(args[1]))
            if last == "chain":
                return T("chain", self.val(a0), self.val(args[1]))
            if last == "enumerate":
                return T("enumerate", self.val(a0))
            if last == "scan" and len(args) == 3 and self.hooks.get("local_iters"):
                src = self.known_items(a0)
                if src is not None:
                    n = f"scan:*{len(self.env)}"
                    self.env[n] = self.val(args[1])
                    f = self.val(args[2])
                    none = T("adt", OPT, "None", ())
                    xs = self.step_through(lambda i: self.apply(f, [T("ref", n, ()), src[i]]) if i < len(src) else none)
                    if xs is None:
                        return TOP
                    return T("seq", *xs)
            if last == "rev":
                return T("rev", self.val(a0))
            if last in ("skip", "take", "step_by"):
                return T(last, self.val(a0), self.val(args[1]))
            if last in ("filter", "filter_map", "flat_map", "inspect"):
                return T(last, self.val(a0), self.val(args[1]))
            if last == "flatten":
                key = len(self.closures)
                return T("flat_map", self.val(a0), T("fnref", "core::convert::identity", "core::convert::identity", ""))
            if last in ("collect", "collect_into_vec"):
                items = self.iterate(a0, lambda x: x, fr, line)
                return self.collected(e, fr, items)
            if last in ("for_each", "try_for_each"):
                f = args[1]
                self.iterate(a0, lambda x: self.apply(f, [x]), fr, line)
                return UNIT if last == "for_each" else ok(UNIT)
            if last in ("sum", "product"):
                items = self.iterate(a0, lambda x: self.deref_all(x), fr, line)
                if all(x.op == "lit" and x.args[0].isdigit() for x in items):
                    r = lit(int(last == "product"))
                    for x in items:
                        r = self.binop("Add" if last == "sum" else "Mul", r, x)
                    return r
                return T(last, *items)
            if last in ("max", "min") and len(args) == 1:
                items = self.iterate(a0, lambda x: self.deref_all(x), fr, line)
                if all(x.op == "lit" and x.args[0].isdigit() for x in items):
                    if not items:
                        return T("adt", OPT, "None", ())
                    return T("adt", OPT, "Some", (("0", lit((max if last == "max" else min)(int(x.args[0]) for x in items))),))
            if last in ("fold", "try_fold"):
                f = args[2]
                root = f"{fr.id}:fold{self.evn}_{line}"
                self.env[root] = args[1]

                def step(x):
                    v = self.apply(f, [self.env[root], x])
                    if last == "try_fold" and v is not NEVER:
                        v = self.do_try(v, fr, line)
                    if v is not NEVER:
                        self.write(root, (), v)
                    return v

                self.iterate(a0, step, fr, line)
                r = self.env[root]
                return ok(r) if last == "try_fold" else r
            if last == "find" and len(args) == 2:
                items = self.known_items(self.val(a0))
                if items is not None and a0.op == "ref" and mutably(e):
                    items = list((self.slots(a0) or T("seq", *items)).args)
                if items is not None:
                    n0, env0 = len(self.out), dict(self.env)
                    for x in items:
                        hit = self.val(self.apply(args[1], [x]))
                        if hit is TRUE and len(self.out) == n0:
                            return T("adt", OPT, "Some", (("0", x),))
                        if hit is not FALSE or len(self.out) != n0:
                            break
                    else:
                        return T("adt", OPT, "None", ())
                    del self.out[n0:]
                    self.env = env0
            if last == "position" and a0.op == "ref":
                f = args[1]
                items = self.known_items(a0)
                if items is not None:
                    n0 = len(self.out)
                    for i, x in enumerate(items):
                        hit = self.val(self.apply(f, [x]))
                        if hit is TRUE and len(self.out) == n0:
                            return T("adt", OPT, "Some", (("0", lit(i)),))
                        if hit is not FALSE or len(self.out) != n0:
                            break
                    else:
                        return T("adt", OPT, "None", ())
                    del self.out[n0:]
            if last in ("all", "any"):
                f = args[1]
                items = self.iterate(a0, lambda x: self.val(self.apply(f, [x])), fr, line)
                if all(x.op != "each" for x in items):
                    return self.conj(*items) if last == "all" else self.disj(*items)
                return T(last, *items)
            if last == "last" and len(args) == 1 or last == "nth" and len(args) == 2 and a0.op != "ref" and self.val(args[1]).op == "lit":
                items = self.known_items(self.val(a0))
                if items is not None:
                    i = len(items) - 1 if last == "last" else int(self.val(args[1]).args[0])
                    return T("adt", OPT, "Some", (("0", items[i]),)) if 0 <= i < len(items) else T("adt", OPT, "None", ())
            if last == "next_back" and a0.op == "ref":
                items = self.known_items(self.val(self.read(*a0.args)))
                if items is not None:
                    self.write(a0.args[0], a0.args[1], T("seq", *items[:-1]))
                    return T("adt", "core::option::Option", "Some", (("0", items[-1]),)) if items else T("adt", "core::option::Option", "None", ())
            if last == "next" and a0.op == "ref":
                src = self.val(a0)
                nx = self.next_of(src)
                if nx is not None:
                    item, rest = nx
                    if rest is not None:
                        self.write(a0.args[0], a0.args[1], rest)
                    if item is None:
                        return T("adt", OPT, "None", ())
                    return T("adt", OPT, "Some", (("0", item),))
                if src.op == "nexted":
                    self.write(a0.args[0], a0.args[1], T("nexted", src.args[0], src.args[1] + 1))
                    return T("adt", OPT, "Some", (("0", T("nth", src.args[0], src.args[1])),))
                if src.op in ("param", "field", "call", "try", "zip", "imap", "elem", "vfield"):
                    self.write(a0.args[0], a0.args[1], T("nexted", src, 1))
                    x = T("nth", src, 0)
                    return T("call", "next", src, 0)
                self.write(a0.args[0], a0.args[1], T("after", "next", src))
                return T("call", "next", src)
        if last == "peek" and "Peekable" in path and a0 is not None:
            src = self.val(self.read(*a0.args)) if a0.op == "ref" else self.val(a0)
            nx = self.next_of(src)
            if nx is not None:
                return T("adt", OPT, "None", ()) if nx[0] is None else T("adt", OPT, "Some", (("0", nx[0]),))
        if last == "discriminant_value" and len(args) == 1:
            v = self.deref_all(self.val(a0))
            if v.op == "adt":
                return T("adt", v.args[0], v.args[1], ())
        if last in ("try_into", "try_from") and path.startswith(("<T as core::convert::Try", "core::convert::Try")) and len(args) == 1:
            v = self.val(a0)
            if v.op == "lit" and v.args[0].isdigit() and int(v.args[0]) < 128:
                return ok(v)
        if last == "len" and len(args) == 1:
            v = self.val(a0)
            if v.op == "seq" and all(x.op not in ("each", "splice") for x in v.args):
                return lit(len(v.args))
            if v.op == "repeat" and len(v.args) == 2:
                return v.args[1]
            if v.op in ("imap", "enumerate", "rev"):
                v = self.base_src(v)
            if v.op == "lit" and bytes_of(v.args[0]) is not None:
                return lit(len(bytes_of(v.args[0])))
            return T("len", v)
        if last in ("chunks", "chunks_exact") and len(args) == 2:
            return T("chunks", self.val(a0), self.val(args[1]), *(("exact",) if last == "chunks_exact" else ()))
        if last == "is_empty" and len(args) == 1:
            v = self.val(a0)
            if v.op == "seq" and all(x.op not in ("each", "splice") for x in v.args):
                return TRUE if not v.args else FALSE
            return self.binop("Eq", T("len", v), lit(0))
        if path in ("alloc::vec::Vec::new", "alloc::vec::Vec::with_capacity") or path.endswith("vec::Vec::new") or path.endswith("vec::Vec::with_capacity"):
            return T("seq")
        if path.endswith("vec::from_elem") and self.hooks.get("unroll") and self.val(args[1]).op == "lit" and int(self.val(args[1]).args[0]) <= self.hooks["unroll"]:
            return T("seq", *[self.deref_all(a0)] * int(self.val(args[1]).args[0]))
        if path.endswith("vec::from_elem"):
            return T("repeat", self.deref_all(a0), self.val(args[1]))
        if last == "push" and "Vec" in path and a0.op == "ref":
            cur = self.val(a0)
            self.write(a0.args[0], a0.args[1], self.append(cur, [self.val_keep(args[1])]))
            return UNIT
        if last in ("extend", "extend_from_slice", "append") and a0.op == "ref":
            cur = self.val(a0)
            if last == "append":
                other = self.val(args[1])
                items = list(other.args) if other.op == "seq" else [T("splice", other)]
                if args[1].op == "ref":
                    self.write(args[1].args[0], args[1].args[1], T("seq"))
            else:
                src = self.val(args[1])
                if src.op in ("param", "field", "call", "try", "ev", "vfield", "elem") :
                    items = [T("splice", src)]
                else:
                    items = self.iterate(src, lambda x: self.val_keep(x), fr, line)
            cur = self.val(a0)
            self.write(a0.args[0], a0.args[1], self.append(cur, items))
            return UNIT
        if ("Vec" in path or (last in ("reverse", "swap", "rotate_left", "rotate_right") and path.startswith(("[T]", "core::slice", "slice::")))) and a0 is not None and a0.op == "ref" and last in ("truncate", "clear", "pop", "remove", "swap_remove", "insert", "reverse", "swap", "rotate_left", "rotate_right", "resize", "shrink_to_fit", "shrink_to", "reserve", "reserve_exact"):
            r = self.vecop(last, a0, [self.val_keep(x) for x in args[1:]])
            if r is not None:
                return r
        if last in ("copy_from_slice", "clone_from_slice", "fill") and len(args) == 2 and a0 is not None and a0.op == "ref":
            cur, new = self.deref_all(self.val(a0)), self.deref_all(self.val(args[1]))
            if cur.op == "seq" and all(x.op not in ("each", "splice") for x in cur.args):
                if last == "fill":
                    new = T("seq", *[new] * len(cur.args))
                if new.op == "seq" and all(x.op not in ("each", "splice") for x in new.args):
                    if len(new.args) != len(cur.args):
                        self.emit(Node("panic", fr.fn, line, "slices of different lengths", None))
                        return NEVER
                    self.write(a0.args[0], a0.args[1], new)
                    return UNIT
        if path.endswith("mem::take") or path.endswith("mem::replace"):
            if a0.op == "ref":
                cur = self.val(a0)
                new = args[1] if len(args) > 1 else self.default_of(e, fr)
                self.write(a0.args[0], a0.args[1], new)
                return cur
        if path.endswith("mem::swap") and a0.op == "ref" and args[1].op == "ref":
            x, y = self.val(a0), self.val(args[1])
            self.write(a0.args[0], a0.args[1], y)
            self.write(args[1].args[0], args[1].args[1], x)
            return UNIT
        if last in ("first", "last", "first_mut", "last_mut", "get", "get_mut") and a0 is not None and ("Vec" in path or path.startswith(("[T]", "core::slice", "slice::", "[_]"))):
            cur = self.val(a0)
            xs = self.known_items(cur) if cur.op == "seq" else None
            i = None
            if xs is not None and last.startswith("get"):
                i = self.val(args[1])
                i = int(i.args[0]) if i.op == "lit" and str(i.args[0]).isdigit() else None
            elif xs is not None:
                i = 0 if last.startswith("first") else len(xs) - 1
            if i is not None:
                if not 0 <= i < len(xs):
                    return T("adt", OPT, "None", ())
                x = T("ref", a0.args[0], a0.args[1] + (("i", lit(i)),)) if a0.op == "ref" else xs[i]
                return T("adt", OPT, "Some", (("0", x),))
        if last in ("split_first_mut", "split_first") and a0 is not None and a0.op == "ref" and path.startswith(("[T]", "core::slice", "slice::", "[_]")):
            xs = self.slots(a0)
            if xs is not None:
                return T("adt", OPT, "Some", (("0", T("tuple", xs.args[0], T("seq", *xs.args[1:]))),)) if xs.args else T("adt", OPT, "None", ())
        if last == "drain" and "Vec" in path and a0.op == "ref" and len(args) == 2:
            cur, rng = self.val(a0), self.val(args[1])
            if cur.op == "seq" and rng.op == "adt" and rng.args[0].endswith("RangeFull"):
                self.write(a0.args[0], a0.args[1], T("seq"))
                return cur
            b = slice_of(cur, rng)
            if b is not None:
                self.write(a0.args[0], a0.args[1], T("seq", *cur.args[:b[0]], *cur.args[b[1]:]))
                return T("seq", *cur.args[b[0]:b[1]])
        if path.endswith("array::from_fn"):
            f = a0
            n = e.get("targs", [])
            cnt = next((x for x in n if isinstance(x, str)), None)
            s = fr.tsub.get(cnt)
            if isinstance(s, str):
                cnt = s
            if cnt is not None and cnt.isdigit() and int(cnt) <= 64:
                return T("seq", *[self.apply(f, [lit(i)]) for i in range(int(cnt))])
            src = T("range", lit(0), lit(cnt) if cnt and cnt.isdigit() else T("named", cnt or "?"))
            items = self.iterate(src, lambda x: self.apply(f, [x]), fr, line)
            return T("seq", *items)
        if last in ("map", "each_ref", "each_mut") and len(args) in (1, 2) and ("array" in path or path.startswith(("[T", "<[", "core::slice"))):
            if last != "map":
                return self.val(a0)
            items = self.iterate(a0, lambda x: self.apply(args[1], [x]), fr, line)
            return T("seq", *items)
        if ("option::Option" in path or "result::Result" in path) and args:
            return self.opt(e, fr, path, last, args)
        if path.endswith("bool::then") or path.endswith("::then_some"):
            c = self.val(a0)
            env0 = dict(self.env)
            if last == "then":
                v, nodes = self.under(c, lambda: self.apply(args[1], []))
                if nodes:
                    self.emit(Node("branch", fr.fn, line, c, [("true", nodes), ("false", [])]))
                    self.join(c, self.env, v is NEVER, env0, False)
            else:
                v = args[1]
            return T("ite", c, T("adt", OPT, "Some", (("0", v),)), T("adt", OPT, "None", ())) if c not in (TRUE, FALSE) else (T("adt", OPT, "Some", (("0", v),)) if c is TRUE else T("adt", OPT, "None", ()))
        return None

    def val_keep(self, v):
        return v

    def append(self, cur, items):
        if cur.op == "seq":
            return T("seq", *cur.args, *items)
        return T("seq", T("splice", cur), *items)

    def collected(self, e, fr, items):
        t = fr.fn.types[e["t"]] if e.get("t") is not None else None
        seq = T("seq", *items)
        if t is not None and t.adt in (OK, OPT):
            # Result<Vec<_>>: the elements are unwrapped
            def un(x):
                if x.op == "each":
                    return T("each", x.args[0], *[un(y) for y in x.args[1:]])
                return self.tryval(self.val(x)) if x is not NEVER else x

            return T("adt", t.adt, "Ok" if t.adt == OK else "Some", (("0", T("seq", *[un(x) for x in items])),))
        return seq

    def vecop(self, last, a0, args):
        """An operation in place on a vector whose elements are known."""
        if last in ("shrink_to_fit", "shrink_to", "reserve", "reserve_exact"):
            return UNIT
        cur = self.val(a0)
        if cur.op != "seq" or any(x.op in ("each", "splice") for x in cur.args):
            return None
        xs = list(cur.args)
        n = int(args[0].args[0]) if args and args[0].op == "lit" and str(args[0].args[0]).isdigit() else None
        r = UNIT
        if last == "clear":
            xs = []
        elif last == "reverse":
            xs.reverse()
        elif last == "pop":
            r = T("adt", OPT, "Some", (("0", xs.pop()),)) if xs else T("adt", OPT, "None", ())
        elif n is None:
            return None
        elif last == "truncate":
            xs = xs[:n]
        elif last == "swap" and n < len(xs) and args[1].op == "lit" and int(args[1].args[0]) < len(xs):
            k = int(args[1].args[0])
            xs[n], xs[k] = xs[k], xs[n]
        elif last == "rotate_left" and n <= len(xs):
            xs = xs[n:] + xs[:n]
        elif last == "rotate_right" and n <= len(xs):
            xs = xs[len(xs) - n:] + xs[: len(xs) - n]
        elif last == "insert" and n <= len(xs):
            xs.insert(n, args[1])
        elif last == "remove" and n < len(xs):
            r = xs.pop(n)
        elif last == "swap_remove" and n < len(xs):
            r = xs[n]
            xs[n] = xs[-1]
            xs.pop()
        elif last == "resize" and n <= len(xs) + (self.hooks.get("unroll") or 16):
            xs = xs[:n] + [args[1]] * (n - len(xs))
        else:
            return None
        self.write(a0.args[0], a0.args[1], T("seq", *xs))
        return r

    def default_of(self, e, fr):
        """`Default::default()` of a standard type, when the type is in sight."""
        t = fr.fn.types[e["t"]].s if e.get("t") is not None else ""
        if re.match(r"^([\w:]*::)?(std::|alloc::)?(vec::|collections::(\w+::)*)(Vec|VecDeque)<", t):
            return T("seq")
        if t in ("usize", "u8", "u16", "u32", "u64", "u128", "isize", "i8", "i16", "i32", "i64", "i128"):
            return lit(0)
        if t == "bool":
            return FALSE
        if re.match(r"^([\w:]*::)?(option::)?Option<", t):
            return T("adt", OPT, "None", ())
        return T("default")

    def opt(self, e, fr, path, last, args):
        v = self.val(args[0])
        line = e["l"]
        good = "Some" if "Option" in path else "Ok"
        bad = "None" if good == "Some" else "Err"
        is_good = None
        if v.op == "adt":
            is_good = v.args[1] == good
        if last in ("unwrap", "expect"):
            if is_good is True:
                return self.field(v, "0")
            if v.op == "ite":
                r = self.tryval(v)
                if r is not NEVER:
                    return r
            self.emit(Node("panic?", fr.fn, line, ("unwrap", v)))
            return T("try", self.deref_all(v))
        if last in ("is_some", "is_ok"):
            return TRUE if is_good is True else FALSE if is_good is False else T("is", self.deref_all(v), good)
        if last in ("is_none", "is_err"):
            return FALSE if is_good is True else TRUE if is_good is False else self.neg(T("is", self.deref_all(v), good))
        if last in ("ok_or", "ok_or_else") and len(args) == 2:
            if is_good:
                return ok(self.field(v, "0"))
            if last == "ok_or_else" and args[1].op in ("closure", "fnref"):
                err, nodes = self.under(T("is", self.deref_all(v), "None"), lambda: self.apply(args[1], []))
            else:
                err = args[1]
            c = T("is", self.deref_all(v), good)
            return T("ite", c, ok(T("try", self.deref_all(v))), T("adt", OK, "Err", (("0", err),)))
        if last == "map" and len(args) == 2:
            if is_good is False:
                return v
            inner = self.field(v, "0") if is_good else T("try", self.deref_all(v))
            r = self.apply(args[1], [inner])
            o = OPT if good == "Some" else OK
            new = T("adt", o, good, (("0", r),))
            if is_good:
                return new
            return T("ite", T("is", self.deref_all(v), good), new, T("adt", o, bad, ()) if bad == "None" else T("adt", o, bad, (("0", T("vfield", v, "Err", "0")),)))
        none = T("adt", OPT, "None", ())
        if last == "zip" and len(args) == 2 and good == "Some":
            w = self.val(args[1])
            if is_good is False or (w.op == "adt" and w.args[1] == "None"):
                return none
            if is_good and w.op == "adt" and w.args[1] == "Some":
                return T("adt", OPT, "Some", (("0", T("tuple", self.field(v, "0"), self.field(w, "0"))),))
        if last == "map_or" and len(args) == 3 and is_good is not None:
            return self.apply(args[2], [self.field(v, "0")]) if is_good else args[1]
        if last == "map_or_else" and len(args) == 3 and is_good is not None:
            return self.apply(args[2], [self.field(v, "0")]) if is_good else self.apply(args[1], [] if good == "Some" else [self.vfield(v, "Err", "0")])
        if last in ("is_some_and", "is_ok_and") and len(args) == 2 and is_good is not None:
            return self.apply(args[1], [self.field(v, "0")]) if is_good else FALSE
        if last == "is_none_or" and len(args) == 2 and is_good is not None:
            return self.apply(args[1], [self.field(v, "0")]) if is_good else TRUE
        if last == "or" and len(args) == 2 and is_good is not None:
            return v if is_good else args[1]
        if last == "or_else" and len(args) == 2 and is_good is not None and good == "Some":
            return v if is_good else self.apply(args[1], [])
        if last == "and" and len(args) == 2 and is_good is not None:
            return args[1] if is_good else v
        if last == "filter" and len(args) == 2 and is_good is not None and good == "Some":
            c = self.apply(args[1], [self.field(v, "0")]) if is_good else FALSE
            if c in (TRUE, FALSE):
                return v if c is TRUE else none
        if last == "and_then" and len(args) == 2 and is_good:
            return self.apply(args[1], [self.field(v, "0")])
        if last in ("unwrap_or", "unwrap_or_else", "unwrap_or_default") and is_good:
            return self.field(v, "0")
        if last == "unwrap_or" and is_good is False and len(args) == 2:
            return args[1]
        if last == "unwrap_or_else" and is_good is False and len(args) == 2:
            return self.apply(args[1], [] if good == "Some" else [self.vfield(v, "Err", "0")])
        if last == "unwrap_or_default" and is_good is False:
            return self.default_of(e, fr)
        if last == "map_err":
            return v
        if last in ("ok", "err") and len(args) == 1 and is_good is not None and last == "ok":
            return T("adt", OPT, "Some", (("0", self.field(v, "0")),)) if is_good else T("adt", OPT, "None", ())
        if last in ("take", "replace", "insert") and args[0].op == "ref":
            cur = v
            if last == "take":
                self.write(args[0].args[0], args[0].args[1], T("adt", OPT, "None", ()))
            else:
                self.write(args[0].args[0], args[0].args[1], T("adt", OPT, "Some", (("0", args[1]),)))
            return cur
        return None


def _flat(nodes):
    for n in nodes:
        yield n
        if n.kind == "branch":
            for _, k in n.kids:
                yield from _flat(k)
        elif n.kids:
            yield from _flat(n.kids)


flat = _flat
