"""The prover and the internal circuits it proves, evaluated against each other.

Each internal circuit is run on the very witness the prover hands it, so that a wire's value is a term of the prover's own
evaluation and the two can be compared."""
from fuse import *
from native import *

SLOTS = ("bridge_preamble_commitment", "w", "bridge_s_prime_commitment", "y", "z", "bridge_inner_error_commitment", "mu", "nu",
         "bridge_outer_error_commitment", "mu_prime", "nu_prime", "c", "bridge_ab_commitment", "x", "bridge_query_commitment", "alpha",
         "bridge_f_commitment", "u", "bridge_eval_commitment", "pre_beta", "v")


def names(t):
    """The fields of an adt term, by name."""
    return dict(t.args[2]) if t.op == "adt" else {}


class Canon:
    """Terms with wires replaced by their values, coordinates and resumed sponges written one way."""

    def __init__(self):
        self.memo = {}

    def __call__(self, t):
        if isinstance(t, tuple):
            return tuple(self(x) for x in t)
        if not isinstance(t, T):
            return t
        k = id(t)
        if k not in self.memo:
            self.memo[k] = (t, self.step(t))
        return self.memo[k][1]

    def step(self, t):
        o, a = t.op, t.args
        if o == "wire":
            v = self(a[2])
            return T("cx", v) if a[1] == "x" else T("cy", v) if a[1] == "y" else v
        if o == "absorbed":
            return self(a[0])
        if o in ("konst",):
            return self(a[0])
        if o == "adt" and a[0] == ELEM:
            return self(names(t)["wire"])
        if o == "adt" and a[0].endswith("::TrackedPoly") and "poly" in names(t):
            return self(names(t)["poly"])
        if o == "adt" and a[0] == COW and len(a[2]) == 1:
            return self(a[2][0][1])
        if o == "adt" and a[0] == BO:
            return self(names(t)["wire"])
        t = T(o, *[self(x) for x in a]) if any(isinstance(x, (T, tuple)) for x in a) else t
        a = t.args
        q = coordinate(t)
        if q is not None:
            return q
        if o == "index" and a[1].op == "adt" and a[1].args[1] == "RangeFull":
            return a[0]
        if o == "sponge" and a and a[0].op == "resumed":
            s = self.state(a[0].args[0])
            if s is not None:
                return T("sponge", *s.args, *a[1:])
        return t

    def state(self, t):
        """The history a saved state stands for, from its words in order."""
        if t.op == "state":
            return t.args[0]
        ws = words(t)
        if ws and all(w.op == "stateword" and w.args[1] == lit(i) and w.args[0] is ws[0].args[0] for i, w in enumerate(ws)) and len(ws) == STATE:
            s = ws[0].args[0]
            return s.args[0] if s.op == "state" else None
        return None


def words(t):
    """Every word below a term, in order."""
    if t.op == "stateword":
        return [t]
    if t.op in ("adt", "seq", "tuple"):
        kids = [x for _, x in t.args[2]] if t.op == "adt" else t.args
        return [w for x in kids for w in words(x)]
    return []


def coordinate(t):
    """An affine coordinate of a point."""
    if t.op != "call" or len(t.args) != 2 or t.args[0].split("::")[-1] not in ("x", "y") or "Coordinates" not in t.args[0]:
        return None
    p = t.args[1]
    while isinstance(p, T):
        if p.op == "call" and p.args[0].split("::")[-1] == "coordinates" and len(p.args) == 2:
            return T("c" + t.args[0][-1], p.args[1])
        if p.op in ("field", "vfield", "try", "unmaybe", "ref"):
            p = p.args[0]
        elif p.op == "call" and p.args[0].split("::")[-1] in ("into_option", "unwrap", "expect", "into", "from") and len(p.args) > 1:
            p = p.args[1]
        else:
            return None
    return None


def slots(out):
    """A circuit's unified output: the wires of each slot, by name."""
    inner = names(names(out).get("output", out)).get("inner")
    if inner is None:
        return {}
    d = names(inner)
    if "w" not in d:
        d = names(d.get("unified", T("lit", "")))
    return {k: flat(x) for k, x in d.items()}


class Joint:
    def __init__(self, rep, only=WIRES):
        self.rep = rep
        self.F = Fuse(rep)
        self.fl = self.F.fl
        rep.seen(*self.fl.visited.values())
        self.memo = {}
        self.canon = Canon()
        v = self.F.value
        if v is NEVER or v.op != "adt" or v.args[1] != "Ok":
            raise Odd("the prover returns no single proof")
        self.proof = self.solid(names(v.args[2][0][1].args[0])["proof"])
        self.traces = [self.solid(t) for t in self.F.traces]
        self.stages = [self.solid(t) for t in self.F.stages]
        self.assembled = [self.solid(t) for t in self.F.assembled]
        self.circuits, self.seen = {}, {}
        for t in self.traces:
            c = names(t.args[0]).get("circuit") if t.args[0].op == "adt" else None
            if c is None or c.op != "adt" or not c.args[0].startswith(NC):
                continue
            n = c.args[0][len(NC):].split("::")[0]
            if n in self.seen:
                raise Odd(f"{n} is traced twice")
            self.seen[n] = t
            if n in only:
                N = self.circuits[n] = Native(rep, n, witness=t.args[1], me=c)
                N.memo = {}
                rep.seen(*N.fl.visited.values())
                v = okay_of(N.fl, N.value)
                N.out = solid(N.fl, v, N.memo)
                N.slots = slots(N.out)
                N.facts = Facts(N)

    def solid(self, t):
        return solid(self.fl, t, self.memo)

    def at(self, path):
        """A component of the proof."""
        v = self.proof
        for n in path.split("."):
            d = names(v)
            if n not in d:
                raise Odd(f"the proof has no {path}")
            v = d[n]
        return self.canon(v)

    def named(self, t):
        """A term by the proof components it equals, for reports."""
        if not hasattr(self, "_names"):
            self._names = {}

            def go(v, p):
                v = self.canon(v)
                if not p.startswith("data") and p and v.op not in ("lit",):
                    self._names.setdefault(v, p)
                for k, x in names(v).items():
                    go(x, f"{p}.{k}" if p else k)

            go(self.proof, "")
        return self._names.get(t)

    def say(self, t, n=2):
        s = self.named(t)
        return s if s else full(t) if path_of(t) else show(t, n)[:160]


def flat(t):
    """The wires of a gadget, in the order of its parts."""
    if t.op == "adt" and t.args[0] in (ELEM, BO):
        return [names(t)["wire"]]
    if t.op == "state":
        return [T("stateword", t, lit(i)) for i in range(STATE)]
    if t.op == "adt":
        return [w for _, x in t.args[2] for w in flat(x)]
    if t.op in ("seq", "tuple"):
        return [w for x in t.args for w in flat(x)]
    if t.op in ("lit", "maybe", "unit"):
        return []
    return [T("wireof", t)]


class Ring:
    """Terms as polynomials over what they do not explain."""

    def __init__(self):
        self.atoms, self.memo = {}, {}

    def atom(self, t):
        k = f"#{t.id}"
        self.atoms[k] = t
        return Poly.atom(k)

    def __call__(self, t):
        k = id(t)
        if k not in self.memo:
            self.memo[k] = (t, self.step(t))
        return self.memo[k][1]

    def step(self, t):
        o, a = t.op, t.args
        if o == "lit" and isinstance(a[0], str) and a[0].lstrip("-").isdigit():
            return Poly.const(int(a[0]))
        if o == "lit" and isinstance(a[0], int) and not isinstance(a[0], bool):
            return Poly.const(a[0])
        if o == "konst":
            return self(a[0])
        if o == "bin" and a[0] in ("Add", "Sub", "Mul"):
            x, y = self(a[1]), self(a[2])
            return x + y if a[0] == "Add" else x - y if a[0] == "Sub" else x * y
        if o == "un" and a[0] == "Neg":
            return -self(a[1])
        if o == "iszero":
            x = self(a[0])
            if x.isconst():
                return Poly.const(0 if x.constval() else 1)
        return self.atom(t)


class Facts:
    """What a circuit enforces, unconditionally, as polynomials that vanish."""

    def __init__(self, N):
        self.N, self.R = N, Ring()
        self.zero, self.guarded, self.roots = [], [], []
        for kind, args, facts in N.w.enforced:
            args = [solid(N.fl, x, N.memo) for x in args]
            if kind == "root":
                (self.guarded if facts else self.roots).append(args if not facts else (kind, args))
                continue
            if kind == "zero":
                ps = [self.R(args[0])]
            else:
                x, y = flat(args[0]), flat(args[1])
                if len(x) != len(y):
                    continue
                ps = [self.R(p) - self.R(q) for p, q in zip(x, y)]
            for p in ps:
                if facts:
                    self.guarded.append((kind, p))
                else:
                    self.zero.append(p)
        self.eq = {}
        for p in self.zero:
            # two wires made equal
            if len(p.m) == 2 and sum(p.m.values()) == 0 and all(len(k) == 1 and k[0][1] == 1 for k in p.m):
                x, y = [k[0][0] for k in p.m]
                self.eq.setdefault(x, set()).add(y)
                self.eq.setdefault(y, set()).add(x)

    def same(self, t):
        """The terms a wire is made equal to, itself first."""
        p = self.R(t)
        out, todo = [], []
        if len(p.m) == 1 and (k := next(iter(p.m))) and len(k) == 1 and k[0][1] == 1 and p.m[k] == 1:
            todo = [k[0][0]]
        while todo:
            x = todo.pop()
            if x in out:
                continue
            out.append(x)
            todo += sorted(self.eq.get(x, ()))
        return [self.R.atoms[x] for x in out]


def staged(J, t):
    """The gadget a committed stage polynomial carries, over values of the prover's terms."""
    if t.op != "stage_rx":
        raise Odd("not a stage's polynomial")
    if not hasattr(J, "_staged"):
        J._staged = {}
    k = (t.args[0], t.args[2])
    if k not in J._staged:
        ty = J.F.types.get(t.args[0].args[0])
        if ty is None:
            raise Odd(f"the stage {t.args[0].args[0]}")
        s = Staged(J.rep, ty, t.args[2])
        J.rep.seen(*s.fl.visited.values())
        s.gadget = solid(s.fl, s.out, {})
        s.wires = flat(s.gadget)
        s.values = [J.canon(w) for w in s.wires]
        J._staged[k] = s
    return J._staged[k]


class Told:
    """A report whose entries say what was found before where."""

    def __init__(self, rep):
        self.rep = rep

    def ok(self, key, *_):
        self.rep.ok(key)

    def bad(self, key, msg, where):
        self.rep.bad(key, where, msg)

    def undecided(self, key, why=""):
        self.rep.undecided(key, why)
