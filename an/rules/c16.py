"""Acceptance implies every check: the verifier's result is the conjunction of all of a proof's claims."""
from alg import Poly
from flow import constant
from pcd import *

LEVEL = "other"
RULE = ("The verifier is evaluated over its typed body by value numbering, calls composed; the value it returns on each path is split into "
        "its conjuncts. Each claim the proof system rests on (the raw folding claim, the application circuit's, every internal circuit's and "
        "stage mask's on both curves, the evaluation, commitment and registry claims, the circuit's membership and the header lengths) "
        "must be among the conjuncts of every path that can accept, with each polynomial, registry object, challenge and instance value in "
        "its place; instance values are compared, as polynomials in the challenge, with what writing the circuits' own outputs yields. "
        "Lengths and membership must have been established before the code that relies on them runs.")
ASSUME = ["A header size of 4 and an encoding of 2 elements stand for all.",
          "Sparse-polynomial operations and registry queries mean what C22 and C17 say."]
FLOOR = 45
REGS = ("self.native_registry", "self.nested_registry")
UNI = "ragu_pcd::internal::native::unified::Output"
H1 = "ragu_pcd::internal::native::circuits::hashes_1::Output"


class Claim:
    """Eq(value, revdot(a, b))."""

    def __init__(self, ky, a, b):
        self.ky, self.a, self.b = ky, a, b


def read(V):
    """The conjuncts of an accepting outcome: (claims, others, what was not understood)."""
    out = []
    F = Forms(V.fl, None)
    for conds, t in V.leaves:
        if t.op != "adt" or t.args[1] != "Ok":
            continue
        v = V.fl.deref_all(t.args[2][0][1])
        pre = [c if val else T("un", "Not", c) for c, val in conds.items()]
        for cs in ways(v):
            out.append(understand(F, pre, cs))
    return out


def ways(v):
    """The ways a condition can hold, each a list of conditions that hold together."""
    if v is FALSE:
        return []
    if v.op == "or":
        return [w for x in v.args for w in ways(x)]
    if v.op == "and":
        r = [[]]
        for x in v.args:
            w = ways(x)
            if len(r) * len(w) > 32:
                w = [[x]]
            r = [a + b for a in r for b in w]
        return r
    return [[v]]


def understand(F, pre, cs):
    claims, others, odd = [], list(pre), []
    for c in cs:
        if c is TRUE:
            continue
        others.append(c)
        if c.op == "bin" and c.args[0] == "Eq":
            l, r = c.args[1], c.args[2]
            for x, y in ((l, r), (r, l)):
                if y.op == "revdot":
                    try:
                        claims.append(Claim(F.scalar(x), F.form(y.args[0]), F.form(y.args[1])))
                    except Odd as e:
                        odd.append(str(e))
                    break
            continue
        if c.op not in ("in_domain",) and not (c.op == "bin"):
            odd.append(f"condition {str(c)[:80]}")
    return claims, others, odd


def rxs(prefix, names, tab):
    return {("rx", f"{prefix}.{tab[n]}"): Poly.const(1) for n in names}


def horner(names, y):
    r = Poly()
    for n in names:
        r = r * Poly.atom(y) + (n if isinstance(n, Poly) else Poly.atom(n))
    return r


def same(a, b):
    return set(a) == set(b) and all((a[k] - b[k]).zero() for k in a)


def folded(form, want, z):
    """Whether a form is the wanted polynomials each under a distinct power of z."""
    if set(form) != set(want):
        return False
    seen = set()
    for k, c in form.items():
        if len(c.m) != 1:
            return False
        (mono, k1), = c.m.items()
        if k1 != 1 or any(v != z for v, _ in mono):
            return False
        e = mono[0][1] if mono else 0
        if e in seen:
            return False
        seen.add(e)
    return True


def value_path(name, proof):
    """The place in a proof where the value of a field of the unified instance is kept."""
    if name in ("c", "v"):
        return f"{proof}.{'ab.native.c' if name == 'c' else 'p.native.v'}"
    if name.endswith("_commitment"):
        return f"{proof}.{name[len('bridge_'):-len('_commitment')]}.bridge.commitment"
    return f"{proof}.challenges.{name}"


def written(rep, V, adt, rename):
    """The wires a gadget's own writing yields, in order, renamed."""
    g = symbolic(rep.prog, type("X", (), {"adt": adt, "args": ()})(), "")
    h = std_hooks()
    h.update(buffers(rep.prog))
    h.update({"unroll": 64, "const:HEADER_SIZE": lit(H)})
    sc = Scene(rep, hooks=h)
    buf = sc.cell(T("seq"))
    f = rep.need("ragu_primitives::GadgetExt::write")
    w = next((x for x in rep.prog.impl_fns("ragu_primitives::io::Write", "write_gadget") if x.path.startswith(f"<{adt} as ")), None)
    if f is None or w is None:
        return None
    sc.call(w, g, T("dr"), buf)
    out = sc.fl.deref_all(sc.get(buf))
    if out.op != "seq":
        return None
    names = []
    for x in out.args:
        d = dict(x.args[2]) if x.op == "adt" else {}
        v = d.get("value")
        if v is None:
            return None
        names.append(rename(full(v)))
    return names


def unified(name, proof):
    if "." in name:
        a, c = name.rsplit(".", 1)
        return f"{value_path(a, proof)}.{c}"
    return value_path(name, proof)


def paths_known(rep, names):
    """Whether the tables of this rule still name fields the proof has."""
    return [n for n in names if not has_path(rep.prog, "ragu_pcd::proof::Proof", n)]


def run(rep):
    try:
        V = Verify(rep)
    except Odd as e:
        return rep.undecided("verify", str(e))
    where = V.fn.where
    outs = read(V)
    if not V.leaves:
        return rep.undecided("verify", "the outcomes are too many to list")
    if not outs:
        return rep.undecided("verify", "no outcome that accepts was found")
    P = "pcd.proof"
    gone = paths_known(rep, list(NATIVE.values()) + list(NESTED.values()))
    if gone:
        return rep.undecided("proof", f"proofs no longer have {gone[0]}")
    order, norder = [order_of(rep, i) for i in (0, 1)]
    if order is None or norder is None:
        return rep.undecided("circuits", "the lists of internal circuits")
    uni = written(rep, V, UNI, lambda n: unified(n, P))
    bri = written(rep, V, H1, lambda n: unified(n[8:], P) if n.startswith("unified.") else P + ".application." + n)
    if uni is None or bri is None or len(uni) < 20 or len(bri) < 20 + 2 * H:
        return rep.undecided("instance", "the circuits' outputs")
    for i, (claims, others, odd) in enumerate(outs):
        tag = f"/{i}" if i else ""
        missing = []
        odd = list(odd)

        def need(key, ok, msg):
            if ok:
                rep.ok(f"{key}{tag}")
            else:
                missing.append((f"{key}{tag}", msg))

        # challenges: y is what the application circuit is evaluated at, z what it is dilated by
        ys = {k[3] for c in claims for k in list(c.a) + list(c.b) if k[0] == "s" and k[1] == REGS[0]}
        ny = {k[3] for c in claims for k in list(c.a) + list(c.b) if k[0] == "s" and k[1] == REGS[1]}
        zs = {k[1] for c in claims for k in list(c.a) + list(c.b) if k[0] == "t" and any(j[0] == "s" and j[1] == REGS[0] for j in list(c.a) + list(c.b))}
        nz = {k[1] for c in claims for k in list(c.a) + list(c.b) if k[0] == "t" and any(j[0] == "s" and j[1] == REGS[1] for j in list(c.a) + list(c.b))}
        if not (len(ys) == len(ny) == len(zs) == len(nz) == 1):
            if odd or any(len(x) > 1 for x in (ys, zs, ny, nz)):
                rep.undecided(f"rule/challenges{tag}", f"challenges {ys} {zs} {ny} {nz}")
            else:
                rep.bad(f"claims{tag}", where, "the verifier can accept without having checked the proof's circuits")
            continue
        (y,), (z,), (ny,), (nz,) = ys, zs, ny, nz
        for nm, c in (("y", y), ("z", z), ("nested y", ny), ("nested z", nz)):
            if not c.startswith("random"):
                (rep.bad if c.startswith(("pcd.", "1", "0", "named")) else lambda k, w, m: rep.undecided(k, m))(f"challenge/{nm}{tag}", where, f"the verifier's challenge {nm} is {c}, not drawn by the verifier")
            else:
                rep.ok(f"challenge/{nm}{tag}")
        rep.check(y != z and ny != nz, f"challenges/distinct{tag}", where, "the verifier uses one challenge both as y and as z")

        def find(ky, a, b, fold=None):
            for c in claims:
                if not (c.ky - ky).zero():
                    continue
                for p, q in ((c.a, c.b), (c.b, c.a)):
                    if (folded(p, a, fold) if fold else same(p, a)) and same(q, b):
                        return True
            return False

        def circuit(names, tab, reg, cid, y, z):
            a = rxs(P, names, tab)
            b = {("dilate", k, z): c for k, c in a.items()}
            b[("s", REGS[reg], str(cid), y)] = Poly.const(1)
            b[("t", z)] = Poly.const(1)
            return a, b

        one, zero = Poly.const(1), Poly()
        ky = {"unified_ky": horner(uni + [zero, one], y), "unified_bridge_ky": horner(bri + [zero, one], y)}
        app = horner([f"{P}.application.left_header[{k}]" for k in range(H)] + [f"{P}.application.right_header[{k}]" for k in range(H)]
                     + [f"encoded{k}" for k in range(ENC)] + [zero] * (H - 1 - ENC) + ["suffix", one], y)
        need("claim/raw", find(Poly.atom(f"{P}.ab.native.c"), rxs(P, ["AbA"], NATIVE), rxs(P, ["AbB"], NATIVE)), "that the folded claim c is the revdot product of the folded polynomials")
        need("claim/application", find(app, *circuit(["Application"], NATIVE, 0, f"{P}.application.circuit_id", y, z)), "that the application circuit's trace satisfies its circuit for the two child headers and the output header")
        for n, parts in CIRCUITS.items():
            need(f"claim/{n}", find(ky[KY[n]], *circuit(parts, NATIVE, 0, order.get(n), y, z)), f"that {n}'s trace and stages satisfy its circuit for the proof's instance")
        for n, parts in MASKS.items():
            a = rxs(P, parts, NATIVE)
            need(f"claim/{n}", find(zero, a, {("s", REGS[0], str(order.get(n)), y): one}, fold=z if len(a) > 1 else None), f"that {' and '.join(parts)} keep within the positions {n} allows")
        for n in norder:
            parts, kind = nested_parts(n, norder)
            if parts is None:
                rep.undecided(f"claim/nested/{n}", "a nested claim of unknown content")
                continue
            if kind == "circuit":
                need(f"claim/nested/{n}", find(one, *circuit_nested(P, parts, norder[n], ny, nz)), f"that the nested trace of {n} and its stages satisfy its circuit")
            else:
                a = rx_nested(P, parts)
                need(f"claim/nested/{n}", find(zero, a, {("s", REGS[1], str(norder[n]), ny): one}, fold=nz if len(a) > 1 else None), f"that the nested polynomials {n} is about keep within their positions")
        # the rest
        txt = [o for o in others]
        eqs = [(o.args[1], o.args[2]) for o in txt if o.op == "bin" and o.args[0] == "Eq"]

        def eq(f, g):
            return any(f(a) and g(b) or f(b) and g(a) for a, b in eqs)

        D = V.fl.deref_all
        at = lambda p: (lambda t: full(D(t)) == p)
        need("claim/evaluation", eq(at(f"{P}.p.native.v"), lambda t: t.op == "peval" and at(f"{P}.p.native.poly")(t.args[0]) and at(f"{P}.challenges.u")(t.args[1])), "that the batched polynomial p evaluates to v at u")
        need("claim/commitment", eq(at(f"{P}.p.native.commitment"), lambda t: t.op == "commit" and at(f"{P}.p.native.poly")(t.args[0]) and generators(t.args[1])), "that p's commitment is a commitment to p")

        def reg_eval(t):
            return t.op == "peval" and at(f"{P}.query.native.registry_xy_poly")(t.args[0]) and full(D(t.args[1])).startswith("random") and full(D(t.args[1]))

        def reg_own(t):
            return t.op == "wxy" and at(REGS[0])(t.args[0]) and at(f"{P}.challenges.x")(t.args[2]) and at(f"{P}.challenges.y")(t.args[3]) and full(D(t.args[1]))

        need("claim/registry", eq(lambda a: bool(reg_eval(a)), lambda b: bool(reg_own(b))) and any(reg_eval(a) and reg_eval(a) == reg_own(b) or reg_eval(b) and reg_eval(b) == reg_own(a) for a, b in eqs), "that the proof's registry polynomial agrees with the registry at a challenge the verifier draws")
        need("claim/domain", any(indomain(o, P) for o in txt), "that the application circuit is in the registry's domain")
        for side in ("left", "right"):
            need(f"claim/{side} header", length_eq(eqs, f"{P}.application.{side}_header"), f"that the {side} header has the header size")
        for k, m in missing:
            if odd:
                rep.undecided(k, f"not found, and not all conditions were understood: {odd[0]}")
            else:
                rep.bad(k, where, f"the verifier can accept without having checked {m}")
    # what is established before it is relied upon
    for what, args, known in V.guards:
        if what == "circuit" and full(args[1]) == f"{P}.application.circuit_id":
            rep.check(any(indomain(o, P) for o in known), "guard/circuit", where, "the verifier evaluates the registry at the proof's circuit before knowing the circuit to be in its domain")
        if what == "instance":
            eqs = [(o.args[1], o.args[2]) for o in known if o.op == "bin" and o.args[0] == "Eq"]
            for side in ("left", "right"):
                rep.check(length_eq(eqs, f"{P}.application.{side}_header"), f"guard/{side} header", where, f"the verifier computes the proof's instance before knowing the {side} header's length")
    for h in V.headers:
        rep.check(full(h) == "pcd.data", "instance/data", where, f"the output header is encoded from {full(h)[:80]} rather than the data that accompanies the proof")


def indomain(o, P):
    return o.op == "in_domain" and full(o.args[0]) == REGS[0] and full(o.args[1]) == f"{P}.application.circuit_id"


def generators(t):
    return "host_generators" in full(t)


def length_eq(eqs, path):
    for a, b in eqs:
        for x, y in ((a, b), (b, a)):
            if x.op == "len" and full(x.args[0]) == path and y is lit(H):
                return True
    return False


def order_of(rep, nested):
    """Internal circuits to their index: the order of the list of all."""
    c = rep.prog.consts.get(f"ragu_pcd::internal::{'nested' if nested else 'native'}::InternalCircuitIndex::ALL")
    if c is None or not isinstance(c.get("cv"), (dict, list)):
        return None
    v = constant(c["cv"])
    if v.op != "seq":
        return None
    out = {}
    for i, x in enumerate(v.args):
        if x.op != "adt":
            return None
        nm = x.args[1] + ("".join(str(a[1].args[0]) if a[1].op == "lit" else "?" for a in x.args[2]))
        out[nm] = i
    return out


def rx_nested(P, parts):
    return {("rx", f"{P}.{p}"): Poly.const(1) for p in parts}


def circuit_nested(P, parts, cid, y, z):
    a = rx_nested(P, parts)
    b = {("dilate", k, z): c for k, c in a.items()}
    b[("s", REGS[1], str(cid), y)] = Poly.const(1)
    b[("t", z)] = Poly.const(1)
    return a, b


def nested_parts(n, order):
    S = NESTED
    if n.startswith("EndoscalingStep"):
        return [f"p.nested.step_rxs[{n[len('EndoscalingStep'):]}]", S["EndoscalarStage"], S["PointsStage"]], "circuit"
    if n == "PointsFinalStaged":
        return [f"p.nested.step_rxs[{k}]" for k in range(sum(1 for m in order if m.startswith("EndoscalingStep")))], "mask"
    if n in S:
        return [S[n]], "mask"
    return None, None
