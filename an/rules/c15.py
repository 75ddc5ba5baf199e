"""Every challenge is drawn from a transcript that binds all messages sent before it, the same one in prover and circuits."""
from joint import *

LEVEL = "other"
RULE = ("The prover is evaluated over its typed body by value numbering, calls composed, the sponge read as the sequence of what it has "
        "absorbed and squeezed; the internal circuits are evaluated on the witnesses the prover hands them. Each challenge in the returned "
        "proof must be a squeeze from a sequence holding both coordinates of every earlier round's commitment; each of those must commit the "
        "bridge polynomial the proof carries, and that polynomial's wires must include the commitments of everything the round sends, each "
        "the commitment of the polynomial the proof carries. In the circuits each challenge slot of the instance must be forced equal to a "
        "squeeze from the same sequence, whose absorbed wires are the instance's own, and a sequence resumed from a saved state must be one "
        "another circuit forces, unconditionally, to be the state it saved, word by word on the same stage wires.")
ASSUME = ["The sponge behaves as C14 says.", "A header size of 4 stands for all.",
          "The verifier ties the circuits' instances and stage polynomials together as C16 says."]
FLOOR = 120

ROUNDS = (("preamble", ("w",)), ("s_prime", ("y", "z")), ("inner_error", ("mu", "nu")), ("outer_error", ("mu_prime", "nu_prime")),
          ("ab", ("x",)), ("query", ("alpha",)), ("f", ("u",)), ("eval", ("pre_beta",)))
# what each round sends: (commitment, the polynomial it commits)
SENT = {
    "preamble": (("preamble.native.commitment", "preamble.native.rx"),),
    "s_prime": (("s_prime.native.registry_wx0_commitment", "s_prime.native.registry_wx0_poly"), ("s_prime.native.registry_wx1_commitment", "s_prime.native.registry_wx1_poly")),
    "inner_error": (("inner_error.native.rx_triple.commitment", "inner_error.native.rx_triple.rx"), ("inner_error.native.registry_wy_commitment", "inner_error.native.registry_wy_poly")),
    "outer_error": (("outer_error.native.commitment", "outer_error.native.rx"),),
    "ab": (("ab.native.a_commitment", None), ("ab.native.b_commitment", "ab.native.b_poly")),
    "query": (("query.native.rx_triple.commitment", "query.native.rx_triple.rx"), ("query.native.registry_xy_commitment", "query.native.registry_xy_poly")),
    "f": (("f.native.commitment", "f.native.poly"),),
    "eval": (("eval.native.commitment", "eval.native.rx"),),
}
CHILD = ("application.rx_triple", "circuits.hashes_1", "circuits.hashes_2", "circuits.inner_collapse", "circuits.outer_collapse", "circuits.compute_v")
OTHERS = (("application.rx_triple.commitment", "application.rx_triple.rx"),) + tuple((f"circuits.{n}.commitment", f"circuits.{n}.rx") for n in WIRES)


def constant_(t, R):
    return R(t).isconst() or t.op == "konst" or not any(x.op in ("param", "wire", "commit", "challenge", "random", "peval", "revdot", "iszero", "wireof") for x in leaves_(t))


def leaves_(t, memo=None):
    memo = set() if memo is None else memo
    if t.id in memo:
        return
    memo.add(t.id)
    yield t
    for x in parts(t.args):
        yield from leaves_(x, memo)


def parts(a):
    for x in a:
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            yield from parts(x)


def readable(h, R):
    """Whether everything absorbed is a constant or a coordinate."""
    return all(x.op in ("squeezed", "cx", "cy") or constant_(x, R) for x in h.args)


def prover(rep, J, where):
    hists = {}
    R = Ring()
    sent = []
    for rnd, chs in ROUNDS:
        c = J.at(f"{rnd}.bridge.commitment")
        sent.append((rnd, c))
        for ch in chs:
            t = J.at(f"challenges.{ch}")
            what = f"challenge {ch} in the proof"
            if t.op != "challenge" or t.args[0].op != "sponge":
                if t.op in ("lit", "param"):
                    rep.bad(f"prover/{ch}", f"{what} is {J.say(t)}, not drawn from the transcript", where)
                else:
                    rep.undecided(f"prover/{ch}", f"{what} is {J.say(t)}")
                continue
            h = t.args[0]
            hists[ch] = h
            for name, m in sent:
                has = T("cx", m) in h.args and T("cy", m) in h.args
                if has:
                    rep.ok(f"prover/{ch}/{name}", f"{what} binds the {name} round's commitment", where)
                elif readable(h, R):
                    rep.bad(f"prover/{ch}/{name}", f"{what} is drawn before both coordinates of the {name} round's commitment are absorbed", where)
                else:
                    rep.undecided(f"prover/{ch}/{name}", f"{what}: something absorbed is not understood")
            first = next((i for i, x in enumerate(h.args) if x.op in ("cx", "cy")), len(h.args))
            tag = [x for x in h.args[:first] if x.op != "squeezed" and constant_(x, R) and not (R(x).isconst() and R(x).zero())]
            if tag:
                rep.ok(f"prover/{ch}/tag", f"{what} starts from a protocol tag", where)
            elif readable(h, R):
                rep.bad(f"prover/{ch}/tag", f"{what}: the transcript starts without a tag that names the protocol", where)
            else:
                rep.undecided(f"prover/{ch}/tag", what)
    seen = {}
    for ch, h in hists.items():
        if h in seen:
            rep.bad(f"prover/{ch}/distinct", f"challenges {seen[h]} and {ch} are one squeeze", where)
        else:
            rep.ok(f"prover/{ch}/distinct", f"challenge {ch} is a squeeze of its own", where)
        seen.setdefault(h, ch)
    return hists


def committed(rep, J, where):
    def commit_of(cpath, ppath, key):
        c = J.at(cpath)
        if ppath is None:
            return c
        p = J.at(ppath)
        if c.op == "commit" and c.args[0] is p:
            rep.ok(f"commit/{key}", f"{cpath} commits {ppath}", where)
        elif c.op == "commit" and J.named(c.args[0]):
            rep.bad(f"commit/{key}", f"{cpath} commits {J.say(c.args[0])} rather than {ppath}", where)
        else:
            rep.undecided(f"commit/{key}", f"{cpath} is {show(c, 2)[:120]}")
        return c

    for cpath, ppath in OTHERS:
        commit_of(cpath, ppath, cpath)
    for rnd, chs in ROUNDS:
        commit_of(f"{rnd}.bridge.commitment", f"{rnd}.bridge.rx", f"{rnd}.bridge")
        cs = [(c, commit_of(c, p, c)) for c, p in SENT[rnd]]
        if rnd == "preamble":
            for side in ("left", "right"):
                for n in CHILD:
                    cs.append((f"the {side} child's {n}.commitment", child(J, side, n + ".commitment")))
        try:
            s = staged(J, J.at(f"{rnd}.bridge.rx"))
        except Odd as e:
            rep.undecided(f"bridge/{rnd}", str(e))
            continue
        vals = set(s.values)
        known = all(v.op in ("cx", "cy") for v in vals)
        for name, c in cs:
            if T("cx", c) in vals and T("cy", c) in vals:
                rep.ok(f"bridge/{rnd}/{name}", f"the {rnd} round's bridge holds {name}", s.fn.where)
            elif known:
                rep.bad(f"bridge/{rnd}/{name}", f"the {rnd} round's bridge commitment does not cover {name}", s.fn.where)
            else:
                rep.undecided(f"bridge/{rnd}/{name}", "a wire of the bridge is not understood")
    # the children's instances and headers
    try:
        s = staged(J, J.at("preamble.native.rx"))
    except Odd as e:
        return rep.undecided("preamble", str(e))
    vals = set(s.values)
    for side in ("left", "right"):
        want = [(f"challenges.{c}", child(J, side, f"challenges.{c}")) for _, cs in ROUNDS for c in cs]
        want += [("ab.native.c", child(J, side, "ab.native.c")), ("p.native.v", child(J, side, "p.native.v"))]
        for rnd, _ in ROUNDS:
            c = child(J, side, f"{rnd}.bridge.commitment")
            want += [(f"{rnd}.bridge.commitment ({k})", T(k, c)) for k in ("cx", "cy")]
        for name, v in want:
            if v in vals:
                rep.ok(f"preamble/{side}/{name}", f"the preamble binds the {side} child's {name}", s.fn.where)
            elif not any(x.op in ("wireof", "try", "phi", "loopval", "ite") for x in vals):
                rep.bad(f"preamble/{side}/{name}", f"the preamble does not bind the {side} child's {name}", s.fn.where)
            else:
                rep.undecided(f"preamble/{side}/{name}", "a wire of the preamble is not understood")


def child(J, side, path):
    t = T("field", T("param", side), "proof")
    if not hasattr(J, "_child"):
        J._child = {}
        # the way the prover's own terms name a child's component
        for rx in J.stages + J.traces:
            for x in leaves_(rx):
                p = path_of(x)
                if p is not None and p[0] in ("left", "right"):
                    J._child.setdefault(p, x)
    x = J._child.get((side, "proof." + path))
    if x is not None:
        return J.canon(x)
    for n in path.split("."):
        t = T("field", t, n)
    return t


def places(N):
    """Where each stage wire of a circuit sits: (stage, position)."""
    r = {}
    for adt, enforced, wit, out in N.w.stages:
        for i, w in enumerate(flat(solid(N.fl, out, N.memo))):
            r.setdefault(w, (adt, i))
    return r


def circuits(rep, J, hists):
    for n in WIRES:
        if n not in J.circuits:
            rep.undecided(f"circuit/{n}", f"the prover's trace of {n} was not found")
            return
        if not J.circuits[n].slots:
            rep.undecided(f"circuit/{n}", f"{n}'s output was not understood")
            return
    P = {n: places(N) for n, N in J.circuits.items()}
    # the states some circuit forces onto stage wires
    saved = []
    for n, N in J.circuits.items():
        F = N.facts
        got = {}
        for x in list(F.R.atoms.values()):
            if x.op == "stateword":
                for y in F.same(x):
                    if y in P[n]:
                        got.setdefault(x.args[0], {})[int(x.args[1].args[0])] = P[n][y]
        for s, d in got.items():
            saved.append((n, s, d))

    def absorbed_ok(n, h):
        """The wires absorbed that the circuit's instance does not hold."""
        N = J.circuits[n]
        mine = {x for k, ws in N.slots.items() for w in ws for x in N.facts.same(w)}
        out = []
        for x in h.args:
            if x.op == "absorbed":
                w = x.args[0]
                if not constant_(w, N.facts.R) and not any(y in mine for y in N.facts.same(w)):
                    out.append(w)
        return out

    for ch, h in hists.items():
        found, wrong = False, False
        for n, N in J.circuits.items():
            ws = N.slots.get(ch)
            if not ws:
                continue
            for x in N.facts.same(ws[0]):
                if x.op != "challenge":
                    continue
                where = N.fn.where
                c = J.canon(x)
                if c.op == "challenge" and c.args[0] is h:
                    rep.ok(f"circuit/{n}/{ch}", f"{n} derives {ch} from the prover's own sequence", where)
                    found = True
                elif c.op == "challenge" and readable(c.args[0], Ring()) and readable(h, Ring()):
                    rep.bad(f"circuit/{n}/{ch}", f"{n} derives {ch} from another sequence than the prover's", where)
                    wrong = True
                else:
                    rep.undecided(f"circuit/{n}/{ch}", f"{n}: the sequence {ch} comes from is not understood")
                    wrong = True
                raw = x.args[0]
                for w in absorbed_ok(n, raw):
                    rep.bad(f"circuit/{n}/{ch}/bound", f"{n} absorbs {J.say(J.canon(w))} on a wire its instance does not hold", where)
                if raw.args and raw.args[0].op == "resumed":
                    resume(rep, J, n, ch, raw.args[0].args[0], saved, P, absorbed_ok)
        if not found and not wrong:
            rep.bad(f"circuit/{ch}", f"no internal circuit forces the instance's {ch} to be drawn from the transcript", J.F.fn.where)


def resume(rep, J, n, ch, state, saved, P, absorbed_ok):
    N = J.circuits[n]
    ws = flat(state)
    at = [P[n].get(w) for w in ws]
    key = f"resume/{n}/{ch}"
    if len(ws) != STATE or any(a is None for a in at):
        return rep.undecided(key, f"{n} resumes a state that is not read from a stage")
    near = None
    for m, s, d in saved:
        if m == n:
            continue
        if [d.get(i) for i in range(STATE)] == at:
            bad = absorbed_ok(m, s.args[0]) if s.args[0].op == "sponge" else []
            if bad:
                rep.bad(key, f"{m} saves a state that absorbed {J.say(J.canon(bad[0]))}, which its instance does not hold", J.circuits[m].fn.where)
            else:
                rep.ok(key, f"the state {n} resumes for {ch} is the one {m} saved", N.fn.where)
            return
        near = (m, [i for i in range(STATE) if d.get(i) != at[i]])
    guarded = [1 for M in J.circuits.values() for k, p in M.facts.guarded]
    if guarded:
        return rep.undecided(key, "an equality is enforced conditionally")
    why = f"; {near[0]} leaves word {near[1][0]} free" if near else ""
    rep.bad(key, f"no circuit forces the state {n} resumes for {ch} to be one that was saved{why}", N.fn.where)


def run(rep):
    try:
        J = Joint(rep)
        rep = Told(rep)
        where = J.F.fn.where
        hists = prover(rep, J, where)
        committed(rep, J, where)
        circuits(rep, J, hists)
    except Odd as e:
        rep.undecided("fuse", str(e))
