"""What the library's macros write is what was written: literals, kinds and rejected input."""
import os
import re

from q import *

LEVEL = "other"
RULE = ("A witness crate applies the macros to literals of every limb shape and base, to kinds of every type shape, and to input that "
        "cannot be expressed. The compiler is the judge: the witness's constant assertions compare the expanded limbs, its type "
        "equalities the expanded kinds, and each rejected use has to be an error of its own line. Field constants evaluated by the "
        "compiler are compared with the written integer.")
ASSUME = ["The shapes of literals are those of the witness crate: every limb empty, full, with only its top bit and in the middle of zeros, in four bases."]
FLOOR = 30
HERE = os.path.dirname(os.path.abspath(__file__))
SRC = os.path.join(HERE, "..", "..", "witness", "src")
MODULUS = {"Fp": 0x40000000000000000000000000000000224698FC094CF91B992D30ED00000001, "Fq": 0x40000000000000000000000000000000224698FC0994A8DD8C46EB2100000001}


def lines(name, pat):
    for n, l in enumerate(open(os.path.join(SRC, name)), 1):
        if re.search(pat, l):
            yield n, l.strip()


def accepted(rep):
    errs = [tuple(x) for x in rep.status["witness"]]
    for name, pat, what in (("literals.rs", r"repr256!", "a literal does not have the limbs of the written integer"),
                            ("kinds.rs", r"same::<Kind!", "a kind is not that of the written type")):
        for n, l in lines(name, pat):
            e = [m for f, k, m in errs if f == name and k == n]
            key = f"{name}/{n}"
            if not e:
                if errs and name == "kinds.rs":
                    rep.undecided(key, "the witness crate does not build")
                else:
                    rep.ok(key)
            elif name == "literals.rs" and "evaluation" not in " ".join(e) and "larger" not in " ".join(e) and "mismatched" not in " ".join(e):
                rep.undecided(key, e[0])
            elif name == "kinds.rs" and not any(w in " ".join(e) for w in ("not satisfied", "mismatched", "unsatisfied", "expected")):
                rep.undecided(key, e[0])
            else:
                rep.bad(key, f"crates/ragu_macros/src/proc/{'repr' if name == 'literals.rs' else 'kind'}.rs:1", f"{what}: {l[:160]} ({e[0][:120]})")


def rejected(rep):
    if rep.status["witness"]:
        rep.undecided("rejected", "the witness crate does not build")
        return
    got = {(f, n) for f, n, _ in rep.status["twins"]}
    for n, l in lines("violating.rs", r"//~"):
        rep.check(("violating.rs", n) in got, f"rejected/{n}", "crates/ragu_macros/src/proc/repr.rs:1", f"{l.split('//~')[1].strip()} is accepted: {l.split('//~')[0].strip()[:120]}")


def fields(rep):
    w = rep.witness()
    if w is None:
        return
    for name in ("Fp", "Fq"):
        c = w.consts.get(f"ragu_witness::literals::{name.upper()}")
        l = next((l for n, l in lines("literals.rs", rf"const {name.upper()}:")), None)
        if c is None or l is None:
            rep.undecided(f"field/{name}", "not found")
            continue
        want = int(re.search(r"0x[0-9a-f]+", l)[0], 16)
        cv = c.get("cv")
        p = MODULUS[name]
        try:
            limbs = [int(x) for x in cv["f"][0][1]]
        except (TypeError, KeyError, IndexError, ValueError):
            rep.undecided(f"field/{name}", "the compiler's value has another form")
            continue
        v = sum(x << (64 * i) for i, x in enumerate(limbs)) * pow(1 << 256, -1, p) % p
        rep.check(v == want % p, f"field/{name}", "crates/ragu_pasta/src/macros.rs:1", f"the {name} element of {want:#x} is {v:#x}")


PARTS = {"accepted": accepted, "rejected": rejected, "fields": fields}
