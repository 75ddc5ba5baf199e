"""The circuits that the interpreters are composed with."""

INNER = [("alloc", "p"), ("alloc", "q2"), ("zero", [("t", "i0", "1"), ("g", "k5"), ("t", "q2", "-1")]), ("alloc", "r"), ("zero", [("t", "r", "2"), ("t", "p", "k6")])]
OUTER = [("mul", ["a", "b", "c"]), ("alloc", "e"), ("routine", ["i0", "c"], INNER, ["p", "i0"], ["u", "v"]),
         ("add", "s", [("t", "u", "k7"), ("t", "e", "1")]), ("zero", [("t", "s", "k8"), ("t", "v", "1")]), ("alloc", "f"), ("zero", [("t", "f", "1")])]
SOLO = [("zero", [("t", "i0", "1"), ("t", "ONE", "-k1")])]
GATES = [("mul", ["a", "b", "c"]), ("gate", ["d", "e", "f", "g"])]

SCRIPTS = {
    # every operation at the root, in no particular arrangement
    "flat": ([("mul", ["m0", "m1", "m2"]), ("alloc", "w0"), ("alloc", "w1"), ("alloc", "w2"), ("gate", ["g0", "g1", "g2", "g3"]), ("alloc", "w3"), ("alloc", "w4"),
              ("zero", [("t", "m0", "1"), ("t", "g0", "k1"), ("t", "w3", "-k2")]), ("zero", [("t", "m1", "2"), ("t", "g1", "-1"), ("t", "w0", "0")]),
              ("eq", "w1", "w2"), ("zero", [("t", "m2", "k3"), ("g", "2"), ("t", "g2", "k4"), ("g", "-1"), ("t", "g3", "1")]),
              ("const", "cc", "k5"), ("zero", [("t", "cc", "1"), ("t", "w4", "-1")]), ("const", "c0", "0"), ("eq", "c0", "w0"), ("zero", [])],
             ["m2", "w4"]),
    "empty": ([], []),
    "outputs": ([("alloc", "w"), ("const", "one", "1"), ("add", "v", [("t", "w", "k1"), ("t", "one", "k2")])], ["w", "v", "w", "one", "v"]),
    "nested": ([("mul", ["m0", "m1", "m2"]), ("alloc", "w0"), ("alloc", "w1"), ("alloc", "w2"),
                ("add", "v0", [("t", "w0", "k1"), ("g", "k2"), ("t", "m1", "2"), ("t", "ONE", "-k3")]), ("zero", [("t", "v0", "1"), ("t", "w2", "-1")]),
                ("routine", ["v0"], OUTER, ["s", "e"], ["z0", "z1"]), ("eq", "z0", "w1"), ("gate", ["g0", "g1", "g2", "g3"]), ("const", "cc", "k4"), ("alloc", "w3"),
                ("zero", [("t", "cc", "1"), ("t", "g3", "k9"), ("t", "w3", "1")]), ("routine", ["z1"], INNER, ["q2"], ["z3"]),
                ("add", "last", [("t", "z3", "2"), ("t", "v0", "1")])], ["last", "g0", "g0"]),
    # routines without gates, without constraints, with neither, in a row, and an unpaired allocation before and after
    "siblings": ([("alloc", "w0"), ("routine", ["w0"], SOLO, ["i0"], ["r0"]), ("routine", [], GATES, ["c", "g"], ["r1", "r2"]), ("routine", ["r1"], [], ["i0"], ["r3"]),
                  ("alloc", "w1"), ("routine", ["w1", "r2"], [("alloc", "p"), ("eq", "p", "i1"), ("eq", "p", "i0")], ["p", "i1"], ["r4", "r5"]), ("alloc", "w2"),
                  ("zero", [("t", "r0", "1"), ("t", "r3", "k1"), ("t", "r4", "k2"), ("t", "r5", "k3"), ("t", "w1", "k4"), ("t", "w2", "k5")])], ["r4", "r0"]),
    # chains of virtual wires, dropped early, shared, unused, and handed into and out of routines
    "virtual": ([("alloc", "w0"), ("alloc", "w1"), ("add", "v0", [("t", "w0", "k1"), ("t", "w1", "-k2")]), ("add", "v1", [("t", "v0", "k3"), ("g", "-1"), ("t", "w0", "2")]),
                 ("drop", "v0"), ("add", "dead", [("t", "v1", "k4")]), ("drop", "dead"), ("add", "v2", [("t", "v1", "1"), ("t", "v1", "k5"), ("g", "0"), ("t", "w1", "k6")]),
                 ("zero", [("t", "v1", "k7")]), ("drop", "v1"), ("zero", [("t", "v2", "-1"), ("t", "ONE", "k8")]),
                 ("routine", ["v2", "v2"], [("add", "x", [("t", "i0", "k1"), ("t", "i1", "-1")]), ("zero", [("t", "x", "1"), ("t", "i1", "k2")]), ("add", "y", [("t", "x", "2")])], ["y", "i0"], ["r0", "r1"]),
                 ("add", "v3", [("t", "r0", "1"), ("t", "r1", "k9"), ("t", "v2", "k3")]), ("drop", "r0"), ("zero", [("t", "v3", "1"), ("t", "v3", "-1")]), ("zero", [("t", "v3", "k1")]),
                 ("add", "v4", []), ("zero", [("t", "v4", "1"), ("t", "w0", "1")]),
                 ("add", "t1", [("g", "k1"), ("t", "w0", "k2"), ("g", "-k3"), ("t", "w1", "1"), ("t", "w0", "-1")]), ("zero", [("t", "t1", "k4")]), ("drop", "t1"),
                 ("add", "t2", [("t", "w1", "k5")]), ("add", "t3", [("t", "w0", "k6"), ("t", "t2", "2")]), ("zero", [("g", "k7"), ("t", "t2", "k8"), ("g", "-1"), ("t", "t3", "k9")])], ["v3", "r1"]),
    # one wire several times in a row, under changing gains
    "repeats": ([("alloc", "w0"), ("alloc", "w1"), ("add", "v0", [("t", "w0", "k1"), ("t", "w1", "k2")]),
                 ("add", "v1", [("g", "k3"), ("t", "v0", "1"), ("t", "v0", "k4"), ("g", "k5"), ("t", "v0", "k6"), ("t", "w0", "2"), ("g", "-1"), ("t", "w0", "k7"), ("t", "ONE", "1"), ("g", "2"), ("t", "ONE", "k8")]),
                 ("zero", [("t", "v0", "k1"), ("t", "v0", "k2"), ("g", "k3"), ("t", "v0", "k4"), ("g", "2"), ("t", "v1", "1"), ("t", "v1", "-k5"), ("t", "w1", "1"), ("g", "k6"), ("t", "w1", "1"), ("t", "ONE", "k7"), ("g", "k8"), ("t", "ONE", "1")]),
                 ("add", "v2", [("t", "v1", "k9"), ("g", "0"), ("t", "v1", "1")])], ["v1", "v2"]),
    "deep": ([("alloc", "w0"), ("routine", ["w0"], [("alloc", "p"), ("routine", ["i0", "p"], [("mul", ["a", "b", "c"]), ("eq", "a", "i0"),
              ("routine", ["c"], [("alloc", "q"), ("alloc", "q1"), ("alloc", "q2"), ("eq", "q1", "i0"), ("eq", "q2", "q")], ["q2"], ["k"]), ("eq", "k", "b"), ("alloc", "z")], ["z", "k"], ["m", "n"]),
              ("eq", "m", "p"), ("alloc", "p2"), ("routine", ["n"], SOLO, [], []), ("alloc", "p3")], ["p2", "p3"], ["t0", "t1"]), ("eq", "t0", "t1"), ("alloc", "w1")], ["w1", "t0"]),
    # the system gate's own wires, for circuits that see them
    "system": ([("zero", [("t", "sb", "1"), ("t", "ONE", "-1")]), ("mul", ["a", "b", "c"]), ("zero", [("t", "sa", "k1"), ("t", "sc", "k2"), ("t", "a", "1")]), ("eq", "sb", "b")], ["c"]),
    # an output whose writing creates gates and constraints of its own
    "writes": ([("onwrite", [("mul", ["a", "b", "c"]), ("alloc", "d"), ("alloc", "e"), ("eq", "c", "d"), ("zero", [])]), ("alloc", "w0"), ("alloc", "w1"), ("alloc", "w2"),
                ("routine", ["w2"], SOLO, ["i0"], ["r"])], ["w1", "r"]),
}
