A = "crates/ragu_arithmetic/src/"
CO = "crates/ragu_core/src/"
PR = "crates/ragu_primitives/src/"
CI = "crates/ragu_circuits/src/"
PC = "crates/ragu_pcd/src/"
MA = "crates/ragu_macros/src/"
TRUST = "Trusts rustc's type checker and the value-numbering engine in an/; constructs it does not model are reported as undecided in the evidence, never as violations."

prop("C03", "Primitive gadgets enforce exactly their defining relation",
     "Every primitive gadget operation (booleans, field elements, curve points, endoscalars, bit packing, sums and folds, roots of unity) imposes on its wires exactly its mathematical relation: no satisfying assignment exists in which the result differs from the specified function of the inputs, and booleans, inverses, quotients, squares and point coordinates cannot be chosen freely by a prover. "
     "An honest assignment computed by the same operation satisfies every constraint, and every witness value carried by a returned gadget equals the value of its wire.",
     ["inputs"], "every input wire assignment, including those an adversarial prover chooses for internal wires",
     "Unit tests run honest assignments through a simulator, which cannot observe a missing constraint: an under-constrained gadget passes them all.",
     [PR + "boolean.rs", PR + "element.rs", PR + "point.rs", PR + "endoscalar.rs"],
     [("gates and linear constraints of each gadget", PR + "boolean.rs, element.rs, point.rs, endoscalar.rs"), ("default gate wrappers", CO + "drivers.rs")],
     "value-numbering dataflow to a polynomial normal form of each gadget's constraint system, compared with its defining relation",
     "All inputs, for the fixed instantiations of the iterating gadgets (lengths 0 to 4, two endoscalar bits at a time). " + TRUST)

prop("C01", "Runs without witnesses never evaluate witness closures",
     "In a run without witness data, no closure computing a witness value is ever evaluated and no placeholder is ever read; in a run with witness data each such closure is evaluated exactly when its value is needed and its failure is reported. "
     "Converting a possibly absent tuple or array of values splits it into exactly its components, in order.",
     ["inputs"], "every circuit, witness closure and representation of possibly absent data",
     "Tests run a few closures; a needless or missing evaluation only shows for closures that fail or panic.",
     [CO + "maybe/", CO + "drivers/", CI + "trace.rs"], [("possibly absent data", CO + "maybe"), ("driver allocation and gates", CO + "drivers/emulator.rs, " + CI + "metrics.rs, s/, trace.rs")],
     "dataflow over every operation of both representations, and over every driver's gate and allocation",
     "Casts are analysed at every tuple size and one array length. " + TRUST)
prop("C02", "The shape of a circuit never depends on witness values",
     "Witness values are read only inside computations that run solely when witnesses exist, and nothing computed there influences which gates, constraints or wires a circuit creates. "
     "The same circuit code therefore synthesises the same constraint system with and without witnesses, for every witness.",
     ["inputs"], "every circuit, gadget and witness",
     "A test sees the shape for a few honest witnesses; a shape that changes only for a special witness value is invisible to it.",
     [PR, CI, PC], [("witness closures", "all gadgets, circuits and steps")],
     "effect confinement: a fixpoint over the call graph of the typed syntax trees",
     "Reads in public code nothing calls are reported as undecided. " + TRUST)
prop("C08", "Failures are never silently dropped",
     "Whenever a fallible operation of the library fails while a circuit is synthesised, a trace or proof is computed, or a key is built, the failure reaches the caller: it is propagated, converted, or ends the program, and never replaced by a default, skipped or ignored.",
     ["inputs"], "every call of a fallible operation in the library, including deferred and parallel work",
     "Tests exercise few failing paths; a swallowed error produces a plausible but wrong result.",
     [CO, PR, CI, PC], [("fallible calls", "all crates")],
     "error-propagation analysis of every fallible call on the typed syntax trees, in both thread configurations",
     "Results stored in data structures are followed no further. " + TRUST)
prop("C12", "Polynomial routines over a field compute what defines them",
     "Evaluating coefficients, inner products, dividing by a linear factor, geometric sums and multiplying out a list of roots give what their definitions say, for every input of every length. "
     "A domain of each supported size has a generator of exactly that order, and says which values belong to it; its forward transform evaluates at the generator's powers in order, its inverse transform undoes that, whatever the number of threads, and its Lagrange values are those of the basis polynomials. "
     "What does not fit (unequal lengths, a wrong number of values, too large a domain) is refused.",
     ["inputs", "schedules"], "every vector of values, every supported size, every number of threads",
     "Tests sample sizes and values; the choice between two algorithms by the number of threads is not tested at all on one machine.",
     [A + "util.rs", A + "domain.rs", A + "fft.rs"],
     [("polynomial routines", A + "util.rs"), ("domains", A + "domain.rs"), ("butterflies", A + "fft.rs")],
     "value numbering of unrolled loops to polynomial normal form, with roots of unity modulo their order",
     "Lengths up to 9 and transforms up to size 32 stand for all; the 2-adicity is made small so that every supported size is analysed. Multi-exponentiation is not covered (C90). " + TRUST)
prop("C13", "Coefficients and linear combinations mean the same everywhere",
     "The arithmetic of compact coefficients equals field arithmetic for every pair of forms, and a linear combination built by a circuit means the same sum, with gains multiplying all later terms, under every interpreter of circuits.",
     ["inputs"], "every coefficient form and value, every nesting of gains and terms, every interpreter",
     "Tests use few of the form combinations, and never compare interpreters on nested gains.",
     [A + "coeff.rs", CO + "drivers/linexp.rs", CI + "s/"], [("coefficient arithmetic", A + "coeff.rs"), ("linear combinations", CO + "drivers/linexp.rs, " + CI + "s/common.rs, s/sy.rs")],
     "abstract interpretation by forms, with value numbering to polynomial normal form",
     "All pairs of forms; sequences of two terms under two gains stand for longer ones, by the compositional shape of the interface. " + TRUST)

prop("C04", "Gadget traversals visit every wire exactly once, in place",
     "Converting a gadget to another driver converts each of its wires exactly once and puts it in the same place, cloning it changes nothing, and equating two gadgets equates each wire with its counterpart. "
     "Serialising a gadget writes each of its serialised parts once in declared order, and enforcing its consistency covers every part that has a constraint of its own; derived implementations behave the same for every shape of structure.",
     ["inputs"], "every gadget of the library and every structure the derive macros accept",
     "Tests compare a few derived expansions with expected text and traverse few gadgets; a wire left out of an equality is invisible to honest runs.",
     [CO + "gadgets/", CO + "convert.rs", MA + "derive/", PR + "vec.rs", PR + "consistent.rs", PC + "internal/native/"],
     [("containers", CO + "gadgets/foreign.rs, " + PR + "vec.rs"), ("derive macros", MA + "derive"), ("hand-written traversals", PC + "internal/native")],
     "value numbering of every expanded traversal over an opaque gadget, including a witness crate of derived shapes",
     "Containers are unrolled at lengths 1 to 4; derive macros are judged on the library's uses and on the witness crate's shapes. " + TRUST)
prop("C29", "Rerandomizing keeps a proof's header; seeding starts from nothing",
     "Rerandomizing a proof yields one for the same header and data: its step's output header is the very wires of its left header, and its circuit does not depend on which header that is. "
     "Its other child is a proof of the trivial step, made from two trivial proofs. "
     "Seeding fuses by the given step, with the given witness, two trivial proofs of the unit header.",
     ["inputs"], "every header type, data and proof", "Tests rerandomize an honest proof; a header left free is only used by a dishonest prover.",
     [PC + "lib.rs", PC + "step/internal/rerandomize.rs", PC + "step/internal/trivial.rs"],
     [("rerandomize, seed", PC + "lib.rs"), ("step", PC + "step/internal/rerandomize.rs")],
     "value numbering of the step for every length of data, and of both functions with fusing abstract",
     "Headers of 2, 3 and 5 elements stand for all. Whether rerandomizing hides the proof it starts from is not claimed: it is no matter of one execution. " + TRUST)
prop("C33", "Macro-written constants and kinds denote what is written",
     "An integer literal given to the library's literal and field-element macros denotes exactly the written integer, at every size up to 256 bits and in every base, and a larger one is rejected at compile time. "
     "The kind named by the kind macro is the kind of the written gadget type.",
     ["inputs"], "every literal and every gadget type",
     "Tests expand four literals; a wrong limb order or a dropped word shows only for particular limb patterns.",
     [MA + "proc/", MA + "substitution.rs", "crates/ragu_pasta/src/macros.rs"], [("literals", MA + "proc/repr.rs"), ("kinds", MA + "proc/kind.rs, substitution.rs")],
     "type-level and constant-evaluation witnesses, with compile-fail twins",
     "Judged by the compiler on the witness crate's literals and types. " + TRUST)

prop("C11", "Fixed-length vectors always hold exactly their declared length",
     "Every fixed-length vector that can be obtained through the public interface holds exactly its declared number of elements, in the order in which they were given, and no operation offered on it changes their number. "
     "Constructing one from a collection of any other length fails with an error naming the expected and the actual length, and constructing one by index calls the initializer exactly once per index, in order.",
     ["inputs"], "every length, element type and way of constructing a vector",
     "Tests construct vectors of a few lengths by the documented routes; a route that forgets the length or reorders shows only for others.",
     [PR + "vec.rs"], [("construction and access", PR + "vec.rs")],
     "value numbering over sequences of known length, with an ownership and escape analysis of the representation",
     "Lengths 0 to 4 stand for all lengths. " + TRUST)

prop("C05", "The three evaluations of a wiring polynomial agree",
     "For every circuit, evaluating its wiring polynomial at both points, restricting it at one point, and restricting it at the other give the same polynomial, also where a point is zero, and that polynomial places every gate and constraint where the circuit's layout documents it. "
     "Evaluating with a placement plan that disagrees with the circuit's actual gates or constraints aborts instead of yielding a polynomial.",
     ["inputs"], "every circuit (derived wires, nested calls, gains, paired allocations), placement and pair of points",
     "Tests compare the evaluations on a few small circuits at random points; agreement can fail only for a particular nesting or sharing of derived wires.",
     [CI + "s/sxy.rs", CI + "s/sx.rs", CI + "s/sy.rs", CI + "s/common.rs", CI + "raw.rs"], [("the three evaluators", CI + "s/"), ("the shared synthesis sequence", CI + "raw.rs")],
     "composition of the evaluators' driver operations by value numbering along circuits that exercise every operation, compared as polynomials",
     "Eight circuits covering all driver operations and their interactions, over all coefficients, points and witness values; other circuits only through the operations they share. " + TRUST)

prop("C06", "Recorded circuit metrics are what the circuit creates",
     "For every circuit, the metrics record per sub-circuit call exactly the gates and constraints that call creates, in order of entry, with the right totals, output count and degree, and the placement plan lays the calls out one after another without gap or overlap. "
     "The structural identity recorded for a sub-circuit is the same wherever it is called from and whatever wires it is given, and different whenever its gates, constraints, coefficients or shape differ.",
     ["inputs"], "every circuit, nesting of calls and context of a call",
     "Tests count a few circuits and compare a few identities; a counter restored wrongly after a nested call shows only for particular nestings.",
     [CI + "metrics.rs", CI + "floor_planner.rs"], [("counting", CI + "metrics.rs"), ("placement", CI + "floor_planner.rs")],
     "composition of the counter's driver operations by value numbering along circuits that exercise every operation",
     "Identity hashes are opaque; nine circuits covering all driver operations. " + TRUST)
prop("C07", "What exceeds a capacity is rejected, and what fits is accepted",
     "A circuit is accepted for registration exactly when its gates and constraints fit the rank's capacity, one constraint slot being reserved for the registry key; a stage mask, the values of a stage and a registry are accepted exactly when they fit theirs. "
     "Whatever does not fit is rejected with the error naming the exceeded limit, never by aborting or dropping the excess.",
     ["inputs"], "every circuit, stage, trace and registry at or around its limit",
     "Tests use circuits far below the limits; an off-by-one limit only shows at exactly the last or first position beyond.",
     [CI + "lib.rs", CI + "registry.rs", CI + "trace.rs", CI + "staging/"],
     [("limit checks", CI + "lib.rs, registry.rs, trace.rs, staging/mask.rs, staging/mod.rs, staging/builder.rs")],
     "value numbering of each limit check at, below and beyond the limit",
     "Judged at ranks of 4, 8 and 16 gates. " + TRUST)
prop("C09", "Routine calls predict once, hand the prediction on, and agree with it",
     "In every interpreter, each call of a routine asks it for its prediction exactly once, on the input of the call, and its execution, wherever it takes place, happens exactly once and receives exactly the predicted data; a failing prediction fails the call. "
     "Only an interpreter that tracks no wires takes a predicted output in place of executing, and a routine's predicted output equals what executing it yields.",
     ["inputs"], "every interpreter, routine, nesting of calls and mixture of predictions",
     "Tests call few routines under few interpreters, and every library routine but one never predicts an output.",
     [CO + "drivers.rs", CO + "drivers/emulator.rs", CO + "routines.rs", CI + "trace.rs", CI + "metrics.rs", CI + "s/", CI + "polynomials/txz.rs"],
     [("routine operation of every interpreter", CO + "drivers.rs, drivers/emulator.rs, " + CI + "s/, metrics.rs, trace.rs, " + PR + "simulator.rs"), ("predicting routine", CI + "polynomials/txz.rs")],
     "composition of every interpreter's routine operation by value numbering along circuits that call routines",
     "The predicting routine is compared at ranks of 2, 4 and 8 gates. " + TRUST)
prop("C10", "A trace holds each witness value at its gate's place",
     "The trace computed for a circuit and a witness assigns every gate exactly the values the circuit gave it, in the place the floor plan assigns to that gate, whichever sub-circuit calls have predicted outputs, however deferred work is scheduled, and in threaded and serial builds alike. "
     "A failure anywhere in the circuit, deferred or not, makes the trace fail instead of being lost.",
     ["inputs", "schedules"], "every circuit, mixture of predictions and order of deferred tasks",
     "Tests trace a few circuits on one schedule; misplacement needs a particular nesting, prediction or arrival order.",
     [CI + "trace.rs"], [("evaluation and deferral", CI + "trace.rs"), ("assembly", CI + "trace.rs")],
     "composition of the tracer's driver operations by value numbering along circuits that exercise every operation, in both build configurations",
     "Nine circuits, six prediction mixtures, three task orders; a rank of 16 gates. " + TRUST)

prop("C34", "The simulator accepts exactly the satisfying assignments",
     "The checking simulator accepts a run exactly when every gate and every linear constraint holds of the assigned values, and counts exactly the gates, allocations and constraints made; the value-tracking emulator accepts every run. "
     "In both, every wire carries the value the circuit gives it.",
     ["inputs"], "every circuit and witness",
     "Tests simulate a few honest and a few wrong witnesses; a check weakened for particular values is invisible to them, and every other test trusts the simulator.",
     [PR + "simulator.rs", CO + "drivers/emulator.rs", CO + "drivers.rs", CO + "drivers/linexp.rs"],
     [("simulator operations", PR + "simulator.rs"), ("emulator operations", CO + "drivers/emulator.rs")],
     "composition of the interpreters' operations by value numbering, with their failure conditions as polynomials",
     "Eleven circuits covering all driver operations. " + TRUST)
prop("C16", "Acceptance of a proof means that every one of its checks passed",
     "The verifier accepts a proof only if, for both curves, every claim about its polynomials holds: the folded claim, the application circuit's and every internal circuit's and stage's claim with the public values that the proof and its headers determine, the evaluation and commitment claims of the accumulated polynomial and the wiring polynomial claimed for the registry. "
     "A proof whose circuit is not registered or whose child headers have the wrong length is rejected, and no claim is checked against another's polynomial, challenge or public value.",
     ["inputs"], "every proof, carried data and registry",
     "Tests verify a few honest proofs and hardly any forged ones; a verifier that lost one of its checks accepts every honest proof.",
     [PC + "verify.rs", PC + "internal/native/claims.rs", PC + "internal/nested/claims.rs", PC + "internal/claims.rs", PC + "internal/native/unified.rs", PC + "proof/mod.rs"],
     [("verification", PC + "verify.rs"), ("claim tables", PC + "internal/native/claims.rs, internal/nested/claims.rs"), ("public values", PC + "internal/native/unified.rs, circuits/hashes_1.rs")],
     "value numbering of the verifier to the conjunction it returns, compared claim by claim with the protocol",
     "A header size of 4 stands for all. Polynomial operations and registry queries are taken at their word. " + TRUST)
prop("C14", "The sponge hashes exactly what it absorbed, as Poseidon does",
     "For every sequence of absorptions and squeezes, the values a sponge gives are those of a duplex sponge over the permutation: every absorbed value enters once and in order, before anything squeezed later, and no squeezed value is given twice. "
     "A sponge that is saved and resumed goes on as an uninterrupted one would. "
     "The permutation has Poseidon's rounds in order, with the round constants and mixing matrix that the standard generator gives for each field.",
     ["inputs", "histories"], "every sequence of absorptions, squeezes and savings, at every rate; every round of the permutation over either field",
     "Tests sample a few sequences and compare a circuit with itself; a value forgotten at a block's boundary, or a wrong late constant, agrees with itself.",
     [PR + "poseidon.rs", "crates/ragu_pasta/src/poseidon_fp.rs", "crates/ragu_pasta/src/poseidon_fq.rs"],
     [("the sponge and the permutation as a circuit", PR + "poseidon.rs"), ("constants", "crates/ragu_pasta/src/poseidon_fp.rs, poseidon_fq.rs")],
     "value numbering of composed operation sequences against a reference sponge; comparison of typed constants with the standard generator",
     "Sequences up to six operations (and some longer) at rates 1, 2 and 4 stand for all: the state's shape repeats by then. Poseidon's cryptographic strength is assumed. " + TRUST)
prop("C15", "Every challenge is bound to all the messages sent before it",
     "When two proofs are fused, each challenge of the new proof is drawn from a transcript that starts from the protocol's tag and has absorbed the commitment of every earlier round, and each round's commitment covers everything the prover sent in that round, the children's public values and commitments included. "
     "The circuits proved alongside derive the same challenges from the same transcript over the commitments in their own public values, and a transcript that one circuit hands to another is forced to be the one that was saved, so that no prover can pick a message after seeing a challenge it should precede.",
     ["inputs"], "every pair of proofs, step and prover", "Tests fuse honest proofs; a challenge drawn too early or a commitment left out is invisible to them as long as prover and circuit agree.",
     [PC + "fuse/mod.rs", PC + "internal/transcript.rs", PC + "internal/native/circuits/hashes_1.rs", PC + "internal/native/circuits/hashes_2.rs", PC + "internal/nested/stages/mod.rs", PC + "internal/native/stages/preamble.rs"],
     [("prover's transcript", PC + "fuse/mod.rs"), ("transcript in circuits", PC + "internal/native/circuits/hashes_1.rs, hashes_2.rs"), ("bridge stages", PC + "internal/nested/stages")],
     "value numbering of the prover and of the circuits it proves on the prover's own witnesses; transcripts compared as sequences of absorbed values",
     "The sponge is taken to be collision resistant; soundness of Fiat–Shamir itself is not at issue. A header size of 4 stands for all. " + TRUST)
prop("C17", "The registry holds every circuit at the point of its index",
     "A registry is one polynomial whose restriction at the point of an index is the wiring polynomial of the circuit of that index plus a term of the registry's key: all ways of restricting it (to one index or any point, in one variable or all) agree, at zero and at unused points too. "
     "Indexes are given by kind (internal circuits, bonding circuits, internal steps, application steps), then by order of registration, and a trace is assembled by the floor plan of its own circuit. "
     "The key depends on evaluations at points that depend on earlier ones, and more circuits than fit are refused.",
     ["inputs"], "every sequence of registrations, point and index", "Tests evaluate one or two registries at random points; a wrong term shows only for some numbers and kinds of circuits, or at particular points.",
     [CI + "registry.rs"],
     [("registration, restrictions, key", CI + "registry.rs")],
     "value numbering of registration and of every restriction with circuits abstract and roots of unity as exponents, compared as polynomials",
     "Registries of up to 8 circuits and polynomials of 8 coefficients stand for all. Lookup keys are taken to be different for different points. " + TRUST)
prop("C18", "Steps register in order, and no two headers share a suffix",
     "Registering a step succeeds only if its index is the number of steps registered before it and each suffix of its headers belongs, among all headers of all steps registered so far, to one header type only; "
     "otherwise it is refused with an error. "
     "A registered step adds its own circuit to the application's steps and nothing else, and the numbers of different suffixes are different.",
     ["inputs", "histories"], "every sequence of registrations, every index and every assignment of suffixes to headers",
     "Tests register a handful of steps; a missed comparison shows only for particular headers in particular positions.",
     [PC + "lib.rs", PC + "step/mod.rs", PC + "header.rs"],
     [("registration", PC + "lib.rs"), ("indexes", PC + "step/mod.rs"), ("suffixes", PC + "header.rs")],
     "value numbering of one registration with the map of suffixes abstract, for every pattern of equal and different headers and suffixes",
     "Registration of a step by induction on the history; suffixes near the largest machine word are left out. " + TRUST)
prop("C19", "A proof's headers are its data, padded, then the header's suffix",
     "Encoding a header gives the elements of its data in order, then zeros, then the number of its suffix, as many in all as the header's size, and fails for data that leaves no room for the suffix. "
     "The uniform encoding gives the same values through one fresh wire each and nothing else, so that the circuit does not depend on the header. "
     "A step's circuit outputs its left, right and output headers in this order, and the proof records the first two and hands on the output's data and the step's auxiliary data.",
     ["inputs"], "every header type, its data and the size of headers", "Tests encode a few headers; a wrong element shows only for data of a particular length or suffixes of a particular size.",
     [PC + "step/encoder.rs", PC + "step/internal/padded.rs", PC + "step/internal/adapter.rs", PC + "fuse/_01_application.rs"],
     [("encoding", PC + "step/encoder.rs"), ("padding", PC + "step/internal/padded.rs"), ("step circuits", PC + "step/internal/adapter.rs"), ("application", PC + "fuse/_01_application.rs")],
     "value numbering of both encodings, of a step's circuit and of the prover, compared element by element",
     "Headers of 1 to 6 elements with data of every length up to the size stand for all. " + TRUST)
prop("C20", "A stage's values lie where circuits read them, and nowhere else",
     "The polynomial committed for a stage holds the stage's values, in order, on exactly the gates that every circuit built on the stage reserves for it: right after the gates of the stages before, whatever their sizes. "
     "A circuit leaves those gates empty in its own trace and reads them in the same order, holding them to the gadget's invariants when it is asked to. "
     "A stage's mask forbids every wire outside of its gates, and the last stage's mask every wire before the circuit's own, each independently of the others.",
     ["inputs"], "every stage, parent chain, size and value", "Tests run a few stages; one whose size is odd or which ends a trace shifts values by a gate unseen.",
     [CI + "staging/mod.rs", CI + "staging/builder.rs", CI + "staging/mask.rs"],
     [("polynomial", CI + "staging/mod.rs"), ("reservation", CI + "staging/builder.rs"), ("masks", CI + "staging/mask.rs")],
     "value numbering of the stage polynomial, the reservation and the masks for every small stage, compared wire by wire",
     "Stages of up to 5 values after up to 4 gates, and masks of 4 and 8 gates, stand for all. " + TRUST)
prop("C21", "A bonding object is wiring alone, with no constant one",
     "A staged circuit becomes a bonding object only if its synthesis uses no gate, no constant and not the constant one, in whatever combination with wires, sums and constraints; one that uses only those is accepted. "
     "The object's three evaluations are those of the circuit with exactly the constant one's constraint removed, so that they vanish where the second variable is zero. "
     "No other bonding object can be made, but for the masks of stages.",
     ["inputs"], "every circuit, sequence of operations and point", "Tests convert five tiny circuits with one operation each; a check that looks at the last term, or forgets, passes them.",
     [CI + "staging/bonding.rs", CI + "lib.rs", CI + "staging/mod.rs"],
     [("validation", CI + "staging/bonding.rs"), ("constant one removed", CI + "staging/bonding.rs"), ("constructions", CI + "lib.rs")],
     "value numbering of the validating interpreter along circuits with every operation in every position; provenance of every construction",
     "Circuits of up to a dozen operations stand for all. " + TRUST)
prop("C22", "Polynomials are laid out by wire and gate, and operations keep coefficients",
     "A polynomial built from a list of coefficients, or from either view of a circuit's wires, has each of them at its own degree whatever pattern of zeros they make, and nothing else; what does not fit is refused. "
     "Adding, subtracting, negating, scaling, dilating, folding, evaluating, enumerating from either end, committing, and multiplying by a reversed polynomial give what the full list of coefficients gives, in any sequence. "
     "The gates' polynomial restricted to a point in either or both variables is the restriction of one polynomial, which vanishes where a variable is zero.",
     ["inputs"], "every polynomial, pattern of zeros and sequence of operations", "Tests compare random or full polynomials; runs of coefficients that touch, chain or cancel are rare among them.",
     [CI + "polynomials/mod.rs", CI + "polynomials/sparse/mod.rs", CI + "polynomials/sparse/view.rs", CI + "polynomials/txz.rs"],
     [("layout", CI + "polynomials/sparse/view.rs"), ("operations", CI + "polynomials/sparse/mod.rs"), ("gates' polynomial", CI + "polynomials/mod.rs")],
     "value numbering of every operation over patterns of named and zero coefficients, compared with the list of coefficients",
     "Polynomials of 16 coefficients stand for those of every size. " + TRUST)
prop("C23", "Every claim about both children is folded into the proof's claim",
     "When two proofs are fused, everything verification would check about each child by a product of polynomials (its folded claim, its application circuit, its internal circuits, and the masks that keep its stages to their positions) goes into the new proof's folded polynomials, under pairwise distinct weights in challenges drawn after the polynomials are fixed. "
     "The circuits force the new claim to be the same combination of what the children's public inputs make those products, with an error term, committed before the challenges, for every product that is not a claim and no other freedom. "
     "The commitment to the folded polynomial combines the commitments as the polynomial combines the polynomials.",
     ["inputs"], "every pair of children and every prover", "Tests fuse honest proofs, for which a claim that is left out, weighed twice or freed from its constraint still adds up.",
     [PC + "fuse/_04_inner_error.rs", PC + "fuse/_05_outer_error.rs", PC + "fuse/_06_ab.rs", PC + "fuse/claims.rs", PC + "internal/claims.rs", PC + "internal/native/claims.rs", PC + "internal/fold_revdot.rs", PC + "internal/native/circuits/inner_collapse.rs", PC + "internal/native/circuits/outer_collapse.rs"],
     [("claims", PC + "internal/native/claims.rs"), ("folding", PC + "internal/fold_revdot.rs"), ("constraints", PC + "internal/native/circuits/outer_collapse.rs")],
     "linear forms of the prover's polynomials, and the polynomials the circuits enforce, compared coefficient by coefficient",
     "The rest of the prover is C15's and C24's, public inputs are C25's, what a single proof's claims are is C16's. " + TRUST)
prop("C24", "Every evaluation used for folding is opened from its commitment",
     "The evaluation a fused proof carries combines, each under its own power of the batching challenges, the committed polynomials at the challenge point and a quotient for every value claimed of one of them, and the prover's polynomial, its commitment and its quotients combine the same polynomials under the same powers. "
     "Among the claimed values are each child's evaluation, the links that tie each child's registry polynomial to the new one, and every child polynomial that the folded polynomials are made of. "
     "The folded polynomials' own values are not the prover's word but are computed from those, exactly as the prover folds.",
     ["inputs"], "every pair of children, every challenge and every prover", "Tests fuse honest proofs; an opening dropped on both sides, two that share a power, or a value taken from the prover leaves every honest proof valid.",
     [PC + "internal/native/circuits/compute_v.rs", PC + "fuse/_08_f.rs", PC + "fuse/_10_p.rs", PC + "internal/native/stages/eval.rs", PC + "internal/native/stages/query.rs"],
     [("openings", PC + "internal/native/circuits/compute_v.rs"), ("quotients", PC + "fuse/_08_f.rs"), ("combination", PC + "fuse/_10_p.rs")],
     "value numbering of the circuit and of the prover; the evaluation expanded into its openings and compared with the prover's polynomials term by term",
     "The folding is C23's and the instances are C25's. " + TRUST)
prop("C25", "Internal circuits see the children's public inputs as the verifier does",
     "The circuits proved alongside a fused proof all expose one and the same instance, the challenges, commitments and values recorded in that proof. "
     "They force, whatever the prover supplies, the value of each child's three public-input polynomials to be the one the verifier would compute from that child's headers and instance, each checked on its own, and each child's circuit identifier to be a root of unity of the registry's order. "
     "The headers they expose are those of the fused proof's two children.",
     ["inputs"], "every pair of children, step and prover", "Tests fuse honest proofs only; a constraint that is missing, merged with another or on the wrong child accepts all of them.",
     [PC + "internal/native/circuits/hashes_1.rs", PC + "internal/native/stages/preamble.rs", PC + "internal/native/unified.rs", PC + "internal/native/stages/outer_error.rs", PC + "fuse/_11_circuits.rs", PC + "fuse/_02_preamble.rs"],
     [("public-input polynomials", PC + "internal/native/stages/preamble.rs"), ("constraints", PC + "internal/native/circuits/hashes_1.rs"), ("instance", PC + "internal/native/unified.rs")],
     "value numbering of the circuits over the wires of their stages; the enforced polynomials compared with the verifier's",
     "A header size of 4 stands for all. What the verifier evaluates is C16's; what the challenges are drawn from is C15's. " + TRUST)
prop("C26", "Only steps from nothing leave the folded claim free",
     "The circuits force the folded claim of a proof unless both children carry the unit header, told by the suffix of their output headers. "
     "No header of an application has the unit header's suffix.",
     ["inputs"], "every pair of children and every prover", "Tests fuse honest proofs, whose claims hold whether or not they are forced.",
     [PC + "internal/native/circuits/outer_collapse.rs", PC + "internal/native/stages/preamble.rs", PC + "header.rs"],
     [("condition", PC + "internal/native/stages/preamble.rs"), ("constraint", PC + "internal/native/circuits/outer_collapse.rs"), ("suffixes", PC + "header.rs")],
     "value numbering of the circuits; the factor on the claim's constraint compared with the two tests of the children's suffixes",
     "The claim itself is C23's; what a header's suffix is appended to is C19's." + " " + TRUST)
prop("C27", "Each claim names the circuit or mask it is about",
     "In every application, whatever its number of steps, the index that a claim names holds in the registry the very circuit the prover traces for that claim, or the mask of the stage whose polynomial it is about; "
     "for a circuit's own trace, that of the stages it reads. "
     "The index of a step is where that step was registered, and nothing else is registered.",
     ["inputs", "histories"], "every number of application steps and every internal circuit, mask and step",
     "Tests register applications of few sizes, and a mask that allows too much accepts every honest proof.",
     [PC + "lib.rs", PC + "internal/native/mod.rs", PC + "internal/nested/mod.rs", PC + "step/mod.rs", CI + "registry.rs"],
     [("native", PC + "internal/native/mod.rs"), ("nested", PC + "internal/nested/mod.rs"), ("order of the registry", CI + "registry.rs"), ("steps", PC + "step/mod.rs")],
     "value numbering of registration and of the prover; comparison of what is registered at each index with what is traced, assembled and claimed there",
     "Numbers of steps are those listed in the rule. That the claims are the right ones is C16's and C23's. " + TRUST)
prop("C28", "Everything a prover commits to is freshly blinded",
     "Every stage polynomial and every circuit trace of a fused proof carries a blinding value drawn from the caller's random source for it alone, which appears nowhere else in the proof, its transcript or its other polynomials. "
     "None of them is taken over from a child.",
     ["inputs", "histories"], "every proof and every random source", "Tests check that proofs verify, which they do whatever blinds them.",
     [PC + "fuse/mod.rs", CI + "registry.rs"],
     [("stages", PC + "fuse/mod.rs"), ("traces", CI + "registry.rs")],
     "value numbering of the prover with every random draw a term of its own; provenance of each blinding value",
     "That the blinding value is on a wire of its own is C10's and C20's. " + TRUST)
prop("C90", "Multi-exponentiation computes the sum of the scaled points",
     "Multi-scalar multiplication equals the sum of the scaled points, at every size and thread count.",
     ["inputs", "schedules"], "every vector and every split across threads", "Tests sample a few sizes.",
     [A + "util.rs"], [("bucket method", A + "util.rs")],
     na="Correctness is an identity about the bits of runtime scalars (windows cut out of byte representations, buckets chosen by their values); no static argument within this family's reach establishes it, and a per-shape pattern would judge spelling.")
prop("C91", "Honest proofs always verify",
     "For every application, every tree of honest steps and every randomness, the proof obtained by composing steps is accepted by verification.",
     ["inputs", "histories"], "every application, step sequence and randomness", "Tests compose a few fixed trees.",
     [PC + "fuse/mod.rs", PC + "verify.rs"], [("fuse", PC + "fuse/mod.rs"), ("verify", PC + "verify.rs")],
     na="End-to-end completeness quantifies over the values of polynomials and transcripts; only its structural ingredients (ordering, agreement of siblings, wiring) are decidable from the source, and these are separate properties here.")
prop("C92", "Accepted proofs imply knowledge of a valid history, and reveal nothing more",
     "No efficient prover makes verification accept data that no valid sequence of steps produces, and proofs leak nothing about witnesses.",
     ["inputs"], "every efficient adversary", "Tests cannot quantify over adversaries.",
     [PC + "verify.rs", PC + "fuse/mod.rs"], [("verification equations", PC + "verify.rs")],
     na="A cryptographic reduction, not a property of program text; its structural preconditions (constraints, transcript order, fresh blinding) are separate properties here.")
