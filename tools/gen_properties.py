#!/usr/bin/env python3
# Writes /verif/properties.jsonl (the single source of the property texts).
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=state or [],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe or ["result of verify(proof)"],
            hook_needed=hook)))

HOOK = "cfg(zok_verif): re-export of the crate-private proof system entry points (TurboPlonk, TPProof, MockProver)"

p("C01", "Honest proofs of true statements are accepted",
  "For every well-formed system (any domain size, any mix of gates over rotated witness/instance/fixed columns, copy constraints over any number of columns, single- and multi-column lookups, full or row-reduced vanishing polynomial) and every assignment that satisfies it, indexing succeeds, proving returns a proof without error or panic, and verification accepts that proof.",
  ["inputs", "programs", "configurations"],
  "every constraint system in the supported domain x every satisfying assignment x every prover randomness, for any homomorphic commitment scheme",
  "The 18 tests fix about ten hand-written circuits, one or two gates each, positive rotations, at most 11 copied columns; no test varies shape, rotation sign, vanishing polynomial, label order or combination of features.",
  ["src/turbo_plonk.rs", "src/indexer.rs", "src/piop/prover.rs", "src/piop/verifier.rs", "src/lookup", "src/permutation", "src/multiproof", "src/oracles"],
  [("prove/verify follow the same transcript and order of oracles", "src/turbo_plonk.rs"), ("quotient domain chosen from the degree of the constraints", "src/indexer.rs"), ("coset evaluation of rotated queries", "src/oracles/traits.rs")],
  hook=HOOK)

p("C02", "An assignment violating a gate is never accepted",
  "If the committed witness, the public inputs and the fixed columns make any gate non-zero on any row where the vanishing polynomial requires it to vanish, then no proof built over that assignment is accepted, even by a prover that departs from the honest algorithm (omits gates from the quotient, drops the remainder, or makes violations of several gates cancel each other).",
  ["inputs", "programs", "fault_sequences"],
  "every gate set, every violated (gate,row) subset including sets of violations that sum to zero, every quotient-forging strategy in the harness's adversary",
  "No test in the suite ever asks the verifier to reject anything: all 18 are positive.",
  ["src/turbo_plonk.rs", "src/piop/prover.rs"],
  [("verifier recombines all gates at the evaluation point with distinct powers of alpha", "src/turbo_plonk.rs verify"), ("quotient identity check", "src/turbo_plonk.rs verify")],
  hook=HOOK)

p("C03", "An assignment violating a copy constraint is never accepted",
  "If two cells (usable rows of permuted columns) that the permutation puts in one cycle hold different values, no proof is accepted, including proofs by an adversarial prover that breaks exactly one part of the argument (start value, any chunk's product step at any usable row, the hand-over between chunks, or the final value) and keeps every other part valid.",
  ["inputs", "programs", "fault_sequences"],
  "every permutation over any number of columns (one to several chunks), every violated cell, every single dropped sub-constraint",
  "Tests only run honest assignments through the permutation argument and check divisibility; nothing checks that each sub-constraint is enforced by the verifier.",
  ["src/permutation/mod.rs", "src/permutation/grand_product.rs", "src/turbo_plonk.rs"],
  [("grand product chunks, stitches, first and last constraints", "src/permutation/mod.rs"), ("separate power of alpha per sub-constraint", "src/turbo_plonk.rs")],
  hook=HOOK)

p("C04", "A looked-up tuple outside its table is never accepted",
  "If on any usable row the tuple of lookup expression values is not a row of the corresponding table (restricted to usable rows), no proof is accepted, including proofs by an adversarial prover that breaks exactly one part of the lookup argument (multiset product start, step or end, first-row equality, or the sorted-adjacency rule) or that mixes columns of different table rows.",
  ["inputs", "programs", "fault_sequences"],
  "every lookup (1..3 columns, several lookups per system), every violated row, every single dropped sub-constraint, mixed-row tuples",
  "Tests only use honest lookups over one fixed table with rotation-free witness columns.",
  ["src/lookup/mod.rs", "src/lookup/subset_equality.rs", "src/lookup/permute.rs", "src/turbo_plonk.rs"],
  [("theta-compressed expressions and table", "src/lookup/mod.rs"), ("subset equality and adjacency constraints", "src/lookup/subset_equality.rs, src/lookup/mod.rs")],
  hook=HOOK)

p("C05", "A proof is accepted only for the statement it was made for",
  "A proof accepted for one statement is rejected when verified against any other: different public inputs (even ones chosen after seeing the proof, to agree with it at the challenge point), different fixed, permutation or table commitments, a different set or order of gates, a different vanishing polynomial, permutation separators, usable-row count or domain size.",
  ["inputs", "fault_sequences"],
  "every accepted (statement, proof) x every single change of one statement component, including changes adapted to the proof",
  "Every test verifies with exactly the statement used for proving.",
  ["src/turbo_plonk.rs", "src/data_structures.rs", "src/multiproof/piop/mod.rs"],
  [("public inputs enter the transcript and the constraint evaluation", "src/turbo_plonk.rs"), ("preprocessed commitments are opened together with the witness", "src/turbo_plonk.rs verify")],
  hook=HOOK)

p("C06", "Changing any part of an accepted proof makes it rejected",
  "Replacing any one commitment, claimed evaluation or opening datum of an accepted proof by a different value, swapping two of them, or splicing in the same component of another accepted proof of the same statement, yields a proof that is rejected.",
  ["inputs", "fault_sequences"],
  "every accepted proof x every component position x every kind of single-component change, including changes adapted to the verifier's challenges",
  "No test mutates a proof.",
  ["src/turbo_plonk.rs", "src/multiproof/piop/mod.rs"],
  [("all claimed evaluations are checked against commitments by the batched opening", "src/multiproof/piop/mod.rs"), ("transcript absorbs every prover message", "src/turbo_plonk.rs")],
  hook=HOOK)

p("C07", "Every challenge depends on everything sent before it",
  "Each verifier challenge (lookup compression, permutation, constraint separation, evaluation point, and the four batched-opening challenges) changes whenever the protocol name, the public inputs or any prover message sent before it changes, prover and verifier derive identical challenges, and no message fixed after a challenge can influence it.",
  ["inputs", "histories", "fault_sequences"],
  "every accepted proof x every message position x every later challenge",
  "The transcript is invisible to positive tests: dropping an absorb on both sides keeps all of them green.",
  ["src/turbo_plonk.rs", "src/piop/verifier.rs", "src/multiproof/piop/mod.rs", "src/multiproof/piop/verifier.rs", "src/rng.rs"],
  [("absorb before squeeze at every round", "src/turbo_plonk.rs, src/multiproof/piop/mod.rs")],
  observe=["challenges drawn by the Fiat-Shamir generator during prove and verify", "result of verify"],
  hook=HOOK)

p("C08", "Verification never panics, whatever proof it is given",
  "For every value of the proof type, including ones decoded from attacker-supplied bytes with any vector lengths and any group or field elements, verification returns Ok or Err and terminates; it never panics and never accepts a proof whose shape differs from that of honest proofs for the key.",
  ["inputs", "fault_sequences"],
  "every system in the supported domain x every resize, truncation, duplication or reordering of proof vectors, zero/identity elements, and byte-level mutations that still decode",
  "Tests only feed proofs produced by the prover.",
  ["src/turbo_plonk.rs", "src/multiproof/piop/mod.rs", "src/error.rs"],
  [("shape checks before any indexing", "src/turbo_plonk.rs verify"), ("error variants", "src/error.rs")],
  observe=["return value or panic of verify"],
  hook=HOOK)

p("C09", "Proofs survive serialization unchanged",
  "Serializing any proof (compressed or uncompressed) and deserializing it gives back the same proof with the same verification result and the same bytes, the announced size is the written size, and no strict prefix of the bytes decodes to a proof; decoding arbitrary bytes never panics.",
  ["inputs"],
  "every proof shape (with and without lookups, copies, several chunks), every prefix, random byte mutations",
  "No test serializes a proof.",
  ["src/turbo_plonk.rs", "src/multiproof/mod.rs", "src/mock_prover.rs"],
  [("derived canonical serialization of every proof field", "src/turbo_plonk.rs TPProof, src/multiproof/mod.rs Proof")],
  observe=["bytes written, decoded proof, result of verify"],
  hook=HOOK)

p("C10", "The batched opening proves exactly the claimed evaluations",
  "For any set of committed polynomials, each with any set of rotations, the batched opening argument accepts the true evaluations and rejects every claim in which at least one evaluation or commitment is wrong, even when wrong claims are correlated so as to cancel within a rotation set, across rotation sets, or against the intermediate evaluations, and when intermediate values are omitted, added or chosen adaptively.",
  ["inputs", "programs", "fault_sequences"],
  "every grouping of polynomials by rotation set x every false claim pattern in the harness's adversary",
  "One positive test with a fixed set of polynomials.",
  ["src/multiproof/piop/mod.rs", "src/multiproof/piop/prover.rs", "src/multiproof/piop/verifier.rs", "src/multiproof/poly.rs"],
  [("random linear combination within and across rotation sets, final opening at a fresh point", "src/multiproof/piop/mod.rs"), ("vanishing and Lagrange polynomials of the opening points", "src/multiproof/poly.rs")],
  observe=["result of Multiopen::verify"])

p("C11", "Commitment arithmetic matches polynomial arithmetic",
  "Sums, scalar multiples, negations and multi-scalar combinations of commitments and of their randomness are the commitment and randomness of the same combination of polynomials: they compare equal to it and opening the combination verifies at every point with the combined value and with no other; the zero commitment is neutral and equality distinguishes different commitments.",
  ["inputs"],
  "all polynomials, scalars (including 0, 1, -1), combination sizes (including empty), hiding or not",
  "A single fixed two-polynomial example.",
  ["src/commitment.rs"],
  [("HomomorphicCommitment for the KZG scheme", "src/commitment.rs")],
  observe=["commitment equality, PC::check"])

p("C12", "A rotated query means the same row shift everywhere",
  "For every oracle, rotation (either sign, any degree below the domain size) and position, querying on the original domain, on the extended coset, at a challenge point and through the query set all agree with evaluating the oracle's polynomial at the point multiplied by the corresponding power of the domain generator; the verifier-side oracle answers only registered points and reports an error for any other.",
  ["inputs", "configurations"],
  "every polynomial, domain size, extension factor, index, rotation degree and sign",
  "Negative rotations are marked 'TODO: test' in the code; tests use degree 0 and 1 only.",
  ["src/oracles/traits.rs", "src/oracles/rotation.rs", "src/oracles/witness.rs", "src/oracles/fixed.rs", "src/oracles/instance.rs", "src/piop/verifier.rs"],
  [("index arithmetic of rotated queries", "src/oracles/traits.rs"), ("evaluation point of a rotation", "src/oracles/rotation.rs")],
  observe=["values returned by the oracle query functions"])

p("C13", "Expressions keep their meaning from definition to evaluation",
  "An expression built with any combination of the public constructors and operators, turned into a concrete expression against any set of columns, evaluates to the value of the formula it denotes for every assignment and in every interpretation, registers exactly the queries declared for the columns, and its computed degree is an upper bound on the real degree that is exact for its product structure.",
  ["inputs", "programs"],
  "all expression trees over all operators, all column sets with arbitrary labels, all assignments",
  "Tests evaluate only the shipped gates.",
  ["src/vo/expression.rs", "src/vo/virtual_expression.rs", "src/vo/generic_vo.rs", "src/vo/generic_lookup_vo.rs", "src/vo/query.rs"],
  [("recursive evaluation and conversion", "src/vo/expression.rs, src/vo/virtual_expression.rs"), ("configure()", "src/vo/generic_vo.rs, src/vo/generic_lookup_vo.rs")],
  observe=["value and degree of the concrete expression", "rotations registered on the oracles"])

p("C14", "Lookup permutation returns a valid sorted arrangement",
  "For every input list whose values all occur in the table list of equal length, the lookup permutation returns a rearrangement of the input and a rearrangement of the table such that the first entries agree and every entry of the input equals either the table entry beside it or the input entry before it; for an input containing a value outside the table it never returns a result.",
  ["inputs"],
  "all equal-length lists over any value distribution (constant, all distinct, heavy duplication), all table multiplicities",
  "One fixed list.",
  ["src/lookup/permute.rs"],
  [("sort, count and fill", "src/lookup/permute.rs")],
  observe=["returned vectors"])

p("C15", "Permutation argument holds exactly when columns respect the permutation",
  "The aggregation columns built for any permuted columns satisfy all sub-constraints on every row and with any blinding exactly when the columns respect the permutation; for arbitrary aggregation columns the combined argument vanishes on the whole domain only if every sub-constraint holds, and the prover's value of the argument at any point of the coset equals the verifier's value computed from the evaluations at that point.",
  ["inputs", "configurations"],
  "every number of columns, chunk width, usable-row count, permutation, challenge values, arbitrary (dishonest) aggregation polynomials",
  "Two fixed permutations of two or more columns with honest polynomials only.",
  ["src/permutation/mod.rs", "src/permutation/grand_product.rs"],
  [("chunking, stitching, first/last constraints", "src/permutation/mod.rs"), ("grand product step", "src/permutation/grand_product.rs")],
  observe=["aggregation polynomials and argument values"])

p("C16", "Lookup argument holds exactly when the permuted columns are valid",
  "For arbitrary columns A, S, A', S' and aggregation column the lookup argument vanishes on the domain only if the aggregation starts at one, takes the correct step on every usable row, ends in zero or one, A' and S' agree on the first row, and each usable A' entry equals its S' entry or its predecessor; the columns built by the honest prover satisfy it, and prover and verifier values of the argument agree at every point.",
  ["inputs", "configurations"],
  "every usable-row count, columns over any value distribution, arbitrary aggregation columns, all challenge values",
  "One fixed honest example for each piece.",
  ["src/lookup/mod.rs", "src/lookup/subset_equality.rs"],
  [("subset equality", "src/lookup/subset_equality.rs"), ("adjacency and first-row rules", "src/lookup/mod.rs")],
  observe=["argument values on the coset and at a challenge point"])

p("C17", "Shipped gates and lookups enforce their documented relation",
  "Each precompiled gate is zero on a row exactly when its documented relation holds for the values on that row (3- and 4-wire arithmetic, multiplication, 4-element fifth-power row, two-bit accumulator step, two-bit AND/XOR for in-range inputs), each precompiled lookup accepts exactly the tuples of its table, and the wires, selectors and rotations they read are the documented ones.",
  ["inputs"],
  "all values of all wires and selectors, both operations and all sixteen input pairs of the logic gate, all column counts",
  "Each gate is tested only with one satisfying table; a gate reading the wrong wire passes.",
  ["src/vo/precompiled", "src/vo/precompiled_lookups"],
  [("gate expressions and their query lists", "src/vo/precompiled/*.rs, src/vo/precompiled_lookups/*.rs")],
  observe=["gate expression value; result of proving and verifying with the gate"])

p("C18", "The mock prover reports exactly the gate violations",
  "The mock prover returns success exactly when every gate is zero on every row of the domain for the given columns, and otherwise fails naming a gate and row that are violated; on systems made only of gates over the full domain its verdict agrees with whether the real proof is accepted.",
  ["inputs", "programs"],
  "every gate system over every column type and rotation x satisfying and violating assignments",
  "No test in the suite exercises the mock prover.",
  ["src/mock_prover.rs"],
  [("row by row evaluation of every gate", "src/mock_prover.rs prove")],
  observe=["return value or panic message of MockProver::prove"],
  hook=HOOK)

p("C19", "Proof messages hide the witness as designed",
  "Every commitment a prover sends (witness, permuted lookup columns, aggregation columns, quotient pieces, batched-opening polynomial) is blinded with fresh randomness, the rows reserved for blinding in prover-made columns are fresh random values, and the opening reveals consistent combined randomness: two proofs of one statement made with different randomness share no commitment, and with equal randomness they are identical.",
  ["inputs", "configurations"],
  "every system shape, every pair of randomness seeds",
  "Nothing in the suite looks at randomness.",
  ["src/turbo_plonk.rs", "src/oracles/witness.rs", "src/permutation/grand_product.rs", "src/lookup", "src/multiproof/piop"],
  [("hiding bound on witness-type polynomials", "src/oracles/witness.rs"), ("random rows after the usable ones", "src/permutation/grand_product.rs, src/lookup"), ("randomness combined along with the polynomials", "src/multiproof/piop/prover.rs")],
  observe=["commitments and randomness as seen by the commitment scheme"],
  hook=HOOK)

p("C20", "Keys and oracles can be reused in any order",
  "Proving and verifying leave keys, preprocessed data and oracles usable: for every sequence of prove and verify operations, valid or not, over shared keys, preprocessed inputs and oracle objects, each verification gives the verdict it would give with fresh objects, and each proof is the one a fresh prover with the same randomness would produce.",
  ["histories", "inputs"],
  "every interleaving of accept/reject verifications and proofs over one or more statements sharing objects",
  "Each test builds fresh objects, proves once and verifies once, and comments that preprocessed input is cloned because verification mutates it.",
  ["src/turbo_plonk.rs", "src/oracles/fixed.rs", "src/oracles/witness.rs", "src/data_structures.rs"],
  [("evaluations registered on oracle objects during verification", "src/turbo_plonk.rs verify"), ("interior state of oracles", "src/oracles")],
  observe=["verdict of each verify, bytes of each proof"],
  hook=HOOK)

p("C21", "Misconfiguration is reported as an error",
  "Using an unconfigured gate or lookup, a gate or lookup naming a column that is missing on either side or not handed over, a non-fixed or unknown table query, constraints of too low a degree for the vanishing polynomial, a system too large for the universal parameters, preprocessed columns whose extended evaluations were not prepared or whose commitment is absent, is answered by setup, indexing, proving or verification with the corresponding error and not by a panic or by acceptance (the mock prover, which reports by panicking, does not succeed either). Column positions beyond the lists handed to configure() are outside: gate configuration has no error to return.",
  ["inputs", "configurations"],
  "every valid system x every single misconfiguration listed, at every position",
  "No test expects an error.",
  ["src/indexer.rs", "src/piop/error.rs", "src/error.rs", "src/vo/error.rs", "src/vo/generic_vo.rs", "src/vo/generic_lookup_vo.rs", "src/turbo_plonk.rs"],
  [("error returns for missing oracles and uninitialised expressions", "src/indexer.rs, src/piop/prover.rs, src/turbo_plonk.rs"), ("QuotientTooSmall", "src/indexer.rs")],
  observe=["error values"],
  hook=HOOK)

p("C22", "Fiat-Shamir generator is a deterministic function of its history",
  "The Fiat-Shamir generator's output is determined by its initial input and the ordered sequence of absorbed inputs: equal histories give equal streams, changing any bit of any input, the order, or the number of absorbed messages changes the stream, absorbing resets the position in the stream, and drawing values does not change what later absorbs lead to.",
  ["histories", "inputs"],
  "every sequence of initialise, absorb and draw operations with arbitrary inputs",
  "The generator has no test of its own.",
  ["src/rng.rs"],
  [("seed = H(input || previous seed)", "src/rng.rs")],
  observe=["bytes drawn from the generator"])

p("C23", "Prover and verifier derive the same, sufficient index",
  "Indexing the same system from the prover's columns and from the verifier's columns gives the same index; the extended domain is a multiple of the domain large enough for every constraint's quotient (gates, copies, lookups), the stored inverses are the inverses of the vanishing polynomial on the extended coset, and re-indexing gives the same result.",
  ["inputs", "programs", "configurations"],
  "every constraint system, degree (including degrees at powers of two), number of permuted columns, lookups, full or reduced vanishing polynomial",
  "Tests index a handful of fixed degrees.",
  ["src/indexer.rs", "src/util.rs", "src/data_structures.rs"],
  [("degree computation and extension factor", "src/indexer.rs"), ("vanishing polynomial over the coset", "src/util.rs")],
  observe=["fields of the verifier key"])

p("C24", "A failing commitment scheme makes the operation fail with that failure",
  "When an operation of the polynomial commitment scheme fails (setup, trimming, committing, opening or checking returns an error) the proving-system operation that called it - setup, key preparation, proving, verification - answers with that failure: it never panics, never returns a proof, and verification never accepts or reports an ordinary verdict instead. Keys, preprocessed data and oracles handed in stay usable: the next attempt gives what fresh objects give.",
  ["fault_sequences", "inputs"],
  "every constraint system x every single call to the commitment scheme (and every suffix of calls) that can fail",
  "No test makes the scheme fail.",
  ["src/turbo_plonk.rs", "src/multiproof/piop/mod.rs", "src/error.rs", "src/multiproof/error.rs"],
  [("error conversion from the commitment scheme", "src/error.rs, src/multiproof/error.rs"), ("result of the final check", "src/multiproof/piop/mod.rs")],
  observe=["results of universal_setup, prepare_keys, prove and verify"],
  hook=HOOK)

p("C25", "Keys support exactly the requested degree, plain and hidden",
  "Setup and key preparation, of the prover and of the mock prover, give keys that commit to, open and check polynomials of every degree up to the requested one, with and without hiding, and refuse larger ones with an error; keys of one setup do not verify openings made under an independent one; and a system is provable and verifiable under parameters of exactly the degree it needs, while smaller ones are answered with an error.",
  ["inputs", "configurations"],
  "every requested degree from one on, every polynomial degree around it, hidden or not; every constraint system at its exact degree",
  "Tests use one generous size for all.",
  ["src/turbo_plonk.rs", "src/lib.rs", "src/commitment.rs"],
  [("supported degree and hiding bound of trimming", "src/turbo_plonk.rs prepare_keys"), ("randomness of the setup", "src/turbo_plonk.rs universal_setup")],
  observe=["results of commit, open, check, prove and verify under the keys"],
  hook=HOOK)

p("C26", "Guarantees do not depend on the field, hash or commitment scheme",
  "The library is generic: for every prime field with large enough two-adicity, every hash and generator behind the transcript and every homomorphic commitment scheme, all the guarantees above hold as they do for BLS12-381 with KZG: honest proofs are accepted, violations of gates, copies and lookups and changed proofs or statements are refused, the batched opening is exact, proofs survive serialization, rotations, expressions, arguments, index and mock prover agree, and nothing panics.",
  ["configurations", "inputs", "programs"],
  "every scalar field, transcript hash and generator, commitment scheme x every input of the other properties",
  "All tests use one curve, one hash and one commitment scheme, so constants that happen to fit them go unnoticed.",
  ["src/indexer.rs", "src/util.rs", "src/commitment.rs", "src/rng.rs", "src/turbo_plonk.rs", "src/permutation/mod.rs", "src/permutation/grand_product.rs", "src/lookup/mod.rs", "src/multiproof/piop/mod.rs"],
  [("coset of the extended domain (multiplicative generator)", "src/indexer.rs, src/util.rs"), ("element and digest sizes", "src/rng.rs, src/data_structures.rs")],
  observe=["the observables of the other properties"],
  hook=HOOK)

p("C27", "A proof's shape depends on the system alone and is reported correctly",
  "The number of commitments and evaluations of every kind in a proof, and its serialized size, are determined by the constraint system - one commitment per witness column, the columns permuted, looked up and aggregated, one evaluation per distinct queried column and rotation, one quotient piece per domain-sized part of the extended domain - and are the same for every witness, public input and prover randomness. The proof's own summaries (info, cumulative_info) report exactly the numbers of commitments and field elements it contains.",
  ["inputs", "programs", "configurations"],
  "every constraint system, satisfying assignment and randomness; summaries: proofs with lists of any lengths",
  "Tests print the summaries of a few proofs and check none of the numbers; no test proves one system twice.",
  ["src/turbo_plonk.rs", "src/data_structures.rs", "src/piop/prover.rs", "src/permutation/mod.rs", "src/lookup/mod.rs", "src/lib.rs"],
  [("commitment and evaluation lists of the proof", "src/turbo_plonk.rs prove"), ("info and cumulative_info", "src/turbo_plonk.rs"), ("quotient chunks", "src/piop/prover.rs")],
  observe=["lengths of the lists of a proof, its serialized size, the integers in its summaries"],
  hook=HOOK)

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for r in P:
        assert len(r["title"]) <= 80, r["id"]
        f.write(json.dumps(r) + "\n")
print(len(P))
