#!/usr/bin/env python3
"""Single source of properties.jsonl (run: python3 tools/props.py)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "Linear combinations denote the exact sum of their terms",
 "However a linear combination is assembled (adding, subtracting or scaling variables and other combinations, with repeats, zero and negative coefficients, any length), its value under every assignment equals the mathematical sum of the terms that were put in. Namespaces and annotations never change what a circuit means.",
 ["inputs", "programs"], "every sequence of builder operations over every field assignment",
 "No test exercises the combination algebra; the circuits in the tests build combinations of at most a few distinct variables.",
 ["r1cs/src/impl_lc.rs", "r1cs/src/lib.rs", "r1cs/src/impl_constraint_var.rs"],
 [("merge of sorted terms / insert_or_update / ConstraintVar arithmetic", "r1cs/src/impl_lc.rs, r1cs/src/impl_constraint_var.rs")],
 ["the term list of a linear combination, evaluated under random assignments"])

prop("C02", "Groth16 accepts every honest proof",
 "For every rank-1 circuit and every satisfying assignment, parameters generated for that circuit let the prover produce a proof that verification accepts with the circuit's public inputs, whatever the circuit's shape (number of inputs, witnesses and constraints, domain boundaries, unused variables, zero or large coefficients).",
 ["programs", "inputs"], "all circuits with a satisfying assignment, all randomness",
 "The tests prove two or three fixed circuits (MiMC, a mini multiplication); shapes such as no public input, exact power-of-two sizes, wide combinations or unused variables are never run.",
 ["groth16/src/generator.rs", "groth16/src/prover.rs", "groth16/src/r1cs_to_qap.rs", "groth16/src/verifier.rs"],
 [("QAP reduction shared by generator and prover", "groth16/src/r1cs_to_qap.rs"), ("query vectors built from trapdoor evaluations", "groth16/src/generator.rs"), ("pairing product equation", "groth16/src/verifier.rs")],
 ["verify_proof verdict of honestly produced proofs"])

prop("C03", "Groth16 accepts only the proved statement",
 "Verification returns a negative answer for a proof checked against any public input vector other than the one proved, against another circuit's key, with any proof element replaced, or produced from an assignment that violates a constraint. A public input vector of the wrong length is an error and is never accepted.",
 ["inputs", "programs", "fault_sequences"], "all circuits, all single or multiple alterations of inputs, proof elements, key and witness",
 "Tests only check one accepting run and at most one wrong input of one circuit; rejection has to hold for each input position, each proof element and every violated constraint.",
 ["groth16/src/verifier.rs", "groth16/src/prover.rs", "groth16/src/generator.rs"],
 [("input accumulation over gamma_abc and pairing equation", "groth16/src/verifier.rs"), ("length check of the public inputs", "groth16/src/verifier.rs")],
 ["verify_proof verdict under every alteration"])

prop("C04", "Bulletproofs accept every honest proof",
 "For every rank-1 circuit and satisfying assignment the prover produces a proof that verification accepts with the circuit's public inputs, and the stand-alone inner-product argument accepts for all vectors of power-of-two length.",
 ["programs", "inputs"], "all circuits and satisfying assignments, over both supported groups; all vector lengths that are powers of two",
 "The tests run one multiplication circuit and one MiMC circuit; repeated variables, wide combinations, no public input and non-power-of-two sizes are not exercised.",
 ["bulletproofs/src/arithmetic_circuit.rs", "bulletproofs/src/inner_product_proof.rs", "bulletproofs/src/lib.rs"],
 [("R1CS to Hadamard plus linear constraints", "bulletproofs/src/arithmetic_circuit.rs"), ("recursive halving", "bulletproofs/src/inner_product_proof.rs")],
 ["verify_proof verdict of honest runs"])

prop("C05", "Bulletproofs accept only true statements",
 "A proof is rejected when any public input, any proof component or the circuit is changed, when it comes from a violated assignment, and when a dishonest prover fabricates components without knowing a witness. The inner-product argument rejects any change of its claimed vectors, product or transcript.",
 ["inputs", "programs", "fault_sequences"], "all circuits, all alterations and the forging strategies that drop one verification equation each",
 "Tests only verify honest proofs; soundness is about proofs no honest prover emits.",
 ["bulletproofs/src/arithmetic_circuit.rs", "bulletproofs/src/inner_product_proof.rs"],
 [("polynomial identity check on t(x)", "bulletproofs/src/arithmetic_circuit.rs"), ("commitment consistency check linking the proof to the inner-product argument", "bulletproofs/src/arithmetic_circuit.rs"), ("final folded equation", "bulletproofs/src/inner_product_proof.rs")],
 ["verify_proof verdict on altered and forged proofs"])

prop("C06", "Spartan accepts every honest proof",
 "For every rank-1 circuit with at least one constraint and a satisfying assignment, both the non-succinct and the succinct (pre-processed) variants produce proofs that verify with the circuit's public inputs, including public inputs that are zero and circuits whose sizes are not powers of two.",
 ["programs", "inputs"], "all circuits and satisfying assignments, both variants",
 "Tests run one fixed circuit per variant with non-zero inputs; the padding, sparse-polynomial and memory-checking code depends on sizes and on which values are zero.",
 ["spartan/src/prover.rs", "spartan/src/polynomial.rs", "spartan/src/r1cs.rs", "spartan/src/spark.rs"],
 [("sum-check provers and multilinear evaluation", "spartan/src"), ("sparse input polynomial evaluation", "spartan/src/polynomial.rs")],
 ["verify_proof verdict of honest runs"])

prop("C07", "Spartan accepts only true statements",
 "A proof of either variant is rejected for any other public input vector (including longer or shorter ones), for another circuit or other parameters, with any proof component changed, from a violated assignment, and when a dishonest prover supplies its own evaluation point or otherwise fabricates components.",
 ["inputs", "programs", "fault_sequences"], "all circuits, alterations and forging strategies",
 "Tests only verify honest proofs of one circuit.",
 ["spartan/src/verify.rs", "spartan/src/commitments.rs", "spartan/src/inner_product.rs", "spartan/src/spark.rs"],
 [("two sum-checks bound by sigma protocols", "spartan/src/verify.rs"), ("polynomial opening proof", "spartan/src/commitments.rs"), ("memory-checking argument for the sparse matrices", "spartan/src/spark.rs")],
 ["verify_proof verdict on altered and forged proofs"])

prop("C08", "Marlin accepts every honest proof",
 "For every rank-1 circuit that the indexer accepts under a sufficiently large universal setup and every satisfying assignment, the prover produces a proof that verification accepts with the circuit's public inputs, for all combinations of input, witness and constraint counts and matrix densities.",
 ["programs", "inputs"], "all indexable circuits with a satisfying assignment",
 "The test proves one small circuit; domain sizes, matrix balancing, squaring of the matrices and input padding depend on the shape.",
 ["marlin/src/ahp", "marlin/src/pc", "marlin/src/lib.rs"],
 [("algebraic holographic proof rounds", "marlin/src/ahp"), ("KZG commitments with degree bounds", "marlin/src/pc")],
 ["verify_proof verdict of honest runs; index/prove return values"])

prop("C09", "Marlin accepts only true statements",
 "A proof is rejected for other public inputs (changed, reordered, shorter or longer), under another circuit's verification key, with any commitment, evaluation or opening changed or moved between rounds, and when produced from a violated assignment.",
 ["inputs", "programs", "fault_sequences"], "all circuits and alterations",
 "Tests check one wrong public input on one circuit.",
 ["marlin/src/lib.rs", "marlin/src/ahp/verifier.rs", "marlin/src/pc", "marlin/src/fs_rng.rs"],
 [("Fiat-Shamir over index key, inputs and every round", "marlin/src/lib.rs"), ("outer/inner sum-check equations", "marlin/src/ahp"), ("batched KZG opening check with degree bounds", "marlin/src/pc")],
 ["verify_proof verdict on altered proofs"])

prop("C10", "PLONK proves every satisfied gate circuit",
 "For every circuit assembled from addition, multiplication, constant and equality gates with a consistent assignment, key generation followed by proving yields a proof that verification accepts with that circuit's public inputs.",
 ["programs", "inputs"], "all gate lists, selectors, wire reuse patterns and circuit sizes",
 "Tests prove two hand-written circuits of a few gates; the permutation argument depends on the wire-reuse pattern and the size.",
 ["plonk/src/composer", "plonk/src/ahp", "plonk/src/lib.rs"],
 [("gate selectors and copy permutation", "plonk/src/composer"), ("quotient and grand-product polynomials", "plonk/src/ahp")],
 ["verify verdict of honest runs"])

prop("C11", "PLONK accepts only satisfied circuits",
 "Verification rejects a proof when a gate equation or a copy (wire-equality) constraint is violated by the assignment, when the public inputs or the circuit's key differ, and when any commitment, evaluation or opening is changed or moved between rounds.",
 ["inputs", "programs", "fault_sequences"], "all circuits, violated gates or wires, and alterations",
 "The tests contain one wrong-input case; each gate type, wire column and proof element has its own way to be dropped from the check.",
 ["plonk/src/lib.rs", "plonk/src/ahp/verifier.rs", "plonk/src/composer", "plonk/src/rng.rs"],
 [("evaluation identity at the challenge point", "plonk/src/ahp"), ("Fiat-Shamir transcript", "plonk/src/rng.rs")],
 ["verify verdict on violated and altered proofs"])

prop("C12", "Layered circuits evaluate correctly and Libra accepts honest runs",
 "Evaluating a layered arithmetic circuit yields exactly the values that its addition and multiplication gates define, and the linear-time proof and its zero-knowledge variant for that evaluation are accepted by verification, for every well-formed circuit, input and witness. A description with an unknown operation, or with a gate that reads a wire its layer does not have, is refused instead of evaluated.",
 ["programs", "inputs"], "all layered circuits, numbers of inputs and witness values, and their values",
 "Tests run one four-gate circuit with two inputs and two witness values of equal count; unequal counts, wide and deep circuits, repeated wires and zero values are not run.",
 ["libra/src/circuit.rs", "libra/src/evaluate.rs", "libra/src/libra_linear_gkr.rs", "libra/src/libra_zk_linear_gkr.rs", "libra/src/sumcheck.rs"],
 [("layer evaluation and bookkeeping tables", "libra/src/evaluate.rs, libra/src/sumcheck.rs")],
 ["evaluate output vs reference interpreter; verify verdict"])

prop("C13", "Libra accepts only the circuit's true outputs",
 "Verification of the linear-time proof or of its zero-knowledge variant rejects any outputs, public inputs (or witness, where given), circuit or parameters other than those of the run, any changed proof component, and proofs a dishonest prover builds for false outputs.",
 ["inputs", "programs", "fault_sequences"], "all circuits, alterations and forging strategies that exploit one unchecked equation each",
 "Tests contain only accepting runs.",
 ["libra/src/libra_linear_gkr.rs", "libra/src/libra_zk_linear_gkr.rs", "libra/src/commitment.rs"],
 [("round-sum checks, wiring predicate evaluation, input opening", "libra/src")],
 ["verify verdict on altered and forged proofs"])

prop("C14", "Hyrax accepts every honest batch",
 "For every well-formed layered circuit and every power-of-two batch of instances, the prover's reported outputs equal the circuit's evaluation on each instance and the proof verifies. A description with an unknown operation, or with a gate that reads a wire its layer does not have, is refused instead of evaluated.",
 ["programs", "inputs"], "all layered circuits, batch sizes, inputs and witnesses",
 "Three tests of fixed circuits with fixed small batches.",
 ["hyrax/src/hyrax_proof.rs", "hyrax/src/zk_sumcheck_proof.rs", "hyrax/src/evaluate.rs", "hyrax/src/circuit.rs"],
 [("batched sum-check over instance and gate variables", "hyrax/src/zk_sumcheck_proof.rs")],
 ["prover outputs vs reference interpreter; verify verdict"])

prop("C15", "Hyrax accepts only the circuit's true outputs",
 "Verification rejects when any instance's outputs or public inputs, the circuit or the parameters differ from the proved ones, when any proof component is changed or exchanged between layers, and when a dishonest prover's layer claims are not linked to the claimed outputs.",
 ["inputs", "programs", "fault_sequences"], "all circuits, batches, alterations and forging strategies",
 "Tests contain only accepting runs.",
 ["hyrax/src/hyrax_proof.rs", "hyrax/src/zk_sumcheck_proof.rs", "hyrax/src/commitment.rs"],
 [("chaining of layer claims through commitments", "hyrax/src/hyrax_proof.rs"), ("sigma protocols and opening proof", "hyrax/src/commitment.rs")],
 ["verify verdict on altered and forged proofs"])

prop("C16", "Aggregatable vector commitments stay consistent through any history",
 "After any sequence of value updates, commitments and opening proofs updated incrementally are identical to ones recomputed from the current vector, aggregated single openings equal the directly computed batch opening, and all of them verify for the current values.",
 ["histories", "inputs"], "all vectors, position sets and update histories",
 "The test performs one update at fixed positions of one vector.",
 ["asvc/src/lib.rs"],
 [("update keys and homomorphic update", "asvc/src"), ("partial-fraction aggregation", "asvc/src")],
 ["commitment and proof values vs recomputation; verify verdict"])

prop("C17", "Vector commitment openings are position- and value-binding",
 "Opening verification rejects any changed value, changed or exchanged position, stale proof or commitment from before an update, altered proof, and value lists whose length differs from the position list; update-key verification rejects any altered key or a key for another position.",
 ["inputs", "histories", "fault_sequences"], "all vectors, position sets and alterations",
 "The test suite only has accepting runs plus few fixed rejections.",
 ["asvc/src/lib.rs"],
 [("pairing equations over vanishing and interpolation polynomials", "asvc/src/lib.rs")],
 ["verify verdicts under alteration"])

prop("C18", "Hiding proofs are freshly randomised in every component",
 "Two proofs of the same statement from the same witness with independent randomness share no hiding component in the Groth16, Bulletproofs, Spartan, Marlin and Hyrax schemes and the zero-knowledge Libra variant; blinding factors are independent of each other and actually applied to every commitment the scheme hides.",
 ["inputs", "programs", "configurations"], "all circuits, witnesses and random tapes",
 "Acceptance tests cannot see missing or reused blinding: an unblinded proof still verifies.",
 ["groth16/src/prover.rs", "bulletproofs/src/arithmetic_circuit.rs", "spartan/src", "marlin/src/ahp/prover.rs", "marlin/src/pc", "libra/src/libra_zk_linear_gkr.rs", "hyrax/src", "plonk/src/lib.rs"],
 [("per-proof sampling of blinding scalars and mask polynomials", "prover modules of every scheme")],
 ["serialized proof components of repeated runs"])

prop("C19", "Serialized keys and proofs round-trip and keep their meaning",
 "Every proof, key, parameter and curve point that is serialized and read back is identical to the original, the announced size equals the bytes written, and a proof or key that was read back verifies exactly like the original. Truncated encodings are errors.",
 ["inputs", "programs"], "all values of all serializable public types, compressed and uncompressed",
 "Tests serialize hardly any type, and only on one value.",
 ["groth16/src/lib.rs", "bulletproofs/src", "spartan/src/data_structure.rs", "marlin/src/data_structures.rs", "plonk/src", "libra/src", "hyrax/src", "curve25519/src/group.rs", "r1cs/src"],
 [("CanonicalSerialize / CanonicalDeserialize implementations", "all scheme crates")],
 ["bytes, announced sizes, verdicts after the round trip"])

prop("C20", "Verification of hostile proofs ends in a verdict, never a crash",
 "Whatever bytes an attacker submits as a proof, decoding followed by verification returns acceptance, rejection or an error for every scheme; it never panics, overflows or runs away, also when the proof's internal lists have unexpected lengths or the public inputs have an unexpected count.",
 ["inputs", "fault_sequences"], "all byte strings; all structurally altered proofs (shortened, lengthened, exchanged lists)",
 "Tests only feed well-formed honest proofs to the verifiers.",
 ["groth16/src/verifier.rs", "bulletproofs/src", "spartan/src", "marlin/src", "plonk/src", "libra/src", "hyrax/src"],
 [("shape checks before indexing; error returns instead of assertions", "verifier modules")],
 ["outcome class of decode + verify"])

prop("C21", "Multi-threaded builds compute exactly what sequential builds compute",
 "With the parallel feature enabled, every scheme's keys, proofs, commitments and verdicts are byte-for-byte those of the sequential build for the same circuit and random tape, for any number of worker threads and any scheduling.",
 ["schedules", "configurations", "inputs"], "thread counts, schedules, circuit sizes and random tapes",
 "The test suite runs one configuration with one pool size and never compares the two builds.",
 ["groth16/src", "marlin/src", "asvc/src", "spartan/src", "libra/src", "hyrax/src", "bulletproofs/src", "plonk/src", "r1cs/src"],
 [("cfg(feature = \"parallel\") iterator macros", "all scheme crates")],
 ["digests of keys, proofs, outputs per build and thread count"])

prop("C22", "Boolean and 32-bit gadgets compute and enforce their functions",
 "For all operand values and all mixtures of constant, plain and negated operands, the boolean and 32-bit gadgets produce the value of the function they name, and their constraints admit exactly that value: no other assignment of the allocated result satisfies them.",
 ["inputs", "programs"], "all operand kinds and values; all expression trees of gadgets",
 "Unit tests cover single operations with fixed operand kinds; compositions and multi-operand additions are sampled thinly and only a few fixed bad assignments are tried.",
 ["gadgets/src/algebra/boolean.rs", "gadgets/src/algebra/uint32.rs", "gadgets/src/algebra/fr.rs", "gadgets/src/operator/multieq.rs"],
 [("boolean constraints, packed multi-equality", "gadgets/src/algebra, gadgets/src/operator/multieq.rs")],
 ["gadget values vs native functions; satisfaction of the captured constraint system after witness mutation"])

prop("C23", "SHA-256 and BLAKE2s circuits equal the standard functions",
 "For messages of every length the SHA-256 and BLAKE2s circuits output the standard digest (BLAKE2s with any personalization), the constraints hold for the honest assignment, and altering any allocated value without altering the message violates a constraint.",
 ["inputs"], "all messages and lengths across block boundaries, all personalizations",
 "Unit tests check a handful of lengths and never try dishonest witnesses on the full circuits.",
 ["gadgets/src/hashes/sha256.rs", "gadgets/src/hashes/blake2s.rs"],
 [("compression functions over 32-bit gadgets", "gadgets/src/hashes")],
 ["digest bits vs reference implementation; constraint satisfaction under mutation"])

prop("C24", "MiMC, Poseidon and Rescue: native, circuit and exposed output agree",
 "The native and in-circuit MiMC, Poseidon and Rescue functions give the same result, which depends on every byte of the message, the honest assignment satisfies all constraints, and where the circuit exposes a public output it is that hash and no other value satisfies the constraints for the same message. The functions themselves are fixed: roots and hashes made by earlier versions stay valid.",
 ["inputs"], "all messages of every positive length",
 "The unit tests compare the native function with the value the gadget returns, not with what the constraints compute.",
 ["gadgets/src/hashes/mimc.rs", "gadgets/src/hashes/poseidon.rs", "gadgets/src/hashes/rescue.rs"],
 [("round constraints and power maps", "gadgets/src/hashes")],
 ["captured constraint system: satisfaction, public output, mutation"])

prop("C25", "Table lookup and range gadgets accept exactly the right values",
 "The window lookups return the table entry selected by the bits and admit no other value, the range gadget is satisfiable, for operands within its bit width, exactly when the left one is smaller than the right one, and the non-zero gadget exactly when the value is not zero.",
 ["inputs"], "all tables, selectors, operand values and bit widths",
 "Unit tests only check honest assignments of a few random tables and one range pair.",
 ["gadgets/src/lookup/table.rs", "gadgets/src/operator/rangeproof.rs", "gadgets/src/algebra/fr.rs"],
 [("multilinear window constraints", "gadgets/src/lookup/table.rs"), ("bit decomposition of 2^n + B - A", "gadgets/src/operator/rangeproof.rs")],
 ["captured constraint system: value, satisfaction, mutation"])

prop("C26", "Merkle trees: every leaf, and nothing else, is provable",
 "For every list of leaves, the tree root equals the directly computed root, a proof exists exactly for the indices of existing leaves and verifies for that leaf, and changing the leaf value, the position, a sibling or the length of the path of such a proof makes it fail under the same root.",
 ["inputs", "fault_sequences"], "all leaf counts and indices including out-of-range ones, all alterations",
 "Tests use a non-injective toy merge function on five or six leaves.",
 ["gadgets/src/merkletree/cbmt.rs"],
 [("complete-binary-tree index arithmetic", "gadgets/src/merkletree/cbmt.rs")],
 ["roots, proofs and verdicts vs a reference tree"])

prop("C27", "In-circuit Merkle membership is enforced",
 "The membership gadget is satisfied for each leaf of each tree with its authentication path, for the supported hashes, and is unsatisfied for a wrong leaf, sibling, index or root, even if the prover assigns intermediate values freely.",
 ["inputs", "fault_sequences"], "all trees, indices, wrong values and dishonest intermediate assignments",
 "Tests only check that honest paths satisfy the constraints.",
 ["gadgets/src/merkletree/cbmt_constraints.rs", "gadgets/src/hashes/sha256.rs", "gadgets/src/hashes/mimc.rs"],
 [("hash gadget chaining and final root equality", "gadgets/src/merkletree/cbmt_constraints.rs")],
 ["captured constraint system: satisfaction under mutation"])

prop("C28", "The Curve25519 back end obeys group, field and encoding laws",
 "Scalar arithmetic equals integer arithmetic modulo the group order, group operations equal the reference curve's, multi-scalar multiplication equals the sum of single multiplications, and every element survives its encoding while non-canonical or off-curve encodings are rejected.",
 ["inputs"], "all scalars and points, including zero, identity and boundary values",
 "The crate's tests check a few arithmetic identities on random values.",
 ["curve25519/src/fr.rs", "curve25519/src/group.rs", "curve/src/lib.rs"],
 [("field parameters and wrapper over the reference group", "curve25519/src")],
 ["results vs big-integer arithmetic and the reference implementation"])

prop("C29", "The command line proves and verifies end to end",
 "A proof file written by the prove command for a satisfiable request is accepted by the verify command, a proof file in which the proof, a public value, the scheme or the circuit was exchanged for a different one is never reported valid, and bad arguments or files yield an error report without claiming validity.",
 ["inputs", "programs", "fault_sequences"], "all circuit and scheme pairs offered, all argument values and alterations",
 "No test runs the command-line tools.",
 ["cli/src/setup.rs", "cli/src/zkp_prove.rs", "cli/src/zkp_verify.rs", "cli/src/circuits"],
 [("JSON proof container and dispatch", "cli/src")],
 ["process exit, printed verdict and files of real runs"])

prop("C30", "A circuit that fails to synthesise never yields a proof",
 "When a circuit reports a missing or impossible assignment at any allocation, or fails with any other synthesis error, setup that needs no assignment still succeeds and proving returns that error in every scheme: no proof, no crash.",
 ["fault_sequences", "programs"], "every allocation of every circuit as the failing point, every error kind, all schemes",
 "No test injects a synthesis failure.",
 ["r1cs/src/lib.rs", "groth16/src/prover.rs", "bulletproofs/src/arithmetic_circuit.rs", "spartan/src", "marlin/src/ahp"],
 [("SynthesisError propagation", "prover modules")],
 ["return value of setup and prove under injected failure"])

prop("C31", "The stand-alone commitment arguments accept true claims and nothing else",
 "Each argument the schemes are built from (equality, knowledge, product, inner product, logarithmic inner product, polynomial evaluation, sum-check round, folded inner products; Libra, Hyrax, Spartan, Bulletproofs) accepts every honest proof about honestly formed commitments, singly or several in one transcript, and leaves both sides' transcripts in step. It rejects, without crashing, a proof of a false claim, an altered proof or one of another length, and a proof used for another claim, in another transcript or under other parameters.",
 ["inputs", "adversary"], "every claim, conversation and alteration, both curves",
 "Tests exercise each argument on one example or only through a whole proof.",
 ["libra/src/commitment.rs", "hyrax/src/commitment.rs", "libra/src/sumcheck.rs", "spartan/src/inner_product.rs", "bulletproofs/src/inner_product_proof.rs"],
 [("argument verifiers", "commitment, sumcheck and inner-product modules")],
 ["accept, reject or panic of each argument's verifier", "transcript state after it"])
prop("C32", "Challenges bind the statement and everything said before them",
 "In every proof system each Fiat-Shamir challenge depends on the statement, that is the circuit and commitment generators (or their digests) and the public inputs and outputs, and on each commitment and claimed value the prover sent before it (responses to an earlier challenge aside), so that altering any of them changes the challenges that follow. The digests a statement enters by differ whenever circuit, generators or encoding differ, and every challenge has at least 128 bits.",
 ["inputs", "adversary"], "every element of every proof and statement, every layout",
 "An omitted element changes nothing for honest provers and verifiers, so tests pass either way.",
 ["bulletproofs/src/arithmetic_circuit.rs", "spartan/src/verify.rs", "libra/src/libra_zk_linear_gkr.rs", "hyrax/src/hyrax_proof.rs", "marlin/src/lib.rs", "plonk/src/lib.rs", "spartan/src/r1cs.rs"],
 [("transcript appends", "prover and verifier modules"), ("*_to_hash", "spartan, libra, hyrax")],
 ["what each transcript absorbs and the challenges it yields", "digest values"])

prop("C33", "Setup draws every secret and every generator independently",
 "Key and parameter generation of every scheme gives each trapdoor (such as Groth16's alpha, beta, gamma, delta and tau) and each commitment generator randomness of its own: none is constant, equal to or derived from another, and setups with independent randomness share none. The elements of a structured reference string are the consecutive powers that it promises, in the number asked for.",
 ["inputs", "adversary"], "every draw of every setup, all circuits and sizes",
 "Proofs of a setup whose secrets coincide verify like any other, while anyone can forge them.",
 ["groth16/src/generator.rs", "marlin/src/pc/kzg10.rs", "asvc/src/lib.rs", "spartan/src/setup.rs", "libra/src/params.rs", "hyrax/src/params.rs", "bulletproofs/src/arithmetic_circuit.rs", "plonk/src/lib.rs"],
 [("random draws of the setups", "generators and parameters"), ("powers of the trapdoor", "kzg10.rs, asvc")],
 ["which parts of a key change when one draw is altered", "pairing relations between parts"])

prop("C34", "Builds without the standard library compute what standard builds compute",
 "Every scheme, hash and gadget of a build without std, as on-chain verifiers use it, produces byte-for-byte the keys, proofs, hashes, constraints, values, errors and verdicts of the standard build for the same input and random tape.",
 ["inputs", "programs"], "all schemes, circuits, proofs (honest and altered) and random tapes",
 "All tests run with std.",
 ["r1cs/src/lib.rs", "groth16/src", "marlin/src", "plonk/src", "spartan/src", "bulletproofs/src", "libra/src", "hyrax/src", "asvc/src", "gadgets/src"],
 [("feature-dependent code and dependencies", "all crates")],
 ["digests of everything computed by two builds"])

prop("C35", "A reference string or key that does not fit a circuit is refused",
 "Whatever size of universal reference string (Marlin, PLONK) is asked for, key generation for a circuit either returns an error because the string is too small or yields keys under which proofs of the circuit are accepted; no size makes it crash, and a string larger than one that serves also serves. A proof made with the key of a circuit of another size, for an assignment that does not satisfy the key's circuit, is never accepted.",
 ["inputs", "programs"], "every size of reference string and every pair of circuits",
 "Tests use one ample size per scheme.",
 ["marlin/src/lib.rs", "marlin/src/pc/kzg10.rs", "marlin/src/ahp/indexer.rs", "plonk/src/lib.rs", "plonk/src/ahp/indexer/mod.rs", "groth16/src/prover.rs"],
 [("size checks", "index and keygen, PC::trim")],
 ["outcome of setup, key generation, proving and verification per size"])

prop("C36", "Marlin's polynomial commitments bind the polynomial and its degree bound",
 "Every set of polynomials within its degree bounds can be committed to, hiding or not, and opened at any points, singly or in batches, and the verifier accepts the true values; each commitment is the exact combination of reference-string powers and fresh blinding. It rejects, without crashing, any wrong value, point, commitment, challenge, opening, bound or batch layout, and a polynomial above its degree bound can neither be committed to nor passed off by a prover who knows the whole reference string.",
 ["inputs", "adversary"], "all polynomials, bounds, points, batches and alterations",
 "Unit tests run two fixed shapes and accept only.",
 ["marlin/src/pc/mod.rs", "marlin/src/pc/kzg10.rs", "marlin/src/pc/data_structures.rs"],
 [("PC::commit, open, check and their batch forms", "marlin/src/pc/mod.rs")],
 ["commitment values", "accept, reject, error or panic of each check"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    assert len({p["id"] for p in P}) == len(P)
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        # crude sentence bound
        assert p["statement"].count(". ") <= 2, p["id"]
    with open(out, "w") as f:
        for p in P: f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
