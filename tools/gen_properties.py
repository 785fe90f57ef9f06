#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the wording stays reviewable)."""
import json, os, sys
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": x, "where": files[0]} for x in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

prop("P01", "Linear combinations are homomorphic",
 "For every sequence of additions, subtractions, scalings and negations of variables and linear combinations (zkp_r1cs LinearCombination, ConstraintVar), the result evaluates under every assignment to the same field value as the corresponding expression over the variables' values. This includes repeated variables, cancelling terms and operands of any size and order.",
 ["inputs", "configurations"], "all operation sequences over LinearCombination/ConstraintVar values, all assignments",
 "The code has small/large paths and binary search versus linear scan; tests build a handful of combinations and never compare all operator overloads over all shapes.",
 ["r1cs/src/impl_lc.rs", "r1cs/src/impl_constraint_var.rs"],
 [("operator overloads of LinearCombination", "r1cs/src/impl_lc.rs"), ("ConstraintVar operators", "r1cs/src/impl_constraint_var.rs"), ("get_var_loc / op_impl merge", "r1cs/src/impl_lc.rs")])
prop("P02", "Constraint-system bookkeeping is exact through namespaces",
 "For every history of alloc, alloc_input, enforce, nested namespaces and set/get on TestConstraintSystem, variables get consecutive indices per kind, values, paths and constraints are recorded once under the right path, is_satisfied / which_is_unsatisfied / num_constraints / num_inputs / get_input / verify / get report exactly the recorded system (first unsatisfied constraint in order), calls through references and nested namespaces behave like direct ones, pretty_print shows and hash commits to exactly the recorded constraints (terms merged per variable, zero terms dropped), and re-using a path or a name with '/' panics instead of silently overwriting.",
 ["histories"], "all histories of constraint-system calls up to the explored depth",
 "Tests exercise one short history; the guarantee is about arbitrary interleavings of namespaces, allocation, assignment changes and queries.",
 ["r1cs/src/constraint_system.rs", "gadgets/src/test_constraint_system.rs"],
 [("Namespace forwarding", "r1cs/src/constraint_system.rs"), ("TestConstraintSystem", "gadgets/src/test_constraint_system.rs")],
 state=["inputs, aux, constraints, named objects, namespace stack"])
prop("P03", "Boolean gadgets compute and enforce their truth tables",
 "For AllocatedBit and Boolean (all Is/Not/Constant operand combinations, including the same bit used twice) and for alloc_conditionally, enforce_equal, sha256_ch, sha256_maj and the u64/field bit decompositions, the honest assignment satisfies the constraints with the documented value, and every other satisfying assignment has the same output for the same boolean operands; non-boolean allocations and violated equalities are unsatisfiable.",
 ["inputs", "configurations"], "all operand kinds, all operand values, all assignments of the gadget's variables over a small field",
 "Tests check honest witnesses and a few flips; soundness is a statement about every assignment of every wire.",
 ["gadgets/src/algebra/boolean.rs", "gadgets/src/algebra/fr.rs"],
 [("AllocatedBit operations", "gadgets/src/algebra/boolean.rs"), ("Boolean case analysis", "gadgets/src/algebra/boolean.rs")])
prop("P04", "UInt32 and MultiEq gadgets implement 32-bit words",
 "UInt32 alloc/constant/from_bits/from_bits_be/into_bits/rotr/shr/xor/sha256_ch/sha256_maj/addmany agree with u32 arithmetic (addition modulo 2^32) for every operand mix of constant, allocated and negated bits, both in the value and in the bits; MultiEq enforces every equality it is given, however many are batched, and no result bit can be changed while keeping the constraints satisfied.",
 ["inputs", "configurations"], "all word operations and operand kinds, all batchings that cross the field-capacity boundary",
 "Packing boundaries, constant folding and carries depend on operand counts and field capacity that the sampled tests do not vary.",
 ["gadgets/src/algebra/uint32.rs", "gadgets/src/operator/multieq.rs"],
 [("UInt32::addmany", "gadgets/src/algebra/uint32.rs"), ("MultiEq packing and Drop", "gadgets/src/operator/multieq.rs")])
prop("P05", "SHA-256 and BLAKE2s circuits compute the standard hashes",
 "For every byte string (any length across block and padding boundaries, any mix of constant, allocated and negated input bits) the sha256 and blake2s gadgets produce exactly the bits of FIPS 180-4 SHA-256 and RFC 7693 BLAKE2s-256 with the given personalization, the honest assignment satisfies the circuit, and no single wire of the circuit can be changed without violating a constraint.",
 ["inputs"], "all message lengths and bit kinds up to the explored bound",
 "Tests hash a few random messages; padding edges, operand-kind specialisations and missing constraints are not all reached.",
 ["gadgets/src/hashes/sha256.rs", "gadgets/src/hashes/blake2s.rs"],
 [("padding and compression", "gadgets/src/hashes/sha256.rs"), ("compression and finalisation", "gadgets/src/hashes/blake2s.rs")])
prop("P06", "MiMC, Poseidon and Rescue circuits agree with the native hash",
 "For every non-empty input, the field-hash gadgets (mimc, poseidon, rescue) return the native hash value, their honest assignment satisfies their constraints, and the constrained computation maps the chaining pair (xl, xr) to that hash: every satisfying assignment with the same preimage wires has the same final state.",
 ["inputs"], "all byte inputs (any number of blocks) and all assignments of the circuit",
 "The tests compare the returned native value with itself and check satisfiability; they never look at what the wires are forced to be.",
 ["gadgets/src/hashes/mimc.rs", "gadgets/src/hashes/poseidon.rs", "gadgets/src/hashes/rescue.rs"],
 [("mimc", "gadgets/src/hashes/mimc.rs"), ("poseidon / pow_with_constraint", "gadgets/src/hashes/poseidon.rs"), ("rescue / pow_with_constraint", "gadgets/src/hashes/rescue.rs")])
prop("P07", "Lookup gadgets select exactly the indexed entry",
 "lookup1_x, lookup2_x/xy, lookup3_x/xy return, for every table of constants and every selector (constant, allocated or negated bits), the entry at the little-endian index, and no satisfying assignment with boolean selectors yields another entry.",
 ["inputs", "configurations"], "all tables over a small field (sampled exhaustively by value class), all selector kinds and values, all assignments",
 "Tests use random tables with honest witnesses only; coefficient mistakes that cancel for some entries or unconstrained outputs are invisible to them.",
 ["gadgets/src/lookup/table.rs"], [("synth and lookup*", "gadgets/src/lookup/table.rs")])
prop("P08", "Range proof accepts exactly A < B",
 "The RangeProof gadget with n bits is satisfiable for witnesses A, B in [0, 2^n) if and only if A < B, for every n the field can hold and including A = B and the extremes of the range.",
 ["inputs"], "all A, B in [0,2^n), all small n, all assignments of the internal wires",
 "Tests try a few pairs; boundary pairs and dishonest inner wires are not enumerated.",
 ["gadgets/src/operator/rangeproof.rs"], [("RangeProof::generate_constraints", "gadgets/src/operator/rangeproof.rs")])
prop("P09", "Complete binary Merkle trees: complete and sound proofs",
 "For every non-empty leaf list, build_merkle_root and build_merkle_tree agree on the root of the complete binary tree, every leaf index in range yields a proof whose root() is the tree root and out-of-range indices yield None, and with a collision-free merge a proof verifies only for the leaf at its index and the genuine sibling path: no other position, no path too short or too long, no inner node in place of a leaf.",
 ["inputs"], "all leaf counts and indices up to the bound, all single-element alterations of proof, leaf and root",
 "Tests use two sizes; index arithmetic depends on the leaf count and its position relative to powers of two.",
 ["gadgets/src/merkletree/cbmt.rs"], [("build_proof / root", "gadgets/src/merkletree/cbmt.rs"), ("TreeIndex", "gadgets/src/merkletree/cbmt.rs")])
prop("P10", "Merkle membership circuit accepts exactly genuine paths",
 "MerkleProofGadget::set_membership is satisfied by the honest assignment for every leaf index and leaf count, and is unsatisfied when the root, the leaf, a lemma or the index of the path is not the one of the tree.",
 ["inputs", "configurations"], "all leaf counts and indices up to the bound, all single alterations of the statement",
 "Tests only check honest paths of one tree; a circuit that enforces nothing passes them.",
 ["gadgets/src/merkletree/cbmt_constraints.rs", "gadgets/src/hashes/abstract_hash.rs", "gadgets/src/hashes/sha256.rs"],
 [("set_membership", "gadgets/src/merkletree/cbmt_constraints.rs"), ("AbstractHash::hash_enforce", "gadgets/src/hashes")])
R1 = "R1CS circuits of every shape (0..n inputs, witnesses and constraints, repeated and cancelling terms, constants, zero values, empty sides)"
for (i, name, crate, files, mech) in [
  ("P11", "Groth16", "zkp_groth16", ["groth16/src/generator.rs", "groth16/src/prover.rs", "groth16/src/r1cs_to_qap.rs", "groth16/src/verifier.rs"],
     [("parameter generation", "groth16/src/generator.rs"), ("QAP witness map", "groth16/src/r1cs_to_qap.rs"), ("proof creation", "groth16/src/prover.rs")]),
  ("P13", "Marlin", "zkp_marlin", ["marlin/src/lib.rs", "marlin/src/ahp/indexer.rs", "marlin/src/ahp/prover.rs", "marlin/src/ahp/constraint_systems.rs", "marlin/src/ahp/verifier.rs"],
     [("index / balance_matrices", "marlin/src/ahp/constraint_systems.rs"), ("AHP prover rounds", "marlin/src/ahp/prover.rs"), ("create_random_proof", "marlin/src/lib.rs")]),
  ("P17", "Spartan (SNARK and NIZK)", "zkp_spartan", ["spartan/src/lib.rs", "spartan/src/prover.rs", "spartan/src/verify.rs", "spartan/src/r1cs.rs", "spartan/src/polynomial.rs", "spartan/src/spark.rs"],
     [("r1cs padding", "spartan/src/r1cs.rs"), ("sum-check provers", "spartan/src/prover.rs"), ("public-input polynomial evaluation", "spartan/src/polynomial.rs")]),
  ("P19", "Bulletproofs", "zkp_bulletproofs", ["bulletproofs/src/arithmetic_circuit.rs", "bulletproofs/src/inner_product_proof.rs", "bulletproofs/src/lib.rs"],
     [("create_random_proof matrices", "bulletproofs/src/arithmetic_circuit.rs"), ("inner-product argument", "bulletproofs/src/inner_product_proof.rs")]),
]:
    prop(i, f"{name}: honest proofs of true statements verify",
     f"For every R1CS circuit and satisfying assignment accepted by {crate}'s setup, the proof produced with the circuit's own keys verifies against the circuit's public inputs.",
     ["inputs", "configurations"], R1 + ", all satisfying assignments, all prover randomness",
     "Tests prove one or two fixed circuits; shape-dependent padding, repeated terms, zero values and public/private layout are not varied.", files, mech)
for (i, name, crate, extra, files, mech) in [
  ("P12", "Groth16", "zkp_groth16", "A public-input list of the wrong length is rejected.", ["groth16/src/verifier.rs", "groth16/src/generator.rs", "groth16/src/r1cs_to_qap.rs", "groth16/src/prover.rs"],
     [("verify_proof", "groth16/src/verifier.rs"), ("CRS structure", "groth16/src/generator.rs")]),
  ("P14", "Marlin", "zkp_marlin", "", ["marlin/src/lib.rs", "marlin/src/ahp/verifier.rs", "marlin/src/pc/mod.rs", "marlin/src/pc/kzg10.rs"],
     [("verify_proof", "marlin/src/lib.rs"), ("AHP verifier equations", "marlin/src/ahp/verifier.rs"), ("batch opening check", "marlin/src/pc/mod.rs")]),
  ("P18", "Spartan (SNARK and NIZK)", "zkp_spartan", "A public-input list of the wrong length is never accepted.", ["spartan/src/verify.rs", "spartan/src/spark.rs", "spartan/src/inner_product.rs", "spartan/src/lib.rs"],
     [("verify_proof", "spartan/src/verify.rs"), ("matrix-evaluation opening", "spartan/src/verify.rs")]),
  ("P20", "Bulletproofs", "zkp_bulletproofs", "", ["bulletproofs/src/arithmetic_circuit.rs", "bulletproofs/src/inner_product_proof.rs"],
     [("verify_proof", "bulletproofs/src/arithmetic_circuit.rs"), ("IPP verification", "bulletproofs/src/inner_product_proof.rs")]),
]:
    prop(i, f"{name}: nothing but valid proofs is accepted",
     f"{crate}'s verifier never accepts a proof made from an assignment that violates the circuit, a proof checked against other public inputs, another circuit or other keys, or a proof in which elements were altered so that one of the protocol's verification equations fails. " + extra,
     ["inputs", "fault_sequences"], "all circuits as above, all false statements, all alterations of proof elements including ones that keep all but one verification equation true",
     "Tests try at most one wrong input; a dropped or weakened verification equation still rejects it.", files, mech)
prop("P15", "PLONK: honest proofs of satisfied circuits verify",
 "For every circuit built with the Composer API (add, mul, constant, equality gates, any wiring and any public inputs) whose gates hold under the assigned values, setup, keygen, prove and verify succeed; the composed selectors, wire values and copy permutation are exactly those of the gate list.",
 ["inputs", "histories"], "all sequences of Composer calls with satisfied gates up to the bound",
 "Tests run two fixed circuits; gate count against powers of two, wiring patterns and public-input positions are not varied.",
 ["plonk/src/lib.rs", "plonk/src/composer", "plonk/src/ahp"], [("Composer", "plonk/src/composer"), ("prover rounds", "plonk/src/ahp/prover.rs"), ("permutation", "plonk/src/composer/permutation.rs")])
prop("P16", "PLONK: nothing but valid proofs is accepted",
 "The PLONK verifier never accepts a proof for wire values that violate a gate or a copy constraint, a proof checked against other public inputs or another circuit's key, or a proof in which commitments, evaluations or openings were altered so that one of the verification equations fails.",
 ["inputs", "fault_sequences"], "all circuits as above, all violated gates and copies, all alterations of proof elements",
 "Tests never submit an invalid proof.",
 ["plonk/src/lib.rs", "plonk/src/ahp/verifier.rs", "plonk/src/ahp/indexer"], [("verify", "plonk/src/lib.rs"), ("equality check", "plonk/src/ahp/verifier.rs")])
prop("P21", "Libra: circuit evaluation and honest GKR proofs",
 "For every layered arithmetic circuit, Circuit::evaluate computes each layer from the add/mul gates over inputs and witnesses, and both the plain LinearGKRProof and the ZKLinearGKRProof produced for those values verify against the circuit, public inputs and outputs.",
 ["inputs", "configurations"], "all layered circuits (depth, widths, gate kinds, fan-out, input/witness split) up to the bound, all values",
 "Tests run one circuit shape with equal numbers of inputs and witnesses.",
 ["libra/src/circuit.rs", "libra/src/evaluate.rs", "libra/src/sumcheck.rs", "libra/src/libra_linear_gkr.rs", "libra/src/libra_zk_linear_gkr.rs"],
 [("Circuit::evaluate", "libra/src/circuit.rs"), ("phase one/two sum-check", "libra/src/sumcheck.rs")])
prop("P22", "Libra: wrong outputs, inputs, circuits and altered proofs rejected",
 "Neither the plain nor the zero-knowledge Libra verifier accepts outputs or public inputs that differ from the circuit's evaluation, a proof made for another circuit, or a proof in which elements were altered so that a verification equation fails.",
 ["inputs", "fault_sequences"], "all circuits as above, all wrong statements, all alterations of proof elements",
 "Tests never submit an invalid proof.",
 ["libra/src/libra_linear_gkr.rs", "libra/src/libra_zk_linear_gkr.rs", "libra/src/sumcheck.rs", "libra/src/commitment.rs"],
 [("LinearGKRProof::verify", "libra/src/libra_linear_gkr.rs"), ("ZKLinearGKRProof::verify", "libra/src/libra_zk_linear_gkr.rs")])
prop("P23", "Hyrax: data-parallel circuit evaluation and honest proofs",
 "For every layered circuit with power-of-two layers and every number of copies N = 2^k >= 2, HyraxProof::prover computes the circuit's outputs for each copy and its proof verifies against those inputs and outputs.",
 ["inputs", "configurations"], "all layered circuits and copy counts up to the bound, all values",
 "Tests run one circuit with two copies.",
 ["hyrax/src/circuit.rs", "hyrax/src/evaluate.rs", "hyrax/src/zk_sumcheck_proof.rs", "hyrax/src/hyrax_proof.rs"],
 [("Circuit::evaluate", "hyrax/src/circuit.rs"), ("ZkSumcheckProof", "hyrax/src/zk_sumcheck_proof.rs")])
prop("P24", "Hyrax: wrong outputs, inputs, circuits and altered proofs rejected",
 "HyraxProof::verify never accepts outputs or public inputs that differ from the circuit's evaluation in any copy, a proof made for another circuit, or a proof in which elements were altered so that a verification equation fails.",
 ["inputs", "fault_sequences"], "all circuits as above, all wrong statements, all alterations of proof elements",
 "Tests never submit an invalid proof.",
 ["hyrax/src/hyrax_proof.rs", "hyrax/src/zk_sumcheck_proof.rs", "hyrax/src/commitment.rs"],
 [("HyraxProof::verify", "hyrax/src/hyrax_proof.rs"), ("ZkSumcheckProof::verify", "hyrax/src/zk_sumcheck_proof.rs")])
prop("P25", "aSVC: commitments, proofs, updates and aggregation stay consistent",
 "For every history of commit, prove_pos, update_commit, update_proof and aggregate_proofs over a vector, an (aggregated) proof verifies against the current commitment exactly when the claimed values are the vector's current values at those positions, and proofs updated for changes at any position equal freshly made ones; wrong values, positions, commitments or update keys are rejected.",
 ["histories"], "all histories of updates and openings over vectors of every size up to the bound",
 "Tests run a single update; the guarantee is about arbitrary sequences of updates at equal and different positions and any subset of positions.",
 ["asvc/src/lib.rs"], [("commit / update / prove / aggregate / verify", "asvc/src/lib.rs")], state=["vector, commitment, per-position proofs"])
prop("P26", "Fiat-Shamir challenges depend on the whole transcript so far",
 "In every non-interactive proof system (Marlin, PLONK, Spartan, Bulletproofs, Libra, Hyrax), each verifier challenge changes whenever the public inputs or outputs, or any prover message sent before it in the protocol, other than the final response of a sub-proof, is changed, and prover and verifier derive the same challenges.",
 ["inputs", "fault_sequences"], "all prover messages and statement components, all challenges",
 "Functional tests see only that prover and verifier agree; leaving a message out on both sides keeps every test passing and makes the argument forgeable.",
 ["marlin/src/lib.rs", "marlin/src/fs_rng.rs", "plonk/src/lib.rs", "plonk/src/rng.rs", "spartan/src/verify.rs", "spartan/src/prover.rs", "bulletproofs/src/arithmetic_circuit.rs", "libra/src", "hyrax/src"],
 [("FiatShamirRng::absorb", "marlin/src/fs_rng.rs, plonk/src/rng.rs"), ("merlin transcripts", "spartan, bulletproofs, libra, hyrax")])
prop("P27", "Proof and key bytes round-trip",
 "Every proof, key and parameter type that supports serialization (Groth16, Marlin, PLONK, Spartan, Bulletproofs, Libra, Hyrax, R1CS variables) deserializes from its own bytes, in each of the compressed, uncompressed and unchecked forms and anywhere in a stream of objects, to an object that verifies, proves and re-serializes identically, consumes exactly its own bytes (as many as its announced size), different objects have different bytes, and truncated bytes are an error rather than a different object.",
 ["inputs"], "all serializable objects produced from the explored circuits, every truncation point sampled",
 "Tests serialize one proof at most and never compare behaviour after the round trip.",
 ["groth16/src/lib.rs", "marlin/src/data_structures.rs", "marlin/src/pc/data_structures.rs", "spartan/src/data_structure.rs", "bulletproofs/src/lib.rs", "r1cs/src/constraint_system.rs"],
 [("CanonicalSerialize derives and manual impls", "groth16/src/lib.rs, marlin/src, spartan/src/data_structure.rs, bulletproofs/src/lib.rs")])
prop("P28", "Parallel and sequential builds compute the same",
 "With the same randomness, the default build and the build with the 'parallel' feature produce byte-identical keys, commitments and proofs and the same verdicts for Groth16, Marlin, PLONK, Spartan, Bulletproofs, Libra, Hyrax and aSVC.",
 ["configurations", "schedules"], "both feature configurations, all explored inputs, all thread counts",
 "The test suite only runs one of the two configurations, and thread-dependent chunking never shows in a single run.",
 ["groth16/src", "marlin/src", "plonk/src", "asvc/src", "spartan/src", "bulletproofs/src"],
 [("cfg(feature = parallel) code paths", "groth16/src/prover.rs, marlin/src/pc, plonk/src/utils.rs, asvc/src")])
prop("P29", "Proofs are blinded with fresh randomness",
 "Groth16, Spartan, Bulletproofs, ZK-Libra and Hyrax proofs are randomised: the published witness-dependent commitments are, over the prover's randomness, distributed independently of the witness, and no blinding factor is reused or fixed.",
 ["inputs"], "all prover randomness over a small field, pairs of witnesses for the same statement",
 "Hiding is a statement about distributions; unit tests look at single proofs.",
 ["groth16/src/prover.rs", "spartan/src/prover.rs", "bulletproofs/src/arithmetic_circuit.rs", "libra/src/commitment.rs", "hyrax/src/commitment.rs"],
 [("r, s blinding", "groth16/src/prover.rs"), ("Pedersen blinders", "spartan, bulletproofs, libra, hyrax")])
prop("P30", "Marlin polynomial commitments open only to true evaluations",
 "For every set of committed polynomials (any degree up to the supported one, with and without degree bounds and hiding), and query sets with one or several points, batch openings of the true values verify and openings of any other value, commitment, point or degree bound do not.",
 ["inputs", "configurations"], "all polynomial sets, degree bounds, query sets and altered claims up to the bound",
 "Tests only reach the commitment scheme through whole Marlin proofs.",
 ["marlin/src/pc/mod.rs", "marlin/src/pc/kzg10.rs", "marlin/src/pc/data_structures.rs"],
 [("open / check", "marlin/src/pc/kzg10.rs"), ("batch_open / batch_check", "marlin/src/pc/mod.rs")])
prop("P31", "The CLI's setup, prove and verify files tell the truth",
 "For every order of the setup, zkp-prove and zkp-verify commands over every scheme (groth16, bulletproofs, Spartan NIZK and SNARK) and the mini and hash circuits, with files copied, edited, mixed and deleted in between, zkp-prove writes a proof file recording the statement exactly when it can prove it, and zkp-verify reports true exactly for a proof file made with the setup files in place, for a true statement and the statement recorded in the file.",
 ["histories", "fault_sequences"], "all command sequences up to the bound, altered, mixed and stale files",
 "No test runs the command-line tools.",
 ["cli/src/setup.rs", "cli/src/zkp_prove.rs", "cli/src/zkp_verify.rs", "cli/src/circuits"],
 [("setup / prove / verify file formats", "cli/src")])
prop("P32", "The Curve25519 wrapper is a prime-order group",
 "Curve25519Point and its Fr behave as a group of prime order with Fr as scalars: after every sequence of additions, subtractions, negations, doublings, sums, scalar and multi-scalar multiplications (lists of different lengths are cut to the shorter), conversions and normalizations of points, and of field operations on scalars, two results are equal (by ==, by bytes and by hash) exactly when their discrete logarithms are; scalars are written as their canonical 32 bytes and points as ristretto255 encodings, both read back to the same value in every form, and bytes that are not canonical are refused; square roots and quadratic characters of scalars are right.",
 ["inputs"], "all sequences of group operations, boundary scalars included",
 "Tests check a few operations on single values.",
 ["curve25519/src/group.rs", "curve25519/src/fr.rs", "curve/src/lib.rs"],
 [("group operations and MSM", "curve25519/src/group.rs"), ("field parameters", "curve25519/src/fr.rs")])
prop("P33", "ckb-contracts unlock exactly for proofs of the public statement",
 "Each on-chain verifier contract (Groth16, Bulletproofs, Spartan NIZK and SNARK, Marlin, Libra, Hyrax, PLONK) compiles against the library and exits with 0 exactly when the first three output cells of the transaction are a verification key (for Libra and Hyrax the parameters), a proof and public values such that the proof was made with a genuine witness, under this key, for the circuit of the key (for Bulletproofs, Libra and Hyrax: the circuit written in the contract) and for these public values. It agrees with the library's verifier on the same bytes, and a missing cell, a cell of another kind, bytes cut short and values of another statement, key or circuit all end in a nonzero exit code.",
 ["inputs"], "all transactions",
 "The contracts' own tests need a RISC-V build and a CKB VM, and are not part of the workspace.",
 ["ckb-contracts/contracts"], [("contract entry points", "ckb-contracts/contracts/universal_groth16_verifier/src/entry.rs"), ("contract circuit", "ckb-contracts/contracts/mini_libra_zk_linear_gkr_verifier/src/entry.rs")])
prop("P34", "Parameter generation leaves no usable relation",
 "The parameters every setup publishes have the documented form and admit no relation that holds whatever the coins were: the elements of each commitment key (Spartan NIZK and SNARK, Libra, Hyrax, the generators of Bulletproofs, the powers of Marlin's universal SRS, the aSVC's position elements, Groth16's input elements even where a circuit ignores its inputs) are linearly independent over the draws, so nobody without the coins can open a commitment, or a statement's inputs, in two ways; the secrets of Groth16 (t, alpha, beta, gamma, delta and both generators), of the KZG SRS and of the aSVC are drawn without any linear or quadratic relation between them; Groth16 publishes exactly the evaluations of the circuit's quadratic program at t, the inputs' over gamma only and the witness' over delta only.",
 ["inputs", "randomness"], "all circuits, sizes and coins",
 "Tests run a setup with one seed and only see that an honest proof verifies.",
 ["groth16/src/generator.rs", "spartan/src/setup.rs", "libra/src/params.rs", "hyrax/src/params.rs", "bulletproofs/src/arithmetic_circuit.rs", "marlin/src/pc/kzg10.rs", "asvc/src/lib.rs"],
 [("Groth16 generator", "groth16/src/generator.rs"), ("QAP", "groth16/src/r1cs_to_qap.rs"), ("KZG SRS", "marlin/src/pc/kzg10.rs"), ("Pedersen generators", "libra/src/params.rs")])
prop("P35", "Digests of circuits and parameters bind them",
 "The digests that stand for the circuit, the parameters and the encoded circuit in the transcripts of Spartan, Libra and Hyrax (r1cs_to_hash, circuit_to_hash, param_to_hash, encode_to_hash) are functions of the contents (also after a round trip through bytes) and bind them: two constraint systems that differ in any linear combination, in the order or boundaries of their rows or in the numbers of inputs, witnesses or constraints, two layered circuits that differ in any gate's operation or operands, in the boundaries of their layers or the size of the input layer, two parameter sets or two encodings that differ in any group element or size have different digests.",
 ["inputs"], "all circuits, parameter sets and encodings, all single edits of them",
 "Tests compute one digest and use it on both sides; one that leaves out a matrix, an operand or the boundary between rows keeps every proof verifying.",
 ["spartan/src/r1cs.rs", "spartan/src/data_structure.rs", "libra/src/circuit.rs", "libra/src/params.rs", "hyrax/src/circuit.rs", "hyrax/src/params.rs"],
 [("R1CSInstance::r1cs_to_hash", "spartan/src/r1cs.rs"), ("param_to_hash, encode_to_hash", "spartan/src/data_structure.rs"), ("Circuit::circuit_to_hash", "libra/src/circuit.rs, hyrax/src/circuit.rs"), ("Parameters::param_to_hash", "libra/src/params.rs, hyrax/src/params.rs")])
P.sort(key=lambda p: p["id"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
