#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long lines stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": observe, "hook_needed": None}})

prop("C01", "Native hashes compute Poseidon377 for every input at every rate",
     "For each rate n from 1 to 7, hashing n field elements under a domain separator returns, for every domain separator and every tuple of elements (including zero and boundary values), the second word of the Poseidon permutation of [separator, values in order] with the published instance (t = n+1, x^17, 8 full and 31 partial rounds, Cauchy MDS matrix, transcript-derived round constants). It never panics, and the result is the same in every feature configuration and build profile.",
     ["inputs", "configurations"],
     "all 2..8 field elements in Fq (about 2^253 values each), rates 1-7, feature sets (no features, default, r1cs, all) and dev/release profiles",
     "The tests compare one fixed vector for rates 1-6 and none for rate 7, in one build configuration; a change that only shows for special inputs, for rate 7, or in another configuration passes them.",
     ["poseidon377/src/hash.rs", "poseidon377/src/lib.rs", "poseidon377/src/params/", "poseidon-permutation/src/permutation.rs"],
     [("input word order, rate selection, output word 1", "poseidon377/src/hash.rs hash_1..hash_7, poseidon-permutation/src/permutation.rs n_to_1_fixed_hash"),
      ("optimised permutation", "poseidon-permutation/src/permutation.rs permute")],
     ["poseidon377::hash_1 .. hash_7"])
prop("C02", "Optimised and plain evaluation of the shipped instances agree",
     "For every shipped instance (rates 1-7) and every input state, the optimised evaluation and the unoptimised evaluation return the same hash and leave the same complete output state, word for word.",
     ["inputs"],
     "all input states in Fq^t for t = 2..8, all t output words",
     "Tests compare only the single returned word on a handful of random states for some rates; agreement for every state and of the other words is never observed.",
     ["poseidon-permutation/src/permutation.rs", "poseidon377/src/params/"],
     [("round-constant migration through the partial rounds and sparse matrix factorisation", "poseidon-permutation/src/permutation.rs permute, sparse_mat_mul, mix_layer_mi; optimized_arc, M_i, v_collection, w_hat_collection in poseidon377/src/params/rate_*.rs")],
     ["Instance::n_to_1_fixed_hash", "Instance::unoptimized_n_to_1_fixed_hash", "Instance::output_words"])
prop("C03", "Plain permutation is textbook Poseidon for arbitrary parameters",
     "For any parameter set (any width, even number of full rounds, number of partial rounds, S-box exponent or inverse S-box, round constants and mixing matrix, symmetric or not), the unoptimised hash applies exactly R_F/2 full rounds, R_P partial rounds and R_F/2 full rounds, each adding that round's constants in order, applying the S-box (to the first word only in partial rounds) and multiplying the state by the matrix on the left, and returns word 1. It is total: the inverse S-box maps zero to zero rather than failing.",
     ["inputs", "configurations"],
     "all input states, all matrix entries and round constants; widths 2-12, several (R_F, R_P), exponents and the inverse S-box",
     "Every test uses alpha = 17, 8/31 rounds, the shipped (symmetric!) matrices; transposition, exponent and round-count mistakes and the inverse S-box are never exercised.",
     ["poseidon-permutation/src/permutation.rs", "poseidon-parameters/src/alpha.rs", "poseidon-parameters/src/round_numbers.rs"],
     [("unoptimised permutation", "poseidon-permutation/src/permutation.rs unoptimized_permute, full_sub_words, partial_sub_words, mix_layer_mds")],
     ["Instance::unoptimized_n_to_1_fixed_hash", "Instance::output_words"])
prop("C04", "Optimised permutation is equivalent to the plain one for any parameters",
     "For any parameter set whose optimised constants and matrices are derived from the plain ones by the published equivalence (constants pushed through the partial rounds, mixing matrix factored into a dense and sparse parts), the optimised hash returns the same value and leaves the same state as plain Poseidon, for every input state, matrix shape and round count. More generally it applies exactly the published optimised schedule to whatever optimised parameters it is given.",
     ["inputs", "configurations"],
     "all input states and (for the schedule) all optimised-parameter values; widths 2-12, several (R_F, R_P), S-boxes; derived parameters for non-symmetric matrices",
     "Tests only run the optimised path on the shipped parameters, where the matrix is symmetric and the round counts are fixed.",
     ["poseidon-permutation/src/permutation.rs", "poseidon-parameters/src/mds_matrix.rs", "poseidon-parameters/src/arc_matrix.rs"],
     [("optimised schedule", "poseidon-permutation/src/permutation.rs permute, sparse_mat_mul, mix_layer_mi, mix_layer_mds")],
     ["Instance::n_to_1_fixed_hash", "Instance::output_words"])
prop("C05", "Hash instances carry no state from one call to the next",
     "After any sequence of optimised and unoptimised hash calls on one instance, the next call returns exactly what a fresh instance would return for the same input, and reading the output words yields exactly that call's complete final state. Calls do not modify their input or the parameters, and a new instance starts from the all-zero state.",
     ["histories", "inputs"],
     "all call sequences up to the stated length over {optimised, unoptimised, read, new}, with all inputs of every call symbolic",
     "Every test builds a new instance for each hash; leftovers of an earlier call are never observable.",
     ["poseidon-permutation/src/permutation.rs", "poseidon377/src/hash.rs"],
     [("state is overwritten by the input words", "poseidon-permutation/src/permutation.rs n_to_1_fixed_hash, unoptimized_n_to_1_fixed_hash, output_words")],
     ["Instance::n_to_1_fixed_hash", "Instance::unoptimized_n_to_1_fixed_hash", "Instance::output_words"],
     [("state_words", "permutation state kept in the instance", "poseidon-permutation/src/permutation.rs")])
prop("C06", "Hash gadgets are complete and agree with the native hash",
     "For every rate 1-7, every choice of inputs and every way of allocating each of them, the domain separator included (constant, witness, public input, linear combination), synthesising the hash gadget succeeds, the honest assignment satisfies every constraint, and the value carried by the result equals the native hash of the same inputs.",
     ["inputs", "configurations"],
     "all input values in Fq^(n+1), rates 1-7, allocation modes per input",
     "The circuit tests prove a few random preimages with a constant domain separator; other allocation modes and special values are never synthesised.",
     ["poseidon377/src/r1cs.rs", "poseidon-permutation/src/r1cs.rs"],
     [("in-circuit permutation", "poseidon-permutation/src/r1cs.rs n_to_1_fixed_hash, permute"), ("input word order", "poseidon377/src/r1cs.rs hash_1..hash_7")],
     ["poseidon377::r1cs::hash_1 .. hash_7", "ConstraintSystem::is_satisfied", "FqVar::value"])
prop("C07", "Hash gadgets are sound: constraints determine the output",
     "For every rate 1-7 and allocation of the inputs (the domain separator included), every assignment of the witness variables that satisfies the gadget's constraints gives the result variable exactly the native hash of the values assigned to the input variables; no prover-chosen witness can make the result anything else.",
     ["inputs", "configurations"],
     "all satisfying assignments (adversarial witnesses), all input values, rates 1-7, allocation modes",
     "A test can try honest witnesses or a few bad ones; under-constrained variables are invisible to honest proofs.",
     ["poseidon377/src/r1cs.rs", "poseidon-permutation/src/r1cs.rs"],
     [("every S-box output is enforced by multiplication constraints", "poseidon-permutation/src/r1cs.rs partial_sub_words, full_sub_words"), ("linear layers stay symbolic linear combinations", "poseidon-permutation/src/r1cs.rs mix_layer_mds")],
     ["poseidon377::r1cs::hash_1 .. hash_7", "ConstraintSystem::to_matrices"])
prop("C08", "Hash circuits have a shape independent of values and synthesis mode",
     "For every rate and allocation of the inputs, the constraint matrices and variable counts produced by the hash gadgets are identical in setup mode (no values known) and in proving mode for every assignment of the allocated inputs, so one proving key serves all inputs. The gadgets allocate no public inputs of their own, and a hash of constants only adds no constraints and is usable without a constraint system.",
     ["inputs", "configurations"],
     "all values of allocated inputs, both synthesis modes, rates 1-7, allocation modes",
     "Tests run setup and proving on one allocation mode and a few values.",
     ["poseidon377/src/r1cs.rs", "poseidon-permutation/src/r1cs.rs"],
     [("no value-dependent branches in the gadget", "poseidon-permutation/src/r1cs.rs permute")],
     ["ConstraintSystem::to_matrices", "ConstraintSystem::num_instance_variables"])
prop("C09", "Permutation gadget matches plain Poseidon for arbitrary parameters",
     "For any parameter set with an exponent S-box (any width, round counts, exponent, constants and mixing matrix, symmetric or not) and any allocation of the state words, the permutation gadget is satisfiable by the honest assignment and its constraints force every word of its final state, and the word it returns, to equal the unoptimised native permutation of the same state.",
     ["inputs", "configurations"],
     "all states, matrix entries and round constants (as values), all satisfying assignments; widths 2-8, several round counts and exponents",
     "The circuit is only ever synthesised with the shipped parameters and only word 1 is looked at.",
     ["poseidon-permutation/src/r1cs.rs"],
     [("in-circuit permutation", "poseidon-permutation/src/r1cs.rs permute, mix_layer_mds, full_sub_words, partial_sub_words")],
     ["InstanceVar::n_to_1_fixed_hash", "InstanceVar::permute", "InstanceVar::state_words"])
prop("C10", "Matrix arithmetic is exact over the field",
     "For all matrices of the supported shapes, matrix products (rectangular and square), transposes, Hadamard products, scalar multiples and identities equal their mathematical definitions entry by entry over Fq, for the plain, square, MDS and round-constant matrix types alike.",
     ["inputs"],
     "all matrix entries in Fq; square sizes 1-8 and a set of rectangular shapes",
     "Tests multiply a few small concrete, mostly square or symmetric matrices.",
     ["poseidon-parameters/src/matrix.rs", "poseidon-parameters/src/matrix_ops.rs", "poseidon-parameters/src/arc_matrix.rs", "poseidon-parameters/src/mds_matrix.rs"],
     [("products via transposed rows and dot products", "poseidon-parameters/src/matrix.rs mat_mul, square_mat_mul; matrix_ops.rs dot_product"), ("transpose", "poseidon-parameters/src/matrix.rs transpose")],
     ["mat_mul", "square_mat_mul", "transpose", "hadamard_product", "Mul<Fq>", "SquareMatrixOperations::identity"])
prop("C11", "Determinants, minors and cofactor signs are exact for sizes 1 to 8",
     "For every square matrix of size 1 to 8, the determinant equals the Leibniz determinant, entry (i,j) of the matrix of minors equals the determinant of the matrix with row i and column j removed (1 for a 1x1 matrix), and entry (i,j) of the cofactor sign matrix equals (-1)^(i+j).",
     ["inputs"],
     "all matrix entries in Fq, sizes 1-8",
     "Tests check determinants of a few concrete matrices; minors above size 3 and non-singular determinants above size 3 are not checked against anything.",
     ["poseidon-parameters/src/matrix.rs"],
     [("Laplace expansion", "poseidon-parameters/src/matrix.rs determinant, minor_matrix, SquareMatrixOperations for SquareMatrix")],
     ["SquareMatrixOperations::determinant", "SquareMatrixOperations::minors", "SquareMatrixOperations::cofactors"])
prop("C12", "Matrix inversion succeeds exactly for nonsingular matrices and is right",
     "For every square matrix of size 1 to 8, inversion returns a matrix whose product with the original is the identity if the determinant is nonzero, and returns an error (not a panic, not a wrong matrix) if the determinant is zero.",
     ["inputs"],
     "all matrix entries in Fq, sizes 1-8 (fully symbolic for small sizes, symbolic rows above), singular and nonsingular",
     "Tests invert a few concrete and random matrices of small sizes; singular inputs of most sizes and the 1x1 case are not tried.",
     ["poseidon-parameters/src/matrix.rs", "poseidon-parameters/src/error.rs"],
     [("adjugate over determinant, zero-determinant error", "poseidon-parameters/src/matrix.rs SquareMatrix::inverse")],
     ["SquareMatrixOperations::inverse"])
prop("C13", "Matrix storage is row-major and element access is consistent",
     "For every matrix type and shape, element (i,j) is the (i*columns+j)-th of the elements it was built from; writing (i,j) changes exactly that element; row iteration, row vectors and reported dimensions agree with element access; two matrices are equal exactly when all their elements are; and construction from the wrong number of elements is refused.",
     ["inputs"],
     "all elements, all indices, the supported shapes and element-count mismatches",
     "Tests read a handful of elements of small matrices; writes, row vectors and the wrapper types are hardly touched.",
     ["poseidon-parameters/src/matrix.rs", "poseidon-parameters/src/arc_matrix.rs", "poseidon-parameters/src/mds_matrix.rs", "poseidon-parameters/src/matrix_ops.rs"],
     [("row-major index arithmetic", "poseidon-parameters/src/matrix.rs get_element, set_element; matrix_ops.rs iter_rows"), ("row extraction", "poseidon-parameters/src/matrix.rs row_vector")],
     ["MatrixOperations", "Matrix::row_vector", "SquareMatrix::row_vector"])
prop("C14", "MDS decomposition returns the right blocks of the matrix",
     "For every MDS matrix M of width 2 to 8, v is the first row without its first entry, w the first column without its first entry, hat the matrix without first row and column, transpose the transposed matrix, and inverse the matrix inverse of M; these hold for non-symmetric M too.",
     ["inputs"],
     "all matrix entries in Fq (symbolic), widths 2-8",
     "The shipped MDS matrices are symmetric, so tests on them cannot tell rows from columns.",
     ["poseidon-parameters/src/mds_matrix.rs"],
     [("block extraction", "poseidon-parameters/src/mds_matrix.rs v, w, hat, transpose, inverse, from_elements, new_from_known")],
     ["MdsMatrix::v", "MdsMatrix::w", "MdsMatrix::hat", "MdsMatrix::transpose", "MdsMatrix::inverse"])
prop("C15", "Shipped mixing matrices are MDS (optimal diffusion)",
     "For each shipped instance of width t, any nonzero input vector together with its image under the mixing matrix has at least t+1 nonzero words; equivalently every square submatrix of the mixing matrix is nonsingular.",
     ["inputs"],
     "all nonzero vectors in Fq^t, t = 2..8",
     "Branch number quantifies over all vectors; tests only check that the matrices equal a stored table or are invertible.",
     ["poseidon377/src/params/", "poseidon-parameters/src/mds_matrix.rs"],
     [("Cauchy matrix", "poseidon377/src/params/rate_*.rs mds")],
     ["RATE_n_PARAMS.mds"])
prop("C16", "Shipped parameters are the published ones and internally consistent",
     "Every shipped parameter set is exactly the one determined by its defining procedure: security level, exponent, round numbers, Cauchy mixing matrix, transcript-derived round constants, and all optimised matrices and constants derived from them (including inverses, blocks and the dense/sparse factors). Every stored field element is in canonical form.",
     ["configurations", "inputs"],
     "every constant of every rate 1-7, every optimised field; for the inverse/factor identities, all vectors",
     "Tests compare some outputs on one vector per rate; fields that hashing does not read, rate 7 and representation errors that cancel in one vector are not covered.",
     ["poseidon377/src/params/", "poseidon-parameters/src/v1.rs", "poseidon-parameters/src/mds_matrix.rs", "poseidon377/src/lib.rs"],
     [("embedded constants", "poseidon377/src/params/rate_1.rs .. rate_7.rs")],
     ["RATE_1_PARAMS .. RATE_7_PARAMS"])
prop("C17", "Shipped permutations are bijective on the state space",
     "For each shipped instance, under both the optimised and the unoptimised evaluation, two different input states never lead to the same output state.",
     ["inputs"],
     "all pairs of states in Fq^t, t = 2..8",
     "Injectivity quantifies over all pairs of states; tests sample single outputs.",
     ["poseidon-permutation/src/permutation.rs", "poseidon377/src/params/"],
     [("every layer is invertible: constants, x^17 with gcd(17, p-1) = 1, nonsingular matrices", "poseidon-permutation/src/permutation.rs")],
     ["Instance::n_to_1_fixed_hash", "Instance::unoptimized_n_to_1_fixed_hash", "Instance::output_words"])
prop("C18", "S-box and round-number descriptors encode and report faithfully",
     "For every exponent, its byte encoding is the 4-byte little-endian exponent and its floating-point value is the exponent exactly; the inverse S-box encodes as minus one in both; distinct exponents have distinct encodings. For all round numbers, the accessors report the stored counts, the mutable accessors change exactly the count they name, and the total is the sum of full and partial rounds.",
     ["inputs"],
     "all 2^32 exponents and the inverse S-box, all round-number pairs whose sum does not overflow",
     "No test looks at these encodings beyond alpha = 17.",
     ["poseidon-parameters/src/alpha.rs", "poseidon-parameters/src/round_numbers.rs"],
     [("encodings", "poseidon-parameters/src/alpha.rs to_bytes_le, From<Alpha> for f64"), ("accessors", "poseidon-parameters/src/round_numbers.rs")],
     ["Alpha::to_bytes_le", "f64::from(Alpha)", "RoundNumbers"])
prop("C19", "Parameter generation as a whole is deterministic and meets the attack bounds",
     "Generating parameters twice from the same inputs gives the same parameters; the attack bounds are the published formulas and the cheapest candidate that meets them is chosen; the mixing matrix is MDS; the optimised parameters are derived from the plain ones.",
     ["inputs", "configurations"],
     "all field moduli, widths, security levels",
     "The generator is excluded from the workspace and does not compile at this commit, so no test runs it.",
     ["poseidon-paramgen/src/"],
     [("generation", "poseidon-paramgen/src/v1.rs, round_constants.rs, rounds.rs, mds.rs, appendix_g.rs")],
     ["poseidon_paramgen::v1::generate"])
prop("C20", "The round-constant transcript records the published description, binding it",
     "Before any round constant is drawn, the generator's transcript is given exactly the published messages in the published order: domain label, width, security level, modulus, numbers of full and partial rounds, S-box encoding. So two instances that differ in any of these (round numbers below 256) are recorded differently, and two that agree in all of them are recorded alike, whatever else differs.",
     ["inputs"],
     "all widths and security levels, all four-limb moduli, all exponents and the inverse S-box, round numbers below 256; all pairs of instances",
     "poseidon-paramgen is excluded from the workspace, so none of its tests run; binding quantifies over all pairs of instances.",
     ["poseidon-paramgen/src/transcript.rs", "poseidon-parameters/src/alpha.rs"],
     [("domain separation", "poseidon-paramgen/src/transcript.rs TranscriptProtocol::domain_sep")],
     ["messages appended to the merlin transcript"])
prop("C21", "Round-number candidates are judged, costed and margined as published",
     "With an exponent S-box, a candidate (R_F, R_P) is accepted exactly when R_F reaches the statistical-attack bound and R_F + R_P exceeds both the interpolation and the Groebner-basis bound (for Poseidon2, when moreover the improved Groebner-basis attack is not possible), whatever these bounds are; its cost is t R_F + R_P; the margin applied adds exactly 2 to R_F and 7.5% to R_P, rounded up.",
     ["inputs"],
     "all candidates with counts below 2^16 and all values of the attack bounds; margins for R_P below 400",
     "poseidon-paramgen is excluded from the workspace, so none of its tests run; off-by-one errors show only at candidates on a bound.",
     ["poseidon-paramgen/src/rounds.rs"],
     [("acceptance", "poseidon-paramgen/src/rounds.rs is_secure_v1, is_secure_v2"), ("margin and cost", "poseidon-paramgen/src/rounds.rs apply_security_margin, sbox_count")],
     ["RoundNumbersBuilder"])
prop("C22", "The exponent generated is admissible and the cheapest one",
     "For every modulus p, the S-box exponent selected is the first number coprime to p - 1, so that the S-box is a bijection, in the published order: shortest addition chain first, larger numbers first among chains of equal length, up to length seven; if there is none, it is the inverse S-box when that is allowed.",
     ["inputs"],
     "all moduli, represented by which of the 13 odd primes that matter divide p - 1; inverse allowed or not",
     "poseidon-paramgen is excluded from the workspace, so none of its tests run, and they try three moduli out of 8192 kinds.",
     ["poseidon-paramgen/src/alpha.rs"],
     [("selection", "poseidon-paramgen/src/alpha.rs generate"), ("order of candidates", "poseidon-paramgen/src/alpha.rs SHORTEST_ADDITION_CHAINS, depths_in_order")],
     ["return value of alpha::generate"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
