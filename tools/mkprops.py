import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
S="packages/Spartan-secq/src/"
K="packages/"
Q="packages/secq256k1/src/"
C="packages/circuits/"
L="packages/lib/src/"
p("C01","Proof-system scalars are exactly the integers mod p = 2^256-2^32-977",
 "Every arithmetic operation offered on a proof-system scalar (addition, subtraction, negation, doubling, multiplication, squaring, powers, inversion, batch inversion, sums and products, conversion from integers of any width, equality, conditional selection, in every by-value, by-reference and assigning form) returns the residue that exact integer arithmetic modulo p returns. Results do not depend on how an operand was produced: two scalars are equal exactly when their residues are. Inverting zero reports absence instead of a value.",
 ["inputs","histories"],"All operand values including limb-boundary and reduction-boundary ones, and all chains of operations feeding results back in.",
 "The 21 unit tests use a handful of fixed values (largest, R, R2, small repeats); carries, borrows and reductions for other limb patterns and long chains are never compared with an independent model.",
 [S+"scalar/scalar.rs"],[("Montgomery multiplication, squaring, reduction and conditional subtraction",S+"scalar/scalar.rs"),("big-integer based inversion and batch inversion",S+"scalar/scalar.rs")],["return values of the public scalar operations"])
p("C02","Scalar byte encodings are canonical, unique and lossless",
 "A scalar encodes to the 32-byte little-endian form of its residue, and decoding accepts a 32-byte string exactly when it denotes an integer below p and then yields that residue. Serialising and deserialising a scalar returns it unchanged, the 64-byte wide decoding is reduction modulo p of the whole 512-bit integer, and the textual form shows the canonical value. A truncated serialised scalar is reported as an error and never yields a value or aborts the process.",
 ["inputs"],"All 32-byte and 64-byte strings, dense around p, 2p-multiples, limb boundaries and all-ones; all truncations.",
 "Tests decode six byte strings and never round-trip serde or probe values around the modulus limb by limb.",
 [S+"scalar/scalar.rs",S+"scalar/mod.rs"],[("borrow-based canonicity test in byte decoding",S+"scalar/scalar.rs"),("serde visitor",S+"scalar/scalar.rs")])
p("C03","Circom constraint files are decoded faithfully",
 "Decoding a well-formed circom R1CS file yields exactly the header numbers, the constraints (every linear combination with its wire indices and coefficients, in order) and the wire-to-label map it contains, and the derived counts of public, auxiliary and total wires agree with the header. The order of the file's sections, unknown extra sections, and an unbuffered or chunked reader make no difference.",
 ["inputs"],"All well-formed files: any section order, extra sections, sizes, empty linear combinations, repeated wires and coefficient values.",
 "There is no test of the reader at all; the only sample is one checked-in file with a fixed section order.",
 ["packages/circuit_reader/src/circom_reader.rs"],[("section scan and per-section readers","packages/circuit_reader/src/circom_reader.rs")])
p("C04","Malformed constraint files never decode to a circuit",
 "A constraint file with a wrong magic, an unsupported version, a missing mandatory section, a header whose size disagrees with its field size, a field size other than 32 bytes, a wire map of the wrong size or with wire 0 mapped elsewhere, or that is truncated inside a mandatory section, never decodes to a circuit. A non-canonical coefficient never decodes to a circuit either.",
 ["inputs","fault_sequences"],"All single structural corruptions and all truncation points of well-formed files, and readers failing at any byte.",
 "No test feeds the reader a malformed file.",
 ["packages/circuit_reader/src/circom_reader.rs"],[("validation of magic, version, section sizes, map","packages/circuit_reader/src/circom_reader.rs")])
p("C05","A converted circuit accepts exactly what the circom circuit accepts",
 "The proving instance obtained from a circom constraint file is satisfied by a full wire assignment and a public-input vector exactly when the wire assignment satisfies every constraint of the file, its constant wire is one, and its public wires equal the given public inputs. The command-line converter writes the same instance, and reading it back loses nothing.",
 ["inputs","programs"],"All constraint systems and wire assignments, satisfying or violating any single constraint, and all public-input vectors.",
 "The only end-to-end test uses one checked-in instance and one satisfying witness; it never offers a witness that violates the circuit or disagrees with the public inputs.",
 ["packages/circuit_reader/src/lib.rs","packages/circuit_reader/src/bin/gen_spartan_inst.rs",S+"lib.rs",S+"r1csinstance.rs"],[("mapping of circom wires to instance columns and binding rows","packages/circuit_reader/src/lib.rs")])
p("C06","The satisfaction oracle decides the stated constraint system",
 "For any constraint matrices, an instance reports satisfied exactly when (A z)(B z) = (C z) holds on every row for z made of the given variables (missing ones zero), the constant one and the inputs; assignments of impossible length are refused. Entries with an out-of-range row or column or a non-canonical coefficient are refused with the matching error, whatever number of constraints, variables and inputs is declared (also numbers that are not powers of two, zero or one). The generator of random satisfiable instances yields instances satisfied by the assignment it returns.",
 ["inputs"],"All sparse matrices, dimensions 0..n including non-powers of two, and assignments with single faults.",
 "Existing tests cover one tiny instance and one synthetic one of power-of-two size.",
 [S+"lib.rs",S+"r1csinstance.rs",S+"sparse_mlpoly.rs"],[("padding and index validation in instance construction",S+"lib.rs"),("sparse matrix-vector product",S+"sparse_mlpoly.rs")])
p("C07","Honest NIZK proofs always verify, also after serialisation",
 "For every instance and every assignment satisfying it, the NIZK prover produces a proof that the verifier, given the same instance, inputs, public parameters and an equally initialised transcript, accepts; the proof and the instance survive serialisation unchanged. Two provers of the same statement both succeed although they use fresh randomness.",
 ["inputs","programs","configurations"],"All instance shapes (rows, columns, inputs, sparsity, zero rows, repeated entries, boundary coefficient values), satisfying assignments and prover randomness.",
 "One test proves one synthetic instance of a fixed power-of-two size and one padded toy instance.",
 [S+"lib.rs",S+"r1csproof.rs",S+"sumcheck.rs",S+"nizk/mod.rs",S+"nizk/bullet.rs",S+"dense_mlpoly.rs",S+"unipoly.rs",S+"commitments.rs"],[("NIZK prover and verifier",S+"lib.rs"),("sum-check, inner-product and opening arguments",S+"r1csproof.rs")])
p("C08","No NIZK proof verifies for a false or different statement",
 "A NIZK proof is never accepted when it was produced from an assignment that violates a constraint, when the verifier's instance, public inputs, public parameters or transcript label differ from the prover's, or when any component of the proof was altered, replaced by one of another proof, swapped, dropped or duplicated. Rejection may be an error or an abort, never success.",
 ["inputs","fault_sequences"],"All single-fault mutations of proof, inputs, instance, transcript and witness, and forged proofs from a prover that skips the satisfaction check.",
 "No existing test checks that anything is rejected by the full verifier.",
 [S+"lib.rs",S+"r1csproof.rs",S+"sumcheck.rs",S+"nizk/mod.rs",S+"nizk/bullet.rs",S+"transcript.rs",S+"group.rs"],[("verification equations",S+"r1csproof.rs"),("digest of the instance in the transcript",S+"lib.rs")])
p("C09","Honest SNARK proofs always verify",
 "For every instance and satisfying assignment, the SNARK prover, using the published commitment to the instance, produces a proof that verifies against that commitment, also after serialisation of commitment and proof, for every shape of instance including non-powers of two and very sparse matrices.",
 ["inputs","programs","configurations"],"All instance shapes, sparsity patterns and satisfying assignments.",
 "One synthetic instance of a single size is tested.",
 [S+"lib.rs",S+"sparse_mlpoly.rs",S+"product_tree.rs",S+"r1csinstance.rs"],[("computation commitment and memory-checking argument",S+"sparse_mlpoly.rs"),("layered product circuits",S+"product_tree.rs")])
p("C10","No SNARK proof verifies for a false or different statement",
 "A SNARK proof is never accepted when the witness violated a constraint, when the inputs, the commitment to the instance, the public parameters or the transcript differ, or when any part of the proof was altered or taken from another proof. In particular the claimed evaluations of the matrices are only accepted if they are the evaluations of the committed matrices.",
 ["inputs","fault_sequences"],"All single-fault mutations of the proof and of the statement.",
 "No rejection test exists.",
 [S+"lib.rs",S+"sparse_mlpoly.rs",S+"product_tree.rs",S+"timer.rs"],[("memory-checking and evaluation proof verification",S+"sparse_mlpoly.rs")])
p("C11","Every verifier challenge is bound to everything sent before it",
 "Prover and verifier absorb the same sequence of labelled messages and draw the same challenges; every group element, evaluation and public value that the proof carries or the statement fixes is absorbed before the first challenge that the proof's soundness requires it to precede, so altering it alters all later challenges. Distinct protocols, statements, inputs and commitments never share a challenge sequence.",
 ["histories","inputs"],"All transcript histories of NIZK and SNARK runs over instance shapes and statements.",
 "Tests only observe that verification succeeds, which stays true when prover and verifier both forget to absorb a message.",
 [S+"transcript.rs",S+"random.rs",S+"lib.rs",S+"r1csproof.rs",S+"sumcheck.rs",S+"nizk/mod.rs",S+"nizk/bullet.rs",S+"sparse_mlpoly.rs"],[("transcript appends and challenges",S+"transcript.rs")],["event log of a monitored transcript implementation"])
p("C12","Proofs are freshly randomised and leak no blinding",
 "Two proofs, also of the same statement with the same witness and also made by different processes, share no commitment and no masked response in the part that depends on the witness, and inside one proof these do not repeat, whatever the witness. No such commitment or response equals its unblinded value for the witness used, and no two commitments of a proof are blinded by the same random value.",
 ["histories","configurations"],"All repeated proving runs, including identical transcripts and witnesses, all-zero witnesses and equal witnesses for different statements.",
 "A single proof is always valid, however it is randomised; only comparing many proofs reveals reuse.",
 [S+"random.rs",S+"r1csproof.rs",S+"nizk/mod.rs",S+"sumcheck.rs",S+"dense_mlpoly.rs"],[("prover random tape",S+"random.rs"),("Pedersen blinds",S+"commitments.rs")])
p("C13","Public generators are deterministic, distinct and on the curve",
 "Deriving public parameters twice yields the same generators, and parameters for different sizes agree on their common prefix only as one deterministic sequence per label. Within and across labels of one parameter set all generators are distinct, non-identity points of the curve group, and a Pedersen commitment equals the sum of messages times generators plus blind times blinding generator.",
 ["inputs","configurations"],"All sizes and labels.",
 "No test inspects the generators; equal or identity generators keep every proof verifying.",
 [S+"commitments.rs",S+"group.rs",Q+"hashtocurve.rs"],[("SHAKE256 expansion and hash to curve",S+"commitments.rs")])
p("C14","The two curve-package fields compute exactly",
 "Elements of the curve package's two prime fields (the base field, of order n = the secp256k1 group order, and the secp256k1 base field, of order p) and its group scalars follow exact modular arithmetic for every offered operation, including square roots, square-root ratios, inversion, powers, parity, conversion from integers and strings, conditional operations and sums/products. A square root is reported exactly for squares and squares back to its argument.",
 ["inputs","histories"],"All residues with emphasis on limb and modulus boundaries and operation chains.",
 "Unit tests there use few values (and cannot even be built in this environment); non-residues are never offered to the square root.",
 [Q+"field/field_secp.rs",Q+"field/field_secq.rs",Q+"field/mod.rs"],[("Montgomery arithmetic of both fields",Q+"field/field_secq.rs")])
p("C15","Field-element and scalar encodings of the curve package round-trip",
 "Each encoding of a field element or group scalar in the curve package (fixed-size bytes in their stated byte order, canonical decoding, bit access, serialisation, integer reduction) is inverse to its decoding and accepts exactly the canonical inputs. Wide and narrow reductions return the residue of the encoded integer.",
 ["inputs"],"All byte strings around 0, the modulus and 2^256, and random ones.",
 "Tests cover few fixed values and no rejection boundary.",
 [Q+"field/field_secp.rs",Q+"field/field_secq.rs",Q+"scalar.rs"],[("from_bytes/to_bytes and repr conversions",Q+"scalar.rs")])
p("C16","Curve points obey the group law of y^2 = x^3 + 7 over F_n",
 "Addition, subtraction, doubling, negation and scalar multiplication of curve points, in every by-value, by-reference and assigning form, equal the chord-and-tangent group law with the identity as neutral element, for all inputs including equal, opposite and identity operands. The generator has order p, multi-scalar multiplication equals the sum of the individual products, and equality of points is equality of affine coordinates.",
 ["inputs","histories"],"All pairs of group elements including exceptional cases, and all scalars including 0, 1, order-1 and limb boundaries.",
 "Tests compare a few small multiples; exceptional cases and multi-scalar multiplication are not compared with an independent model.",
 [Q+"affine.rs",Q+"lib.rs",Q+"scalar.rs",S+"group.rs"],[("complete projective formulas via the curve parameters",Q+"lib.rs"),("affine operator wrappers",Q+"affine.rs")])
p("C17","Point encodings are injective and reject what is not a point",
 "Compressing and decompressing a curve point returns the same point, different points have different encodings, and bytes that do not encode a point of the curve (no square root, coordinate not below the field order, unknown tag, wrong length, coordinates off the curve) never decode to a point. Serialised points survive a round trip.",
 ["inputs"],"All points including the identity, and all 33-byte strings and tag/length/coordinate corruptions.",
 "Tests round-trip the generator only.",
 [Q+"affine.rs",Q+"lib.rs",S+"group.rs"],[("SEC1 encoding and decompression",Q+"affine.rs")])
p("C18","Hashing to the curve is deterministic, uniform-input total and on-curve",
 "For every input string, hashing to the curve returns a point of the curve group, equal to the one obtained by the simplified SWU map on the isogenous curve composed with the 3-isogeny for the published constants. Equal inputs give equal points and no two distinct inputs observed collide.",
 ["inputs"],"All byte strings, and all field elements as map inputs including exceptional ones (0, square-root exceptional cases).",
 "Only a few fixed points are tested.",
 [Q+"hashtocurve.rs"],[("SWU map and isogeny",Q+"hashtocurve.rs")])
p("C19","Poseidon hashing equals its specification",
 "The Poseidon hash of two field elements equals the Poseidon permutation (width 3, 8 full and 56 partial rounds, x^5) with round constants and MDS matrix generated by the reference Grain procedure for this field, for every input; the answer depends only on the inputs, also when one hasher instance is used repeatedly.",
 ["inputs","histories"],"All input pairs, including 0, 1, p-1 and constants-cancelling values, and repeated use.",
 "One fixed vector is tested.",
 ["packages/poseidon/src/lib.rs","packages/poseidon/src/k256_consts.rs","packages/poseidon/src/poseidon_k256.rs"],[("permutation rounds and constants","packages/poseidon/src/lib.rs")])
p("C20","Poseidon in the circuits equals Poseidon in the library",
 "For every pair of inputs the Poseidon circuit has a satisfying assignment with output equal to the library's Poseidon hash, and no assignment with these inputs and another output satisfies its constraints.",
 ["inputs","programs"],"All input pairs; all single-wire deviations of the witness.",
 "One vector is tested with the honest witness generator only, and under-constrained wires are invisible to witness generation.",
 [C+"poseidon/poseidon.circom",C+"poseidon/poseidon_constants.circom","packages/poseidon/src/lib.rs"],[("round templates",C+"poseidon/poseidon.circom")])
p("C21","The browser entry points are faithful wrappers",
 "Proving with a circuit, a circom witness file and big-endian public inputs through the exported functions yields bytes that the exported verifier accepts, and the verifier reports true only for the same circuit and public inputs and a proof of a satisfying witness whose content is unaltered (two byte strings that decode to the same proof have the same content). The exported Poseidon equals the library's Poseidon on little-endian inputs, and the witness loader returns exactly the values in the witness file and refuses files with a wrong magic, a version above 2, a wrong section layout, field size or length, and values not below the modulus.",
 ["inputs","fault_sequences"],"All circuits, witnesses, public inputs and corruptions of each byte string.",
 "One checked-in circuit with one honest proof.",
 ["packages/spartan_wasm/src/wasm.rs"],[("byte-level marshalling","packages/spartan_wasm/src/wasm.rs")])
p("C22","Public ECDSA inputs T and U are computed correctly",
 "For every valid ECDSA signature, the library's public input has T = r^-1 R and U = -(m r^-1) G for the R with x-coordinate r and the parity given by the recovery id, so that s T + U is the signer's public key; a message hash that is zero modulo the group order, for which U is the identity, yields no public input. Signature text in the supported Ethereum forms is read as its r, s and recovery id. An r that is not the x-coordinate of a point yields no public input.",
 ["inputs"],"All signatures, message hashes (also above the group order) and recovery ids.",
 "Tests check two fixed signatures.",
 [L+"helpers/publicInputs.ts",L+"helpers/utils.ts"],[("computeEffEcdsaPubInput",L+"helpers/publicInputs.ts")])
p("C23","Public-input checking and serialisation are exact",
 "The library accepts a public input exactly when its T and U are the ones determined by its r, the parity its recovery id names, and its message hash modulo the group order; changing any of them so that another T or U is determined is noticed. Serialising a public input, and its circuit part, and reading it back returns the same values in the fixed layout (r, recovery id, root, T, U, message; 32-byte big-endian values) for all values that fit; values that do not fit are refused, not turned into others. Byte/integer helpers are inverse to each other, and none of this alters what the caller passed in.",
 ["inputs"],"All public inputs, all single-field and correlated changes, all message lengths, values with leading zero bytes, values too large.",
 "Tests cover one valid and a few invalid public inputs.",
 [L+"helpers/publicInputs.ts",L+"helpers/utils.ts"],[("verifyEffEcdsaPubInput, serialize, deserialize",L+"helpers/publicInputs.ts")])
p("C24","The membership tree yields proofs that match its root",
 "After any sequence of insertions and deletions the tree's root, leaves and look-ups equal those of a plain binary Poseidon Merkle tree with zero padding, and every proof it creates verifies for its leaf and only for it. Operations that are out of range fail and change nothing. The hash helper returns the Poseidon hash of two field elements, for anything else an error, and does not alter its arguments; hashing a public key is hashing its two coordinates.",
 ["histories","inputs"],"All insert/delete/prove histories and tampered proofs.",
 "One short history is tested.",
 [L+"helpers/tree.ts",L+"helpers/poseidon.ts"],[("wrapper around the incremental Merkle tree",L+"helpers/tree.ts")])
p("C25","The membership verifier accepts honest proofs and nothing else",
 "A proof made by the membership prover for a signature by a registered key verifies with the library's verifier, for public keys and for addresses, any tree depth, and circuits from a file or a URL, and the prover reports the public input that belongs to the signature and the tree. The verifier never reports success if the proof is altered, if the root, T, U, r, recovery id or message hash is changed (to values that determine other inputs), if it holds another circuit or none, or if either the proof check or the public-input check fails or throws; several verifications under way at once do not affect each other, and a signer without a leaf under the root gets nothing that verifies.",
 ["inputs","fault_sequences"],"All signatures, members and trees, and all single-fault changes to what the verifier receives; failing collaborators.",
 "Tests use one signature, and need circuits that are not built; few negative cases.",
 [L+"core/prover.ts",L+"core/verifier.ts",L+"helpers/publicInputs.ts",L+"wasm/index.ts"],[("prove and verify orchestration",L+"core/verifier.ts")])
p("C26","Elliptic-curve gadgets constrain the secp256k1 group law",
 "For inputs meeting their documented preconditions, the point addition and doubling circuits have a satisfying assignment and its outputs are the secp256k1 sum or double, where (0,0) stands for the identity in complete addition; and no assignment with the same inputs and different outputs satisfies the constraints.",
 ["inputs","programs"],"All points including equal, opposite and identity operands; all deviations of the witness wires.",
 "Tests run the honest witness generator on a few points; missing constraints stay invisible.",
 [C+"eff_ecdsa_membership/secp256k1/add.circom",C+"eff_ecdsa_membership/secp256k1/double.circom"],[("slope constraints and case selection",C+"eff_ecdsa_membership/secp256k1/add.circom")])
p("C27","The signature circuit computes s*T + U",
 "For every scalar and point the scalar-multiplication circuit's honest witness satisfies its constraints and outputs the product, and for every efficient-ECDSA input the signature circuit outputs the public key s*T + U. Changing output wires of a satisfying assignment violates the constraints.",
 ["inputs","programs"],"All scalars (0, 1, group order +-1, 128-bit boundaries) and points; single and correlated witness deviations.",
 "Tests cover a few fixed scalars with the honest generator.",
 [C+"eff_ecdsa_membership/secp256k1/mul.circom",C+"eff_ecdsa_membership/eff_ecdsa.circom"],[("scalar recoding and double-and-add",C+"eff_ecdsa_membership/secp256k1/mul.circom")])
p("C28","The membership circuits prove membership of the signer",
 "The Merkle inclusion circuit's root is the Poseidon path hash for every leaf, path and sibling list, with path bits forced to be 0 or 1. The public-key and address membership circuits are satisfiable exactly when the recovered key (or its Ethereum address) is the leaf under the public root, and expose exactly root, Tx, Ty, Ux and Uy as public, in this order.",
 ["inputs","programs"],"All leaves, paths, siblings, roots, signatures; wrong roots, wrong path bits, wrong keys.",
 "One honest witness per circuit is tested.",
 [C+"eff_ecdsa_membership/tree.circom",C+"eff_ecdsa_membership/pubkey_membership.circom",C+"eff_ecdsa_membership/addr_membership.circom",C+"instances/pubkey_membership.circom",C+"instances/addr_membership.circom"],[("inclusion proof and wiring",C+"eff_ecdsa_membership/tree.circom")])
p("C29","The address circuit computes the Ethereum address",
 "For every public key the address circuits output the low 160 bits of the Keccak-256 hash of its 64-byte big-endian encoding, and the Keccak circuit equals Keccak-256 on the supported lengths; changing any output wire of a satisfying assignment violates the constraints.",
 ["inputs","programs"],"All public keys and message bit patterns, including keys with leading zero bytes.",
 "One or two addresses are tested with the honest generator.",
 [C+"eff_ecdsa_membership/eff_ecdsa_to_addr.circom",C+"eff_ecdsa_membership/to_address/zk-identity/eth.circom",C+"eff_ecdsa_membership/to_address/vocdoni-keccak/keccak.circom",C+"eff_ecdsa_membership/to_address/vocdoni-keccak/permutations.circom",C+"eff_ecdsa_membership/to_address/vocdoni-keccak/utils.circom"],[("keccak-f circuit and bit packing",C+"eff_ecdsa_membership/to_address/vocdoni-keccak/keccak.circom")])
p("C30","Size helpers and derived field parameters are right",
 "The integer helpers used to size proofs return the exact power of two, the bits of a number most significant first, the integer square root of a square, and the smallest exponent whose power of two reaches the number. The parameter tool prints the modulus, the Montgomery constants R, R^2, R^3 and the inverse constant of the scalar field, in little-endian words.",
 ["inputs"],"All machine integers at and around powers of two; the tool's single output.",
 "Neither the helpers nor the tool has any test.",
 [S+"math.rs",S+"bin/mont_params.rs"],[("bit-counting helpers",S+"math.rs"),("big-integer derivation",S+"bin/mont_params.rs")])
p("C31","Answers do not depend on what happened before or happens at the same time",
 "Whatever has been proved, verified, refused, aborted, encoded, written or read before in the same process, and whatever other threads do at the same time with the same objects: a proof is accepted for the statement (matrices, public inputs, label) it was made for and for no other of the same or another size, satisfaction is reported as it is, a statement, its generators and its commitment made again are interchangeable with the first, and every deterministic building block (generators, commitments, multilinear tables and values, multi-scalar products, batch inversion, round polynomials, challenges) gives the answer it gives alone.",
 ["histories","schedules"],"All sequences and interleavings of proving, verifying (own, foreign and spoilt proofs), satisfaction checks, making again and reading back over families of look-alike statements of several sizes.",
 "Every test is one short history in a fresh state and one thread, so a result kept from an earlier call, a buffer or table shared between calls, or a cache keyed too coarsely never shows.",
 [S+"lib.rs",S+"commitments.rs",S+"dense_mlpoly.rs",S+"r1csinstance.rs",S+"r1csproof.rs",S+"sparse_mlpoly.rs",S+"group.rs"],[("instances, generators, encoding, proving and verification entry points",S+"lib.rs"),("generator derivation",S+"commitments.rs"),("multilinear tables",S+"dense_mlpoly.rs"),("matrix tables and evaluation",S+"r1csinstance.rs")],["verdicts of verify and is_sat","serialised instances","return values of the building blocks"],[("retained state","anything a call leaves behind that a later call can read; there should be none that matters",S+"lib.rs")],"cargo feature verif_hooks")
p("C32","A proof's form and size are fixed by the circuit's dimensions and stay short",
 "Two proofs for circuits of the same dimensions (for SNARK also the same number of matrix entries) have the same fields, the same list lengths and the same encoded size, whatever the witness, the public inputs and the coefficients are, so that neither tells anything of the witness; and the size grows with the square root of the witness length plus terms in the logarithm of the dimensions, not in proportion to the circuit.",
 ["inputs"],"All witnesses, inputs and coefficients for a given shape (random, all zero, zero at the end, all equal, extreme, everything zero), and shapes up to several thousand constraints and variables.",
 "No test looks at the size or the layout of a proof; leaving out what is zero, or committing in other proportions, still proves and verifies.",
 [S+"dense_mlpoly.rs",S+"r1csproof.rs",S+"sumcheck.rs",S+"sparse_mlpoly.rs",S+"lib.rs"],[("factored commitment of the witness",S+"dense_mlpoly.rs"),("proof structures",S+"r1csproof.rs"),("matrix evaluation proof",S+"sparse_mlpoly.rs")],["serialised proofs"])
p("C33","Reading and checking hostile bytes ends, at a cost bounded by their length",
 "Reading a constraint file, a witness file or an instance, and reading and verifying a NIZK or SNARK proof, ends for every byte string, and the memory held at any one time and the processor time stay within a bound given by the length of the bytes and by what the honest proof for the same circuit costs: no count, length or size written in the bytes makes the reader or verifier reserve, loop or compute in proportion to the number rather than to the bytes that are there.",
 ["inputs","resources"],"All byte strings: every count, length and section size inflated one by one and together, sections repeated, lists of proofs lengthened at every place, cut and random bytes.",
 "Tests read honest files and proofs only; a handful of bytes that ask for 2^40 entries never occurs there.",
 [S+"lib.rs",S+"r1csproof.rs",S+"r1csinstance.rs",S+"nizk/bullet.rs",K+"circuit_reader/src/circom_reader.rs",K+"spartan_wasm/src/wasm.rs"],[("verification entry points",S+"lib.rs"),("section and constraint reader",K+"circuit_reader/src/circom_reader.rs"),("witness reader",K+"spartan_wasm/src/wasm.rs")],["allocations","thread processor time"])
p("C34","The wasm32 build gives the answers the 64-bit build gives",
 "Compiled for wasm32 (32-bit words, one thread, no clock, no file system), the platform the package is shipped for, the scalar, field, group and hash operations, constraint systems and their satisfaction, NIZK and SNARK proofs and the functions the browser calls give the answers they give on a 64-bit machine: the same bytes, or a refusal on both. Honest proofs are produced on both and each is accepted on both; altered proofs, other public inputs, proofs from a failing witness and files whose counts are right only modulo 2^32 are accepted on neither.",
 ["inputs","environment"],"All operands, statements, proofs and files, on the two platforms.",
 "Tests run on the build machine only; a cast, a byte form of a machine word, a clock or a thread that only fails on the shipped platform is never seen.",
 [K+"spartan_wasm/src/wasm.rs",S+"lib.rs",S+"scalar/scalar.rs",S+"transcript.rs",S+"r1csinstance.rs",K+"secq256k1/src/field/field_secp.rs",K+"secq256k1/src/field/field_secq.rs",K+"secq256k1/src/affine.rs",K+"poseidon/src/lib.rs"],[("browser entry points",K+"spartan_wasm/src/wasm.rs"),("proof system",S+"lib.rs"),("scalar field",S+"scalar/scalar.rs")],["answers of both builds"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
ids=[x["id"] for x in P]; assert len(set(ids))==len(ids)
for x in P: assert len(x["title"])<=80,(x["id"],len(x["title"]))
print(len(P))
