# Writes /verif/properties.jsonl. The properties live here so that they are easy to edit.
import json
P=[]
def p(id,title,st,over,text,why,files,mech,state=None,obs=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("K01","The KZG reference string is the powers of one secret",
  "Building a structured reference string for a size n from a secret s yields exactly n+3 first-group points, the i-th being s^i times the first-group generator, together with the second-group generator and s times it. This holds for every secret (zero and one included) and every size (zero included).",
  ["inputs"],"every secret scalar, every size",
  "Tests only use the secret 2 or a random one with sizes up to about ten and never look at the points; a wrong point at a high index or for a special secret goes unseen.",
  ["kzg/src/srs.rs"],[("Srs::new_from_secret","kzg/src/srs.rs")],obs=["Srs::g1_points","Srs::g2","Srs::g2s"])
p("K02","A KZG commitment is the polynomial's value at the secret, in the exponent",
  "Committing to a polynomial whose degree is below the number of reference points yields p(s) times the first-group generator, and the same commitment results from its coefficient vector (trailing zeros ignored); committing to a scalar yields that scalar times the generator. A polynomial that does not fit the reference string is refused by a panic and never silently truncated.",
  ["inputs"],"every secret, size, polynomial (zero, sparse, full-length, oversized), coefficient vector and scalar",
  "One fixed quadratic over the secret 2 is compared with the expected point; boundary degrees, zero polynomials, trailing zeros and oversized inputs are never tried.",
  ["kzg/src/scheme.rs","kzg/src/srs.rs","kzg/src/commitment.rs"],[("KzgScheme::commit / commit_vector / commit_para","kzg/src/scheme.rs"),("KzgScheme::evaluate_in_s","kzg/src/scheme.rs")])
p("K03","Every honest KZG opening carries the right value and verifies",
  "For every polynomial that fits the reference string and every point z, opening the polynomial (or its coefficient vector) at z succeeds, reports exactly p(z) as the evaluation, and is accepted by verification against the commitment to that polynomial at z. This includes the zero polynomial, constants, points where p vanishes and z equal to the setup secret.",
  ["inputs"],"every secret, polynomial, coefficient vector and evaluation point",
  "The tests open four- and five-coefficient polynomials at a handful of points; the zero polynomial, trailing zeros, constants and exact-fit degrees are not sampled.",
  ["kzg/src/scheme.rs","kzg/src/opening.rs"],[("KzgScheme::open / open_vector / verify","kzg/src/scheme.rs")])
p("K04","KZG verification accepts exactly the openings that satisfy the equation",
  "Verification of commitment c, witness w and claimed value y at z returns true if and only if (s - z) times w equals c minus y times the generator. In particular an honest opening stops verifying when exactly one of commitment, claimed value, witness (for z different from s) or point (for a non-zero witness) is altered, and verification never panics.",
  ["inputs"],"every commitment, witness, value and point of the groups",
  "The tests only check that honest openings are accepted; no rejection is tested, so a verifier that ignores an input would pass.",
  ["kzg/src/scheme.rs"],[("KzgScheme::verify","kzg/src/scheme.rs")])
p("K05","Aggregated and batched KZG checks agree with the individual ones",
  "Aggregating commitments c_0..c_n with challenge v yields exactly the sum of v^i times c_i (the zero commitment for none). Batch verification of equally many commitments, points and openings accepts every batch of individually valid openings whatever the randomness, and rejects a batch with an invalid opening except with probability 2^-128 over its randomness; differing counts are refused by a panic.",
  ["inputs"],"every list length, every commitment/point/opening, every challenge and random source",
  "Two commitments and one batch of five valid openings are tried; invalid batches, errors that cancel between openings, empty and mismatched lists are not.",
  ["kzg/src/scheme.rs"],[("KzgScheme::aggregate_commitments / batch_verify","kzg/src/scheme.rs")])
p("K06","Commitment and opening arithmetic is homomorphic",
  "Adding, subtracting, negating and scaling commitments yields the commitment to the sum, difference, negation and scalar multiple of the committed polynomials. Adding two openings made at the same point yields an opening that verifies against the sum of the two commitments, with the sum of the evaluations.",
  ["inputs"],"every pair of polynomials, scalar and common opening point",
  "Only one scalar multiplication is tested; addition of openings, subtraction and negation have no test at all.",
  ["kzg/src/scheme.rs","kzg/src/opening.rs","kzg/src/commitment.rs"],[("Add/Sub/Mul/Neg for KzgCommitment","kzg/src/scheme.rs"),("Add for KzgOpening","kzg/src/opening.rs")])
p("F01","Every leaf of every Merkle tree has a proof that verifies",
  "For every non-empty list of field elements (of any length, powers of two or not) and every index below the padded length, the tree produces a membership proof that names that index and the leaf there (zero for padding), carries one sibling per tree level, and verifies. The root depends only on the padded leaf list and never on how proofs are requested.",
  ["inputs"],"every leaf list, every index",
  "A single tree of four leaves is checked at one index.",
  ["fri/src/merkle_tree.rs","fri/src/hasher.rs"],[("MerkleTree::new / generate_proof","fri/src/merkle_tree.rs"),("verify_merkle_proof","fri/src/merkle_tree.rs")])
p("F02","Merkle verification binds leaf, index, path and root",
  "Verification accepts a membership proof only if hashing the leaf and combining it with each sibling on the side given by the corresponding bit of the index reproduces the root exactly, and the tree root is that same combination over all leaves, so changing the leaf value, an index bit within the depth, a sibling, or any leaf of the tree is detected (up to collisions of SHA-256). Sequences of field elements of different content or length are never given the same hash input.",
  ["inputs"],"every tree, proof and alteration of it; every pair of distinct element sequences",
  "No tampered proof is ever verified in the tests and the hash input encoding is not tested for injectivity.",
  ["fri/src/merkle_tree.rs","fri/src/hasher.rs"],[("verify_merkle_proof","fri/src/merkle_tree.rs"),("hash / hash_slice","fri/src/hasher.rs")])
p("F03","FRI folding halves the polynomial as the challenge prescribes",
  "Folding p with challenge r gives p_even + r * p_odd, where p(x) = p_even(x^2) + x * p_odd(x^2), so that for every non-zero x the folded polynomial at x^2 equals ((r+x) p(x) - (r-x) p(-x)) / 2x; every committed layer holds the evaluations of its polynomial over its coset domain in order, each layer's domain has half the size and the squared coset of the one before, and the last fold is the announced constant.",
  ["inputs"],"every polynomial, challenge, coset, domain size",
  "One four-coefficient polynomial with r=1 is folded; odd lengths, zero tails and the relation with the verifier's check are not covered.",
  ["fri/src/prover.rs","fri/src/fri_layer.rs","fri/src/verifier.rs"],[("fold_polynomial / folding_phase","fri/src/prover.rs"),("FriLayer::from_poly","fri/src/fri_layer.rs")],hook="accessors to the private folding functions")
p("F04","Every honest FRI proof is accepted",
  "For every non-zero polynomial, every blow-up factor of at least two and every number of queries, proof generation succeeds and the verifier accepts the proof. The proof contains one decommitment per requested query and each decommitment has one opened pair per layer.",
  ["inputs"],"every non-zero polynomial, blow-up factor >= 2 and query count, for supported domain sizes",
  "Two polynomials of four and six coefficients with blow-up two and two queries are tried.",
  ["fri/src/prover.rs","fri/src/verifier.rs"],[("generate_proof","fri/src/prover.rs"),("verify / verify_query","fri/src/verifier.rs")])
p("F05","The FRI verifier checks every query against the committed layers",
  "Acceptance implies that for each query the proof announces there is a decommitment with an opened pair for every committed layer, with one layer per halving of the announced domain, at the positions derived from the transcript, authenticated against that layer's committed root, consistent with the folding relation from each layer to the next and ending in the announced constant. Hence altering any opened value, path, layer root or the constant, or dropping a decommitment or layer or exchanging differing ones, in an honest proof with at least one query makes verification return an error.",
  ["inputs"],"every proof object, in particular every single-field alteration or truncation of an honest proof",
  "No altered proof is verified in the tests, so a verifier that accepts everything would pass them.",
  ["fri/src/verifier.rs","fri/src/merkle_tree.rs"],[("verify / verify_query","fri/src/verifier.rs"),("verify_merkle_proof","fri/src/merkle_tree.rs")])
p("F06","The FRI transcript is a deterministic, order-sensitive function of its history",
  "The challenges drawn from the transcript are a function of the sequence of messages absorbed so far only: equal histories give equal challenges, and any change to a message, to the order or to the number of messages changes the hash state from which all later challenges derive. Drawing twice without absorbing a message in between panics.",
  ["histories"],"every sequence of absorb and draw operations",
  "A few fixed short sequences are compared; arbitrary histories are not.",
  ["fri/src/fiat_shamir/transcript.rs"],[("Transcript::new / digest / generate_*","fri/src/fiat_shamir/transcript.rs")],state=[("data,index,generated","running hash, message counter, draw guard","fri/src/fiat_shamir/transcript.rs")])
p("N01","Nova's vector and matrix helpers compute the linear-algebra operations",
  "Matrix-vector product, entrywise product, scaling, addition, subtraction, equality and conversion from integers return, for all well-shaped inputs, exactly the mathematical result in the field with the expected length; equality is false on different lengths.",
  ["inputs"],"every matrix and vector of compatible shape, rows of any length included",
  "Each helper is tested on one tiny example.",
  ["nova/src/utils.rs"],[("matrix_vector_product, hadamard_product, vec_*","nova/src/utils.rs")])
p("N02","R1CS satisfaction is decided exactly",
  "The satisfaction check succeeds if and only if the witness and public-input lengths match the system, A z o B z = u C z + E holds entrywise for z = (witness, public input, u), and both commitments of the instance are the commitments to E and to the witness. The trivial instance and witness satisfy every system of matching shape.",
  ["inputs"],"every R1CS, instance, witness and reference string large enough",
  "One satisfying and one folded assignment of a four-constraint system are checked; a violated entry, wrong commitment, wrong length or the trivial pair are not.",
  ["nova/src/r1cs/mod.rs","nova/src/utils.rs"],[("is_r1cs_satisfied","nova/src/r1cs/mod.rs"),("create_trivial_pair","nova/src/r1cs/mod.rs")])
p("N03","Folding preserves relaxed R1CS satisfaction",
  "If two instance-witness pairs satisfy the same relaxed R1CS then, for every challenge r, the pair obtained by folding them with the cross term computed for them satisfies it too, with u, public input, witness and error folded as u1 + r u2, x1 + r x2, W1 + r W2 and E1 + r T + r^2 E2. For pairs that do not both satisfy the system the folded relation holds for at most two values of r.",
  ["inputs"],"every R1CS, pair of relaxed satisfying assignments and challenge",
  "One fold of two fixed assignments with zero error vectors and u=1 is checked, where several terms of the cross term vanish.",
  ["nova/src/nifs/mod.rs","nova/src/utils.rs"],[("NIFS::compute_t / fold_witness / fold_instance","nova/src/nifs/mod.rs")])
p("N04","Prover and verifier derive the same, correctly committed folded instance",
  "The folding verifier, given the prover's cross-term commitment and challenge, computes exactly the prover's folded instance, whose two commitments are the commitments to the folded error and folded witness. Challenge and opening point re-derived by the verifier's transcript equal the prover's.",
  ["inputs"],"every R1CS, instance-witness pairs with correct commitments, reference string",
  "Checked only indirectly for one fixed example.",
  ["nova/src/nifs/mod.rs","nova/src/nifs/nifs_prover.rs","nova/src/nifs/nifs_verifier.rs"],[("NIFS::prover / verifier / fold_instance","nova/src/nifs")])
p("N05","NIFS proofs are complete, and tampered ones are rejected",
  "Every proof produced by the folding prover for correctly committed pairs is accepted by the verifier running the same transcript. Acceptance implies that the claimed challenge and opening point are those of the transcript over the two scalars, the cross-term commitment and the folded commitments, and that both openings verify; altering any of these makes verification return an error.",
  ["inputs"],"every honest run and every single alteration of proof, instances, cross-term commitment",
  "Only one honest run is verified; no altered proof is.",
  ["nova/src/nifs/nifs_prover.rs","nova/src/nifs/nifs_verifier.rs"],[("NIFS::prove / verify / verify_challenge / verify_opening","nova/src/nifs")])
p("N06","The augmented circuit advances only consistent states",
  "A step of the augmented circuit computes the next state by applying the step function to the current one and outputs the hash of the next counter, the initial state, the next state and the folded running instance (the trivial instance at step zero); advancing makes those the current state, counter and expected hash and leaves no pending ones. After step zero it returns an error, without touching current state, counter or expected hash, when the running instance, the cross-term commitment or the stored hash is missing, when the leading public input differs from the stored hash, when the error commitment is not the trivial one or when u is not one.",
  ["histories","inputs"],"every sequence of run/advance calls with every step function, instance and witness",
  "Two honest single steps are tested and one should_panic test that asserts nothing specific.",
  ["nova/src/circuit.rs"],[("AugmentedCircuit::run / next_step / hash_io","nova/src/circuit.rs")],state=[("i,z_0,z_i,h_i,z_i1,h_i1","counter, initial/current state, expected hash, pending successor","nova/src/circuit.rs")])
p("N07","IVC proofs verify along every honest run and are rejected when inconsistent",
  "Along every honest incremental run, prove and verify succeed at each step. For a non-zero step the verifier returns an error when the cross-term commitment or the folding proof is missing, the incoming leading public input is not the hash of counter, initial state, current state and running instance, the incoming error commitment is not the trivial one, u is not one, or the folding proof does not verify; at step zero it accepts exactly when current and initial state coincide.",
  ["histories","inputs"],"every run length, step function, witness sequence and alteration of the proof",
  "Runs of three or four fixed steps are followed; rejection is not tested.",
  ["nova/src/ivc/ivc_prover.rs","nova/src/ivc/ivc_verifier.rs"],[("IVC::prove / verify","nova/src/ivc")])
p("N08","The Nova transcript is a deterministic, order-sensitive function of its history",
  "Challenges are a function of the sequence of scalars and commitments absorbed so far only: each absorbed item replaces the state by the hash of the previous state followed by the item's encoding, so equal histories give equal challenges and any change of an item, of the order or of the count changes the state. Drawing twice without absorbing in between panics; bulk construction equals absorbing item by item.",
  ["histories"],"every sequence of absorb and draw operations",
  "Three fixed short histories are compared.",
  ["nova/src/transcript.rs"],[("Transcript::feed / feed_scalar_num / generate_challenges","nova/src/transcript.rs")])
p("P01","Gate equations express exactly the gate's meaning",
  "A gate added to a circuit contributes selectors such that the gate equation q_M a b + q_L a + q_R b + q_O c + q_C + PI = 0 holds exactly when c = a + b - pi (addition), c = a b - pi (multiplication) or a = constant + pi (constant gate), and wires connected to the positions given. Padding gates contribute nothing, and prover-side and preprocessing-side gate insertion agree.",
  ["inputs"],"every wire value, public input, constant and position",
  "Gates are only exercised through a few fixed circuits with zero public inputs.",
  ["plonk/src/gate.rs","plonk/src/circuit.rs","plonk/src/common_preprocessed_input/cpi_circuit.rs"],[("Gate::new_*_gate","plonk/src/gate.rs"),("Circuit::add_*_gate","plonk/src/circuit.rs"),("CPICircuit::add_*_gate","plonk/src/common_preprocessed_input/cpi_circuit.rs")],hook="accessors to the crate-private gate constructors")
p("P02","Compilation encodes every gate row and wire position into the polynomials",
  "Compiling a circuit of n >= 1 gates gives the smallest power-of-two domain of at least n points; at the i-th domain point every wire and selector polynomial takes the i-th gate's value (zero for padding), and the three permutation polynomials take the coset label of the positions given for that gate's wires (its own label for padding), with the three cosets pairwise disjoint. The preprocessing-side circuit compiled from the same gates yields the same selector and permutation polynomials.",
  ["inputs"],"every circuit with at least one gate and in-range positions",
  "Four fixed circuits of four to seven gates are compared coefficientwise or only used end to end; one-gate circuits and exact powers of two are not.",
  ["plonk/src/circuit.rs","plonk/src/common_preprocessed_input/cpi_circuit.rs","plonk/src/constraint.rs","plonk/src/compiled_circuit.rs"],[("Circuit::compile / pad_circuit / cal_permutation / find_cosets / get_assignment","plonk/src/circuit.rs"),("CPICircuit::compile","plonk/src/common_preprocessed_input/cpi_circuit.rs")])
p("P03","Parsed equations become the right gates with correctly linked wires",
  "For every equation built from sums of products of variables, integer constants and small integer powers of variables, with a constant (possibly negative, at most nine digits) or variable on the right, the parsed circuit computes each product and sum gate by gate with the witness values, introduces a constant gate for every constant, and every two wires with the same name lie on one cycle of the wire permutation while differently named wires do not. The resulting circuit is accepted end to end when the witness satisfies the equation and is not provable when it does not.",
  ["inputs","programs"],"every equation of the grammar and every witness",
  "One equation is compared gate by gate and four more are proved; repeated terms, powers followed by other terms, negative or repeated constants are not systematically covered.",
  ["plonk/src/parser.rs"],[("Parser::parse","plonk/src/parser.rs"),("Parser::parse_string / prepare_gen_circuit / gen_circuit","plonk/src/parser.rs")],hook="accessors to the circuit's gates and to the normaliser")
p("P04","Normalisation expands powers and nothing else",
  "Normalising an equation lower-cases it, deletes blanks and replaces each b^k (b a variable letter or digit string, k >= 1) by the k-fold product of that same base, leaving every other character unchanged, whether the power stands at the end or is followed by further terms or powers. The prover-side and the preprocessing-side normalisers agree on every input.",
  ["inputs"],"every equation string of the grammar",
  "Two fixed strings are normalised.",
  ["plonk/src/parser.rs","plonk/src/common_preprocessed_input/cpi_parser.rs"],[("Parser::parse_string","plonk/src/parser.rs"),("CPIGenerator::normalize","plonk/src/common_preprocessed_input/cpi_parser.rs")],hook="accessors to the private normalisers")
p("P05","Preprocessed input from the equation alone matches every prover's circuit",
  "For every equation of the grammar and every witness, the size, coset shifts, selector and permutation commitments and public-input polynomial that the preprocessing derives from the equation string alone equal those of the circuit the parser builds with the witness.",
  ["inputs","programs"],"every equation of the grammar and every witness assignment",
  "One equation is compared.",
  ["plonk/src/common_preprocessed_input/cpi_parser.rs","plonk/src/common_preprocessed_input/cpi_circuit.rs","plonk/src/parser.rs"],[("CPIGenerator::compute_common_preprocessed_input","plonk/src/common_preprocessed_input/cpi_parser.rs"),("CommonPreprocessedInput::new","plonk/src/common_preprocessed_input/cpi_parser.rs")])
p("P06","Splitting the quotient into three slices loses nothing",
  "For every non-zero polynomial t, the three slices recombine to t: slice_0(X) + X^m slice_1(X) + X^2m slice_2(X) = t(X), where m is the reported degree plus one, each slice having fewer than m+1 coefficients. Compacting at a point z gives the polynomial slice_0 + z^m slice_1 + z^2m slice_2, whose value at z is t(z), and the three commitments are the commitments to the slices in order.",
  ["inputs"],"every non-zero polynomial (of every length modulo three, one and two coefficients included) and point",
  "Polynomials of a few lengths are compacted at one point.",
  ["plonk/src/slice_polynomial.rs"],[("SlicePoly::new / compact / commit / get_degree","plonk/src/slice_polynomial.rs")],hook="accessor to the crate-private module")
p("P07","A satisfied circuit always yields an accepted proof",
  "For every circuit whose gate equations and wire equalities hold (with or without public inputs) and every reference string built for its compiled size, proof generation succeeds for every choice of blinding randomness and challenges outside a negligible set, and the verifier using the same circuit, reference string and hash accepts the proof, whatever supported hash function is chosen.",
  ["inputs","configurations"],"every satisfied circuit, reference string, blinding randomness and digest",
  "Five fixed circuits with zero public inputs and SHA-256 are proved.",
  ["plonk/src/prover.rs","plonk/src/verifier.rs","plonk/src/slice_polynomial.rs"],[("generate_proof","plonk/src/prover.rs"),("verify","plonk/src/verifier.rs")])
p("P08","The prover refuses unsatisfied circuits",
  "When some gate equation of the compiled circuit is violated, or two wires linked by the permutation carry different values, no proof that the verifier accepts is produced: proof generation panics or the verifier returns an error.",
  ["inputs"],"every circuit with at least one violated gate or copy constraint, at any row or wire",
  "One circuit with one wrong gate output is tried by a should_panic test.",
  ["plonk/src/prover.rs","plonk/src/verifier.rs"],[("compute_quotient_polynomial / compute_acc","plonk/src/prover.rs"),("verify","plonk/src/verifier.rs")])
p("P09","The PLONK verifier decides the protocol's equations and rejects altered proofs",
  "The verifier accepts a proof if and only if the proof's last challenge is the one its transcript yields and the pairing equation of the protocol holds for the proof's values, the circuit's selectors, permutation and public input and the re-derived challenges. In particular an honest proof is rejected after altering any one of its commitments or evaluations or its last challenge, or when checked against a circuit differing in a selector, permutation or public-input polynomial, or against another reference string.",
  ["inputs"],"every proof, circuit and reference string; every single alteration",
  "Rejection is tested for one exchange of circuits only.",
  ["plonk/src/verifier.rs"],[("verify / verify_challenges / get_circuit_commitment","plonk/src/verifier.rs")])
p("P10","The PLONK challenge generator is a deterministic function of its history",
  "Challenges are a function of the sequence of commitments absorbed so far only: each absorbed commitment replaces the state by the hash of the previous state followed by its encoding, so equal histories give equal challenges and any change of a commitment, of the order or of the count changes the state. Drawing with nothing absorbed or twice in a row panics; bulk construction equals absorbing one by one.",
  ["histories"],"every sequence of absorb and draw operations",
  "Two fixed histories are compared.",
  ["plonk/src/challenge.rs"],[("ChallengeGenerator::feed / generate_challenges","plonk/src/challenge.rs")],hook="accessor to the crate-private module")
import sys
for x in P: assert len(x["title"])<=80,(x["id"],len(x["title"])); assert x["statement"].count('. ')<=2,(x["id"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
