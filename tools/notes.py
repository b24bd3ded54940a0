"""Per property: what the contracts prove, and what stays assumed. mkmanifest.py and check.py read this."""
BASE = [
 "extraction: generics are fixed to abstract sorts (field, groups, hash), std/ark calls become calls with the contracts of prelude/*.rs; format!/println output, attributes and visibility are dropped (DESIGN.md, 'What extraction drops')",
 "the contracts of dependencies (ark-ff, ark-ec, ark-poly, rand, std collections) in prelude/*.rs are assumed; derived Clone/PartialEq/Default are structural",
 "field arithmetic: the axioms of a commutative field (Fr as integers modulo a prime behind an injective representation); group elements: a module over it, affine and projective forms identified (prime-order subgroup)",
 "usize is 64 bits wide; memory allocation does not fail",
]
U = {
 "kzg": ["pairing: bilinear and non-degenerate, e(aG,bH) determines ab", "128-bit randomness of rand is arbitrary (the probability statement of K05 is a counting lemma: at most one value of the last weight per invalid opening)"],
 "nova": ["SHA-256/hash: uninterpreted function with 32-byte output; canonical encodings of fixed length and injective", "the step circuit FC is a pure function of its argument and index", "ark-serialize hands the canonical encoding to the writer it is given (the writer itself is under contract)"],
 "fri": ["SHA-256: uninterpreted function with 32-byte output (binding statements end in an explicit collision)", "the decimal Display of field elements is injective with at most 20 bytes and no comma (64-bit field)", "GeneralEvaluationDomain: omega(k)^2 = omega(k-1), omega(1) = -1, exists exactly for two-adic sizes"],
 "circuit": ["at most 2^32 gates and wire positions inside the circuit", "BLS12-381 scalar field: two-adicity 32, the characteristic is the published modulus", "interpolate over a radix-2 domain returns the polynomial of degree < n with the given values", "Arc::get_mut succeeds on an unshared Arc; HashMap is a finite map with arbitrary iteration order"],
 "challenge": ["hash: uninterpreted function of the absorbed bytes with 8-byte seed read from its output; ChaCha drawing: a function of the seed", "encodings of commitments of fixed length and injective"],
 "verifier": ["pairing: bilinear and non-degenerate, e(aG,bH) determines ab", "hash: uninterpreted function of the absorbed bytes; ChaCha drawing: a function of the seed", "encodings of commitments of fixed length and injective", "proof.degree < 2^62, compiled size a power of two up to 2^32, circuit polynomials inside the reference string", "'Ok <=> equation' for evaluation challenges other than 1 (at 1 the code divides by zero and panics: no proof is accepted; Ok => equation is proved without the condition)", "get_circuit_commitment/commit: as proved in units kzg, circuit, challenge"],
 "plonk": ["circuits of at most 2^28 gates, reference string of size+3 points", "ark polynomial +, -, scaling act on coefficients; the product by values and a length bound; mul_by_vanishing_poly, divide_by_vanishing_poly, evaluate_vanishing_polynomial, interpolation over the domain, rotate_left by their documented meaning", "hash: uninterpreted function; ChaCha drawing: a function of the seed; blinding factors arbitrary", "not excluded by contract (each needs a coincidence of blinding factors or challenges): division by zero in the accumulator, a zero polynomial where coeffs[0] or SlicePoly::new is reached, evaluation challenge 1", "Circuit::compile, Kzg*, ChallengeGenerator, SlicePoly, verify: as proved in units circuit, kzg, challenge, slice, verifier"],
 "parser": ["std: char::is_numeric, char::is_alphabetic, str::to_lowercase, str::parse::<i32> by their documented meaning (digits are numeric, the equation signs neither numeric nor alphabetic, digit strings up to 2^31-1 are read as decimal numbers, a number not preceded by a sign is not negative)"],
 "eqn": ["std: str::split by a character, trim, parse::<i32> by their documented meaning", "derived Hash/Eq of gates and wires are structural: HashSet is a set of (names, kind, values)", "HashMap is a finite map with arbitrary iteration order; RefCell borrows are plain mutable access", "no witness is called like a number; the input normalises to one equation without '+' on the right whose names all have a witness", "P05: at most 2^32 gates and a reference string at least as long as the domain"],
 "slice": ["ark polynomial +, -, scaling act on coefficients; the product by values and a length bound", "polynomials below 2^62 coefficients"],
}
T = "contract-based deductive verification: Verus/Z3 contracts on the functions extracted from /repo on every run; the same contracts are also executed on the real crates to find a failing input"
B = "executable contracts on the real crates (bounded stand-in): "
N = {
 "K01": "proved: KzgScheme/Srs construction returns exactly n+3 points s^i G and (H, sH), every size and secret",
 "K02": "proved: commit/commit_para/commit_scalar return p(s)G; refused beyond the reference string (refuse variant); trailing zeros by the value lemma",
 "K03": "proved: open/open_para return p(z) and a witness for which verify's equation holds, for every z including roots and s",
 "K04": "proved: verify returns true iff (s-z)w = c - yG; altered-component lemmas",
 "K05": "proved: aggregate_commitments = sum v^i c_i; batch_verify true iff the weighted equations sum to zero; lemmas for all-valid and one-invalid batches; unequal counts refused",
 "K06": "proved: operator impls of commitments and openings are the group operations; homomorphism lemmas",
 "F01": "proved: new/get_root/generate_proof/verify: every index's path hashes to the root of the padded leaves",
 "F02": "proved: verify decides equality of the path hash with the root; acceptance against a tree's root gives the honest proof or an explicit collision; hash inputs injective",
 "F03": "proved: fold_polynomial = even + r odd (trimmed), folding relation lemma, layers and domains chain through the commit phase",
 "F04": "proved: generate_proof's result satisfies verify_ok and verify then returns Ok; assumes no fold vanishes identically (probability < layers/|F|)",
 "F05": "proved: verify returns Ok exactly when verify_ok holds (Ok => verify_ok without side conditions); tampering lemmas down to a collision",
 "F06": "proved: the transcript state is the fold of the history; equal histories give equal challenges, different histories different states or an explicit collision; drawing twice refused",
 "N01": "proved: matrix/vector helpers entry by entry, any shape that is well formed",
 "N02": "proved: is_r1cs_satisfied decides the stated conjunction; trivial pair satisfies",
 "N03": "proved: fold_* return the stated combinations and the folded pair satisfies; at-most-two-values lemma for unsatisfied pairs",
 "N04": "proved: fold_verifier returns the prover's folded instance; challenge and point equal",
 "N05": "proved: prover/verifier completeness and Ok <=> transcript and opening equations; tampering lemmas",
 "N06": "proved: the augmented circuit's step, hash chain, checks and error frames",
 "N07": "proved: IVC prove/verify along honest runs and the rejection conditions",
 "N08": "proved: transcript state = hash chain over the history; bulk = one by one; drawing twice refused",
 "P01": "proved: the gate constructors' selector equation holds exactly for the gate's meaning; both insertions agree",
 "P02": "proved: compile: domain size, row values, permutation labels, disjoint cosets; preprocessing agrees",
 "P03": "proved: the parser returns exactly the gates of the equation (a gate for every constant, partial product and partial sum, none twice), every wire carries the value of its name, every wire is linked to the next wire of its name; lemmas: the links are a permutation whose cycles are the names; rows and links hold exactly when the witness satisfies the equation",
 "P04": "proved: both normalisers return exactly what the stated character machine writes and refuse exactly where it gets stuck, hence agree on every input; lemmas: on every string whose powers carry a positive number the machine copies everything and writes b^k as the k-fold product of b",
 "P05": "proved: the generator builds the same list of gates and links from the string alone, reads the constants from their names, and publishes size, cosets, public-input polynomial and commitments of the compiled polynomials; lemmas: they are those of the circuit parsed with any witness, and the public part of that circuit does not depend on the witness",
 "P06": "proved: SlicePoly::new/get_degree/compact/commit against the recombination of t",
 "P07": "proved: generate_proof over a satisfied compiled circuit does not fail at any of its divisions and returns a proof the verifier's equation accepts for every secret, blinding and hash (evaluation challenge not 1); lemma: a circuit whose rows and links hold compiles to a satisfied one; composed compile, generate_proof, verify",
 "P08": "proved: generate_proof returns only if every gate equation holds on the domain and, unless alpha is zero, the permutation products agree at the derived challenges; lemmas: a violated row violates the former; for a violated link at most 3n values of beta, and at most 3n of gamma for each other beta, let the products agree",
 "P09": "proved: verify returns Ok exactly when the derived last challenge equals the proof's and the protocol's pairing equation holds in the exponent (the code's expressions are normalised against the specified polynomial on every run); lemmas: changed last challenge, any other altered component (state collision or equal 64-bit-seeded challenge), another circuit polynomial (weight zero or agreement at the secret)",
 "P10": "proved: the generator's state is the hash chain of the fed commitments; draws are functions of it; refused draws; bulk = one by one",
}
BND = "not within reach of the contracts so far; decided by "
def note(pid):
    if pid in N:
        return (T, "proof", N[pid])
    return (B + "contract-based oracle; the contracts of the functions this property uses are proved under the other properties", "exploration", BND + "the executable contract on generated cases, a bounded stand-in that is not counted as proved")
