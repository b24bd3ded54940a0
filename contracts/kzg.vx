@files kzg/src/srs.rs kzg/src/scheme.rs kzg/src/commitment.rs kzg/src/opening.rs
@each broadcast use comms, units;
@prelude base.rs ring.rs curve.rs poly.rs
@struct Srs
@struct KzgCommitment eq copy
@struct KzgOpening
@struct KzgScheme
@raw
/// the reference string is the powers of the secret s
pub open spec fn srs_pow(p: Seq<G1>, s: Fr) -> bool { forall|i: int| 0 <= i < p.len() ==> #[trigger] p[i] == gp(fpow(s, i as nat)) }
pub open spec fn srs_wf(r: Srs, s: Fr) -> bool { r.g1_points@.len() > 0 && srs_pow(r.g1_points@, s) && r.g2 == gp2(fz(1)) && r.g2s_point == gp2(s) }
@end
@fn Srs::new_from_secret | K01 | r
requires circuit_size + 3 <= usize::MAX
ensures r.g1_points@.len() == circuit_size + 3, srs_wf(r, secret)
@start
broadcast use groups;
@loop 1
invariant __v1@.len() == __i1, cur == fpow(secret, __i1 as nat), srs_pow(__v1@, secret), lg(g1) == fz(1)
@loop_end 1
proof { r_one_mul(fpow(secret, __c1 as nat)); assert(fpow(secret, (__c1 + 1) as nat) == fmul(fpow(secret, __c1 as nat), secret)); }
@post
proof { r_one_mul(secret); }
@ring r_one_mul | a | 1*a == a
@fn Srs::g1_points | K01 K02 | r
ensures r@ == self.g1_points@
@fn Srs::g2 | K01 K04 K05 | r
ensures r == self.g2
@fn Srs::g2s | K01 K04 K05 | r
ensures r == self.g2s_point
@fn KzgScheme::new | K02 | r
ensures r.0 == srs
@raw
/// what committing to the coefficients c yields
pub open spec fn com_is(srs: Srs, c: Seq<Fr>, g: G1) -> bool { forall|s: Fr| #[trigger] srs_wf(srs, s) ==> g == gp(peval(c, s)) }
@end
@fn KzgScheme::evaluate_in_s | K02 K03 | r
requires canon(polynomial.coeffs@), self.0.g1_points@.len() > 0, polynomial.coeffs@.len() <= self.0.g1_points@.len()
ensures com_is(self.0, polynomial.coeffs@, r)
@start
broadcast use groups;
proof { lemma_trim(polynomial.coeffs@); }
let ghost c = polynomial.coeffs@;
@loop 1
invariant 1 <= __i1, __L1 == c.len(), forall|s: Fr| #[trigger] srs_wf(self.0, s) ==> __v1 == gp(psum(c, s, __i1 as nat))
@before_loop 1
proof { assert forall|s: Fr| #[trigger] srs_wf(self.0, s) implies __v1 == gp(psum(c, s, 1)) by { assert(self.0.g1_points@[0] == gp(fpow(s, 0))); assert(psum(c, s, 0) == fz(0)); assert(psum(c, s, 1) == fadd(psum(c, s, 0), fmul(c[0], fpow(s, 0)))); r_swap0(fpow(s, 0), c[0]); } }
@loop_end 1
proof { assert forall|s: Fr| #[trigger] srs_wf(self.0, s) implies __v1 == gp(psum(c, s, __i1 as nat)) by { assert(self.0.g1_points@[__c1 as int] == gp(fpow(s, __c1 as nat))); r_comm(fpow(s, __c1 as nat), c[__c1 as int]); } }
@ring r_swap0 | a b | a*b == 0 + b*a
@ring r_comm | a b | a*b == b*a
@fn KzgScheme::commit | K02 | r
requires canon(polynomial.coeffs@), self.0.g1_points@.len() > 0, polynomial.coeffs@.len() <= self.0.g1_points@.len()
ensures com_is(self.0, polynomial.coeffs@, r.0)
@fn KzgScheme::commit_vector | K02 | r
requires self.0.g1_points@.len() > 0, ptrim(coeffs@).len() <= self.0.g1_points@.len()
ensures com_is(self.0, coeffs@, r.0)
@start
broadcast use ax_vec_of;
proof { lemma_trim(coeffs@); assert forall|s: Fr| peval(ptrim(coeffs@), s) == peval(coeffs@, s) by { lemma_trim_eval(coeffs@, s); } }
@fn KzgScheme::commit_para | K02 | r
requires self.0.g1_points@.len() > 0
ensures forall|s: Fr| #[trigger] srs_wf(self.0, s) ==> r.0 == gp(para)
@start
broadcast use groups;
proof { assert forall|s: Fr| #[trigger] srs_wf(self.0, s) implies gmul(self.0.g1_points@[0], para) == gp(para) by { assert(fpow(s, 0) == fz(1)); r_one_mul(para); } }
@raw
/// the opening (w, y) at z satisfies the verification equation (s - z) w == c - y
pub open spec fn eqn_holds(srs: Srs, c: G1, w: G1, y: Fr, z: Fr) -> bool { forall|s: Fr| #[trigger] srs_wf(srs, s) ==> fmul(lg(w), fsub(s, z)) == fsub(lg(c), y) }
@end
@fn KzgScheme::open | K03 | r
requires canon(polynomial.coeffs@), self.0.g1_points@.len() > 0, polynomial.coeffs@.len() <= self.0.g1_points@.len()
ensures r.1 == peval(polynomial.coeffs@, z), forall|c: G1| #[trigger] com_is(self.0, polynomial.coeffs@, c) ==> eqn_holds(self.0, c, r.0, r.1, z)
@start
broadcast use groups, ax_vec_of;
@after_let root
proof { ax_one(); let rt = seq![fneg(z), fz(1)]; lemma_trim(rt); assert([fneg(z), fz(1)]@ =~= rt); assert(root.coeffs@ =~= rt); lemma_trim(root.coeffs@);
  let p = polynomial.coeffs@; let d = new_poly.coeffs@; lemma_trim(p);
  assert(d.len() == p.len() && forall|i: int| 1 <= i < p.len() ==> d[i] == p[i]);
  assert(canon(d) || allz(d)) by { if d.len() > 1 { assert(d.last() == p.last()); } else if d.len() == 1 { if d[0] == fz(0) { assert(allz(d)); } else { assert(d.last() == d[0]); } } } }
@after_let quotient_poly
proof { let p = polynomial.coeffs@; let d = new_poly.coeffs@; lemma_trim(p);
  ax_pdiv(new_poly, root);
  assert forall|s: Fr| fmul(peval(quotient_poly.coeffs@, s), fsub(s, z)) == fsub(peval(p, s), peval(p, z)) && quotient_poly.coeffs@.len() <= p.len() && canon(quotient_poly.coeffs@) by { lemma_open(p, d, root.coeffs@, quotient_poly.coeffs@, z, s); }
  assert(quotient_poly.coeffs@.len() <= p.len()) by { lemma_open(p, d, root.coeffs@, quotient_poly.coeffs@, z, z); } }
@post
proof { assert forall|c: G1| #[trigger] com_is(self.0, polynomial.coeffs@, c) implies eqn_holds(self.0, c, r.0, r.1, z) by {
  assert forall|s: Fr| #[trigger] srs_wf(self.0, s) implies fmul(lg(r.0), fsub(s, z)) == fsub(lg(c), r.1) by { } } }

@fn KzgScheme::open_vector | K03 | r
requires self.0.g1_points@.len() > 0, ptrim(coeffs@).len() <= self.0.g1_points@.len()
ensures r.1 == peval(coeffs@, z), forall|c: G1| #[trigger] com_is(self.0, coeffs@, c) ==> eqn_holds(self.0, c, r.0, r.1, z)
@start
broadcast use groups, ax_vec_of;
proof { lemma_trim(coeffs@); assert forall|s: Fr| peval(ptrim(coeffs@), s) == peval(coeffs@, s) by { lemma_trim_eval(coeffs@, s); } }
@after_let root
proof { ax_one(); let rt = seq![fneg(z), fz(1)]; lemma_trim(rt); assert([fneg(z), fz(1)]@ =~= rt); assert(root.coeffs@ =~= rt); lemma_trim(root.coeffs@);
  let p = ptrim(coeffs@); let d = polynomial.coeffs@; lemma_trim(p);
  assert(d.len() == p.len() && forall|i: int| 1 <= i < p.len() ==> d[i] == p[i]);
  assert(canon(d) || allz(d)) by { if d.len() > 1 { assert(d.last() == p.last()); } else if d.len() == 1 { if d[0] == fz(0) { assert(allz(d)); } else { assert(d.last() == d[0]); } } } }
@after_let quotient_poly
proof { let p = ptrim(coeffs@); let d = polynomial.coeffs@; lemma_trim(p);
  ax_pdiv(polynomial, root);
  assert forall|s: Fr| fmul(peval(quotient_poly.coeffs@, s), fsub(s, z)) == fsub(peval(p, s), peval(p, z)) && quotient_poly.coeffs@.len() <= p.len() && canon(quotient_poly.coeffs@) by { lemma_open(p, d, root.coeffs@, quotient_poly.coeffs@, z, s); }
  assert(quotient_poly.coeffs@.len() <= p.len()) by { lemma_open(p, d, root.coeffs@, quotient_poly.coeffs@, z, z); } }
@post
proof { assert forall|c: G1| #[trigger] com_is(self.0, coeffs@, c) implies eqn_holds(self.0, c, r.0, r.1, z) by {
  assert forall|s: Fr| #[trigger] srs_wf(self.0, s) implies fmul(lg(r.0), fsub(s, z)) == fsub(lg(c), r.1) by { } } }

@fn KzgScheme::verify | K03 K04 | r
ensures forall|s: Fr| #[trigger] srs_wf(self.0, s) ==> r == (fmul(lg(opening.0), fsub(s, z)) == fsub(lg(commitment.0), opening.1))
@start
broadcast use groups;
proof { assert forall|s: Fr| #[trigger] srs_wf(self.0, s) implies
  (gpt(fmul(lg(opening.0), fsub(s, fmul(fz(1), z)))) == gpt(fmul(fsub(lg(commitment.0), fmul(fz(1), opening.1)), fz(1)))) == (fmul(lg(opening.0), fsub(s, z)) == fsub(lg(commitment.0), opening.1)) by {
  r_one_mul(z); r_one_mul(opening.1); r_mul_one(fsub(lg(commitment.0), opening.1));
  ax_gpt(fmul(lg(opening.0), fsub(s, z))); ax_gpt(fsub(lg(commitment.0), opening.1)); } }
@ring r_mul_one | a | a*1 == a
@fn KzgScheme::evaluate_in_s | K02 | r | as=evaluate_in_s_refuse
ensures pdeg(polynomial.coeffs@) < self.0.g1_points@.len()
@subst \bvassert\b => vassert_refuse
@subst \bdegree\b => degree_refuse
@loop 1
invariant 1 <= __i1
@fn KzgScheme::commit | K02 | r | as=commit_refuse
ensures pdeg(polynomial.coeffs@) < self.0.g1_points@.len()
@subst \bevaluate_in_s\b => evaluate_in_s_refuse
@fn KzgScheme::commit_vector | K02 | r | as=commit_vector_refuse
ensures pdeg(coeffs@) < self.0.g1_points@.len()
@start
broadcast use ax_vec_of;
proof { lemma_trim(coeffs@); lemma_trim(ptrim(coeffs@)); }
@subst \bevaluate_in_s\b => evaluate_in_s_refuse
@raw
/// v^0 c_0 + .. + v^(n-1) c_(n-1)
pub open spec fn aggsum(c: Seq<&KzgCommitment>, v: Fr, n: nat) -> Fr decreases n { if n == 0 { fz(0) } else { fadd(aggsum(c, v, (n - 1) as nat), fmul(lg(c[n - 1].0), fpow(v, (n - 1) as nat))) } }
/// the defect of an opening: zero exactly when it satisfies the verification equation
pub open spec fn defect(c: KzgCommitment, z: Fr, o: KzgOpening, s: Fr) -> Fr { fsub(fsub(lg(c.0), o.1), fmul(lg(o.0), fsub(s, z))) }
/// the sum of the defects, each weighted with its drawn challenge
pub open spec fn dsum(c: Seq<KzgCommitment>, z: Seq<Fr>, o: Seq<KzgOpening>, s: Fr, r: Seq<Fr>, n: nat) -> Fr decreases n { if n == 0 { fz(0) } else { fadd(dsum(c, z, o, s, r, (n - 1) as nat), fmul(defect(c[n - 1], z[n - 1], o[n - 1], s), r[n - 1])) } }
pub open spec fn draws(g: StdRng, n: nat) -> Seq<Fr> { Seq::new(n, |i: int| fz(rdraw::<u128>(rsteps(g, i as nat)) as int)) }
@end
@fn KzgScheme::aggregate_commitments | K05 | r
ensures lg(r.0) == aggsum(commitments@, *challenge, commitments@.len())
@start
broadcast use groups;
@loop 1
invariant __L1 == commitments@.len(), pow == fpow(*challenge, __i1 as nat), lg(result) == aggsum(commitments@, *challenge, __i1 as nat)
@fn KzgScheme::batch_verify | K05 | r
requires commitments@.len() == points@.len(), openings@.len() == points@.len()
ensures forall|s: Fr| #[trigger] srs_wf(self.0, s) ==> r == (dsum(commitments@, points@, openings@, s, draws(*old(rng), points@.len()), points@.len()) == fz(0))
@start
broadcast use groups;
let ghost g0 = *old(rng);
let ghost dr = draws(g0, points@.len());
proof { assert forall|s: Fr| fsub(fz(0), fmul(fz(0), s)) == fz(0) by { r_zz(s); } }
@loop 1
invariant __L1 == points@.len(), *rng == rsteps(g0, __i1 as nat), lg(g1) == fz(1),
 forall|s: Fr| fsub(lg(e_1), fmul(lg(e_2), s)) == #[trigger] dsum(commitments@, points@, openings@, s, dr, __i1 as nat)
@loop_start 1
let ghost (p1, p2) = (e_1, e_2);
@loop_end 1
proof { let i = __c1 as int; let r = dr[i]; let c = lg(commitments@[i].0); let y = openings@[i].1; let w = lg(openings@[i].0); let z = points@[i];
  assert(r_prime == r);
  assert forall|s: Fr| fsub(lg(e_1), fmul(lg(e_2), s)) == #[trigger] dsum(commitments@, points@, openings@, s, dr, __i1 as nat) by {
    assert(fsub(lg(p1), fmul(lg(p2), s)) == dsum(commitments@, points@, openings@, s, dr, __c1 as nat));
    r_batch(lg(p1), lg(p2), s, c, y, w, z, r); } }
@after_loop 1
proof { assert forall|s: Fr| #[trigger] srs_wf(self.0, s) implies (pair(e_1, self.0.g2) == pair(e_2, self.0.g2s_point)) == (dsum(commitments@, points@, openings@, s, dr, points@.len()) == fz(0)) by {
  lemma_sub0(lg(e_1), fmul(lg(e_2), s)); r_mul_one(lg(e_1)); ax_gpt(lg(e_1)); ax_gpt(fmul(lg(e_2), s)); } }
@ring r_zz | s | 0 - 0*s == 0
@ring r_batch | a b s c y w z r | (a + ((c - 1*y) + w*z)*r) - (b + w*r)*s == (a - b*s) + ((c - y) - w*(s - z))*r
@fn KzgScheme::batch_verify | K05 | r | as=batch_verify_refuse
ensures commitments@.len() == points@.len(), openings@.len() == points@.len()
@subst \bvassert\b => vassert_refuse
@loop 1
invariant __L1 <= points@.len(), __L1 <= commitments@.len(), __L1 <= openings@.len()
@raw
impl AddSpecImpl<KzgCommitment> for KzgCommitment { open spec fn obeys_add_spec() -> bool { true } open spec fn add_req(self, rhs: KzgCommitment) -> bool { true } open spec fn add_spec(self, rhs: KzgCommitment) -> KzgCommitment { KzgCommitment(gadd(self.0, rhs.0)) } }
impl SubSpecImpl<KzgCommitment> for KzgCommitment { open spec fn obeys_sub_spec() -> bool { true } open spec fn sub_req(self, rhs: KzgCommitment) -> bool { true } open spec fn sub_spec(self, rhs: KzgCommitment) -> KzgCommitment { KzgCommitment(gsub(self.0, rhs.0)) } }
impl NegSpecImpl for KzgCommitment { open spec fn obeys_neg_spec() -> bool { true } open spec fn neg_req(self) -> bool { true } open spec fn neg_spec(self) -> KzgCommitment { KzgCommitment(gneg(self.0)) } }
impl MulSpecImpl<Fr> for KzgCommitment { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, rhs: Fr) -> bool { true } open spec fn mul_spec(self, rhs: Fr) -> KzgCommitment { KzgCommitment(gmul(self.0, rhs)) } }
impl<'a> MulSpecImpl<Fr> for &'a KzgCommitment { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, rhs: Fr) -> bool { true } open spec fn mul_spec(self, rhs: Fr) -> KzgCommitment { KzgCommitment(gmul(self.0, rhs)) } }
impl AddSpecImpl<KzgOpening> for KzgOpening { open spec fn obeys_add_spec() -> bool { true } open spec fn add_req(self, rhs: KzgOpening) -> bool { true } open spec fn add_spec(self, rhs: KzgOpening) -> KzgOpening { KzgOpening(gadd(self.0, rhs.0), fadd(self.1, rhs.1)) } }
@end
@fn KzgCommitment::inner | K05 | r
ensures *r == self.0
@fn KzgOpening::eval | K03 | r
ensures r == self.1
@fn KzgCommitment::Add::add | K06 | r
@fn KzgCommitment::Neg::neg | K06 | r
@fn KzgCommitment::Sub::sub | K06 | r
@start
broadcast use groups;
proof { r_subneg(lg(self.0), lg(rhs.0)); }
@ring r_subneg | a b | a + (-b) == a - b
@fn KzgCommitment::Mul<Fr>::mul | K06 | r
@fn &KzgCommitment::Mul<Fr>::mul | K06 | r
@fn KzgOpening::Add::add | K06 | r
@lemma k03_honest_opening_verifies K03
/// set up, commit, open and verify: always true
pub fn k03_honest_opening_verifies(secret: Fr, n: usize, p: &Poly, z: Fr) -> (b: bool)
  requires canon(p.coeffs@), p.coeffs@.len() <= n + 3, n + 3 <= usize::MAX
  ensures b
{ broadcast use groups; let sc = KzgScheme::new(Srs::new_from_secret(secret, n)); let c = sc.commit(p); let o = sc.open(p, z); assert(com_is(sc.0, p.coeffs@, c.0)); assert(srs_wf(sc.0, secret)); sc.verify(&c, &o, z) }
@lemma k03_honest_vector_opening_verifies K03
pub fn k03_honest_vector_opening_verifies(secret: Fr, n: usize, p: &[Fr], z: Fr) -> (b: bool)
  requires ptrim(p@).len() <= n + 3, n + 3 <= usize::MAX
  ensures b
{ broadcast use groups; let sc = KzgScheme::new(Srs::new_from_secret(secret, n)); let c = sc.commit_vector(p); let o = sc.open_vector(p, z); assert(com_is(sc.0, p@, c.0)); assert(srs_wf(sc.0, secret)); sc.verify(&c, &o, z) }
@lemma k02_vector_and_polynomial_agree K02
/// the coefficient vector and the polynomial made from it have the same commitment, whatever the trailing zeros
pub fn k02_vector_and_polynomial_agree(sc: &KzgScheme, v: &[Fr], p: &Poly, Ghost(s): Ghost<Fr>) -> (b: bool)
  requires srs_wf(sc.0, s), canon(p.coeffs@), p.coeffs@ == ptrim(v@), p.coeffs@.len() <= sc.0.g1_points@.len()
  ensures b
{ let a = sc.commit(p); let c = sc.commit_vector(v); proof { lemma_trim_eval(v@, s); assert(com_is(sc.0, v@, c.0)); assert(com_is(sc.0, p.coeffs@, a.0)); } a.0 == c.0 }
@lemma k04_altered_openings_fail K04
/// the equation holds for at most one commitment, one value, one witness (z off the secret) and, for a non-zero witness, one point
pub proof fn k04_altered_openings_fail(c: Fr, w: Fr, y: Fr, z: Fr, s: Fr, c2: Fr, w2: Fr, y2: Fr, z2: Fr)
  requires fmul(w, fsub(s, z)) == fsub(c, y)
  ensures fmul(w, fsub(s, z)) == fsub(c2, y) ==> c2 == c,
    fmul(w, fsub(s, z)) == fsub(c, y2) ==> y2 == y,
    z != s && fmul(w2, fsub(s, z)) == fsub(c, y) ==> w2 == w,
    w != fz(0) && fmul(w, fsub(s, z2)) == fsub(c, y) ==> z2 == z
{
  r_sub_add(c, y); r_sub_add(c2, y); r_csub(c, y); r_csub(c, y2);
  if z != s && fmul(w2, fsub(s, z)) == fsub(c, y) { r_fact(w, w2, fsub(s, z)); lemma_sub0(fmul(w, fsub(s, z)), fmul(w2, fsub(s, z))); lemma_sub0(s, z); ax_dom(fsub(w, w2), fsub(s, z)); lemma_sub0(w, w2); }
  if w != fz(0) && fmul(w, fsub(s, z2)) == fsub(c, y) { r_fact2(w, s, z, z2); lemma_sub0(fmul(w, fsub(s, z2)), fmul(w, fsub(s, z))); ax_dom(w, fsub(z, z2)); lemma_sub0(z, z2); }
}
@ring r_csub | c y | c - (c - y) == y
@ring r_fact | a b t | a*t - b*t == (a - b)*t
@ring r_fact2 | w s z t | w*(s - t) - w*(s - z) == w*(z - t)
@lemma k05_valid_batches_pass K05
/// equally many openings that satisfy their equations have weighted defect sum zero, whatever is drawn
pub proof fn k05_valid_batches_pass(c: Seq<KzgCommitment>, z: Seq<Fr>, o: Seq<KzgOpening>, s: Fr, r: Seq<Fr>, n: nat)
  requires n <= c.len(), n <= z.len(), n <= o.len(), n <= r.len(), forall|i: int| 0 <= i < n ==> fmul(lg(#[trigger] o[i].0), fsub(s, z[i])) == fsub(lg(c[i].0), o[i].1)
  ensures dsum(c, z, o, s, r, n) == fz(0) decreases n
{ if n > 0 { k05_valid_batches_pass(c, z, o, s, r, (n - 1) as nat); let t = o[n - 1].0; r_suba(fsub(lg(c[n - 1].0), o[n - 1].1)); r_0mul(r[n - 1]); } }
@ring r_0mul | a | 0 + 0*a == 0
@lemma k05_invalid_batches_fail_but_for_one_draw K05
/// an opening with non-zero defect is let through for at most one value of its challenge, the other draws being as they are
pub proof fn k05_invalid_batches_fail_but_for_one_draw(c: Seq<KzgCommitment>, z: Seq<Fr>, o: Seq<KzgOpening>, s: Fr, r: Seq<Fr>, r2: Seq<Fr>, n: nat, j: int)
  requires n <= c.len(), n <= z.len(), n <= o.len(), n <= r.len(), n <= r2.len(), 0 <= j < n, forall|i: int| 0 <= i < n && i != j ==> r[i] == r2[i],
    defect(c[j], z[j], o[j], s) != fz(0), dsum(c, z, o, s, r, n) == fz(0), dsum(c, z, o, s, r2, n) == fz(0)
  ensures r[j] == r2[j]
{ lemma_dsum_diff(c, z, o, s, r, r2, n, j); r_suba(fz(0)); let d = defect(c[j], z[j], o[j], s); ax_dom(d, fsub(r[j], r2[j])); lemma_sub0(r[j], r2[j]); }
pub proof fn lemma_dsum_diff(c: Seq<KzgCommitment>, z: Seq<Fr>, o: Seq<KzgOpening>, s: Fr, r: Seq<Fr>, r2: Seq<Fr>, n: nat, j: int)
  requires n <= c.len(), n <= z.len(), n <= o.len(), n <= r.len(), n <= r2.len(), 0 <= j, forall|i: int| 0 <= i < n && i != j ==> r[i] == r2[i]
  ensures fsub(dsum(c, z, o, s, r, n), dsum(c, z, o, s, r2, n)) == (if j < n { fmul(defect(c[j], z[j], o[j], s), fsub(r[j], r2[j])) } else { fz(0) }) decreases n
{ if n == 0 { r_suba(fz(0)); } else { let m = (n - 1) as nat; lemma_dsum_diff(c, z, o, s, r, r2, m, j); let (a, b) = (dsum(c, z, o, s, r, m), dsum(c, z, o, s, r2, m)); let d = defect(c[m as int], z[m as int], o[m as int], s);
  if j == m { lemma_sub0(a, b); r_dd(a, d, r[j], r2[j]); } else { r_ds(a, b, fmul(d, r[m as int])); } } }
@ring r_dd | a d p q | (a + d*p) - (a + d*q) == d*(p - q)
@ring r_ds | a b t | (a + t) - (b + t) == a - b
@lemma k06_homomorphic K06
/// commitments to p and q: their sum, difference, negation and scalings are the commitments to those of the polynomials
pub proof fn k06_homomorphic(srs: Srs, p: Seq<Fr>, q: Seq<Fr>, c: G1, d: G1, k: Fr)
  requires com_is(srs, p, c), com_is(srs, q, d)
  ensures com_is(srs, pcomb(fz(1), p, fz(1), q), gadd(c, d)), com_is(srs, pcomb(fz(1), p, fneg(fz(1)), q), gsub(c, d)),
    com_is(srs, pcomb(fneg(fz(1)), p, fz(0), q), gneg(c)), com_is(srs, pcomb(k, p, fz(0), q), gmul(c, k))
{ broadcast use groups;
  assert forall|s: Fr| #[trigger] srs_wf(srs, s) implies gadd(c, d) == gp(peval(pcomb(fz(1), p, fz(1), q), s)) && gsub(c, d) == gp(peval(pcomb(fz(1), p, fneg(fz(1)), q), s))
    && gneg(c) == gp(peval(pcomb(fneg(fz(1)), p, fz(0), q), s)) && gmul(c, k) == gp(peval(pcomb(k, p, fz(0), q), s)) by {
    let (x, y) = (peval(p, s), peval(q, s));
    lemma_comb(fz(1), p, fz(1), q, s); lemma_comb(fz(1), p, fneg(fz(1)), q, s); lemma_comb(fneg(fz(1)), p, fz(0), q, s); lemma_comb(k, p, fz(0), q, s);
    r_h1(x, y); r_h2(x, y); r_h3(x, y); r_h4(x, y, k); } }
@ring r_h1 | x y | 1*x + 1*y == x + y
@ring r_h2 | x y | 1*x + (-1)*y == x - y
@ring r_h3 | x y | (-1)*x + 0*y == -x
@ring r_h4 | x y k | k*x + 0*y == x*k
@lemma k06_openings_add K06
/// two openings at one point that verify add to one that verifies against the sum of the commitments
pub fn k06_openings_add(sc: &KzgScheme, c: KzgCommitment, o: KzgOpening, d: KzgCommitment, p: KzgOpening, z: Fr, Ghost(s): Ghost<Fr>) -> (b: bool)
  requires srs_wf(sc.0, s), fmul(lg(o.0), fsub(s, z)) == fsub(lg(c.0), o.1), fmul(lg(p.0), fsub(s, z)) == fsub(lg(d.0), p.1)
  ensures b
{ broadcast use groups; proof { r_oadd(lg(o.0), lg(p.0), fsub(s, z)); r_oadd2(lg(c.0), lg(d.0), o.1, p.1); } let e = c + d; let q = o + p; sc.verify(&e, &q, z) }
@ring r_oadd | a b t | (a + b)*t == a*t + b*t
@ring r_oadd2 | a b c d | (a + b) - (c + d) == (a - c) + (b - d)
