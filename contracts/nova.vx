@import kzg
@files nova/src/utils.rs nova/src/r1cs/mod.rs nova/src/transcript.rs nova/src/nifs/mod.rs nova/src/nifs/nifs_prover.rs nova/src/nifs/nifs_verifier.rs nova/src/circuit.rs nova/src/ivc/mod.rs nova/src/ivc/ivc_prover.rs nova/src/ivc/ivc_verifier.rs
@each broadcast use comms, units;
@prelude base.rs ring.rs curve.rs poly.rs hash.rs fq.rs transcript.rs
@struct R1CS
@struct FInstance
@struct FWitness
@struct Transcript
@struct NIFSProof
@struct NIFS
@struct State
@struct AugmentedCircuit
@struct ZkIVCProof
@struct IVCProof
@struct IVC
@raw
// ---- linear algebra
pub open spec fn dot(a: Seq<Fr>, z: Seq<Fr>, n: nat) -> Fr decreases n { if n == 0 { fz(0) } else { fadd(dot(a, z, (n - 1) as nat), fmul(a[n - 1], z[n - 1])) } }
pub open spec fn nmin(a: nat, b: nat) -> nat { if a <= b { a } else { b } }
/// the matrix-vector product
pub open spec fn mvp(m: Seq<Vec<Fr>>, z: Seq<Fr>) -> Seq<Fr> { Seq::new(m.len(), |i: int| dot(m[i]@, z, nmin(m[i]@.len(), z.len()))) }
@end
@fn matrix_vector_product | N01 | r
ensures r@ == mvp(matrix@, z@)
@loop 1
invariant r@.len() == matrix@.len(), forall|k: int| 0 <= k < __i1 ==> r@[k] == #[trigger] mvp(matrix@, z@)[k], forall|k: int| __i1 <= k < matrix@.len() ==> r@[k] == fz(0)
@loop 2
invariant __L2 == nmin(matrix@[i as int]@.len(), z@.len()), r@.len() == matrix@.len(), r@[i as int] == dot(matrix@[i as int]@, z@, __i2 as nat), forall|k: int| 0 <= k < i ==> r@[k] == #[trigger] mvp(matrix@, z@)[k], forall|k: int| i < k < matrix@.len() ==> r@[k] == fz(0)
@post
proof { assert(r@ =~= mvp(matrix@, z@)); }
@fn hadamard_product | N01 | r
requires b@.len() >= a@.len()
ensures r@ == Seq::new(a@.len(), |i: int| fmul(a@[i], b@[i]))
@loop 1
invariant r@.len() == a@.len(), forall|k: int| 0 <= k < __i1 ==> r@[k] == fmul(a@[k], b@[k])
@post
proof { assert(r@ =~= Seq::new(a@.len(), |i: int| fmul(a@[i], b@[i]))); }
@fn vector_elem_product | N01 | r
ensures r@ == Seq::new(a@.len(), |i: int| fmul(a@[i], u))
@loop 1
invariant r@.len() == a@.len(), forall|k: int| 0 <= k < __i1 ==> r@[k] == fmul(a@[k], u)
@post
proof { assert(r@ =~= Seq::new(a@.len(), |i: int| fmul(a@[i], u))); }
@fn vec_sub | N01 | r
requires a@.len() == b@.len()
ensures r@ == Seq::new(a@.len(), |i: int| fsub(a@[i], b@[i]))
@loop 1
invariant r@.len() == a@.len(), forall|k: int| 0 <= k < __i1 ==> r@[k] == fsub(a@[k], b@[k])
@post
proof { assert(r@ =~= Seq::new(a@.len(), |i: int| fsub(a@[i], b@[i]))); }
@fn vec_add | N01 | r
requires a@.len() == b@.len()
ensures r@ == Seq::new(a@.len(), |i: int| fadd(a@[i], b@[i]))
@loop 1
invariant r@.len() == a@.len(), forall|k: int| 0 <= k < __i1 ==> r@[k] == fadd(a@[k], b@[k])
@post
proof { assert(r@ =~= Seq::new(a@.len(), |i: int| fadd(a@[i], b@[i]))); }
@fn vec_equal | N01 | r
ensures r == (a@ == b@)
@loop 1
invariant a@.len() == b@.len(), forall|k: int| 0 <= k < __i1 ==> a@[k] == b@[k]
@post
proof { if r { assert(a@ =~= b@); } }
@fn to_f_matrix | N01 | r
ensures r@.len() == matrix@.len(), forall|i: int| 0 <= i < matrix@.len() ==> (#[trigger] r@[i])@.len() == matrix@[i]@.len(),
  forall|i: int, j: int| 0 <= i < matrix@.len() && 0 <= j < matrix@[i]@.len() ==> (#[trigger] r@[i]@[j]) == fz(matrix@[i]@[j] as int)
@loop 1
invariant r@.len() == matrix@.len(), forall|i: int| 0 <= i < __i1 ==> (#[trigger] r@[i])@.len() == matrix@[i]@.len(),
  forall|i: int, j: int| 0 <= i < __i1 && 0 <= j < matrix@[i]@.len() ==> (#[trigger] r@[i]@[j]) == fz(matrix@[i]@[j] as int)
@loop 2
invariant r@.len() == matrix@.len(), r@[i as int]@.len() == matrix@[i as int]@.len(), forall|j: int| 0 <= j < __i2 ==> (#[trigger] r@[i as int]@[j]) == fz(matrix@[i as int]@[j] as int), forall|k: int| 0 <= k < i ==> (#[trigger] r@[k])@.len() == matrix@[k]@.len(),
  forall|k: int, j: int| 0 <= k < i && 0 <= j < matrix@[k]@.len() ==> (#[trigger] r@[k]@[j]) == fz(matrix@[k]@[j] as int)
@fn to_f_vec | N01 | r
ensures r@ == Seq::new(z@.len(), |i: int| fz(z@[i] as int))
@loop 1
invariant r@.len() == z@.len(), forall|k: int| 0 <= k < __i1 ==> r@[k] == fz(z@[k] as int)
@post
proof { assert(r@ =~= Seq::new(z@.len(), |i: int| fz(z@[i] as int))); }
@raw
// ---- the transcript: the hash of what came before followed by the item's encoding
impl Transcript { #[verifier::external_body] pub fn vdefault() -> (r: Transcript) ensures r.data is None, !r.generated { unimplemented!() } }
pub open spec fn tdata(t: Transcript) -> Option<Seq<u8>> { match t.data { Some(v) => Some(v@), None => None } }
@end
@fn Transcript::feed | N08 N05 | r
ensures tdata(*final(self)) == Some(absorb(tdata(*old(self)), ser_g1(kzg_commitment.0))), !final(self).generated
@start
let ghost d0 = self.data;
@fn Transcript::feed_scalar_num | N08 N05 | r
ensures tdata(*final(self)) == Some(absorb(tdata(*old(self)), ser_fr(num))), !final(self).generated
@fn Transcript::from_commitment | N08 | r
ensures tdata(r) == tstate(Seq::new(kzg_commitment@.len(), |i: int| ser_g1(kzg_commitment@[i].0))), !r.generated
@start
let ghost h = Seq::new(kzg_commitment@.len(), |i: int| ser_g1(kzg_commitment@[i].0));
@loop 1
invariant __L1 == h.len(), !challenge_parse.generated, tdata(challenge_parse) == tstate(h.subrange(0, __i1 as int))
@loop_end 1
proof { let a = h.subrange(0, __i1 as int); assert(a.drop_last() =~= h.subrange(0, __c1 as int)); assert(a.last() == h[__c1 as int]); }
@after_loop 1
proof { assert(h.subrange(0, h.len() as int) =~= h); }
@fn Transcript::from_scalar_number | N08 | r
ensures tdata(r) == tstate(Seq::new(numbers@.len(), |i: int| ser_fr(numbers@[i]))), !r.generated
@start
let ghost h = Seq::new(numbers@.len(), |i: int| ser_fr(numbers@[i]));
@loop 1
invariant __L1 == h.len(), !challenge_parse.generated, tdata(challenge_parse) == tstate(h.subrange(0, __i1 as int))
@loop_end 1
proof { let a = h.subrange(0, __i1 as int); assert(a.drop_last() =~= h.subrange(0, __c1 as int)); assert(a.last() == h[__c1 as int]); }
@after_loop 1
proof { assert(h.subrange(0, h.len() as int) =~= h); }
@fn Transcript::generate_rng_with_seed | N08 N05 | r
requires !old(self).generated, old(self).data is Some, old(self).data->0@.len() >= 8
ensures final(self).generated, final(self).data == old(self).data, r == tseed(old(self).data->0@)
@fn Transcript::generate_challenges | N08 N05 | r
requires !old(self).generated, old(self).data is Some, old(self).data->0@.len() >= 8
ensures final(self).generated, final(self).data == old(self).data, r@.len() == N, forall|i: int| 0 <= i < N ==> r@[i] == challenge(old(self).data->0@, i as nat)
@loop 1
invariant __L1 == N, __v1@.len() == __i1, rng == rsteps(tseed(old(self).data->0@), __i1 as nat), self.generated, self.data == old(self).data, forall|k: int| 0 <= k < __i1 ==> __v1@[k] == challenge(old(self).data->0@, k as nat)
@fn Transcript::generate_rng_with_seed | N08 | r | as=generate_rng_with_seed_refuse
ensures !old(self).generated
@subst \bvpanic\b => vpanic_refuse
@subst \bv_range\b => v_range_refuse
@fn Transcript::generate_challenges | N08 | r | as=generate_challenges_refuse
ensures !old(self).generated
@subst \bgenerate_rng_with_seed\b => generate_rng_with_seed_refuse
@loop 1
invariant __L1 == N, __v1@.len() == __i1
@raw
// ---- committed relaxed R1CS
pub open spec fn zvec(w: Seq<Fr>, x: Seq<Fr>, u: Fr) -> Seq<Fr> { (w + x).push(u) }
/// A, B and C have m rows
pub open spec fn rows(r: R1CS, m: nat) -> bool { r.matrix_a@.len() == m && r.matrix_b@.len() == m && r.matrix_c@.len() == m }
/// row i of the relaxed relation
pub open spec fn row_ok(r: R1CS, z: Seq<Fr>, u: Fr, e: Seq<Fr>, i: int) -> bool { fmul(mvp(r.matrix_a@, z)[i], mvp(r.matrix_b@, z)[i]) == fadd(fmul(mvp(r.matrix_c@, z)[i], u), e[i]) }
pub open spec fn rel(r: R1CS, z: Seq<Fr>, u: Fr, e: Seq<Fr>) -> bool { forall|i: int| 0 <= i < r.matrix_a@.len() ==> #[trigger] row_ok(r, z, u, e, i) }
/// the satisfaction of a committed relaxed instance, for the setup secret s
pub open spec fn sat(r: R1CS, f: FInstance, w: FWitness, s: Fr) -> bool {
  r.num_vars == w.w@.len() && r.num_io == f.x@.len() && rel(r, zvec(w.w@, f.x@, f.u), f.u, w.e@)
  && f.com_w.0 == gp(peval(w.w@, s)) && f.com_e.0 == gp(peval(w.e@, s)) }
pub open spec fn fits(sc: KzgScheme, c: Seq<Fr>) -> bool { sc.0.g1_points@.len() > 0 && c.len() <= sc.0.g1_points@.len() }
@end
@fn FWitness::new | N02 N07 | r
ensures r.w@ == w@, r.e@ == Seq::new(len as nat, |i: int| fz(0))
@start
broadcast use ax_vec_of;
@fn FWitness::new_trivial_witness | N02 | r
ensures r.w@ == Seq::new(len as nat, |i: int| fz(0)), r.e@ == Seq::new(len as nat, |i: int| fz(0))
@fn FWitness::commit | N02 N04 | r
requires fits(*scheme, self.e@), fits(*scheme, self.w@)
ensures com_is(scheme.0, self.e@, r.com_e.0), com_is(scheme.0, self.w@, r.com_w.0), r.u == fz(1), r.x@ == x@
@start
broadcast use ax_vec_of;
proof { lemma_trim(self.e@); lemma_trim(self.w@); }
@fn create_trivial_pair | N02 | r
requires scheme.0.g1_points@.len() > 0, w_len <= scheme.0.g1_points@.len()
ensures r.0.w@ == Seq::new(w_len as nat, |i: int| fz(0)), r.0.e@ == Seq::new(w_len as nat, |i: int| fz(0)), r.1.u == fz(0), r.1.x@ == Seq::new(x_len as nat, |i: int| fz(0)),
  com_is(scheme.0, r.0.e@, r.1.com_e.0), com_is(scheme.0, r.0.w@, r.1.com_w.0)
@fn is_r1cs_satisfied | N02 | r
requires rows(*r1cs, f_witness.e@.len()), fits(*scheme, f_witness.e@), fits(*scheme, f_witness.w@)
ensures forall|s: Fr| #[trigger] srs_wf(scheme.0, s) ==> (r is Ok) == sat(*r1cs, *f_instance, *f_witness, s)
@start
proof { lemma_trim(f_witness.e@); lemma_trim(f_witness.w@); }
@after_let res_eq
proof { let zz = zvec(f_witness.w@, f_instance.x@, f_instance.u); assert(z@ == zz); let e = f_witness.e@;
  if left_side@ == right_side@ { assert forall|i: int| 0 <= i < r1cs.matrix_a@.len() implies #[trigger] row_ok(*r1cs, zz, f_instance.u, e, i) by { assert(left_side@[i] == right_side@[i]); } }
  if rel(*r1cs, zz, f_instance.u, e) { assert forall|i: int| 0 <= i < e.len() implies left_side@[i] == right_side@[i] by { assert(row_ok(*r1cs, zz, f_instance.u, e, i)); } assert(left_side@ =~= right_side@); } }
@raw
// ---- folding
/// the cross term of one row
pub open spec fn cross(r: R1CS, u1: Fr, u2: Fr, z1: Seq<Fr>, z2: Seq<Fr>, i: int) -> Fr {
  fsub(fsub(fadd(fmul(mvp(r.matrix_a@, z1)[i], mvp(r.matrix_b@, z2)[i]), fmul(mvp(r.matrix_a@, z2)[i], mvp(r.matrix_b@, z1)[i])), fmul(mvp(r.matrix_c@, z2)[i], u1)), fmul(mvp(r.matrix_c@, z1)[i], u2)) }
pub open spec fn crosses(r: R1CS, u1: Fr, u2: Fr, z1: Seq<Fr>, z2: Seq<Fr>) -> Seq<Fr> { Seq::new(r.matrix_a@.len(), |i: int| cross(r, u1, u2, z1, z2, i)) }
/// a + r b, entry by entry
pub open spec fn fold1(a: Seq<Fr>, b: Seq<Fr>, r: Fr) -> Seq<Fr> { Seq::new(nmin(a.len(), b.len()), |i: int| fadd(a[i], fmul(b[i], r))) }
pub open spec fn fold2(a: Seq<Fr>, t: Seq<Fr>, b: Seq<Fr>, r: Fr) -> Seq<Fr> { Seq::new(nmin(nmin(a.len(), t.len()), b.len()), |i: int| fadd(fadd(a[i], fmul(r, t[i])), fmul(fmul(r, r), b[i]))) }
pub open spec fn folded_w(f: FWitness, a: FWitness, b: FWitness, t: Seq<Fr>, r: Fr) -> bool { f.w@ == fold1(a.w@, b.w@, r) && f.e@ == fold2(a.e@, t, b.e@, r) }
pub open spec fn folded_i(f: FInstance, a: FInstance, b: FInstance, t: G1, r: Fr) -> bool {
  f.x@ == fold1(a.x@, b.x@, r) && f.u == fadd(a.u, fmul(b.u, r)) && lg(f.com_w.0) == fadd(lg(a.com_w.0), fmul(lg(b.com_w.0), r))
  && lg(f.com_e.0) == fadd(fadd(lg(a.com_e.0), fmul(lg(t), r)), fmul(lg(b.com_e.0), fmul(r, r))) }
@end
@fn NIFS::compute_t | N03 | r
requires rows(*r1cs, r1cs.matrix_a@.len())
ensures r@ == crosses(*r1cs, u1, u2, z1@, z2@)
@post
proof { assert(r@ =~= crosses(*r1cs, u1, u2, z1@, z2@)) by { broadcast use lifts; }; }
@fn NIFS::fold_witness | N03 N04 | res
ensures folded_w(res, *fw1, *fw2, t@, r)
@loop 1
invariant __L1 == nmin(nmin(fw1.e@.len(), t@.len()), fw2.e@.len()), __v1@.len() == __i1, forall|k: int| 0 <= k < __i1 ==> __v1@[k] == fold2(fw1.e@, t@, fw2.e@, r)[k]
@loop 2
invariant __L2 == nmin(fw1.w@.len(), fw2.w@.len()), __v2@.len() == __i2, forall|k: int| 0 <= k < __i2 ==> __v2@[k] == fold1(fw1.w@, fw2.w@, r)[k]
@post
proof { assert(res.e@ =~= fold2(fw1.e@, t@, fw2.e@, r)); assert(res.w@ =~= fold1(fw1.w@, fw2.w@, r)); }
@fn NIFS::fold_instance | N03 N04 | res
ensures folded_i(res, *fi1, *fi2, com_t.0, r)
@start
broadcast use groups;
@loop 1
invariant __L1 == nmin(fi1.x@.len(), fi2.x@.len()), __v1@.len() == __i1, forall|k: int| 0 <= k < __i1 ==> __v1@[k] == fold1(fi1.x@, fi2.x@, r)[k]
@post
proof { assert(res.x@ =~= fold1(fi1.x@, fi2.x@, r)); }
@raw
/// the transcript after the two scalars and the cross-term commitment
pub open spec fn after_fold(d: Option<Seq<u8>>, u1: Fr, u2: Fr, t: G1) -> Seq<u8> { absorb(Some(absorb(Some(absorb(d, ser_fr(u1))), ser_fr(u2))), ser_g1(t)) }
pub open spec fn after_open(d: Option<Seq<u8>>, e: G1, w: G1) -> Seq<u8> { absorb(Some(absorb(d, ser_g1(e))), ser_g1(w)) }
@end
@fn NIFS::prover | N03 N04 N05 | res
requires rows(*r1cs, r1cs.matrix_a@.len()), scheme.0.g1_points@.len() > 0, r1cs.matrix_a@.len() <= scheme.0.g1_points@.len()
ensures
  ({ let t = crosses(*r1cs, fi1.u, fi2.u, zvec(fw1.w@, fi1.x@, fi1.u), zvec(fw2.w@, fi2.x@, fi2.u)); let d = after_fold(tdata(*old(transcript)), fi1.u, fi2.u, res.2.0);
     folded_w(res.0, *fw1, *fw2, t, res.3) && folded_i(res.1, *fi1, *fi2, res.2.0, res.3) && com_is(scheme.0, t, res.2.0) && res.3 == challenge(d, 0)
     && tdata(*final(transcript)) == Some(d) && final(transcript).generated })
@start
broadcast use ax_sha_len;
@after_let t
proof { lemma_trim(t@); }
@fn NIFS::prove | N04 N05 | res
requires fits(*scheme, fw.e@), fits(*scheme, fw.w@)
ensures ({ let d = after_open(tdata(*old(transcript)), fi.com_e.0, fi.com_w.0); let p = challenge(d, 0);
  res.r == r && res.opening_point == p && tdata(*final(transcript)) == Some(d) && final(transcript).generated
  && res.opening_e.1 == peval(fw.e@, p) && res.opening_w.1 == peval(fw.w@, p)
  && (forall|c: G1| #[trigger] com_is(scheme.0, fw.e@, c) ==> eqn_holds(scheme.0, c, res.opening_e.0, res.opening_e.1, p))
  && (forall|c: G1| #[trigger] com_is(scheme.0, fw.w@, c) ==> eqn_holds(scheme.0, c, res.opening_w.0, res.opening_w.1, p)) })
@start
broadcast use ax_sha_len;
proof { lemma_trim(fw.e@); lemma_trim(fw.w@); }
@fn NIFS::verifier | N04 | res
ensures folded_i(res, *fi1, *fi2, com_t.0, r)
@fn NIFS::verify_challenge | N04 N05 | res
ensures ({ let d = after_fold(tdata(*old(transcript)), fi1_u, fi2_u, com_t.0); (res is Ok) == (r == challenge(d, 0)) && tdata(*final(transcript)) == Some(d) && final(transcript).generated })
@start
broadcast use ax_sha_len;
@raw
pub open spec fn opens(o: KzgOpening, c: KzgCommitment, z: Fr, s: Fr) -> bool { fmul(lg(o.0), fsub(s, z)) == fsub(lg(c.0), o.1) }
@end
@fn NIFS::verify_opening | N04 N05 | res
ensures ({ let d = after_open(tdata(*old(transcript)), fi3.com_e.0, fi3.com_w.0); let p = challenge(d, 0); tdata(*final(transcript)) == Some(d) && final(transcript).generated
  && forall|s: Fr| #[trigger] srs_wf(scheme.0, s) ==> (res is Ok) == (proof.opening_point == p && opens(proof.opening_w, fi3.com_w, p, s) && opens(proof.opening_e, fi3.com_e, p, s)) })
@start
broadcast use ax_sha_len;
@fn NIFS::verify | N05 N07 | res
ensures res is Ok ==> final(transcript).generated && tdata(*final(transcript)) == Some(after_open(Some(after_fold(tdata(*old(transcript)), fi1.u, fi2.u, com_t.0)), fi3.com_e.0, fi3.com_w.0)),
 ({ let d = after_fold(tdata(*old(transcript)), fi1.u, fi2.u, com_t.0); let d2 = after_open(Some(d), fi3.com_e.0, fi3.com_w.0); let p = challenge(d2, 0);
  forall|s: Fr| #[trigger] srs_wf(scheme.0, s) ==> (res is Ok) == (proof.r == challenge(d, 0) && proof.opening_point == p && opens(proof.opening_w, fi3.com_w, p, s) && opens(proof.opening_e, fi3.com_e, p, s)) })
@raw
// ---- the augmented circuit
/// the step circuit: a fixed function of the state and the witness
#[verifier::external_body]
pub struct FC { a: u64 }
pub uninterp spec fn fstep(c: FC, z: State, w: FWitness) -> State;
impl FC { #[verifier::external_body] pub fn run(&self, z_i: &State, w_i: &FWitness) -> (r: State) ensures r == fstep(*self, *z_i, *w_i) { unimplemented!() } }
pub open spec fn sers(x: Seq<Fr>, n: nat) -> Seq<u8> decreases n { if n == 0 { Seq::<u8>::empty() } else { sers(x, (n - 1) as nat) + ser_fr(x[n - 1]) } }
pub open spec fn iobytes(i: Fq, z0: State, zi: State, f: FInstance) -> Seq<u8> {
  ser_fq(i) + ser_fq(z0.state) + ser_fq(zi.state) + ser_g1(f.com_e.0) + ser_fr(f.u) + ser_g1(f.com_w.0) + sers(f.x@, f.x@.len()) }
pub open spec fn iohash(i: Fq, z0: State, zi: State, f: FInstance) -> Fq { fq_le(sha(iobytes(i, z0, zi, f))) }
/// a base field element carried over to the scalar field
pub open spec fn q2r(a: Fq) -> Fr { fr_le(le_bytes(brep(a))) }
@end
@fn AugmentedCircuit::hash_io | N06 N07 | r
ensures r == iohash(i, *z_0, *z_i, *big_u_i)
@loop 1
invariant __L1 == big_u_i.x@.len(), hasher@ == ser_fq(i) + ser_fq(z_0.state) + ser_fq(z_i.state) + ser_g1(big_u_i.com_e.0) + ser_fr(big_u_i.u) + ser_g1(big_u_i.com_w.0) + sers(big_u_i.x@, __i1 as nat)
@before_loop 1
proof { assert(hasher@ =~= ser_fq(i) + ser_fq(z_0.state) + ser_fq(z_i.state) + ser_g1(big_u_i.com_e.0) + ser_fr(big_u_i.u) + ser_g1(big_u_i.com_w.0) + sers(big_u_i.x@, 0)); }
@loop_end 1
proof { assert(hasher@ =~= ser_fq(i) + ser_fq(z_0.state) + ser_fq(z_i.state) + ser_g1(big_u_i.com_e.0) + ser_fr(big_u_i.u) + ser_g1(big_u_i.com_w.0) + sers(big_u_i.x@, __i1 as nat)); }
@fn AugmentedCircuit::new | N06 | r
ensures r.f_circuit == f_circuit, r.i == bz(0), r.trivial_instance == *trivial_instance, r.z_0 == *z_0, r.z_i == *z_0, r.z_i1 is None, r.h_i is None, r.h_i1 is None
@raw
/// the input of a step is consistent with what the circuit expects
pub open spec fn step_ok(c: AugmentedCircuit, u: FInstance, big: Option<&FInstance>, t: Option<&KzgCommitment>) -> bool {
  c.i == bz(0) || (big is Some && t is Some && c.h_i is Some && u.x@[0] == q2r(c.h_i->0) && u.com_e == c.trivial_instance.com_e && u.u == fz(1)) }
/// the challenge the circuit derives
pub open spec fn step_r(u: FInstance, big: FInstance, t: KzgCommitment) -> Fr { challenge(after_fold(None, u.u, big.u, t.0), 0) }
/// the instance a step with consistent input hashes
pub open spec fn next_ok(c: AugmentedCircuit, u: FInstance, big: Option<&FInstance>, t: Option<&KzgCommitment>, next: FInstance) -> bool {
  (c.i == bz(0) ==> next == c.trivial_instance) && (c.i != bz(0) ==> folded_i(next, u, *big->0, (t->0).0, step_r(u, *big->0, *t->0))) }
/// what a step with consistent input leaves behind
pub open spec fn stepped(c: AugmentedCircuit, d: AugmentedCircuit, w: FWitness, next: FInstance) -> bool {
  d.f_circuit == c.f_circuit && d.i == c.i && d.trivial_instance == c.trivial_instance && d.z_0 == c.z_0 && d.z_i == c.z_i && d.h_i == c.h_i
  && d.z_i1 == Some(fstep(c.f_circuit, c.z_i, w)) && d.h_i1 == Some(iohash(badd(c.i, bz(1)), c.z_0, fstep(c.f_circuit, c.z_i, w), next)) }
@end
@fn AugmentedCircuit::run | N06 | r
requires old(self).i != bz(0) ==> u_i.x@.len() > 0
ensures (r is Ok) == step_ok(*old(self), *u_i, big_u_i, com_t), r is Err ==> *final(self) == *old(self),
  r is Ok ==> final(self).h_i1 == Some(r->Ok_0) && exists|next: FInstance| #[trigger] next_ok(*old(self), *u_i, big_u_i, com_t, next) && stepped(*old(self), *final(self), *w_i, next)
@start
broadcast use ax_sha_len, ax_badd;
proof { assert(old(self).i == bz(0) ==> next_ok(*old(self), *u_i, big_u_i, com_t, old(self).trivial_instance)); }
@after_let big_u_i1
proof { assert(next_ok(*old(self), *u_i, big_u_i, com_t, big_u_i1)); }
@fn AugmentedCircuit::next_step | N06 | r
requires old(self).z_i1 is Some
ensures final(self).z_i == old(self).z_i1->0, final(self).z_i1 is None, final(self).i == badd(old(self).i, bz(1)), final(self).h_i == old(self).h_i1, final(self).h_i1 is None,
  final(self).z_0 == old(self).z_0, final(self).f_circuit == old(self).f_circuit, final(self).trivial_instance == old(self).trivial_instance
@fn IVCProof::new | N07 | r
ensures r.u_i == *u_i, r.w_i == *w_i, r.big_u_i == *big_u_i, r.big_w_i == *big_w_i
@fn IVCProof::trivial_ivc_proof | N07 | r
ensures r.u_i == *trivial_instance, r.w_i == *trivial_witness, r.big_u_i == *trivial_instance, r.big_w_i == *trivial_witness
@fn ZkIVCProof::trivial_zk_ivc_proof | N07 | r
ensures r.u_i == *trivial_instance, r.big_u_i == *trivial_instance, r.com_t is None, r.folded_u_proof is None
@fn IVC::prove | N07 | res
requires !(self.augmented_circuit.i == bz(0)) ==> rows(*r1cs, r1cs.matrix_a@.len()) && self.scheme.0.g1_points@.len() > 0 && r1cs.matrix_a@.len() <= self.scheme.0.g1_points@.len()
  && ivc_proof.w_i.w@.len() <= self.scheme.0.g1_points@.len()
ensures
  self.augmented_circuit.i == bz(0) ==> res.0 == ivc_proof.big_w_i && res.1 == ivc_proof.big_u_i && res.2.com_t is None && res.2.folded_u_proof is None && *final(prover_transcript) == *old(prover_transcript),
  res.2.u_i == ivc_proof.u_i, res.2.big_u_i == ivc_proof.big_u_i,
  self.augmented_circuit.i != bz(0) ==> res.2.com_t is Some && res.2.folded_u_proof is Some && ({
    let t = res.2.com_t->0; let f = res.2.folded_u_proof->0; let p = ivc_proof; let c = crosses(*r1cs, p.u_i.u, p.big_u_i.u, zvec(p.w_i.w@, p.u_i.x@, p.u_i.u), zvec(p.big_w_i.w@, p.big_u_i.x@, p.big_u_i.u));
    let d = after_fold(tdata(*old(prover_transcript)), p.u_i.u, p.big_u_i.u, t.0); let d2 = after_open(Some(d), res.1.com_e.0, res.1.com_w.0); let z = challenge(d2, 0);
    folded_w(res.0, p.w_i, p.big_w_i, c, f.r) && folded_i(res.1, p.u_i, p.big_u_i, t.0, f.r) && com_is(self.scheme.0, c, t.0) && f.r == challenge(d, 0) && f.opening_point == z && tdata(*final(prover_transcript)) == Some(d2)
    && f.opening_e.1 == peval(res.0.e@, z) && f.opening_w.1 == peval(res.0.w@, z)
    && (forall|c: G1| #[trigger] com_is(self.scheme.0, res.0.e@, c) ==> eqn_holds(self.scheme.0, c, f.opening_e.0, f.opening_e.1, z))
    && (forall|c: G1| #[trigger] com_is(self.scheme.0, res.0.w@, c) ==> eqn_holds(self.scheme.0, c, f.opening_w.0, f.opening_w.1, z)) })
@raw
/// the verifier's transcript after a step
pub open spec fn ivc_after(p: ZkIVCProof, d0: Option<Seq<u8>>) -> Seq<u8> {
  let t = p.com_t->0; let f = p.folded_u_proof->0; let u = p.u_i; let big = p.big_u_i;
  let e = gp(fadd(fadd(lg(u.com_e.0), fmul(lg(t.0), f.r)), fmul(lg(big.com_e.0), fmul(f.r, f.r)))); let w = gp(fadd(lg(u.com_w.0), fmul(lg(big.com_w.0), f.r)));
  after_open(Some(after_fold(d0, u.u, big.u, t.0)), e, w) }
pub open spec fn zk_ok(ivc: IVC, p: ZkIVCProof, d0: Option<Seq<u8>>, s: Fr) -> bool {
  let c = ivc.augmented_circuit;
  if c.i == bz(0) { c.z_0.state == c.z_i.state } else {
    p.com_t is Some && p.folded_u_proof is Some && p.u_i.x@[0] == q2r(iohash(c.i, c.z_0, c.z_i, p.big_u_i)) && p.u_i.com_e == c.trivial_instance.com_e && p.u_i.u == fz(1)
    && nifs_ok(p.folded_u_proof->0, p.u_i, p.big_u_i, p.com_t->0, d0, s) } }
/// what the folding verifier checks, with the folded instance it computes itself
pub open spec fn nifs_ok(f: NIFSProof, u: FInstance, big: FInstance, t: KzgCommitment, d0: Option<Seq<u8>>, s: Fr) -> bool {
  let d = after_fold(d0, u.u, big.u, t.0);
  let e = gp(fadd(fadd(lg(u.com_e.0), fmul(lg(t.0), f.r)), fmul(lg(big.com_e.0), fmul(f.r, f.r)))); let w = gp(fadd(lg(u.com_w.0), fmul(lg(big.com_w.0), f.r)));
  let z = challenge(after_open(Some(d), e, w), 0);
  f.r == challenge(d, 0) && f.opening_point == z && opens(f.opening_w, KzgCommitment(w), z, s) && opens(f.opening_e, KzgCommitment(e), z, s) }
@end
@fn IVC::verify | N07 | res
requires old(self).augmented_circuit.i != bz(0) ==> zk_ivc_proof.u_i.x@.len() > 0
ensures *final(self) == *old(self), res is Ok && old(self).augmented_circuit.i != bz(0) ==> tdata(*final(verifier_transcript)) == Some(ivc_after(*zk_ivc_proof, tdata(*old(verifier_transcript)))),
  forall|s: Fr| #[trigger] srs_wf(old(self).scheme.0, s) ==> (res is Ok) == zk_ok(*old(self), *zk_ivc_proof, tdata(*old(verifier_transcript)), s)
@start
broadcast use groups;
@after_let big_u_out
proof { assert(big_u_out.com_e.0 == gp(fadd(fadd(lg(u_i.com_e.0), fmul(lg(com_t.0), folded_u_proof.r)), fmul(lg(big_u_i.com_e.0), fmul(folded_u_proof.r, folded_u_proof.r)))));
  assert(big_u_out.com_w.0 == gp(fadd(lg(u_i.com_w.0), fmul(lg(big_u_i.com_w.0), folded_u_proof.r)))); }
@lemma lemma_dot_zero N02
pub proof fn lemma_dot_zero(a: Seq<Fr>, z: Seq<Fr>, n: nat) requires n <= a.len(), n <= z.len(), forall|i: int| 0 <= i < n ==> z[i] == fz(0) ensures dot(a, z, n) == fz(0) decreases n
{ if n > 0 { lemma_dot_zero(a, z, (n - 1) as nat); r_dz(a[n - 1]); } }
@ring r_dz | a | 0 + a*0 == 0
@ring r_triv | a | a*0 == 0
@ring r_triv2 | a | a*0 + 0 == 0
@lemma n02_the_trivial_pair_satisfies_every_system N02
pub fn n02_the_trivial_pair_satisfies_every_system(r1cs: &R1CS, scheme: &KzgScheme, x_len: usize, w_len: usize, Ghost(s): Ghost<Fr>) -> (b: bool)
  requires srs_wf(scheme.0, s), w_len <= scheme.0.g1_points@.len(), rows(*r1cs, w_len as nat), r1cs.num_vars == w_len, r1cs.num_io == x_len, x_len + w_len < usize::MAX
  ensures b
{ let (w, f) = create_trivial_pair(x_len, w_len, scheme);
  proof { let z = zvec(w.w@, f.x@, f.u); let e = w.e@;
    assert forall|i: int| 0 <= i < r1cs.matrix_a@.len() implies #[trigger] row_ok(*r1cs, z, f.u, e, i) by {
      lemma_dot_zero(r1cs.matrix_a@[i]@, z, nmin(r1cs.matrix_a@[i]@.len(), z.len())); lemma_dot_zero(r1cs.matrix_c@[i]@, z, nmin(r1cs.matrix_c@[i]@.len(), z.len()));
      r_triv(fz(0)); r_triv2(fz(0)); lemma_dot_zero(r1cs.matrix_b@[i]@, z, nmin(r1cs.matrix_b@[i]@.len(), z.len())); }
    assert(sat(*r1cs, f, w, s)); }
  is_r1cs_satisfied(r1cs, &f, &w, scheme).is_ok() }
@lemma lemma_dot_fold N03
pub proof fn lemma_dot_fold(a: Seq<Fr>, z1: Seq<Fr>, z2: Seq<Fr>, r: Fr, n: nat) requires n <= a.len(), n <= z1.len(), z1.len() == z2.len()
  ensures dot(a, fold1(z1, z2, r), n) == fadd(dot(a, z1, n), fmul(dot(a, z2, n), r)) decreases n
{ if n == 0 { r_df0(r); } else { let m = (n - 1) as nat; lemma_dot_fold(a, z1, z2, r, m); r_df(dot(a, z1, m), dot(a, z2, m), r, a[n - 1], z1[n - 1], z2[n - 1]); } }
@ring r_df0 | r | 0 == 0 + 0*r
@ring r_df | p q r a x y | (p + q*r) + a*(x + y*r) == (p + a*x) + (q + a*y)*r
@ring r_row | a1 b1 c1 a2 b2 c2 u1 u2 e1 e2 r | (a1 + a2*r)*(b1 + b2*r) - ((c1 + c2*r)*(u1 + u2*r) + ((e1 + r*(((a1*b2 + a2*b1) - c2*u1) - c1*u2)) + (r*r)*e2)) == (a1*b1 - (c1*u1 + e1)) + (a2*b2 - (c2*u2 + e2))*(r*r)
@raw
/// by how much row i misses the relation
pub open spec fn rowdef(r: R1CS, z: Seq<Fr>, u: Fr, e: Seq<Fr>, i: int) -> Fr { fsub(fmul(mvp(r.matrix_a@, z)[i], mvp(r.matrix_b@, z)[i]), fadd(fmul(mvp(r.matrix_c@, z)[i], u), e[i])) }
/// witness and instance of the shape the system asks for
pub open spec fn shape(r: R1CS, f: FInstance, w: FWitness) -> bool { rows(r, w.e@.len()) && r.num_vars == w.w@.len() && r.num_io == f.x@.len() }
/// the folding of two pairs with challenge r
pub open spec fn folding(c: R1CS, w1: FWitness, f1: FInstance, w2: FWitness, f2: FInstance, t: G1, r: Fr, w: FWitness, f: FInstance) -> bool {
  folded_w(w, w1, w2, crosses(c, f1.u, f2.u, zvec(w1.w@, f1.x@, f1.u), zvec(w2.w@, f2.x@, f2.u)), r) && folded_i(f, f1, f2, t, r) }
pub open spec fn cross_of(c: R1CS, w1: FWitness, f1: FInstance, w2: FWitness, f2: FInstance) -> Seq<Fr> { crosses(c, f1.u, f2.u, zvec(w1.w@, f1.x@, f1.u), zvec(w2.w@, f2.x@, f2.u)) }
@lemma lemma_row_defect N03
/// the defect of a folded row is defect_1 + r^2 defect_2
pub proof fn lemma_row_defect(c: R1CS, w1: FWitness, f1: FInstance, w2: FWitness, f2: FInstance, t: G1, r: Fr, w: FWitness, f: FInstance, i: int)
  requires shape(c, f1, w1), shape(c, f2, w2), folding(c, w1, f1, w2, f2, t, r, w, f), 0 <= i < c.matrix_a@.len()
  ensures rowdef(c, zvec(w.w@, f.x@, f.u), f.u, w.e@, i) == fadd(rowdef(c, zvec(w1.w@, f1.x@, f1.u), f1.u, w1.e@, i), fmul(rowdef(c, zvec(w2.w@, f2.x@, f2.u), f2.u, w2.e@, i), fmul(r, r))),
    (rowdef(c, zvec(w.w@, f.x@, f.u), f.u, w.e@, i) == fz(0)) == row_ok(c, zvec(w.w@, f.x@, f.u), f.u, w.e@, i), shape(c, f, w)
{ let z1 = zvec(w1.w@, f1.x@, f1.u); let z2 = zvec(w2.w@, f2.x@, f2.u); let z = zvec(w.w@, f.x@, f.u);
  assert(z =~= fold1(z1, z2, r));
  let (a, b, d) = (c.matrix_a@[i]@, c.matrix_b@[i]@, c.matrix_c@[i]@);
  lemma_dot_fold(a, z1, z2, r, nmin(a.len(), z.len())); lemma_dot_fold(b, z1, z2, r, nmin(b.len(), z.len())); lemma_dot_fold(d, z1, z2, r, nmin(d.len(), z.len()));
  let (a1, a2, b1, b2, c1, c2) = (mvp(c.matrix_a@, z1)[i], mvp(c.matrix_a@, z2)[i], mvp(c.matrix_b@, z1)[i], mvp(c.matrix_b@, z2)[i], mvp(c.matrix_c@, z1)[i], mvp(c.matrix_c@, z2)[i]);
  assert(mvp(c.matrix_a@, z)[i] == fadd(a1, fmul(a2, r))); assert(mvp(c.matrix_b@, z)[i] == fadd(b1, fmul(b2, r))); assert(mvp(c.matrix_c@, z)[i] == fadd(c1, fmul(c2, r)));
  assert(w.e@[i] == fadd(fadd(w1.e@[i], fmul(r, cross(c, f1.u, f2.u, z1, z2, i))), fmul(fmul(r, r), w2.e@[i])));
  r_row(a1, b1, c1, a2, b2, c2, f1.u, f2.u, w1.e@[i], w2.e@[i], r);
  lemma_sub0(fmul(mvp(c.matrix_a@, z)[i], mvp(c.matrix_b@, z)[i]), fadd(fmul(mvp(c.matrix_c@, z)[i], f.u), w.e@[i])); }
@lemma lemma_row_zero N03
pub proof fn lemma_row_zero(c: R1CS, z: Seq<Fr>, u: Fr, e: Seq<Fr>, i: int) ensures (rowdef(c, z, u, e, i) == fz(0)) == row_ok(c, z, u, e, i)
{ lemma_sub0(fmul(mvp(c.matrix_a@, z)[i], mvp(c.matrix_b@, z)[i]), fadd(fmul(mvp(c.matrix_c@, z)[i], u), e[i])); }
@lemma lemma_psum_fold N03 N04
pub proof fn lemma_psum_fold(a: Seq<Fr>, b: Seq<Fr>, r: Fr, s: Fr, n: nat) requires n <= a.len(), a.len() == b.len()
  ensures psum(fold1(a, b, r), s, n) == fadd(psum(a, s, n), fmul(psum(b, s, n), r)) decreases n
{ if n == 0 { r_df0(r); } else { let m = (n - 1) as nat; lemma_psum_fold(a, b, r, s, m); r_pf(psum(a, s, m), psum(b, s, m), r, a[n - 1], b[n - 1], fpow(s, m)); } }
@ring r_pf | p q r a b x | (p + q*r) + (a + b*r)*x == (p + a*x) + (q + b*x)*r
@lemma lemma_psum_fold2 N03 N04
pub proof fn lemma_psum_fold2(a: Seq<Fr>, t: Seq<Fr>, b: Seq<Fr>, r: Fr, s: Fr, n: nat) requires n <= a.len(), a.len() == b.len(), a.len() == t.len()
  ensures psum(fold2(a, t, b, r), s, n) == fadd(fadd(psum(a, s, n), fmul(psum(t, s, n), r)), fmul(psum(b, s, n), fmul(r, r))) decreases n
{ if n == 0 { r_pf20(r); } else { let m = (n - 1) as nat; lemma_psum_fold2(a, t, b, r, s, m); r_pf2(psum(a, s, m), psum(t, s, m), psum(b, s, m), r, a[n - 1], t[n - 1], b[n - 1], fpow(s, m)); } }
@ring r_pf20 | r | 0 == (0 + 0*r) + 0*(r*r)
@ring r_pf2 | p t q r a c b x | ((p + t*r) + q*(r*r)) + ((a + r*c) + (r*r)*b)*x == ((p + a*x) + (t + c*x)*r) + (q + b*x)*(r*r)
@ring r_cw | p q a b r | (p + q*r) - (a + b*r) == (p - a) + (q - b)*r
@ring r_ce | p t q a b r | ((p + t*r) + q*(r*r)) - ((a + t*r) + b*(r*r)) == (p - a) + (q - b)*(r*r)
@lemma lemma_com_defects N03 N04
/// the defects of the two folded commitments are d1 + r d2 and d1 + r^2 d2
pub proof fn lemma_com_defects(c: R1CS, w1: FWitness, f1: FInstance, w2: FWitness, f2: FInstance, t: G1, r: Fr, w: FWitness, f: FInstance, s: Fr)
  requires shape(c, f1, w1), shape(c, f2, w2), folding(c, w1, f1, w2, f2, t, r, w, f), t == gp(peval(cross_of(c, w1, f1, w2, f2), s))
  ensures fsub(lg(f.com_w.0), peval(w.w@, s)) == fadd(fsub(lg(f1.com_w.0), peval(w1.w@, s)), fmul(fsub(lg(f2.com_w.0), peval(w2.w@, s)), r)),
    fsub(lg(f.com_e.0), peval(w.e@, s)) == fadd(fsub(lg(f1.com_e.0), peval(w1.e@, s)), fmul(fsub(lg(f2.com_e.0), peval(w2.e@, s)), fmul(r, r))),
    (fsub(lg(f.com_w.0), peval(w.w@, s)) == fz(0)) == (f.com_w.0 == gp(peval(w.w@, s))), (fsub(lg(f.com_e.0), peval(w.e@, s)) == fz(0)) == (f.com_e.0 == gp(peval(w.e@, s)))
{ broadcast use groups; let x = cross_of(c, w1, f1, w2, f2);
  lemma_psum_fold(w1.w@, w2.w@, r, s, w1.w@.len()); lemma_psum_fold2(w1.e@, x, w2.e@, r, s, w1.e@.len());
  r_cw(lg(f1.com_w.0), lg(f2.com_w.0), peval(w1.w@, s), peval(w2.w@, s), r); r_ce(lg(f1.com_e.0), lg(t), lg(f2.com_e.0), peval(w1.e@, s), peval(w2.e@, s), r);
  lemma_sub0(lg(f.com_w.0), peval(w.w@, s)); lemma_sub0(lg(f.com_e.0), peval(w.e@, s)); }
@lemma n03_folding_preserves_satisfaction N03
/// for every challenge
pub proof fn n03_folding_preserves_satisfaction(c: R1CS, w1: FWitness, f1: FInstance, w2: FWitness, f2: FInstance, t: G1, r: Fr, w: FWitness, f: FInstance, s: Fr)
  requires shape(c, f1, w1), shape(c, f2, w2), sat(c, f1, w1, s), sat(c, f2, w2, s), folding(c, w1, f1, w2, f2, t, r, w, f), t == gp(peval(cross_of(c, w1, f1, w2, f2), s))
  ensures sat(c, f, w, s)
{ broadcast use groups; 
  assert forall|i: int| 0 <= i < c.matrix_a@.len() implies #[trigger] row_ok(c, zvec(w.w@, f.x@, f.u), f.u, w.e@, i) by {
    lemma_row_defect(c, w1, f1, w2, f2, t, r, w, f, i); assert(row_ok(c, zvec(w1.w@, f1.x@, f1.u), f1.u, w1.e@, i)); assert(row_ok(c, zvec(w2.w@, f2.x@, f2.u), f2.u, w2.e@, i));
    lemma_row_zero(c, zvec(w1.w@, f1.x@, f1.u), f1.u, w1.e@, i); lemma_row_zero(c, zvec(w2.w@, f2.x@, f2.u), f2.u, w2.e@, i); r_zero_def(fmul(r, r)); }
  lemma_com_defects(c, w1, f1, w2, f2, t, r, w, f, s); r_zero_def(fmul(r, r)); r_zero_def(r);
  lemma_sub0(lg(f1.com_w.0), peval(w1.w@, s)); lemma_sub0(lg(f2.com_w.0), peval(w2.w@, s)); lemma_sub0(lg(f1.com_e.0), peval(w1.e@, s)); lemma_sub0(lg(f2.com_e.0), peval(w2.e@, s)); }
@ring r_zero_def | r | 0 + 0*r == 0
@ring r_sq | d e r q | (d + e*(r*r)) - (d + e*(q*q)) == e*((r - q)*(r + q))
@ring r_li | d e r q | (d + e*r) - (d + e*q) == e*(r - q)
@ring r_sum2 | a b c | (a + b) - (a + c) == b - c
@lemma lemma_two_roots N03
pub proof fn lemma_two_roots(d: Fr, e: Fr, r1: Fr, r2: Fr, r3: Fr) requires r1 != r2, r1 != r3, r2 != r3,
    fadd(d, fmul(e, fmul(r1, r1))) == fz(0), fadd(d, fmul(e, fmul(r2, r2))) == fz(0), fadd(d, fmul(e, fmul(r3, r3))) == fz(0)
  ensures d == fz(0), e == fz(0)
{ r_sq(d, e, r1, r2); r_sq(d, e, r1, r3); r_suba(fz(0)); ax_dom(e, fmul(fsub(r1, r2), fadd(r1, r2))); ax_dom(e, fmul(fsub(r1, r3), fadd(r1, r3)));
  lemma_sub0(r1, r2); lemma_sub0(r1, r3); lemma_sub0(r2, r3); r_sum2(r1, r2, r3);
  if e != fz(0) { ax_dom(fsub(r1, r2), fadd(r1, r2)); ax_dom(fsub(r1, r3), fadd(r1, r3)); r_suba(fz(0)); }
  r_add0z(d, fmul(r1, r1)); }
@ring r_add0z | d r | d + 0*r == d
@lemma lemma_one_root N03
pub proof fn lemma_one_root(d: Fr, e: Fr, r1: Fr, r2: Fr) requires r1 != r2, fadd(d, fmul(e, r1)) == fz(0), fadd(d, fmul(e, r2)) == fz(0) ensures d == fz(0), e == fz(0)
{ r_li(d, e, r1, r2); r_suba(fz(0)); ax_dom(e, fsub(r1, r2)); lemma_sub0(r1, r2); r_add0z(d, r1); }
@lemma n03_unsatisfied_pairs_fold_for_at_most_two_challenges N03
/// three different challenges cannot all yield satisfied foldings unless both pairs were satisfied
pub proof fn n03_unsatisfied_pairs_fold_for_at_most_two_challenges(c: R1CS, w1: FWitness, f1: FInstance, w2: FWitness, f2: FInstance, t: G1, s: Fr,
    r1: Fr, v1: FWitness, g1: FInstance, r2: Fr, v2: FWitness, g2: FInstance, r3: Fr, v3: FWitness, g3: FInstance)
  requires shape(c, f1, w1), shape(c, f2, w2), t == gp(peval(cross_of(c, w1, f1, w2, f2), s)), r1 != r2, r1 != r3, r2 != r3,
    folding(c, w1, f1, w2, f2, t, r1, v1, g1), folding(c, w1, f1, w2, f2, t, r2, v2, g2), folding(c, w1, f1, w2, f2, t, r3, v3, g3), sat(c, g1, v1, s), sat(c, g2, v2, s), sat(c, g3, v3, s)
  ensures sat(c, f1, w1, s), sat(c, f2, w2, s)
{ broadcast use groups; 
  let z1 = zvec(w1.w@, f1.x@, f1.u); let z2 = zvec(w2.w@, f2.x@, f2.u);
  assert forall|i: int| 0 <= i < c.matrix_a@.len() implies row_ok(c, z1, f1.u, w1.e@, i) && row_ok(c, z2, f2.u, w2.e@, i) by {
    assert(row_ok(c, zvec(v1.w@, g1.x@, g1.u), g1.u, v1.e@, i)); assert(row_ok(c, zvec(v2.w@, g2.x@, g2.u), g2.u, v2.e@, i)); assert(row_ok(c, zvec(v3.w@, g3.x@, g3.u), g3.u, v3.e@, i));
    lemma_row_defect(c, w1, f1, w2, f2, t, r1, v1, g1, i); lemma_row_defect(c, w1, f1, w2, f2, t, r2, v2, g2, i); lemma_row_defect(c, w1, f1, w2, f2, t, r3, v3, g3, i);
    lemma_two_roots(rowdef(c, z1, f1.u, w1.e@, i), rowdef(c, z2, f2.u, w2.e@, i), r1, r2, r3); lemma_row_zero(c, z1, f1.u, w1.e@, i); lemma_row_zero(c, z2, f2.u, w2.e@, i); }
  lemma_com_defects(c, w1, f1, w2, f2, t, r1, v1, g1, s); lemma_com_defects(c, w1, f1, w2, f2, t, r2, v2, g2, s); lemma_com_defects(c, w1, f1, w2, f2, t, r3, v3, g3, s);
  lemma_one_root(fsub(lg(f1.com_w.0), peval(w1.w@, s)), fsub(lg(f2.com_w.0), peval(w2.w@, s)), r1, r2);
  lemma_two_roots(fsub(lg(f1.com_e.0), peval(w1.e@, s)), fsub(lg(f2.com_e.0), peval(w2.e@, s)), r1, r2, r3);
  lemma_sub0(lg(f1.com_w.0), peval(w1.w@, s)); lemma_sub0(lg(f2.com_w.0), peval(w2.w@, s)); lemma_sub0(lg(f1.com_e.0), peval(w1.e@, s)); lemma_sub0(lg(f2.com_e.0), peval(w2.e@, s)); }
@lemma n03_prover_output_is_satisfied N03
/// folding with the code and checking with the code
pub fn n03_prover_output_is_satisfied(c: &R1CS, w1: &FWitness, f1: &FInstance, w2: &FWitness, f2: &FInstance, scheme: &KzgScheme, transcript: &mut Transcript, Ghost(s): Ghost<Fr>) -> (b: bool)
  requires srs_wf(scheme.0, s), shape(*c, *f1, *w1), shape(*c, *f2, *w2), sat(*c, *f1, *w1, s), sat(*c, *f2, *w2, s), fits(*scheme, w1.e@), fits(*scheme, w1.w@)
  ensures b
{ broadcast use groups; let (w, f, t, r) = NIFS::prover(c, w1, w2, f1, f2, scheme, transcript);
  proof { assert(t.0 == gp(peval(cross_of(*c, *w1, *f1, *w2, *f2), s))); n03_folding_preserves_satisfaction(*c, *w1, *f1, *w2, *f2, t.0, r, w, f, s); }
  is_r1cs_satisfied(c, &f, &w, scheme).is_ok() }
@lemma lemma_folded_shape N07
pub proof fn lemma_folded_shape(c: R1CS, w1: FWitness, f1: FInstance, w2: FWitness, f2: FInstance, t: G1, r: Fr, w: FWitness, f: FInstance)
  requires shape(c, f1, w1), shape(c, f2, w2), folding(c, w1, f1, w2, f2, t, r, w, f) ensures shape(c, f, w)
{ }
@lemma lemma_folded_commitments N04 N05 N07
pub proof fn lemma_folded_commitments(sc: KzgScheme, c: R1CS, w1: FWitness, f1: FInstance, w2: FWitness, f2: FInstance, t: G1, r: Fr, w: FWitness, f: FInstance)
  requires shape(c, f1, w1), shape(c, f2, w2), folding(c, w1, f1, w2, f2, t, r, w, f), com_is(sc.0, cross_of(c, w1, f1, w2, f2), t),
    com_is(sc.0, w1.w@, f1.com_w.0), com_is(sc.0, w1.e@, f1.com_e.0), com_is(sc.0, w2.w@, f2.com_w.0), com_is(sc.0, w2.e@, f2.com_e.0)
  ensures com_is(sc.0, w.w@, f.com_w.0), com_is(sc.0, w.e@, f.com_e.0)
{ broadcast use groups; assert forall|s: Fr| #[trigger] srs_wf(sc.0, s) implies f.com_w.0 == gp(peval(w.w@, s)) && f.com_e.0 == gp(peval(w.e@, s)) by {
    lemma_com_defects(c, w1, f1, w2, f2, t, r, w, f, s); r_zero_def(fmul(r, r)); r_zero_def(r);
    lemma_sub0(lg(f1.com_w.0), peval(w1.w@, s)); lemma_sub0(lg(f2.com_w.0), peval(w2.w@, s)); lemma_sub0(lg(f1.com_e.0), peval(w1.e@, s)); lemma_sub0(lg(f2.com_e.0), peval(w2.e@, s)); } }
@raw
pub open spec fn committed(sc: KzgScheme, f: FInstance, w: FWitness) -> bool { com_is(sc.0, w.w@, f.com_w.0) && com_is(sc.0, w.e@, f.com_e.0) }
@lemma n04_prover_and_verifier_agree N04
/// the verifier's folded instance is the prover's, its commitments are those to the folded witness, and both challenges are re-derived
pub fn n04_prover_and_verifier_agree(c: &R1CS, w1: &FWitness, f1: &FInstance, w2: &FWitness, f2: &FInstance, scheme: &KzgScheme, pt: &mut Transcript, vt: &mut Transcript) -> (o: (FWitness, FInstance, FInstance, bool))
  requires scheme.0.g1_points@.len() > 0, shape(*c, *f1, *w1), shape(*c, *f2, *w2), fits(*scheme, w1.e@), fits(*scheme, w1.w@), committed(*scheme, *f1, *w1), committed(*scheme, *f2, *w2), tdata(*old(pt)) == tdata(*old(vt))
  ensures o.1.com_e == o.2.com_e, o.1.com_w == o.2.com_w, o.1.u == o.2.u, o.1.x@ == o.2.x@, committed(*scheme, o.1, o.0), o.3
{ broadcast use groups; let (w, f, t, r) = NIFS::prover(c, w1, w2, f1, f2, scheme, pt); let g = NIFS::verifier(r, f1, f2, &t);
  let b = NIFS::verify_challenge(r, f1.u, f2.u, &t, vt).is_ok(); 
  proof { lemma_folded_commitments(*scheme, *c, *w1, *f1, *w2, *f2, t.0, r, w, f); ax_lg(f.com_e.0); ax_lg(g.com_e.0); ax_lg(f.com_w.0); ax_lg(g.com_w.0); }
  (w, f, g, b) }
@lemma n05_honest_proofs_are_accepted N05
pub fn n05_honest_proofs_are_accepted(c: &R1CS, w1: &FWitness, f1: &FInstance, w2: &FWitness, f2: &FInstance, scheme: &KzgScheme, pt: &mut Transcript, vt: &mut Transcript, Ghost(s): Ghost<Fr>) -> (b: bool)
  requires srs_wf(scheme.0, s), shape(*c, *f1, *w1), shape(*c, *f2, *w2), fits(*scheme, w1.e@), fits(*scheme, w1.w@), committed(*scheme, *f1, *w1), committed(*scheme, *f2, *w2), tdata(*old(pt)) == tdata(*old(vt))
  ensures b
{ broadcast use groups; let (w, f, t, r) = NIFS::prover(c, w1, w2, f1, f2, scheme, pt);
  proof { lemma_folded_commitments(*scheme, *c, *w1, *f1, *w2, *f2, t.0, r, w, f); }
  let p = NIFS::prove(r, &w, &f, scheme, pt);
  NIFS::verify(&p, f1, f2, &f, &t, scheme, vt).is_ok() }
@lemma n05_altered_parts_are_rejected N05
/// another challenge, opening point, claimed value or (off the secret) witness makes verification fail
pub fn n05_altered_parts_are_rejected(p: &NIFSProof, q: &NIFSProof, f1: &FInstance, f2: &FInstance, f3: &FInstance, t: &KzgCommitment, scheme: &KzgScheme, vt: &mut Transcript, v2: &mut Transcript, Ghost(s): Ghost<Fr>) -> (b: bool)
  requires srs_wf(scheme.0, s), tdata(*old(vt)) == tdata(*old(v2)), s != p.opening_point,
    q.r != p.r || q.opening_point != p.opening_point || (q.opening_e.0 == p.opening_e.0 && q.opening_e.1 != p.opening_e.1) || (q.opening_e.1 == p.opening_e.1 && q.opening_e.0 != p.opening_e.0)
      || (q.opening_w.0 == p.opening_w.0 && q.opening_w.1 != p.opening_w.1) || (q.opening_w.1 == p.opening_w.1 && q.opening_w.0 != p.opening_w.0)
  ensures b
{ broadcast use groups; let a = NIFS::verify(p, f1, f2, f3, t, scheme, vt).is_ok(); let c = NIFS::verify(q, f1, f2, f3, t, scheme, v2).is_ok();
  proof { let z = p.opening_point; lemma_sub0(s, z);
    lemma_open_fixed(lg(p.opening_e.0), p.opening_e.1, lg(q.opening_e.0), q.opening_e.1, lg(f3.com_e.0), fsub(s, z)); lemma_open_fixed(lg(p.opening_w.0), p.opening_w.1, lg(q.opening_w.0), q.opening_w.1, lg(f3.com_w.0), fsub(s, z));
    ax_lg(p.opening_e.0); ax_lg(q.opening_e.0); ax_lg(p.opening_w.0); ax_lg(q.opening_w.0); }
  !(a && c) }
@lemma lemma_open_fixed N05
pub proof fn lemma_open_fixed(w: Fr, y: Fr, v: Fr, x: Fr, c: Fr, d: Fr) requires d != fz(0)
  ensures fmul(w, d) == fsub(c, y) && fmul(v, d) == fsub(c, x) ==> (w == v) == (y == x)
{ r_of1(c, y); r_of1(c, x); r_of2(w, v, d); lemma_sub0(w, v); r_suba(fmul(w, d));
  if fmul(w, d) == fsub(c, y) && fmul(v, d) == fsub(c, x) && y == x { ax_dom(fsub(w, v), d); } }
@ring r_of1 | c y | c - (c - y) == y
@ring r_of2 | w v d | (w - v)*d == w*d - v*d
@lemma n06_run_then_advance N06
/// after a consistent step, advancing makes the next state, counter and hash current
pub fn n06_run_then_advance(c: &mut AugmentedCircuit, u: &FInstance, big: Option<&FInstance>, w: &FWitness, t: Option<&KzgCommitment>) -> (r: Result<Fq, String>)
  requires old(c).i != bz(0) ==> u.x@.len() > 0
  ensures r is Err ==> *final(c) == *old(c), r is Ok ==> final(c).z_i == fstep(old(c).f_circuit, old(c).z_i, *w) && final(c).i == badd(old(c).i, bz(1)) && final(c).h_i == Some(r->Ok_0) && final(c).z_0 == old(c).z_0
{ let r = c.run(u, big, w, t); if r.is_ok() { c.next_step(); } r }
@lemma n07_honest_steps_verify N07
/// one step of an honest run: the proof verifies, the folded pair is again correctly committed, and the transcripts stay equal, so that the next step starts alike
pub fn n07_honest_steps_verify(ivc: &mut IVC, c: &R1CS, p: &IVCProof, pt: &mut Transcript, vt: &mut Transcript, Ghost(s): Ghost<Fr>) -> (o: (FWitness, FInstance, bool))
  requires srs_wf(old(ivc).scheme.0, s), shape(*c, p.u_i, p.w_i), shape(*c, p.big_u_i, p.big_w_i), fits(old(ivc).scheme, p.w_i.e@), fits(old(ivc).scheme, p.w_i.w@),
    committed(old(ivc).scheme, p.u_i, p.w_i), committed(old(ivc).scheme, p.big_u_i, p.big_w_i), tdata(*old(pt)) == tdata(*old(vt)),
    ({ let a = old(ivc).augmented_circuit; if a.i == bz(0) { a.z_0.state == a.z_i.state } else { p.u_i.x@.len() > 0 && p.u_i.x@[0] == q2r(iohash(a.i, a.z_0, a.z_i, p.big_u_i)) && p.u_i.com_e == a.trivial_instance.com_e && p.u_i.u == fz(1) } })
  ensures o.2, *final(ivc) == *old(ivc), old(ivc).augmented_circuit.i != bz(0) ==> committed(old(ivc).scheme, o.1, o.0) && shape(*c, o.1, o.0) && tdata(*final(pt)) == tdata(*final(vt))
{ broadcast use groups; let (w, f, z) = ivc.prove(c, p, pt);
  proof { if ivc.augmented_circuit.i != bz(0) { let t = z.com_t->0; let r = z.folded_u_proof->0.r; lemma_folded_commitments(ivc.scheme, *c, p.w_i, p.u_i, p.big_w_i, p.big_u_i, t.0, r, w, f);
     lemma_folded_shape(*c, p.w_i, p.u_i, p.big_w_i, p.big_u_i, t.0, r, w, f); assert(shape(*c, f, w));
     assert(f.com_e.0 == gp(lg(f.com_e.0))); assert(f.com_w.0 == gp(lg(f.com_w.0))); assert(com_is(ivc.scheme.0, w.e@, f.com_e.0)); assert(com_is(ivc.scheme.0, w.w@, f.com_w.0)); } }
  let ghost d0 = tdata(*vt); let b = ivc.verify(&z, vt).is_ok();
  proof { assert(zk_ok(*old(ivc), z, d0, s)); assert(b); if ivc.augmented_circuit.i != bz(0) { assert(tdata(*pt) == Some(ivc_after(z, d0))); } }
  (w, f, b) }
@lemma n08_the_state_determines_the_history N08
/// two histories of scalars (32 bytes) and commitments (96 bytes) with the same state are equal, or exhibit a collision of the hash function
pub proof fn n08_the_state_determines_the_history(h: Seq<Seq<u8>>, k: Seq<Seq<u8>>)
  requires tstate(h) == tstate(k), forall|i: int| 0 <= i < h.len() ==> (#[trigger] h[i]).len() == 32 || h[i].len() == 96, forall|i: int| 0 <= i < k.len() ==> (#[trigger] k[i]).len() == 32 || k[i].len() == 96
  ensures h == k || scoll(tcoll(h, k)) 
{ lemma_history(h, k); }
@raw
pub struct IoError;
pub mod ark_std { pub mod io { pub type Result<X> = core::result::Result<X, crate::IoError>; } }
/// the writer that hands what is written to the hasher
pub struct HashMarshaller(pub &'static mut T);
@end
@fn HashMarshaller::Write::write | N08 | r
@subst \bDigest :: update\b => T :: update
ensures r is Ok, r->Ok_0 == buf@.len(), (*final(self).0)@ == (*old(self).0)@ + buf@
@fn HashMarshaller::Write::flush | N08 | r
@subst \bDigest :: update\b => T :: update
ensures r is Ok, (*final(self).0)@ == (*old(self).0)@
