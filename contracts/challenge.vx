@import kzg
@files plonk/src/challenge.rs
@prelude base.rs ring.rs curve.rs poly.rs hash.rs fq.rs transcript.rs
@struct ChallengeGenerator
@raw
impl ChallengeGenerator { #[verifier::external_body] pub fn vdefault() -> (r: ChallengeGenerator) ensures r.data is None, !r.generated { unimplemented!() } }
pub open spec fn cdata(t: ChallengeGenerator) -> Option<Seq<u8>> { match t.data { Some(v) => Some(v@), None => None } }
/// the history of a list of commitments: their encodings in order
pub open spec fn encs(c: Seq<KzgCommitment>) -> Seq<Seq<u8>> { Seq::new(c.len(), |i: int| ser_g1(c[i].0)) }
/// a fresh generator that has absorbed the commitments c, and nothing was drawn since
pub open spec fn fed(t: ChallengeGenerator, c: Seq<KzgCommitment>) -> bool { cdata(t) == tstate(encs(c)) && !t.generated }
pub proof fn lemma_encs(c: Seq<KzgCommitment>, x: KzgCommitment) ensures encs(c.push(x)) == encs(c).push(ser_g1(x.0)), tstate(encs(c.push(x))) == Some(absorb(tstate(encs(c)), ser_g1(x.0)))
{ assert(encs(c.push(x)) =~= encs(c).push(ser_g1(x.0))); assert(encs(c).push(ser_g1(x.0)).drop_last() =~= encs(c)); }
@end
@fn ChallengeGenerator::feed | P10 | r
ensures cdata(*final(self)) == Some(absorb(cdata(*old(self)), ser_g1(kzg_commitment.0))), !final(self).generated, final(self).data is Some, final(self).data->0@.len() == 32,
  forall|c: Seq<KzgCommitment>| cdata(*old(self)) == tstate(encs(c)) ==> fed(*final(self), #[trigger] c.push(*kzg_commitment))
@start
broadcast use ax_sha_len;
proof { assert forall|c: Seq<KzgCommitment>| cdata(*old(self)) == tstate(encs(c)) implies tstate(encs(#[trigger] c.push(*kzg_commitment))) == Some(absorb(cdata(*old(self)), ser_g1(kzg_commitment.0))) by { lemma_encs(c, *kzg_commitment); } }
@fn ChallengeGenerator::from_commitments | P10 | r
ensures fed(r, kzg_commitments@)
@loop 1
invariant __L1 == kzg_commitments@.len(), fed(challenge_generator, kzg_commitments@.subrange(0, __i1 as int))
@before_loop 1
proof { assert(encs(kzg_commitments@.subrange(0, 0)) =~= Seq::<Seq<u8>>::empty()); }
@loop_end 1
proof { assert(kzg_commitments@.subrange(0, __i1 as int) =~= kzg_commitments@.subrange(0, __c1 as int).push(kzg_commitments@[__c1 as int])); }
@after_loop 1
proof { assert(kzg_commitments@.subrange(0, __L1 as int) =~= kzg_commitments@); }
@fn ChallengeGenerator::generate_rng_with_seed | P10 | r
requires !old(self).generated, old(self).data is Some, old(self).data->0@.len() >= 8
ensures final(self).generated, final(self).data == old(self).data, r == tseed(old(self).data->0@)
@fn ChallengeGenerator::generate_challenges | P10 | r
requires !old(self).generated, old(self).data is Some, old(self).data->0@.len() >= 8
ensures final(self).generated, final(self).data == old(self).data, r@.len() == N, forall|i: int| 0 <= i < N ==> r@[i] == challenge(old(self).data->0@, i as nat)
@loop 1
invariant __L1 == N, points@.len() == N, rng == rsteps(tseed(old(self).data->0@), __i1 as nat), self.generated, self.data == old(self).data, forall|k: int| 0 <= k < __i1 ==> points@[k] == challenge(old(self).data->0@, k as nat)
@fn ChallengeGenerator::generate_rng_with_seed | P10 | r | as=generate_rng_with_seed_refuse
ensures !old(self).generated, old(self).data is Some
@subst \bvpanic\b => vpanic_refuse
@subst \bv_range\b => v_range_refuse
@subst \bv_try_array\b => v_try_array_refuse
@subst \. expect\b => . v_expect_refuse
@fn ChallengeGenerator::generate_challenges | P10 | r | as=generate_challenges_refuse
ensures !old(self).generated, old(self).data is Some
@subst \bgenerate_rng_with_seed\b => generate_rng_with_seed_refuse
@loop 1
invariant __L1 == N, points@.len() == N
@lemma p10_deterministic P10
/// equal histories of commitments give equal challenges; bulk construction equals absorbing one by one; the second draw is refused
pub fn p10_deterministic<const N: usize>(a: &[KzgCommitment], b: &[KzgCommitment]) -> (r: ([Fr; N], [Fr; N])) requires a@ == b@, a@.len() > 0 ensures r.0@ == r.1@
{ broadcast use ax_sha_len; let mut x = ChallengeGenerator::from_commitments(a); let mut y = ChallengeGenerator::vdefault(); let mut i: usize = 0;
  proof { assert(encs(b@.subrange(0, 0)) =~= Seq::<Seq<u8>>::empty()); }
  while i < b.len() invariant i <= b@.len(), fed(y, b@.subrange(0, i as int)) decreases b.len() - i
  { y.feed(&b[i]); i = i + 1; proof { assert(b@.subrange(0, i as int) =~= b@.subrange(0, i - 1).push(b@[i - 1])); } }
  proof { assert(b@.subrange(0, b@.len() as int) =~= b@); let e = encs(a@); assert(e.len() > 0); assert(absorb(tstate(e.drop_last()), e.last()).len() == 32); }
  let p = x.generate_challenges::<N>(); let q = y.generate_challenges::<N>(); proof { assert(p@ =~= q@); } (p, q) }
@raw
pub proof fn lemma_state_history(a: Seq<KzgCommitment>, b: Seq<KzgCommitment>) requires tstate(encs(a)) == tstate(encs(b)) ensures a == b || scoll(tcoll(encs(a), encs(b)))
{ assert forall|i: int| 0 <= i < encs(a).len() implies (#[trigger] encs(a)[i]).len() == 96 by { ax_ser_g1(a[i].0, a[i].0); }
  assert forall|i: int| 0 <= i < encs(b).len() implies (#[trigger] encs(b)[i]).len() == 96 by { ax_ser_g1(b[i].0, b[i].0); }
  lemma_history(encs(a), encs(b));
  if encs(a) == encs(b) { assert(encs(a).len() == encs(b).len()); assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by { assert(encs(a)[i] == encs(b)[i]); ax_ser_g1(a[i].0, b[i].0); } assert(a =~= b); } }
@end
@lemma p10_the_state_determines_the_history P10
/// two sequences of commitments with the same state are the same sequence, or exhibit a collision of the hash function
pub proof fn p10_the_state_determines_the_history(a: Seq<KzgCommitment>, b: Seq<KzgCommitment>) requires tstate(encs(a)) == tstate(encs(b)) ensures a == b || scoll(tcoll(encs(a), encs(b)))
{ lemma_state_history(a, b); }
@raw
pub struct IoError;
pub mod ark_std { pub mod io { pub type Result<X> = core::result::Result<X, crate::IoError>; } }
/// the writer that hands what is written to the hasher
pub struct HashMarshaller(pub &'static mut T);
@end
@fn HashMarshaller::Write::write | P10 | r
@subst \bDigest :: update\b => T :: update
ensures r is Ok, r->Ok_0 == buf@.len(), (*final(self).0)@ == (*old(self).0)@ + buf@
@fn HashMarshaller::Write::flush | P10 | r
@subst \bDigest :: update\b => T :: update
ensures r is Ok, (*final(self).0)@ == (*old(self).0)@
