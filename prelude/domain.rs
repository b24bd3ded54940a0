// ---- powers of two, and evaluation domains after ark-poly: a subgroup of roots of unity of power-of-two size
pub open spec fn p2(n: nat) -> nat decreases n { if n == 0 { 1 } else { 2 * p2((n - 1) as nat) } }
pub proof fn lemma_p2(n: nat) ensures p2(n) >= 1, p2(n) > n, n > 0 ==> p2(n) % 2 == 0 && p2(n) / 2 == p2((n - 1) as nat) decreases n { if n > 0 { lemma_p2((n - 1) as nat); } }
pub proof fn lemma_p2_mono(a: nat, b: nat) requires a <= b ensures p2(a) <= p2(b), a < b ==> 2 * p2(a) <= p2(b) decreases b { lemma_p2(a); if a < b { lemma_p2_mono(a, (b - 1) as nat); } }
pub proof fn lemma_p2_lt(a: nat, b: nat) requires p2(a) < p2(b) ensures a < b { if b <= a { lemma_p2_mono(b, a); } }
pub proof fn lemma_p2_inj(a: nat, b: nat) requires p2(a) == p2(b) ensures a == b { if a < b { lemma_p2_mono(a, b); lemma_p2(a); } if b < a { lemma_p2_mono(b, a); lemma_p2(b); } }
/// the least power of two that is not smaller
pub open spec fn is_np2(n: int, r: int) -> bool { exists|k: nat| r == #[trigger] p2(k) && r >= n && (forall|j: nat| #[trigger] p2(j) >= n ==> k <= j) }
pub uninterp spec fn np2(n: int) -> int;
pub broadcast axiom fn ax_np2(n: int) requires n >= 0 ensures is_np2(n, #[trigger] np2(n));
pub trait VUsize { spec fn us(&self) -> int;
  fn v_next_power_of_two(&self) -> (r: usize) requires np2(self.us()) <= usize::MAX ensures r == np2(self.us());
  fn v_ilog2(&self) -> (r: u32) requires self.us() > 0 ensures p2(r as nat) <= self.us() < p2((r + 1) as nat), r < 64;
  fn v_checked_shl(&self, n: u32) -> (r: Option<usize>) requires self.us() == 1 ensures n < 64 ==> r is Some && r->0 == p2(n as nat), n >= 64 ==> r is None; }
impl VUsize for usize { open spec fn us(&self) -> int { *self as int }
  #[verifier::external_body] fn v_next_power_of_two(&self) -> (r: usize) { unimplemented!() }
  #[verifier::external_body] fn v_ilog2(&self) -> (r: u32) { unimplemented!() }
  #[verifier::external_body] fn v_checked_shl(&self, n: u32) -> (r: Option<usize>) { unimplemented!() } }
pub struct GeneralEvaluationDomain { pub n: usize }
pub type Radix2EvaluationDomain = GeneralEvaluationDomain;
/// whether the field has a root of unity of order 2^k
pub uninterp spec fn two_adic(k: nat) -> bool;
/// the generator of the subgroup of size 2^k
pub uninterp spec fn omega(k: nat) -> Fr;
pub axiom fn ax_adic(j: nat, k: nat) requires two_adic(k), j <= k ensures two_adic(j);
pub axiom fn ax_omega0() ensures omega(0) == fz(1);
/// each generator squares to the one of the subgroup of half the size
pub axiom fn ax_omega_sq(k: nat) requires two_adic(k), k > 0 ensures fmul(omega(k), omega(k)) == omega((k - 1) as nat);
/// -1 has order two and is the only element of order two
pub axiom fn ax_omega1() requires two_adic(1) ensures omega(1) == fneg(fz(1));
impl GeneralEvaluationDomain {
#[verifier::external_body] pub fn new(n: usize) -> (r: Option<GeneralEvaluationDomain>) ensures forall|k: nat| is_np2(n as int, #[trigger] p2(k) as int) && two_adic(k) && p2(k) <= usize::MAX ==> r is Some && r->0.n == p2(k),
  r is Some ==> exists|k: nat| r->0.n == #[trigger] p2(k) && is_np2(n as int, p2(k) as int) && two_adic(k) { unimplemented!() }
#[verifier::external_body] pub fn v_elements(&self) -> (r: Vec<Fr>) ensures forall|k: nat| self.n == #[trigger] p2(k) ==> r@ == Seq::new(self.n as nat, |i: int| fpow(omega(k), i as nat)) { unimplemented!() }
#[verifier::external_body] pub fn element(&self, i: usize) -> (r: Fr) ensures forall|k: nat| self.n == #[trigger] p2(k) ==> r == fpow(omega(k), i as nat) { unimplemented!() }
#[verifier::external_body] pub fn size(&self) -> (r: usize) ensures r == self.n { unimplemented!() }
}
