// ---- the two source groups and the target group, as discrete logarithms to the fixed generators
#[verifier::external_body]
pub struct G1 { a: u64 }
#[verifier::external_body]
pub struct G2 { a: u64 }
#[verifier::external_body]
pub struct GT { a: u64 }
pub type G1Point = G1;
pub type G1Projective = G1;
pub type G1Affine = G1;
pub type Affine = G1;
pub type G2Point = G2;
pub uninterp spec fn lg(g: G1) -> Fr;
pub uninterp spec fn gp(f: Fr) -> G1;
pub uninterp spec fn lg2(g: G2) -> Fr;
pub uninterp spec fn gp2(f: Fr) -> G2;
pub uninterp spec fn lgt(g: GT) -> Fr;
pub uninterp spec fn gpt(f: Fr) -> GT;
pub broadcast axiom fn ax_lg(g: G1) ensures gp(#[trigger] lg(g)) == g;
pub broadcast axiom fn ax_gp(f: Fr) ensures lg(#[trigger] gp(f)) == f;
pub broadcast axiom fn ax_lg2(g: G2) ensures gp2(#[trigger] lg2(g)) == g;
pub broadcast axiom fn ax_gp2(f: Fr) ensures lg2(#[trigger] gp2(f)) == f;
pub broadcast axiom fn ax_lgt(g: GT) ensures gpt(#[trigger] lgt(g)) == g;
pub broadcast axiom fn ax_gpt(f: Fr) ensures lgt(#[trigger] gpt(f)) == f;
pub broadcast group groups { ax_lg, ax_gp, ax_lg2, ax_gp2, ax_lgt, ax_gpt }
pub open spec fn gadd(a: G1, b: G1) -> G1 { gp(fadd(lg(a), lg(b))) }
pub open spec fn gsub(a: G1, b: G1) -> G1 { gp(fsub(lg(a), lg(b))) }
pub open spec fn gneg(a: G1) -> G1 { gp(fneg(lg(a))) }
pub open spec fn gmul(a: G1, b: Fr) -> G1 { gp(fmul(lg(a), b)) }
pub open spec fn g2add(a: G2, b: G2) -> G2 { gp2(fadd(lg2(a), lg2(b))) }
pub open spec fn g2sub(a: G2, b: G2) -> G2 { gp2(fsub(lg2(a), lg2(b))) }
pub open spec fn g2mul(a: G2, b: Fr) -> G2 { gp2(fmul(lg2(a), b)) }
pub open spec fn pair(a: G1, b: G2) -> GT { gpt(fmul(lg(a), lg2(b))) }
@GRP G1
@GRP G2
@BIN Add add gadd G1 G1 G1
@BIN Sub sub gsub G1 G1 G1
@BIN Mul mul gmul G1 Fr G1
@BIN Add add g2add G2 G2 G2
@BIN Sub sub g2sub G2 G2 G2
@BIN Mul mul g2mul G2 Fr G2
impl NegSpecImpl for G1 { open spec fn obeys_neg_spec() -> bool { true } open spec fn neg_req(self) -> bool { true } open spec fn neg_spec(self) -> G1 { gneg(self) } }
impl Neg for G1 { type Output = G1; #[verifier::external_body] fn neg(self) -> (r: G1) { unimplemented!() } }
impl VFrom<G1> for G1 { open spec fn from_spec(t: G1) -> G1 { t } fn vfrom(t: G1) -> G1 { t } }
impl VFrom<G2> for G2 { open spec fn from_spec(t: G2) -> G2 { t } fn vfrom(t: G2) -> G2 { t } }
impl G1 { #[verifier::external_body] pub fn zero() -> (r: G1) ensures lg(r) == fz(0) { unimplemented!() }
#[verifier::external_body] pub fn v_is_zero(&self) -> (r: bool) ensures r == (lg(*self) == fz(0)) { unimplemented!() }
#[verifier::external_body] pub fn generator() -> (r: G1) ensures lg(r) == fz(1) { unimplemented!() } }
impl G2 { #[verifier::external_body] pub fn zero() -> (r: G2) ensures lg2(r) == fz(0) { unimplemented!() }
#[verifier::external_body] pub fn v_is_zero(&self) -> (r: bool) ensures r == (lg2(*self) == fz(0)) { unimplemented!() }
#[verifier::external_body] pub fn generator() -> (r: G2) ensures lg2(r) == fz(1) { unimplemented!() } }
impl PartialEq for GT { #[verifier::external_body] fn eq(&self, o: &GT) -> (r: bool) ensures r == (*self == *o) { unimplemented!() } }
pub struct Bls12_381 {}
impl Bls12_381 { #[verifier::external_body] pub fn pairing(a: G1, b: G2) -> (r: GT) ensures r == pair(a, b) { unimplemented!() } }
