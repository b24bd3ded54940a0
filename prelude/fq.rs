// ---- the base field of the curve: an opaque sort
#[verifier::external_body]
pub struct Fq { a: u64 }
pub type BaseField = Fq;
impl Copy for Fq {}
impl Clone for Fq { #[verifier::external_body] fn clone(&self) -> (r: Fq) ensures r == *self { unimplemented!() } }
pub uninterp spec fn bz(x: int) -> Fq;
pub uninterp spec fn badd(a: Fq, b: Fq) -> Fq;
pub uninterp spec fn brep(a: Fq) -> int;
pub uninterp spec fn ser_fq(a: Fq) -> Seq<u8>;
pub axiom fn ax_ser_fq(a: Fq, b: Fq) ensures ser_fq(a).len() == 48, ser_fq(a) == ser_fq(b) ==> a == b;
pub uninterp spec fn fq_le(b: Seq<u8>) -> Fq;
pub broadcast axiom fn ax_badd(a: int, b: int) ensures #[trigger] badd(bz(a), bz(b)) == bz(a + b);
@BIN Add add badd Fq Fq Fq
impl PartialEq for Fq { #[verifier::external_body] fn eq(&self, o: &Fq) -> (r: bool) ensures r == (*self == *o) { unimplemented!() } }
impl VFrom<i32> for Fq { open spec fn from_spec(t: i32) -> Fq { bz(t as int) } #[verifier::external_body] fn vfrom(t: i32) -> Fq { unimplemented!() } }
impl VFrom<u64> for Fq { open spec fn from_spec(t: u64) -> Fq { bz(t as int) } #[verifier::external_body] fn vfrom(t: u64) -> Fq { unimplemented!() } }
impl Fq {
#[verifier::external_body] pub fn zero() -> (r: Fq) ensures r == bz(0) { unimplemented!() }
#[verifier::external_body] pub fn one() -> (r: Fq) ensures r == bz(1) { unimplemented!() }
#[verifier::external_body] pub fn v_is_zero(&self) -> (r: bool) ensures r == (*self == bz(0)) { unimplemented!() }
#[verifier::external_body] pub fn v_is_one(&self) -> (r: bool) ensures r == (*self == bz(1)) { unimplemented!() }
#[verifier::external_body] pub fn into_bigint(self) -> (r: VBigInt) ensures bint(r) == brep(self) { unimplemented!() }
#[verifier::external_body] pub fn from_le_bytes_mod_order<S: VSlice<u8>>(b: &S) -> (r: Fq) ensures r == fq_le(b.ss()) { unimplemented!() }
}
impl VSer for Fq { open spec fn ser(&self) -> Seq<u8> { ser_fq(*self) } #[verifier::external_body] fn vserialize<W: VSink>(&self, h: &mut W) { unimplemented!() } }
pub uninterp spec fn ser_g1(a: G1) -> Seq<u8>;
pub axiom fn ax_ser_g1(a: G1, b: G1) ensures ser_g1(a).len() == 96, ser_g1(a) == ser_g1(b) ==> a == b;
impl VSer for G1 { open spec fn ser(&self) -> Seq<u8> { ser_g1(*self) } #[verifier::external_body] fn vserialize<W: VSink>(&self, h: &mut W) { unimplemented!() } }
