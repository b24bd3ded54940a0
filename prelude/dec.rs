// ---- what is hashed in the FRI crate: decimal representations, and the field element read from a digest
/// the decimal digits of a field element (Display of ark-ff: no leading zeros, the empty string for zero)
pub uninterp spec fn dec(a: Fr) -> Seq<u8>;
pub uninterp spec fn strb(s: Seq<char>) -> Seq<u8>;
pub axiom fn ax_dec(a: Fr, b: Fr) ensures dec(a) == dec(b) ==> a == b, forall|i: int| 0 <= i < dec(a).len() ==> 48 <= #[trigger] dec(a)[i] <= 57;
/// the field has at most 64 bits
pub axiom fn ax_dec_len(a: Fr) ensures dec(a).len() <= 20;
pub axiom fn ax_strb(s: Seq<char>) requires forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) as u32 >= 32 && s[i] as u32 <= 126 ensures strb(s).len() == s.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] strb(s)[i] == s[i] as u8;
#[verifier::external_body]
pub struct FrStr { a: u64 }
pub uninterp spec fn frb(s: FrStr) -> Seq<u8>;
impl VBytes for FrStr { open spec fn bytes(&self) -> Seq<u8> { frb(*self) } }
impl<'a> VBytes for &'a str { open spec fn bytes(&self) -> Seq<u8> { strb(self@) } }
impl<const N: usize> VBytes for [u8; N] { open spec fn bytes(&self) -> Seq<u8> { self@ } }
impl Fr { #[verifier::external_body] pub fn v_to_string(&self) -> (r: FrStr) ensures frb(r) == dec(*self) { unimplemented!() } }
pub type Sha256 = T;
impl VSlice<u8> for HashOut { open spec fn ss(&self) -> Seq<u8> { hout(*self) } #[verifier::external_body] fn v_slice(&self) -> (r: &[u8]) { unimplemented!() } }
pub uninterp spec fn tole64(x: u64) -> Seq<u8>;
pub axiom fn ax_tole64(x: u64, y: u64) ensures tole64(x).len() == 8, tole64(x) == tole64(y) ==> x == y;
pub trait VLe { spec fn le(&self) -> Seq<u8>; fn v_to_le_bytes(&self) -> (r: [u8; 8]) ensures r@ == self.le(); }
impl VLe for u64 { open spec fn le(&self) -> Seq<u8> { tole64(*self) } #[verifier::external_body] fn v_to_le_bytes(&self) -> (r: [u8; 8]) { unimplemented!() } }
/// the integer in [0, modulus) a field element stands for
pub uninterp spec fn fint(a: Fr) -> int;
pub axiom fn ax_fint(a: Fr) ensures fint(a) >= 0;
impl Fr { #[verifier::external_body] pub fn into_bigint(self) -> (r: VBigInt) ensures bint(r) == fint(self) { unimplemented!() }
#[verifier::external_body] pub fn v_generator() -> (r: Fr) ensures r == fgen() { unimplemented!() } }
pub uninterp spec fn fgen() -> Fr;
pub axiom fn ax_fgen() ensures fgen() != fz(0);
/// the least significant 64-bit limb
pub open spec fn limb0(x: int) -> u64 { (x % 0x1_0000_0000_0000_0000) as u64 }
impl VBigInt { #[verifier::external_body] pub fn as_ref(&self) -> (r: &[u64]) ensures r@.len() >= 1, r@[0] == limb0(bint(*self)) { unimplemented!() } }
pub trait VResize { spec fn rv(&self) -> Seq<Fr>; fn v_resize(&mut self, n: usize, a: Fr) ensures final(self).rv().len() == n, forall|i: int| 0 <= i < n ==> final(self).rv()[i] == (if i < old(self).rv().len() { old(self).rv()[i] } else { a }); }
impl VResize for Vec<Fr> { open spec fn rv(&self) -> Seq<Fr> { self@ } #[verifier::external_body] fn v_resize(&mut self, n: usize, a: Fr) { unimplemented!() } }
// sums and multiples of dense polynomials without trailing zeros
pub open spec fn cadd(a: Seq<Fr>, b: Seq<Fr>) -> Seq<Fr> { Seq::new(pmax(a.len(), b.len()), |i: int| fadd(pget(a, i), pget(b, i))) }
pub open spec fn cscale(a: Seq<Fr>, k: Fr) -> Seq<Fr> { Seq::new(a.len(), |i: int| fmul(a[i], k)) }
pub uninterp spec fn poly_of(s: Seq<Fr>) -> DensePolynomial;
pub axiom fn ax_poly_of(s: Seq<Fr>) ensures poly_of(s).coeffs@ == s;
impl AddSpecImpl<DensePolynomial> for DensePolynomial { open spec fn obeys_add_spec() -> bool { true } open spec fn add_req(self, o: DensePolynomial) -> bool { canon(self.coeffs@) && canon(o.coeffs@) } open spec fn add_spec(self, o: DensePolynomial) -> DensePolynomial { poly_of(ptrim(cadd(self.coeffs@, o.coeffs@))) } }
impl Add<DensePolynomial> for DensePolynomial { type Output = DensePolynomial; #[verifier::external_body] fn add(self, o: DensePolynomial) -> (r: DensePolynomial) { unimplemented!() } }
impl<'a> MulSpecImpl<Fr> for &'a DensePolynomial { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, k: Fr) -> bool { canon(self.coeffs@) } open spec fn mul_spec(self, k: Fr) -> DensePolynomial { poly_of(ptrim(cscale(self.coeffs@, k))) } }
impl<'a> Mul<Fr> for &'a DensePolynomial { type Output = DensePolynomial; #[verifier::external_body] fn mul(self, k: Fr) -> (r: DensePolynomial) { unimplemented!() } }
impl DensePolynomial { #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self.coeffs@.len() { unimplemented!() } }
