// ---- the scalar field: an opaque sort; fz is the ring map from the integers, frep a representative
#[verifier::external_body]
pub struct Fr { a: u64 }
pub type F = Fr;
pub type ScalarField = Fr;
impl Copy for Fr {}
impl Clone for Fr { #[verifier::external_body] fn clone(&self) -> (r: Fr) ensures r == *self { unimplemented!() } }
pub uninterp spec fn fz(x: int) -> Fr;
pub uninterp spec fn frep(a: Fr) -> int;
pub uninterp spec fn fadd(a: Fr, b: Fr) -> Fr;
pub uninterp spec fn fsub(a: Fr, b: Fr) -> Fr;
pub uninterp spec fn fmul(a: Fr, b: Fr) -> Fr;
pub uninterp spec fn fneg(a: Fr) -> Fr;
pub uninterp spec fn finv(a: Fr) -> Fr;
pub axiom fn ax_rep(a: Fr) ensures fz(frep(a)) == a;
pub broadcast axiom fn ax_add(a: int, b: int) ensures #[trigger] fadd(fz(a), fz(b)) == fz(a + b);
pub broadcast axiom fn ax_sub(a: int, b: int) ensures #[trigger] fsub(fz(a), fz(b)) == fz(a - b);
pub broadcast axiom fn ax_mul(a: int, b: int) ensures #[trigger] fmul(fz(a), fz(b)) == fz(a * b);
pub broadcast axiom fn ax_neg(a: int) ensures #[trigger] fneg(fz(a)) == fz(-a);
pub broadcast group ring { ax_add, ax_sub, ax_mul, ax_neg }
pub axiom fn ax_dom(a: Fr, b: Fr) requires fmul(a, b) == fz(0) ensures a == fz(0) || b == fz(0);
pub axiom fn ax_one() ensures fz(1) != fz(0), fz(2) != fz(0);
pub axiom fn ax_inv(a: Fr) requires a != fz(0) ensures fmul(a, finv(a)) == fz(1);
pub open spec fn fpow(a: Fr, n: nat) -> Fr decreases n { if n == 0 { fz(1) } else { fmul(fpow(a, (n - 1) as nat), a) } }

pub trait VFrom<T>: Sized { spec fn from_spec(t: T) -> Self; fn vfrom(t: T) -> (r: Self) ensures r == Self::from_spec(t); }
pub trait VInto<U>: Sized { spec fn into_spec(self) -> U; fn vinto(self) -> (r: U) ensures r == self.into_spec(); }
impl<T, U: VFrom<T>> VInto<U> for T { open spec fn into_spec(self) -> U { U::from_spec(self) } fn vinto(self) -> (r: U) { U::vfrom(self) } }
impl VFrom<i32> for Fr { open spec fn from_spec(t: i32) -> Fr { fz(t as int) } #[verifier::external_body] fn vfrom(t: i32) -> Fr { unimplemented!() } }
impl VFrom<i64> for Fr { open spec fn from_spec(t: i64) -> Fr { fz(t as int) } #[verifier::external_body] fn vfrom(t: i64) -> Fr { unimplemented!() } }
impl VFrom<i128> for Fr { open spec fn from_spec(t: i128) -> Fr { fz(t as int) } #[verifier::external_body] fn vfrom(t: i128) -> Fr { unimplemented!() } }
impl VFrom<u8> for Fr { open spec fn from_spec(t: u8) -> Fr { fz(t as int) } #[verifier::external_body] fn vfrom(t: u8) -> Fr { unimplemented!() } }
impl VFrom<u16> for Fr { open spec fn from_spec(t: u16) -> Fr { fz(t as int) } #[verifier::external_body] fn vfrom(t: u16) -> Fr { unimplemented!() } }
impl VFrom<u32> for Fr { open spec fn from_spec(t: u32) -> Fr { fz(t as int) } #[verifier::external_body] fn vfrom(t: u32) -> Fr { unimplemented!() } }
impl VFrom<u64> for Fr { open spec fn from_spec(t: u64) -> Fr { fz(t as int) } #[verifier::external_body] fn vfrom(t: u64) -> Fr { unimplemented!() } }
impl VFrom<u128> for Fr { open spec fn from_spec(t: u128) -> Fr { fz(t as int) } #[verifier::external_body] fn vfrom(t: u128) -> Fr { unimplemented!() } }
impl VFrom<Fr> for Fr { open spec fn from_spec(t: Fr) -> Fr { t } fn vfrom(t: Fr) -> Fr { t } }
@BIN Add add fadd Fr Fr Fr
@BIN Sub sub fsub Fr Fr Fr
@BIN Mul mul fmul Fr Fr Fr
impl DivSpecImpl<Fr> for Fr { open spec fn obeys_div_spec() -> bool { true } open spec fn div_req(self, rhs: Fr) -> bool { rhs != fz(0) } open spec fn div_spec(self, rhs: Fr) -> Fr { fmul(self, finv(rhs)) } }
impl Div<Fr> for Fr { type Output = Fr; #[verifier::external_body] fn div(self, o: Fr) -> (r: Fr) { unimplemented!() } }
impl<'a> DivSpecImpl<&'a Fr> for Fr { open spec fn obeys_div_spec() -> bool { true } open spec fn div_req(self, rhs: &'a Fr) -> bool { *rhs != fz(0) } open spec fn div_spec(self, rhs: &'a Fr) -> Fr { fmul(self, finv(*rhs)) } }
impl<'a> Div<&'a Fr> for Fr { type Output = Fr; #[verifier::external_body] fn div(self, o: &'a Fr) -> (r: Fr) { unimplemented!() } }
impl NegSpecImpl for Fr { open spec fn obeys_neg_spec() -> bool { true } open spec fn neg_req(self) -> bool { true } open spec fn neg_spec(self) -> Fr { fneg(self) } }
impl Neg for Fr { type Output = Fr; #[verifier::external_body] fn neg(self) -> (r: Fr) { unimplemented!() } }
impl PartialEq for Fr { #[verifier::external_body] fn eq(&self, o: &Fr) -> (r: bool) ensures r == (*self == *o) { unimplemented!() } }
impl Eq for Fr {}
impl Fr {
#[verifier::external_body] pub fn zero() -> (r: Fr) ensures r == fz(0) { unimplemented!() }
#[verifier::external_body] pub fn one() -> (r: Fr) ensures r == fz(1) { unimplemented!() }
#[verifier::external_body] pub fn vdefault() -> (r: Fr) ensures r == fz(0) { unimplemented!() }
#[verifier::external_body] pub fn v_is_zero(&self) -> (r: bool) ensures r == (*self == fz(0)) { unimplemented!() }
#[verifier::external_body] pub fn v_is_one(&self) -> (r: bool) ensures r == (*self == fz(1)) { unimplemented!() }
#[verifier::external_body] pub fn v_square(&self) -> (r: Fr) ensures r == fmul(*self, *self) { unimplemented!() }
#[verifier::external_body] pub fn double(&self) -> (r: Fr) ensures r == fadd(*self, *self) { unimplemented!() }
#[verifier::external_body] pub fn v_inverse(&self) -> (r: Option<Fr>) ensures r == (if *self == fz(0) { None } else { Some(finv(*self)) }) { unimplemented!() }
#[verifier::external_body] pub fn v_pow<X: VExp>(&self, e: X) -> (r: Fr) requires e.one_limb() ensures r == fpow(*self, e.ex()) { unimplemented!() }
#[verifier::external_body] pub fn v_powr<const N: usize>(&self, e: &[u64; N]) -> (r: Fr) requires N == 1 ensures r == fpow(*self, e@[0] as nat) { unimplemented!() }
}

pub fn vu(a: usize) -> (r: usize) ensures r == a { a }
pub fn into_fr(a: Fr) -> (r: Fr) ensures r == a { a }

// ---- refusals: reaching one is an error here; in the variants named `refuse` control merely ends there
pub fn vassert(b: bool) requires b {}
#[verifier::external_body]
pub fn vassert_refuse(b: bool) ensures b { unimplemented!() }
#[verifier::external_body]
pub fn vpanic_refuse() -> ! ensures false { unimplemented!() }
#[verifier::external_body]
pub fn vpanic() -> ! requires false { unimplemented!() }

// ---- sequences
pub trait VNth { type Item; spec fn sq(&self) -> Seq<Self::Item>;
  fn v_len(&self) -> (r: usize) ensures r == self.sq().len();
  fn v_nth(&self, i: usize) -> (r: Self::Item) requires i < self.sq().len() ensures r == self.sq()[i as int]; }
impl<T> VNth for Vec<T> { type Item = T; open spec fn sq(&self) -> Seq<T> { self@ }
  fn v_len(&self) -> (r: usize) { self.len() }
  #[verifier::external_body] fn v_nth(&self, i: usize) -> (r: T) { unimplemented!() } }
impl<T, const N: usize> VNth for [T; N] { type Item = T; open spec fn sq(&self) -> Seq<T> { self@ }
  #[verifier::external_body] fn v_len(&self) -> (r: usize) { N }
  #[verifier::external_body] fn v_nth(&self, i: usize) -> (r: T) { unimplemented!() } }
pub open spec fn refs<'a, T>(s: Seq<T>) -> Seq<&'a T> { Seq::new(s.len(), |i: int| &s[i]) }
impl<'a, T> VNth for &'a [T] { type Item = &'a T; open spec fn sq(&self) -> Seq<&'a T> { refs(self@) }
  fn v_len(&self) -> (r: usize) { self.len() }
  fn v_nth(&self, i: usize) -> (r: &'a T) { &self[i] } }
impl<'a, T> VNth for &'a Vec<T> { type Item = &'a T; open spec fn sq(&self) -> Seq<&'a T> { refs(self@) }
  fn v_len(&self) -> (r: usize) { self.len() }
  fn v_nth(&self, i: usize) -> (r: &'a T) { &self[i] } }
impl<'a, T, const N: usize> VNth for &'a [T; N] { type Item = &'a T; open spec fn sq(&self) -> Seq<&'a T> { refs(self@) }
  #[verifier::external_body] fn v_len(&self) -> (r: usize) { N }
  #[verifier::external_body] fn v_nth(&self, i: usize) -> (r: &'a T) { unimplemented!() } }
pub trait VSlice<T> { spec fn ss(&self) -> Seq<T>; fn v_slice(&self) -> (r: &[T]) ensures r@ == self.ss(); }
impl<T> VSlice<T> for Vec<T> { open spec fn ss(&self) -> Seq<T> { self@ } fn v_slice(&self) -> (r: &[T]) { self.as_slice() } }
impl<T> VSlice<T> for [T] { open spec fn ss(&self) -> Seq<T> { self@ } fn v_slice(&self) -> (r: &[T]) { self } }
impl<T, const N: usize> VSlice<T> for [T; N] { open spec fn ss(&self) -> Seq<T> { self@ } fn v_slice(&self) -> (r: &[T]) { self.as_slice() } }
#[verifier::external_body]
pub fn v_range<T, S: VSlice<T> + ?Sized>(s: &S, a: usize, b: usize) -> (r: &[T]) requires a <= b <= s.ss().len() ensures r@ == s.ss().subrange(a as int, b as int) { unimplemented!() }
#[verifier::external_body]
pub fn v_range_refuse<T, S: VSlice<T> + ?Sized>(s: &S, a: usize, b: usize) -> (r: &[T]) ensures a <= b <= s.ss().len(), r@ == s.ss().subrange(a as int, b as int) { unimplemented!() }
#[verifier::external_body]
pub fn v_range_from<T, S: VSlice<T> + ?Sized>(s: &S, a: usize) -> (r: &[T]) requires a <= s.ss().len() ensures r@ == s.ss().subrange(a as int, s.ss().len() as int) { unimplemented!() }
pub fn vmin(a: usize, b: usize) -> (r: usize) ensures r == (if a <= b { a } else { b }) { if a <= b { a } else { b } }
pub fn vminus(a: usize, b: usize) -> (r: usize) ensures r == (if a <= b { 0 } else { a - b }) { if a <= b { 0 } else { a - b } }
pub fn vceil(a: usize, b: usize) -> (r: usize) requires b > 0 ensures r == (if a == 0 { 0int } else { (a - 1) / (b as int) + 1 }) { if a == 0 { 0 } else { assert((a - 1) / (b as int) <= a - 1) by (nonlinear_arith) requires a > 0, b > 0; (a - 1) / b + 1 } }
#[verifier::external_body]
pub fn vchunks_len<T>(s: &[T], n: usize) -> (r: usize) requires n > 0 ensures r == (s@.len() + n - 1) / (n as int) { unimplemented!() }
#[verifier::external_body]
pub fn vchunk<T>(s: &[T], n: usize, i: usize) -> (r: &[T]) requires n > 0, i * n < s@.len() ensures r@ == s@.subrange(i * n, if (i + 1) * n <= s@.len() { (i + 1) * n } else { s@.len() as int }) { unimplemented!() }
#[verifier::external_body]
pub fn vec_with_capacity<T>(n: usize) -> (r: Vec<T>) ensures r@ == Seq::<T>::empty() { unimplemented!() }
#[verifier::external_body]
pub fn vec_repeat<T>(a: T, n: usize) -> (r: Vec<T>) ensures r@ == Seq::new(n as nat, |i: int| a) { unimplemented!() }
#[verifier::external_body]
pub fn v_to_array<T, const N: usize>(v: Vec<T>) -> (r: [T; N]) requires v@.len() == N ensures r@ == v@ { unimplemented!() }
pub trait VClone: Sized { fn vclone(&self) -> (r: Self) ensures r == *self; }
impl<T> VClone for T { #[verifier::external_body] fn vclone(&self) -> (r: Self) { unimplemented!() } }
pub trait VVec<T> { spec fn vv(&self) -> Seq<T>;
  fn v_to_vec(&self) -> (r: Vec<T>) ensures r@ == self.vv();
  fn v_get(&self, i: usize) -> (r: Option<&T>) ensures r == (if i < self.vv().len() { Some(&self.vv()[i as int]) } else { None }); }
impl<T> VVec<T> for [T] { open spec fn vv(&self) -> Seq<T> { self@ } #[verifier::external_body] fn v_to_vec(&self) -> (r: Vec<T>) { unimplemented!() } #[verifier::external_body] fn v_get(&self, i: usize) -> (r: Option<&T>) { unimplemented!() } }
impl<T> VVec<T> for Vec<T> { open spec fn vv(&self) -> Seq<T> { self@ } #[verifier::external_body] fn v_to_vec(&self) -> (r: Vec<T>) { unimplemented!() } #[verifier::external_body] fn v_get(&self, i: usize) -> (r: Option<&T>) { unimplemented!() } }
pub trait VAppend<T> { spec fn av(&self) -> Seq<T>; fn v_append(&mut self, o: &mut Vec<T>) ensures final(self).av() == old(self).av() + old(o)@, final(o)@ == Seq::<T>::empty(); }
impl<T> VAppend<T> for Vec<T> { open spec fn av(&self) -> Seq<T> { self@ } #[verifier::external_body] fn v_append(&mut self, o: &mut Vec<T>) { unimplemented!() } }
// conversion of a slice into a vector (`coeffs.into()`): equal contents; vec_of names the vector with those contents
pub uninterp spec fn vec_of<T>(s: &[T]) -> Vec<T>;
pub broadcast axiom fn ax_vec_of<T>(s: &[T]) ensures (#[trigger] vec_of(s))@ == s@;
impl<'a, T> VFrom<&'a [T]> for Vec<T> { open spec fn from_spec(t: &'a [T]) -> Vec<T> { vec_of(t) } #[verifier::external_body] fn vfrom(t: &'a [T]) -> Vec<T> { unimplemented!() } }

// the generator of random values: a seed and what has been drawn so far
#[verifier::external_body]
pub struct StdRng { a: u64 }
pub uninterp spec fn rdraw<T>(s: StdRng) -> T;
pub uninterp spec fn rnext(s: StdRng) -> StdRng;
impl StdRng {
#[verifier::external_body] pub fn v_gen<T>(&mut self) -> (r: T) ensures r == rdraw::<T>(*old(self)), *final(self) == rnext(*old(self)) { unimplemented!() }
}
pub open spec fn rsteps(s: StdRng, n: nat) -> StdRng decreases n { if n == 0 { s } else { rnext(rsteps(s, (n - 1) as nat)) } }
/// a slice of the right length as an array
#[verifier::external_body]
pub fn v_try_array<T, const N: usize>(s: &[T]) -> (r: [T; N]) requires s@.len() == N ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
pub fn v_try_array_refuse<T, const N: usize>(s: &[T]) -> (r: [T; N]) ensures s@.len() == N, r@ == s@ { unimplemented!() }
pub trait VExpectR<T> { spec fn eo(self) -> Option<T>; fn v_expect_refuse(self, m: &str) -> (r: T) ensures self.eo() == Some(r); }
impl<T> VExpectR<T> for Option<T> { open spec fn eo(self) -> Option<T> { self } #[verifier::external_body] fn v_expect_refuse(self, m: &str) -> (r: T) { unimplemented!() } }
/// division in the variants named `refuse`: dividing by zero ends there
pub trait VDivQ<R>: Sized { type O; spec fn dq(self, r: R) -> Self::O; spec fn nz(r: R) -> bool; fn vdivq(self, r: R) -> (o: Self::O) ensures Self::nz(r), o == self.dq(r); }
impl VDivQ<Fr> for Fr { type O = Fr; open spec fn dq(self, r: Fr) -> Fr { fmul(self, finv(r)) } open spec fn nz(r: Fr) -> bool { r != fz(0) } #[verifier::external_body] fn vdivq(self, r: Fr) -> (o: Fr) { unimplemented!() } }
pub trait VUnwrapR<T> { spec fn uo(self) -> Option<T>; fn v_unwrap_refuse(self) -> (r: T) ensures self.uo() == Some(r); }
impl<T> VUnwrapR<T> for Option<T> { open spec fn uo(self) -> Option<T> { self } #[verifier::external_body] fn v_unwrap_refuse(self) -> (r: T) { unimplemented!() } }
/// exponents of one 64-bit limb
pub trait VExp { spec fn ex(&self) -> nat; spec fn one_limb(&self) -> bool; }
impl<const N: usize> VExp for [u64; N] { open spec fn ex(&self) -> nat { self@[0] as nat } open spec fn one_limb(&self) -> bool { N == 1 } }
