// ---- hashing, serialisation and seeded generators; bytes are sequences of u8
#[verifier::external_body]
pub struct T { a: u64 }
impl View for T { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
#[verifier::external_body]
pub struct HashOut { a: u64 }
/// the hash function
pub uninterp spec fn sha(b: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn hout(b: HashOut) -> Seq<u8>;
pub broadcast axiom fn ax_sha_len(b: Seq<u8>) ensures (#[trigger] sha(b)).len() == 32;
pub trait VBytes { spec fn bytes(&self) -> Seq<u8>; }
impl VBytes for Vec<u8> { open spec fn bytes(&self) -> Seq<u8> { self@ } }
impl<'a> VBytes for &'a Vec<u8> { open spec fn bytes(&self) -> Seq<u8> { self@ } }
impl<'a> VBytes for &'a [u8] { open spec fn bytes(&self) -> Seq<u8> { self@ } }
impl T {
#[verifier::external_body] pub fn vdefault() -> (r: T) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
#[verifier::external_body] pub fn new() -> (r: T) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
#[verifier::external_body] pub fn update<B: VBytes>(&mut self, b: B) ensures final(self)@ == old(self)@ + b.bytes() { unimplemented!() }
#[verifier::external_body] pub fn finalize(self) -> (r: HashOut) ensures hout(r) == sha(self@) { unimplemented!() }
}
impl HashOut { #[verifier::external_body] pub fn v_to_vec(&self) -> (r: Vec<u8>) ensures r@ == hout(*self) { unimplemented!() } }
/// a place bytes can be written to
pub trait VSink { spec fn wb(&self) -> Seq<u8>; }
impl VSink for T { open spec fn wb(&self) -> Seq<u8> { self@ } }
impl VSink for Vec<u8> { open spec fn wb(&self) -> Seq<u8> { self@ } }
/// canonical uncompressed encodings: of fixed length and injective
pub trait VSer: Sized { spec fn ser(&self) -> Seq<u8>; fn vserialize<W: VSink>(&self, h: &mut W) ensures final(h).wb() == old(h).wb() + self.ser(); }
pub uninterp spec fn ser_fr(a: Fr) -> Seq<u8>;
pub axiom fn ax_ser_fr(a: Fr, b: Fr) ensures ser_fr(a).len() == 32, ser_fr(a) == ser_fr(b) ==> a == b;
impl VSer for Fr { open spec fn ser(&self) -> Seq<u8> { ser_fr(*self) } #[verifier::external_body] fn vserialize<W: VSink>(&self, h: &mut W) { unimplemented!() } }
#[verifier::external_body]
pub fn vle64(b: [u8; 8]) -> (r: u64) ensures r == le64(b@) { unimplemented!() }
pub uninterp spec fn le64(b: Seq<u8>) -> u64;
pub uninterp spec fn rseed(s: u64) -> StdRng;
impl StdRng { #[verifier::external_body] pub fn seed_from_u64(s: u64) -> (r: StdRng) ensures r == rseed(s) { unimplemented!() } }
impl Fr { #[verifier::external_body] pub fn rand(g: &mut StdRng) -> (r: Fr) ensures r == rdraw::<Fr>(*old(g)), *final(g) == rnext(*old(g)) { unimplemented!() } }
pub uninterp spec fn fr_le(b: Seq<u8>) -> Fr;
impl Fr { #[verifier::external_body] pub fn from_le_bytes_mod_order<S: VSlice<u8>>(b: &S) -> (r: Fr) ensures r == fr_le(b.ss()) { unimplemented!() } }
#[verifier::external_body]
pub struct VBigInt { a: u64 }
pub uninterp spec fn bint(b: VBigInt) -> int;
/// the fixed-width little-endian bytes of an integer
pub uninterp spec fn le_bytes(b: int) -> Seq<u8>;
impl VBigInt { #[verifier::external_body] pub fn to_bytes_le(&self) -> (r: Vec<u8>) ensures r@ == le_bytes(bint(*self)) { unimplemented!() } }
pub trait VOptVec { spec fn ov(&self) -> Seq<u8>; fn v_unwrap_or_default(self) -> (r: Vec<u8>) ensures r@ == self.ov(); }
pub open spec fn odata(o: Option<Vec<u8>>) -> Seq<u8> { match o { Some(v) => v@, None => Seq::<u8>::empty() } }
impl VOptVec for Option<Vec<u8>> { open spec fn ov(&self) -> Seq<u8> { odata(*self) } fn v_unwrap_or_default(self) -> (r: Vec<u8>) { match self { Some(v) => v, None => Vec::new() } } }
pub trait VCopy { spec fn cv(&self) -> Seq<u8>; fn v_copy_from_slice(&mut self, s: &[u8]) requires s@.len() == old(self).cv().len() ensures final(self).cv() == s@; }
impl<const N: usize> VCopy for [u8; N] { open spec fn cv(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn v_copy_from_slice(&mut self, s: &[u8]) { unimplemented!() } }
pub trait VDef: Sized { fn v_def() -> Self; }
impl<const N: usize> VDef for [u8; N] { #[verifier::external_body] fn v_def() -> Self { unimplemented!() } }
#[verifier::external_body]
pub fn vstring(s: &str) -> String { unimplemented!() }
#[verifier::external_body]
pub fn vformat() -> String { unimplemented!() }
/// e1 then e2: the second, and with it the first, is determined by the concatenation when the second has a known length
pub proof fn lemma_cat(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>, d: Seq<u8>) requires a + b == c + d, b.len() == d.len() ensures a == c, b == d
{ assert((a + b).len() == a.len() + b.len()); assert((c + d).len() == c.len() + d.len());
  assert forall|i: int| 0 <= i < a.len() implies a[i] == c[i] by { assert((a + b)[i] == a[i]); assert((c + d)[i] == c[i]); }
  assert forall|i: int| 0 <= i < b.len() implies b[i] == d[i] by { assert((a + b)[a.len() + i] == b[i]); assert((c + d)[c.len() + i] == d[i]); }
  assert(a =~= c); assert(b =~= d); }
