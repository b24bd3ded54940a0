// ---- evaluations and interpolation over a domain, maps from names, shared vectors; the scalar field of BLS12-381
/// the polynomial of degree < 2^k with the given values at the domain points
pub uninterp spec fn ifft(v: Seq<Fr>, k: nat) -> Seq<Fr>;
pub axiom fn ax_ifft(v: Seq<Fr>, k: nat)
  requires two_adic(k), v.len() == p2(k)
  ensures canon(ifft(v, k)), ifft(v, k).len() <= p2(k), forall|i: int| 0 <= i < v.len() ==> peval(ifft(v, k), #[trigger] fpow(omega(k), i as nat)) == v[i];
pub struct Evaluations { pub evals: Vec<Fr>, pub domain: GeneralEvaluationDomain }
impl Evaluations {
pub fn from_vec_and_domain(evals: Vec<Fr>, domain: GeneralEvaluationDomain) -> (r: Evaluations) ensures r.evals == evals, r.domain == domain { Evaluations { evals, domain } }
#[verifier::external_body] pub fn interpolate(self) -> (r: DensePolynomial) requires self.evals@.len() <= self.domain.n ensures forall|k: nat| self.domain.n == #[trigger] p2(k) ==> r.coeffs@ == ifft(ppad(self.evals@, p2(k)), k) { unimplemented!() }
}
impl Copy for GeneralEvaluationDomain {}
impl Clone for GeneralEvaluationDomain { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl DensePolynomial { #[verifier::external_body] pub fn vdefault() -> (r: DensePolynomial) ensures r.coeffs@ == Seq::<Fr>::empty() { unimplemented!() } }
/// the field has roots of unity of order up to 2^32
pub broadcast axiom fn ax_adic32(k: nat) ensures #[trigger] two_adic(k) == (k <= 32);
/// the characteristic of the field
pub open spec fn modulus() -> int { 0x73eda753299d7d483339d80809a1d805int * 0x10000000000000000int * 0x10000000000000000int + 0x53bda402fffe5bfeffffffff00000001int }
pub axiom fn ax_char(a: int) ensures (fz(a) == fz(0)) == (a % modulus() == 0);
/// an atomically counted pointer with a single owner
pub struct Arc<T> { pub v: T }
impl<T> Arc<T> {
#[verifier::external_body] pub fn get_mut(a: &mut Arc<T>) -> (r: Option<&mut T>) ensures r is Some, *r->0 == old(a).v, final(a).v == *final(r->0) { unimplemented!() }
pub fn new(v: T) -> (r: Arc<T>) ensures r.v == v { Arc { v } }
}
impl<T> core::ops::Deref for Arc<T> { type Target = T; fn deref(&self) -> (r: &T) ensures *r == self.v { &self.v } }
pub trait VVecDef<T>: Sized { fn vdefault() -> Self; }
impl<T> VVecDef<T> for Vec<T> { fn vdefault() -> (r: Vec<T>) ensures r@ == Seq::<T>::empty() { Vec::new() } }
// maps whose keys are strings
pub trait VStr { spec fn st(&self) -> Seq<char>; }
impl<'a> VStr for &'a str { open spec fn st(&self) -> Seq<char> { (*self)@ } }
impl<'a> VStr for &'a String { open spec fn st(&self) -> Seq<char> { (*self)@ } }
impl VStr for String { open spec fn st(&self) -> Seq<char> { self@ } }
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct HashMap<K, V> { k: core::marker::PhantomData<(K, V)> }
impl<K: VStr, V> View for HashMap<K, V> { type V = Map<Seq<char>, V>; uninterp spec fn view(&self) -> Map<Seq<char>, V>; }
impl<K: VStr, V> HashMap<K, V> {
#[verifier::external_body] pub fn vdefault() -> (r: Self) ensures r@ == Map::<Seq<char>, V>::empty() { unimplemented!() }
#[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Map::<Seq<char>, V>::empty() { unimplemented!() }
#[verifier::external_body] pub fn v_insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k.st(), v) { unimplemented!() }
#[verifier::external_body] pub fn v_remove<Q: VStr>(&mut self, k: Q) -> (r: Option<V>) ensures r == (if old(self)@.dom().contains(k.st()) { Some(old(self)@[k.st()]) } else { None }), final(self)@ == old(self)@.remove(k.st()) { unimplemented!() }
#[verifier::external_body] pub fn v_get_mut<Q: VStr>(&mut self, k: Q) -> (r: Option<&mut V>)
  ensures r is Some == old(self)@.dom().contains(k.st()), r is Some ==> *r->0 == old(self)@[k.st()] && final(self)@ == old(self)@.insert(k.st(), *final(r->0)), r is None ==> final(self)@ == old(self)@ { unimplemented!() }
#[verifier::external_body] pub fn v_get<Q: VStr>(&self, k: Q) -> (r: Option<&V>) ensures r is Some == self@.dom().contains(k.st()), r is Some ==> *r->0 == self@[k.st()] { unimplemented!() }
}
/// the entries in the order of iteration: every key once
pub uninterp spec fn entries<K: VStr, V>(m: HashMap<K, V>) -> Seq<(K, V)>;
pub axiom fn ax_entries<K: VStr, V>(m: HashMap<K, V>)
  ensures forall|i: int| 0 <= i < entries(m).len() ==> m@.dom().contains((#[trigger] entries(m)[i]).0.st()) && m@[entries(m)[i].0.st()] == entries(m)[i].1,
    forall|i: int, j: int| 0 <= i < j < entries(m).len() ==> (#[trigger] entries(m)[i]).0.st() != (#[trigger] entries(m)[j]).0.st(),
    forall|k: Seq<char>| #[trigger] m@.dom().contains(k) ==> exists|i: int| 0 <= i < entries(m).len() && (#[trigger] entries(m)[i]).0.st() == k;
impl<K: VStr, V> VNth for HashMap<K, V> { type Item = (K, V); open spec fn sq(&self) -> Seq<(K, V)> { entries(*self) }
  #[verifier::external_body] fn v_len(&self) -> (r: usize) { unimplemented!() }
  #[verifier::external_body] fn v_nth(&self, i: usize) -> (r: (K, V)) { unimplemented!() } }
