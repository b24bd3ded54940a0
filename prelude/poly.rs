// ---- dense univariate polynomials, after ark-poly: a coefficient vector, low degree first
pub struct DensePolynomial { pub coeffs: Vec<Fr> }
pub type Poly = DensePolynomial;
pub type Polynomial = DensePolynomial;
/// the sum of the first n terms at x
pub open spec fn psum(c: Seq<Fr>, x: Fr, n: nat) -> Fr decreases n { if n == 0 { fz(0) } else { fadd(psum(c, x, (n - 1) as nat), fmul(c[n - 1], fpow(x, (n - 1) as nat))) } }
pub open spec fn peval(c: Seq<Fr>, x: Fr) -> Fr { psum(c, x, c.len()) }
/// without trailing zeros
pub open spec fn ptrim(c: Seq<Fr>) -> Seq<Fr> decreases c.len() { if c.len() == 0 || c.last() != fz(0) { c } else { ptrim(c.drop_last()) } }
pub open spec fn canon(c: Seq<Fr>) -> bool { c.len() == 0 || c.last() != fz(0) }
pub open spec fn allz(c: Seq<Fr>) -> bool { forall|i: int| 0 <= i < c.len() ==> c[i] == fz(0) }
pub open spec fn pdeg(c: Seq<Fr>) -> int { if ptrim(c).len() == 0 { 0 } else { ptrim(c).len() - 1 } }
pub proof fn lemma_trim(c: Seq<Fr>)
  ensures canon(ptrim(c)), ptrim(c).len() <= c.len(), forall|i: int| 0 <= i < ptrim(c).len() ==> ptrim(c)[i] == c[i],
    forall|i: int| ptrim(c).len() <= i < c.len() ==> c[i] == fz(0),
    canon(c) ==> ptrim(c) == c, allz(c) ==> ptrim(c).len() == 0
  decreases c.len()
{ if c.len() == 0 || c.last() != fz(0) { } else { lemma_trim(c.drop_last());
    assert forall|i: int| 0 <= i < ptrim(c).len() implies ptrim(c)[i] == c[i] by { assert(c.drop_last()[i] == c[i]); }
    assert forall|i: int| ptrim(c).len() <= i < c.len() implies c[i] == fz(0) by { if i < c.len() - 1 { assert(c.drop_last()[i] == c[i]); } }
    if allz(c) { assert(allz(c.drop_last())); } } }
pub proof fn lemma_psum_ext(c: Seq<Fr>, d: Seq<Fr>, x: Fr, n: nat)
  requires n <= c.len(), n <= d.len(), forall|i: int| 0 <= i < n ==> c[i] == d[i]
  ensures psum(c, x, n) == psum(d, x, n) decreases n
{ if n > 0 { lemma_psum_ext(c, d, x, (n - 1) as nat); } }
pub proof fn lemma_psum_zeros(c: Seq<Fr>, x: Fr, m: nat, n: nat)
  requires m <= n <= c.len(), forall|i: int| m <= i < n ==> c[i] == fz(0)
  ensures psum(c, x, n) == psum(c, x, m) decreases n
{ if n > m { lemma_psum_zeros(c, x, m, (n - 1) as nat); r_add_zero_mul(psum(c, x, (n - 1) as nat), fpow(x, (n - 1) as nat)); } }
@ring r_add_zero_mul | a b | a + 0*b == a
/// trailing zeros do not matter for the value
pub proof fn lemma_trim_eval(c: Seq<Fr>, x: Fr) ensures peval(ptrim(c), x) == peval(c, x)
{ lemma_trim(c); lemma_psum_ext(c, ptrim(c), x, ptrim(c).len()); lemma_psum_zeros(c, x, ptrim(c).len(), c.len()); }
/// changing the constant coefficient changes the value by as much
pub proof fn lemma_psum_first(c: Seq<Fr>, y: Fr, x: Fr, n: nat)
  requires 0 < n <= c.len()
  ensures psum(c.update(0, fsub(c[0], y)), x, n) == fsub(psum(c, x, n), y) decreases n
{ let d = c.update(0, fsub(c[0], y));
  if n == 1 { assert(psum(c, x, 0) == fz(0)); assert(psum(d, x, 0) == fz(0)); assert(fpow(x, 0) == fz(1)); assert(psum(d, x, 1) == fadd(psum(d, x, 0), fmul(d[0], fpow(x, 0)))); assert(psum(c, x, 1) == fadd(psum(c, x, 0), fmul(c[0], fpow(x, 0)))); r_first1(c[0], y); }
  else { lemma_psum_first(c, y, x, (n - 1) as nat); r_sub_swap(psum(c, x, (n - 1) as nat), fmul(c[n - 1], fpow(x, (n - 1) as nat)), y); } }
@ring r_first1 | a y | 0 + (a - y)*1 == (0 + a*1) - y
@ring r_sub_swap | p q y | (p - y) + q == (p + q) - y
impl DensePolynomial {
#[verifier::external_body] pub fn from_coefficients_vec(c: Vec<Fr>) -> (r: DensePolynomial) ensures r.coeffs@ == ptrim(c@) { unimplemented!() }
#[verifier::external_body] pub fn from_coefficients_slice<T: VSlice<Fr> + ?Sized>(c: &T) -> (r: DensePolynomial) ensures r.coeffs@ == ptrim(c.ss()) { unimplemented!() }
#[verifier::external_body] pub fn degree(&self) -> (r: usize) requires canon(self.coeffs@) || allz(self.coeffs@) ensures r == pdeg(self.coeffs@) { unimplemented!() }
#[verifier::external_body] pub fn degree_refuse(&self) -> (r: usize) ensures canon(self.coeffs@) || allz(self.coeffs@), r == pdeg(self.coeffs@) { unimplemented!() }
#[verifier::external_body] pub fn v_is_zero(&self) -> (r: bool) ensures r == allz(self.coeffs@) { unimplemented!() }
#[verifier::external_body] pub fn evaluate(&self, x: &Fr) -> (r: Fr) ensures r == peval(self.coeffs@, *x) { unimplemented!() }
#[verifier::external_body] pub fn zero() -> (r: DensePolynomial) ensures r.coeffs@ == Seq::<Fr>::empty() { unimplemented!() }
}
// division with remainder (ark-poly): a = q b + r with deg r < deg b; q has no more coefficients than a
pub open spec fn is_rem(a: Seq<Fr>, b: Seq<Fr>, q: Seq<Fr>, r: Seq<Fr>) -> bool { r.len() < ptrim(b).len() && (forall|x: Fr| #[trigger] peval(a, x) == fadd(fmul(peval(q, x), peval(b, x)), peval(r, x))) }
pub open spec fn is_quot(a: Seq<Fr>, b: Seq<Fr>, q: Seq<Fr>) -> bool {
  canon(q) && q.len() <= ptrim(a).len() && exists|r: Seq<Fr>| #[trigger] is_rem(a, b, q, r)
    && (ptrim(b).len() > 1 && ptrim(a).len() > 0 ==> q.len() < ptrim(a).len()) }
pub uninterp spec fn pdiv(a: DensePolynomial, b: DensePolynomial) -> DensePolynomial;
pub axiom fn ax_pdiv(a: DensePolynomial, b: DensePolynomial)
  requires canon(a.coeffs@) || allz(a.coeffs@), canon(b.coeffs@), b.coeffs@.len() > 0
  ensures is_quot(a.coeffs@, b.coeffs@, pdiv(a, b).coeffs@);
impl<'a, 'b> DivSpecImpl<&'b DensePolynomial> for &'a DensePolynomial { open spec fn obeys_div_spec() -> bool { true }
  open spec fn div_req(self, rhs: &'b DensePolynomial) -> bool { (canon(self.coeffs@) || allz(self.coeffs@)) && canon(rhs.coeffs@) && rhs.coeffs@.len() > 0 }
  open spec fn div_spec(self, rhs: &'b DensePolynomial) -> DensePolynomial { pdiv(*self, *rhs) } }
impl<'a, 'b> Div<&'b DensePolynomial> for &'a DensePolynomial { type Output = DensePolynomial; #[verifier::external_body] fn div(self, rhs: &'b DensePolynomial) -> (r: DensePolynomial) { unimplemented!() } }
/// dividing p - p(z) by X - z: the quotient's value is (p(x) - p(z)) / (x - z);
/// dividing anything that differs from p by a constant only
pub proof fn lemma_open(p: Seq<Fr>, d: Seq<Fr>, root: Seq<Fr>, q: Seq<Fr>, z: Fr, s: Fr)
  requires canon(p), d.len() == p.len(), forall|i: int| 1 <= i < p.len() ==> d[i] == p[i],
    root.len() == 2, root[0] == fneg(z), root[1] == fz(1), is_quot(d, root, q)
  ensures fmul(peval(q, s), fsub(s, z)) == fsub(peval(p, s), peval(p, z)), q.len() <= p.len(), p.len() > 0 ==> q.len() < p.len()
{
  ax_one();
  assert(ptrim(root) == root) by { lemma_trim(root); }
  let r = choose|r: Seq<Fr>| is_rem(d, root, q, r);
  lemma_trim(d); lemma_trim(p);
  let y = if p.len() > 0 { fsub(p[0], d[0]) } else { fz(0) };
  if p.len() > 0 { r_sub_back(p[0], d[0]); assert(d =~= p.update(0, fsub(p[0], y))); lemma_psum_first(p, y, z, p.len()); lemma_psum_first(p, y, s, p.len()); } else { assert(d =~= p); r_sub_z(peval(p, z)); r_sub_z(peval(p, s)); }
  assert(peval(d, z) == fsub(peval(p, z), y)); assert(peval(d, s) == fsub(peval(p, s), y));
  lemma_linear(root, z, z); lemma_linear(root, z, s);
  assert(peval(r, z) == peval(r, s)) by { if r.len() == 1 { assert(psum(r, z, 0) == fz(0)); assert(psum(r, s, 0) == fz(0)); assert(fpow(z, 0) == fz(1)); assert(fpow(s, 0) == fz(1));
    assert(psum(r, z, 1) == fadd(psum(r, z, 0), fmul(r[0], fpow(z, 0)))); assert(psum(r, s, 1) == fadd(psum(r, s, 0), fmul(r[0], fpow(s, 0)))); } }
  let t = peval(r, z);
  r_sub_self(z); r_mul0_add(peval(q, z), t);
  assert(t == fsub(peval(p, z), y));
  let m = fmul(peval(q, s), fsub(s, z));
  assert(fadd(m, t) == fsub(peval(p, s), y));
  r_back2(m, t); r_sub_y(peval(p, s), peval(p, z), y);
  if p.len() > 0 { lemma_trim(d); if ptrim(d).len() == 0 { assert(q.len() == 0); } }
}
@ring r_sub_back | a b | a - (a - b) == b
@ring r_sub_z | a | a - 0 == a
@ring r_back2 | a t | (a + t) - t == a
@ring r_sub_y | a b y | (a - y) - (b - y) == a - b
@ring r_sub_self | a | a - a == 0
@ring r_mul0_add | a t | a*0 + t == t
@ring r_add0 | a | a + 0 == a
@ring r_lin | z x | (0 + (-z)*1) + 1*(1*x) == x - z
pub proof fn lemma_linear(root: Seq<Fr>, z: Fr, x: Fr) requires root.len() == 2, root[0] == fneg(z), root[1] == fz(1) ensures peval(root, x) == fsub(x, z)
{ assert(psum(root, x, 0) == fz(0)); assert(fpow(x, 0) == fz(1)); assert(fpow(x, 1) == fmul(fpow(x, 0), x)); assert(psum(root, x, 1) == fadd(psum(root, x, 0), fmul(root[0], fpow(x, 0))));
  assert(psum(root, x, 2) == fadd(psum(root, x, 1), fmul(root[1], fpow(x, 1)))); r_lin(z, x); }
/// a c + b d, coefficient by coefficient
pub open spec fn pget(c: Seq<Fr>, i: int) -> Fr { if 0 <= i < c.len() { c[i] } else { fz(0) } }
pub open spec fn pmax(a: nat, b: nat) -> nat { if a >= b { a } else { b } }
pub open spec fn pcomb(a: Fr, c: Seq<Fr>, b: Fr, d: Seq<Fr>) -> Seq<Fr> { Seq::new(pmax(c.len(), d.len()), |i: int| fadd(fmul(a, pget(c, i)), fmul(b, pget(d, i)))) }
pub open spec fn ppad(c: Seq<Fr>, n: nat) -> Seq<Fr> { Seq::new(n, |i: int| pget(c, i)) }
pub proof fn lemma_pad(c: Seq<Fr>, n: nat, x: Fr) requires n >= c.len() ensures psum(ppad(c, n), x, n) == peval(c, x)
{ lemma_psum_zeros(ppad(c, n), x, c.len(), n); lemma_psum_ext(ppad(c, n), c, x, c.len()); }
pub proof fn lemma_comb_n(a: Fr, c: Seq<Fr>, b: Fr, d: Seq<Fr>, e: Seq<Fr>, x: Fr, n: nat)
  requires n <= c.len(), n <= d.len(), n <= e.len(), forall|i: int| 0 <= i < n ==> e[i] == fadd(fmul(a, c[i]), fmul(b, d[i]))
  ensures psum(e, x, n) == fadd(fmul(a, psum(c, x, n)), fmul(b, psum(d, x, n))) decreases n
{ if n == 0 { r_comb0(a, b); } else { let m = (n - 1) as nat; lemma_comb_n(a, c, b, d, e, x, m); r_comb(a, b, psum(c, x, m), psum(d, x, m), c[n - 1], d[n - 1], fpow(x, m)); } }
@ring r_comb0 | a b | 0 == a*0 + b*0
@ring r_comb | a b p q c d x | (a*p + b*q) + (a*c + b*d)*x == a*(p + c*x) + b*(q + d*x)
/// evaluation is linear
pub proof fn lemma_comb(a: Fr, c: Seq<Fr>, b: Fr, d: Seq<Fr>, x: Fr) ensures peval(pcomb(a, c, b, d), x) == fadd(fmul(a, peval(c, x)), fmul(b, peval(d, x)))
{ let n = pmax(c.len(), d.len()); lemma_pad(c, n, x); lemma_pad(d, n, x); lemma_comb_n(a, ppad(c, n), b, ppad(d, n), pcomb(a, c, b, d), x, n); }
