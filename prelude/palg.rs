// ---- arithmetic of dense polynomials after ark-poly, by coefficients (sum, difference, scaling) or by values (product, division)
pub open spec fn pev(p: DensePolynomial, x: Fr) -> Fr { peval(p.coeffs@, x) }
/// what ark-poly's degree() accepts: no leading zero, or the zero polynomial in any form
pub open spec fn pok(p: DensePolynomial) -> bool { canon(p.coeffs@) || allz(p.coeffs@) }
pub open spec fn plen(p: DensePolynomial) -> nat { p.coeffs@.len() }
/// the polynomial with the given coefficient vector
pub uninterp spec fn poly_of(c: Seq<Fr>) -> DensePolynomial;
pub axiom fn ax_poly_of(c: Seq<Fr>) requires c.len() <= usize::MAX ensures poly_of(c).coeffs@ == c;
pub broadcast proof fn lemma_vlen(a: DensePolynomial) ensures #[trigger] plen(a) <= usize::MAX { assert(a.coeffs.len() == a.coeffs@.len()); }
pub open spec fn dadd(a: DensePolynomial, b: DensePolynomial) -> DensePolynomial { poly_of(ptrim(pcomb(fz(1), a.coeffs@, fz(1), b.coeffs@))) }
pub open spec fn dsub(a: DensePolynomial, b: DensePolynomial) -> DensePolynomial { poly_of(ptrim(pcomb(fz(1), a.coeffs@, fneg(fz(1)), b.coeffs@))) }
pub open spec fn pneg(c: Seq<Fr>) -> Seq<Fr> { Seq::new(c.len(), |i: int| fneg(c[i])) }
pub open spec fn dneg(a: DensePolynomial) -> DensePolynomial { poly_of(pneg(a.coeffs@)) }
pub open spec fn pscal(c: Seq<Fr>, k: Fr) -> Seq<Fr> { Seq::new(c.len(), |i: int| fmul(c[i], k)) }
pub open spec fn dscale(a: DensePolynomial, k: Fr) -> DensePolynomial { if allz(a.coeffs@) || k == fz(0) { poly_of(Seq::empty()) } else { poly_of(pscal(a.coeffs@, k)) } }
pub uninterp spec fn dmul(a: DensePolynomial, b: DensePolynomial) -> DensePolynomial;
/// what the fast multiplication needs: a domain for the product
pub open spec fn mul_req(a: DensePolynomial, b: DensePolynomial) -> bool { plen(a) + plen(b) <= 0x1_0000_0000 }
pub open spec fn add_req(a: DensePolynomial, b: DensePolynomial) -> bool { pok(a) && pok(b) }
pub open spec fn any_req(a: DensePolynomial, k: Fr) -> bool { true }
pub open spec fn lmul(a: nat, b: nat) -> nat { if a == 0 || b == 0 { 0 } else { (a + b - 1) as nat } }
pub broadcast axiom fn ax_dmul(a: DensePolynomial, b: DensePolynomial) requires mul_req(a, b)
  ensures canon((#[trigger] dmul(a, b)).coeffs@), plen(dmul(a, b)) <= lmul(plen(a), plen(b));
pub broadcast axiom fn ax_dmul_ev(a: DensePolynomial, b: DensePolynomial, x: Fr) requires mul_req(a, b)
  ensures #[trigger] pev(dmul(a, b), x) == fmul(pev(a, x), pev(b, x));
@BIN1 Add add dadd add_req . DensePolynomial . DensePolynomial DensePolynomial
@BIN1 Add add dadd add_req & DensePolynomial & DensePolynomial DensePolynomial
@BIN1 Sub sub dsub add_req & DensePolynomial & DensePolynomial DensePolynomial
@BIN1 Mul mul dmul mul_req & DensePolynomial & DensePolynomial DensePolynomial
@BIN1 Mul mul dscale any_req & DensePolynomial . Fr DensePolynomial
impl NegSpecImpl for DensePolynomial { open spec fn obeys_neg_spec() -> bool { true } open spec fn neg_req(self) -> bool { true } open spec fn neg_spec(self) -> DensePolynomial { dneg(self) } }
impl Neg for DensePolynomial { type Output = DensePolynomial; #[verifier::external_body] fn neg(self) -> (r: DensePolynomial) { unimplemented!() } }
pub proof fn lemma_pscal_n(c: Seq<Fr>, k: Fr, x: Fr, n: nat) requires n <= c.len() ensures psum(pscal(c, k), x, n) == fmul(psum(c, x, n), k) decreases n
{ if n == 0 { r_0k(k); } else { lemma_pscal_n(c, k, x, (n - 1) as nat); r_scal(psum(c, x, (n - 1) as nat), c[n - 1], fpow(x, (n - 1) as nat), k); } }
@ring r_0k | k | 0 == 0*k
@ring r_scal | s c p k | s*k + (c*k)*p == (s + c*p)*k
@ring r_k0 | s | s*0 == 0
pub proof fn lemma_allz(c: Seq<Fr>, x: Fr) requires allz(c) ensures peval(c, x) == fz(0) { lemma_psum_zeros(c, x, 0, c.len()); }
pub broadcast proof fn lemma_dscale(a: DensePolynomial, k: Fr) ensures pok(a) ==> canon((#[trigger] dscale(a, k)).coeffs@), plen(dscale(a, k)) <= plen(a)
{ ax_poly_of(Seq::empty()); lemma_vlen(a); ax_poly_of(pscal(a.coeffs@, k)); if pok(a) && !allz(a.coeffs@) && k != fz(0) && plen(a) > 0 { let c = a.coeffs@; if fmul(c.last(), k) == fz(0) { ax_dom(c.last(), k); } } }
pub broadcast proof fn lemma_dscale_ev(a: DensePolynomial, k: Fr, x: Fr) ensures #[trigger] pev(dscale(a, k), x) == fmul(pev(a, x), k)
{ ax_poly_of(Seq::empty()); lemma_vlen(a); ax_poly_of(pscal(a.coeffs@, k)); r_0k(k); r_k0(pev(a, x)); if allz(a.coeffs@) { lemma_allz(a.coeffs@, x); } else { lemma_pscal_n(a.coeffs@, k, x, plen(a)); } }
pub broadcast proof fn lemma_dneg(a: DensePolynomial) ensures pok(a) ==> pok(#[trigger] dneg(a)), plen(dneg(a)) == plen(a)
{ lemma_vlen(a); ax_poly_of(pneg(a.coeffs@)); let c = a.coeffs@; r_neg0(); if allz(c) { assert(allz(pneg(c))); } else if canon(c) && c.len() > 0 { if fneg(c.last()) == fz(0) { r_negneg(c.last()); } } }
@ring r_neg0 | | -0 == 0
@ring r_negneg | a | -(-a) == a
@ring r_neg | s c p | -s + (-c)*p == -(s + c*p)
pub proof fn lemma_pneg_n(c: Seq<Fr>, x: Fr, n: nat) requires n <= c.len() ensures psum(pneg(c), x, n) == fneg(psum(c, x, n)) decreases n
{ if n == 0 { r_neg0(); } else { lemma_pneg_n(c, x, (n - 1) as nat); r_neg(psum(c, x, (n - 1) as nat), c[n - 1], fpow(x, (n - 1) as nat)); } }
pub broadcast proof fn lemma_dneg_ev(a: DensePolynomial, x: Fr) ensures #[trigger] pev(dneg(a), x) == fneg(pev(a, x)) { lemma_vlen(a); ax_poly_of(pneg(a.coeffs@)); lemma_pneg_n(a.coeffs@, x, plen(a)); }
pub broadcast proof fn lemma_dadd(a: DensePolynomial, b: DensePolynomial) ensures canon((#[trigger] dadd(a, b)).coeffs@), plen(dadd(a, b)) <= pmax(plen(a), plen(b))
{ let c = pcomb(fz(1), a.coeffs@, fz(1), b.coeffs@); lemma_trim(c); lemma_vlen(a); lemma_vlen(b); ax_poly_of(ptrim(c)); }
@ring r_11 | a b | 1*a + 1*b == a + b
@ring r_1m1 | a b | 1*a + (-1)*b == a - b
pub broadcast proof fn lemma_dadd_ev(a: DensePolynomial, b: DensePolynomial, x: Fr) ensures #[trigger] pev(dadd(a, b), x) == fadd(pev(a, x), pev(b, x))
{ let c = pcomb(fz(1), a.coeffs@, fz(1), b.coeffs@); lemma_trim(c); lemma_vlen(a); lemma_vlen(b); ax_poly_of(ptrim(c)); lemma_trim_eval(c, x); lemma_comb(fz(1), a.coeffs@, fz(1), b.coeffs@, x); r_11(pev(a, x), pev(b, x)); }
pub broadcast proof fn lemma_dsub(a: DensePolynomial, b: DensePolynomial) ensures canon((#[trigger] dsub(a, b)).coeffs@), plen(dsub(a, b)) <= pmax(plen(a), plen(b))
{ let c = pcomb(fz(1), a.coeffs@, fneg(fz(1)), b.coeffs@); lemma_trim(c); lemma_vlen(a); lemma_vlen(b); ax_poly_of(ptrim(c)); }
pub broadcast proof fn lemma_dsub_ev(a: DensePolynomial, b: DensePolynomial, x: Fr) ensures #[trigger] pev(dsub(a, b), x) == fsub(pev(a, x), pev(b, x))
{ let c = pcomb(fz(1), a.coeffs@, fneg(fz(1)), b.coeffs@); lemma_trim(c); lemma_vlen(a); lemma_vlen(b); ax_poly_of(ptrim(c)); lemma_trim_eval(c, x); lemma_comb(fz(1), a.coeffs@, fneg(fz(1)), b.coeffs@, x); r_1m1(pev(a, x), pev(b, x)); }
pub broadcast group palg { ax_dmul, ax_dmul_ev, lemma_dscale, lemma_dscale_ev, lemma_dneg, lemma_dneg_ev, lemma_dadd, lemma_dadd_ev, lemma_dsub, lemma_dsub_ev }
/// the value splits after the first a coefficients
pub proof fn lemma_split(c: Seq<Fr>, x: Fr, a: nat, n: nat) requires a + n <= c.len() ensures psum(c, x, a + n) == fadd(psum(c, x, a), fmul(fpow(x, a), psum(c.subrange(a as int, (a + n) as int), x, n))) decreases n
{ let d = c.subrange(a as int, (a + n) as int);
  if n == 0 { r_add0(psum(c, x, a)); r_k0(fpow(x, a)); } else { let m = (n - 1) as nat; lemma_split(c, x, a, m); let e = c.subrange(a as int, (a + m) as int); lemma_psum_ext(d, e, x, m); lemma_pow_add(x, a, m);
    r_split(psum(c, x, a), fpow(x, a), psum(d, x, m), d[m as int], fpow(x, m)); } }
@ring r_split | s p t c q | (s + p*t) + c*(p*q) == s + p*(t + c*q)
// ---- sparse polynomials: pairs of exponent and coefficient
pub struct SparsePolynomial { pub terms: Vec<(usize, Fr)> }
pub open spec fn seval(c: Seq<(usize, Fr)>, x: Fr, n: nat) -> Fr decreases n { if n == 0 { fz(0) } else { fadd(seval(c, x, (n - 1) as nat), fmul(c[n - 1].1, fpow(x, c[n - 1].0 as nat))) } }
impl SparsePolynomial {
#[verifier::external_body] pub fn from_coefficients_slice<T: VSlice<(usize, Fr)> + ?Sized>(c: &T) -> (r: SparsePolynomial) ensures forall|x: Fr| #[trigger] seval(r.terms@, x, r.terms@.len()) == seval(c.ss(), x, c.ss().len()) { unimplemented!() }
#[verifier::external_body] pub fn evaluate(&self, x: &Fr) -> (r: Fr) ensures r == seval(self.terms@, *x, self.terms@.len()) { unimplemented!() }
}
