// ---- polynomials over domains: division by the vanishing polynomial, roots
/// the quotient of c by x - r (synthetic division)
pub open spec fn synth(c: Seq<Fr>, r: Fr) -> Seq<Fr> decreases c.len() { if c.len() <= 1 { Seq::empty() } else { seq![peval(c.drop_first(), r)] + synth(c.drop_first(), r) } }
@ring r_cons0 | a | 0 + a*1 == a + 0
@ring r_cons | a x s c p | (a + x*s) + c*(p*x) == a + x*(s + c*p)
pub proof fn lemma_cons_n(c: Seq<Fr>, x: Fr, n: nat) requires 0 < n <= c.len() ensures psum(c, x, n) == fadd(c[0], fmul(x, psum(c.drop_first(), x, (n - 1) as nat))) decreases n
{ let m = (n - 1) as nat; assert(psum(c, x, n) == fadd(psum(c, x, m), fmul(c[n - 1], fpow(x, m))));
  if n == 1 { assert(psum(c, x, 0) == fz(0)); assert(fpow(x, 0) == fz(1)); assert(psum(c.drop_first(), x, 0) == fz(0)); r_cons0(c[0]); r_k0(x); }
  else { lemma_cons_n(c, x, m); let d = c.drop_first(); assert(psum(d, x, m) == fadd(psum(d, x, (m - 1) as nat), fmul(d[m - 1], fpow(x, (m - 1) as nat)))); assert(fpow(x, m) == fmul(fpow(x, (m - 1) as nat), x)); assert(d[m - 1] == c[n - 1]);
    r_cons(c[0], x, psum(d, x, (m - 1) as nat), c[n - 1], fpow(x, (m - 1) as nat)); } }
/// c(x) = c[0] + x c'(x)
pub proof fn lemma_cons(c: Seq<Fr>, x: Fr) requires c.len() > 0 ensures peval(c, x) == fadd(c[0], fmul(x, peval(c.drop_first(), x))) { lemma_cons_n(c, x, c.len()); }
@ring r_syn | a x r q t | a + x*(q*(x - r) + t) == (t + x*q)*(x - r) + (a + r*t)
@ring r_syn1 | x r c t | c + x*0 == 0*(x - r) + (c + r*0)
@ring r_syn0 | x r | 0 == 0*(x - r) + 0
/// c(x) = q(x) (x - r) + c(r)
pub proof fn lemma_synth(c: Seq<Fr>, r: Fr, x: Fr) ensures peval(c, x) == fadd(fmul(peval(synth(c, r), x), fsub(x, r)), peval(c, r)), synth(c, r).len() == (if c.len() == 0 { 0 } else { (c.len() - 1) as nat }) decreases c.len()
{ if c.len() == 0 { assert(peval(c, x) == fz(0)); assert(peval(c, r) == fz(0)); assert(peval(synth(c, r), x) == fz(0)); r_syn0(x, r); }
  else { let d = c.drop_first(); lemma_cons(c, x); lemma_cons(c, r);
    if c.len() == 1 { assert(peval(d, x) == fz(0)); assert(peval(d, r) == fz(0)); assert(peval(synth(c, r), x) == fz(0)); r_syn1(x, r, c[0], fz(0)); }
    else { lemma_synth(d, r, x); let q = synth(c, r); assert(q.drop_first() =~= synth(d, r)); lemma_cons(q, x); r_syn(c[0], x, r, peval(synth(d, r), x), peval(d, r)); } } }
/// a zero quotient and a zero remainder: the zero polynomial
pub proof fn lemma_synth_zero(c: Seq<Fr>, r: Fr) requires allz(synth(c, r)), peval(c, r) == fz(0) ensures allz(c) decreases c.len()
{ if c.len() > 0 { let d = c.drop_first(); lemma_cons(c, r); r_k0(r); r_add0(c[0]);
    if c.len() == 1 { assert(peval(d, r) == fz(0)); }
    else { let q = synth(c, r); assert(q[0] == peval(d, r)); assert(q.drop_first() =~= synth(d, r)); assert forall|i: int| 0 <= i < synth(d, r).len() implies synth(d, r)[i] == fz(0) by { assert(q[i + 1] == synth(d, r)[i]); } lemma_synth_zero(d, r); }
    assert forall|i: int| 0 <= i < c.len() implies c[i] == fz(0) by { if i > 0 { assert(d[i - 1] == c[i]); } } } }
pub open spec fn distinct(xs: Seq<Fr>) -> bool { forall|i: int, j: int| 0 <= i < j < xs.len() ==> xs[i] != xs[j] }
/// a polynomial with at least as many distinct roots as coefficients is zero
pub proof fn lemma_roots(c: Seq<Fr>, xs: Seq<Fr>) requires distinct(xs), c.len() <= xs.len(), forall|i: int| 0 <= i < xs.len() ==> peval(c, #[trigger] xs[i]) == fz(0) ensures allz(c) decreases c.len()
{ if c.len() > 0 { let n = xs.len(); let r = xs[n - 1]; let q = synth(c, r); let ys = xs.drop_last(); lemma_synth(c, r, r);
    assert forall|i: int| 0 <= i < ys.len() implies peval(q, #[trigger] ys[i]) == fz(0) by { let x = xs[i]; assert(x == ys[i]); lemma_synth(c, r, x); lemma_sub0(x, r); r_add0(fmul(peval(q, x), fsub(x, r))); assert(peval(c, xs[i]) == fz(0)); ax_dom(peval(q, x), fsub(x, r)); }
    lemma_roots(q, ys); lemma_synth_zero(c, r); } }
/// two polynomials of at most n coefficients that agree at n distinct points agree everywhere
pub proof fn lemma_agree(c: Seq<Fr>, d: Seq<Fr>, xs: Seq<Fr>, x: Fr) requires distinct(xs), c.len() <= xs.len(), d.len() <= xs.len(), forall|i: int| 0 <= i < xs.len() ==> peval(c, #[trigger] xs[i]) == peval(d, xs[i]) ensures peval(c, x) == peval(d, x)
{ let e = pcomb(fz(1), c, fneg(fz(1)), d); assert forall|i: int| 0 <= i < xs.len() implies peval(e, #[trigger] xs[i]) == fz(0) by { lemma_comb(fz(1), c, fneg(fz(1)), d, xs[i]); r_1m1(peval(c, xs[i]), peval(d, xs[i])); lemma_sub0(peval(c, xs[i]), peval(d, xs[i])); }
  lemma_roots(e, xs); lemma_allz(e, x); lemma_comb(fz(1), c, fneg(fz(1)), d, x); r_1m1(peval(c, x), peval(d, x)); lemma_sub0(peval(c, x), peval(d, x)); }
// the points of a domain
pub open spec fn dpt(k: nat, i: int) -> Fr { fpow(omega(k), i as nat) }
pub open spec fn dpts(k: nat) -> Seq<Fr> { Seq::new(p2(k), |i: int| dpt(k, i)) }
@ring r_sqn | a | (-a)*(-a) == a*a
/// an odd power of a generator is not one
pub proof fn lemma_order_odd(k: nat, e: nat) requires two_adic(k), k > 0, fpow(omega(k), 2 * e + 1) == fz(1) ensures false
{ lemma_omega(k); ax_one(); let w = omega(k); let h = p2((k - 1) as nat); let d = 2 * e + 1; let o = fneg(fz(1));
  assert(fpow(o, d) == fz(1)) by { lemma_pow_pow(w, d, h); lemma_pow1(h); lemma_pow_pow(w, h, d); assert(d * h == h * d) by (nonlinear_arith); }
  assert(fpow(o, 2 * e) == fz(1)) by { lemma_pow_even(fz(1), e); lemma_pow1(2 * e); }
  assert(fpow(o, d) == fmul(fpow(o, 2 * e), o)); r_1m(o); assert(o == fz(1)); r_one_neg(); lemma_sub0(fz(1), o); }
/// omega(k)^d = 1 only for multiples of 2^k
pub proof fn lemma_order(k: nat, d: nat) requires two_adic(k), fpow(omega(k), d) == fz(1) ensures d % p2(k) == 0 decreases k
{ lemma_p2(k); if k == 0 { assert(p2(0) == 1); } else { let m = (k - 1) as nat; ax_adic(m, k); ax_omega_sq(k); let h = p2(m); let e = d / 2;
    if d % 2 == 0 { lemma_pow_even(omega(k), e); assert(d == 2 * e); lemma_order(m, e); lemma_p2(m); lemma_even_mult(e, h); }
    else { assert(d == 2 * e + 1); lemma_order_odd(k, e); } } }
pub proof fn lemma_even_mult(e: nat, h: nat) requires h > 0, e % h == 0 ensures (2 * e) % (2 * h) == 0
{ vstd::arithmetic::div_mod::lemma_fundamental_div_mod(e as int, h as int); let q = e as int / h as int; assert(2 * (h as int * q) == q * (2 * h as int)) by (nonlinear_arith); vstd::arithmetic::div_mod::lemma_mod_multiples_basic(q, 2 * h as int); }
@ring r_one_neg | | 1 - (-1) == 2
pub proof fn lemma_distinct(k: nat) requires two_adic(k) ensures distinct(dpts(k)), dpts(k).len() == p2(k)
{ lemma_p2(k); assert forall|i: int, j: int| 0 <= i < j < dpts(k).len() implies dpts(k)[i] != dpts(k)[j] by { let w = omega(k); if dpt(k, i) == dpt(k, j) { let d = (j - i) as nat; lemma_omega(k); lemma_pow_add(w, i as nat, d); lemma_pow_nz(w, i as nat);
    let (a, b) = (fpow(w, i as nat), fpow(w, d)); assert(a == fmul(a, b)); lemma_sub0(fmul(a, b), a); r_abm(a, b); ax_dom(a, fsub(b, fz(1))); lemma_sub0(b, fz(1)); lemma_order(k, d); vstd::arithmetic::div_mod::lemma_small_mod(d, p2(k)); } } }
@ring r_abm | a b | a*b - a == a*(b - 1)
/// the vanishing polynomial of the domain
pub open spec fn zh(n: int, x: Fr) -> Fr { fsub(fpow(x, n as nat), fz(1)) }
pub proof fn lemma_zh_zero(k: nat, i: nat) requires two_adic(k) ensures zh(p2(k) as int, fpow(omega(k), i)) == fz(0) { lemma_root(k, i); lemma_sub0(fz(1), fz(1)); }
/// a polynomial with at most n coefficients that is zero at the n points of the domain is zero
pub proof fn lemma_dom_zero(c: Seq<Fr>, k: nat) requires two_adic(k), c.len() <= p2(k), forall|i: int| 0 <= i < p2(k) ==> peval(c, #[trigger] dpt(k, i)) == fz(0) ensures allz(c)
{ lemma_distinct(k); let xs = dpts(k); assert forall|i: int| 0 <= i < xs.len() implies peval(c, #[trigger] xs[i]) == fz(0) by { assert(xs[i] == dpt(k, i)); } lemma_roots(c, xs); }
pub proof fn lemma_dom_agree(c: Seq<Fr>, d: Seq<Fr>, k: nat, x: Fr) requires two_adic(k), c.len() <= p2(k), d.len() <= p2(k), forall|i: int| 0 <= i < p2(k) ==> peval(c, #[trigger] dpt(k, i)) == peval(d, dpt(k, i)) ensures peval(c, x) == peval(d, x)
{ lemma_distinct(k); let xs = dpts(k); assert forall|i: int| 0 <= i < xs.len() implies peval(c, #[trigger] xs[i]) == peval(d, xs[i]) by { assert(xs[i] == dpt(k, i)); } lemma_agree(c, d, xs, x); }
/// c(w x)
pub open spec fn shiftp(c: Seq<Fr>, w: Fr) -> Seq<Fr> { Seq::new(c.len(), |i: int| fmul(c[i], fpow(w, i as nat))) }
pub proof fn lemma_shiftp_n(c: Seq<Fr>, w: Fr, x: Fr, n: nat) requires n <= c.len() ensures psum(shiftp(c, w), x, n) == psum(c, fmul(w, x), n) decreases n
{ if n > 0 { let m = (n - 1) as nat; lemma_shiftp_n(c, w, x, m); lemma_pow_mul(w, x, m); r_mul3(c[m as int], fpow(w, m), fpow(x, m)); } }
@ring r_mul3 | c a b | (c*a)*b == c*(a*b)
/// the sum 1 + x + ... + x^(n-1)
pub open spec fn ones(n: nat) -> Seq<Fr> { Seq::new(n, |i: int| fz(1)) }
pub proof fn lemma_geo(x: Fr, m: nat, n: nat) requires n <= m ensures fmul(psum(ones(m), x, n), fsub(x, fz(1))) == zh(n as int, x) decreases n
{ if n == 0 { assert(fpow(x, 0) == fz(1)); r_geo0(x); } else { let j = (n - 1) as nat; lemma_geo(x, m, j); assert(psum(ones(m), x, n) == fadd(psum(ones(m), x, j), fmul(fz(1), fpow(x, j)))); assert(fpow(x, n) == fmul(fpow(x, j), x)); r_geo(psum(ones(m), x, j), fpow(x, j), x); r_geo2(fpow(x, j), fpow(x, n)); } }
@ring r_geo0 | x | 0*(x - 1) == 1 - 1
@ring r_geo | s p x | (s + 1*p)*(x - 1) == s*(x - 1) + (p*x - p)
@ring r_geo2 | q p | (q - 1) + (p - q) == p - 1
pub proof fn lemma_count(m: nat, n: nat) requires n <= m ensures psum(ones(m), fz(1), n) == fz(n as int) decreases n
{ broadcast use ring; if n > 0 { let j = (n - 1) as nat; lemma_count(m, j); lemma_pow1(j); r_m1(fz(1)); } }
impl DensePolynomial {
/// times the vanishing polynomial of the domain
#[verifier::external_body] pub fn mul_by_vanishing_poly(&self, d: GeneralEvaluationDomain) -> (r: DensePolynomial) ensures canon(r.coeffs@), r.coeffs@.len() <= self.coeffs@.len() + d.n, forall|x: Fr| #[trigger] pev(r, x) == fmul(pev(*self, x), zh(d.n as int, x)) { unimplemented!() }
/// by the vanishing polynomial of the domain: p = q (X^n - 1) + r, r of at most n coefficients
#[verifier::external_body] pub fn divide_by_vanishing_poly(&self, d: GeneralEvaluationDomain) -> (r: Option<(DensePolynomial, DensePolynomial)>)
  ensures r is Some, canon(self.coeffs@) ==> canon((r->0).0.coeffs@), (r->0).0.coeffs@.len() <= (if self.coeffs@.len() >= d.n { self.coeffs@.len() - d.n } else { 0 }), (r->0).1.coeffs@.len() <= d.n,
    forall|x: Fr| #[trigger] pev(*self, x) == fadd(fmul(pev((r->0).0, x), zh(d.n as int, x)), pev((r->0).1, x)) { unimplemented!() }
}
impl GeneralEvaluationDomain { #[verifier::external_body] pub fn evaluate_vanishing_polynomial(&self, x: Fr) -> (r: Fr) ensures r == zh(self.n as int, x) { unimplemented!() } }
pub struct DenseOrSparsePolynomial { pub p: DensePolynomial }
impl VFrom<DensePolynomial> for DenseOrSparsePolynomial { open spec fn from_spec(t: DensePolynomial) -> DenseOrSparsePolynomial { DenseOrSparsePolynomial { p: t } } fn vfrom(t: DensePolynomial) -> DenseOrSparsePolynomial { DenseOrSparsePolynomial { p: t } } }
impl DenseOrSparsePolynomial {
#[verifier::external_body] pub fn divide_with_q_and_r(&self, b: &DenseOrSparsePolynomial) -> (r: Option<(DensePolynomial, DensePolynomial)>) requires pok(self.p), canon(b.p.coeffs@), plen(b.p) > 0
  ensures r is Some, canon((r->0).1.coeffs@), (r->0).0 == pdiv(self.p, b.p), is_rem(self.p.coeffs@, b.p.coeffs@, (r->0).0.coeffs@, (r->0).1.coeffs@) { unimplemented!() }
}
impl PartialEq for DensePolynomial { #[verifier::external_body] fn eq(&self, o: &DensePolynomial) -> (r: bool) ensures r == (self.coeffs@ == o.coeffs@) { unimplemented!() } }
impl StdRng { #[verifier::external_body] pub fn from_entropy() -> (r: StdRng) { unimplemented!() } }
pub trait VRotate { fn v_rotate_left(&mut self, n: usize); }
impl VRotate for Vec<Fr> { #[verifier::external_body] fn v_rotate_left(&mut self, n: usize) ensures n <= old(self)@.len(), final(self)@ == old(self)@.subrange(n as int, old(self)@.len() as int) + old(self)@.subrange(0, n as int) { unimplemented!() } }
/// the code panics on an empty vector; reached only when it is not
#[verifier::external_body] pub fn v_nonempty(v: &Vec<Fr>) ensures v@.len() > 0 { unimplemented!() }
// values of polynomials given by few coefficients
@ring r_l2 | a b x | (0 + a*1) + b*(1*x) == a + b*x
@ring r_l3 | a b c x | ((0 + a*1) + b*(1*x)) + c*((1*x)*x) == (a + b*x) + c*(x*x)
pub broadcast proof fn lemma_ev_trim(c: Seq<Fr>, x: Fr) ensures #[trigger] peval(ptrim(c), x) == peval(c, x) { lemma_trim_eval(c, x); }
pub broadcast proof fn lemma_ev1(a: Fr, x: Fr) ensures #[trigger] peval(Seq::<Fr>::empty().push(a), x) == a { let c = Seq::<Fr>::empty().push(a); assert(psum(c, x, 0) == fz(0)); assert(fpow(x, 0) == fz(1)); assert(psum(c, x, 1) == fadd(psum(c, x, 0), fmul(c[0], fpow(x, 0)))); r_cons0(a); r_add0(a); }
pub broadcast proof fn lemma_ev2(a: Fr, b: Fr, x: Fr) ensures #[trigger] peval(Seq::<Fr>::empty().push(a).push(b), x) == fadd(a, fmul(b, x)) { let c = Seq::<Fr>::empty().push(a).push(b); assert(psum(c, x, 0) == fz(0)); assert(fpow(x, 0) == fz(1)); assert(fpow(x, 1) == fmul(fpow(x, 0), x)); assert(psum(c, x, 1) == fadd(psum(c, x, 0), fmul(c[0], fpow(x, 0)))); assert(psum(c, x, 2) == fadd(psum(c, x, 1), fmul(c[1], fpow(x, 1)))); r_l2(a, b, x); }
pub broadcast proof fn lemma_ev3(a: Fr, b: Fr, d: Fr, x: Fr) ensures #[trigger] peval(Seq::<Fr>::empty().push(a).push(b).push(d), x) == fadd(fadd(a, fmul(b, x)), fmul(d, fmul(x, x))) { let c = Seq::<Fr>::empty().push(a).push(b).push(d); assert(psum(c, x, 0) == fz(0)); assert(fpow(x, 0) == fz(1)); assert(fpow(x, 1) == fmul(fpow(x, 0), x)); assert(fpow(x, 2) == fmul(fpow(x, 1), x)); assert(psum(c, x, 1) == fadd(psum(c, x, 0), fmul(c[0], fpow(x, 0)))); assert(psum(c, x, 2) == fadd(psum(c, x, 1), fmul(c[1], fpow(x, 1)))); assert(psum(c, x, 3) == fadd(psum(c, x, 2), fmul(c[2], fpow(x, 2)))); r_l3(a, b, d, x); }
pub broadcast proof fn lemma_ev_first(c: Seq<Fr>, y: Fr, x: Fr) requires c.len() > 0 ensures #[trigger] peval(c.update(0, fsub(c[0], y)), x) == fsub(peval(c, x), y) { lemma_psum_first(c, y, x, c.len()); }
@ring r_sbn | a b | a - (-b) == a + b
pub broadcast proof fn lemma_ev_firsta(c: Seq<Fr>, y: Fr, x: Fr) requires c.len() > 0 ensures #[trigger] peval(c.update(0, fadd(c[0], y)), x) == fadd(peval(c, x), y) { lemma_psum_first(c, fneg(y), x, c.len()); r_sbn(c[0], y); r_sbn(peval(c, x), y); }
/// a root c + X
pub open spec fn rootc(c: Fr) -> Seq<Fr> { Seq::<Fr>::empty().push(c).push(fz(1)) }
pub broadcast proof fn lemma_root_trim(c: Fr) ensures #[trigger] ptrim(Seq::<Fr>::empty().push(c).push(fz(1))) == Seq::<Fr>::empty().push(c).push(fz(1)) { ax_one(); lemma_trim(rootc(c)); }
pub broadcast proof fn lemma_empty_trim() ensures #[trigger] ptrim(Seq::<Fr>::empty()) == Seq::<Fr>::empty() { }
@ring r_cx | c x | c + 1*x == c + x
@ring r_cmc | c | c + 1*(-c) == 0
pub proof fn lemma_const(r: Seq<Fr>, x: Fr, y: Fr) requires r.len() <= 1 ensures peval(r, x) == peval(r, y), r.len() == 1 ==> peval(r, x) == r[0]
{ if r.len() == 1 { assert(r =~= Seq::<Fr>::empty().push(r[0])); lemma_ev1(r[0], x); lemma_ev1(r[0], y); } }
/// a multiple of c + X leaves no remainder
pub broadcast proof fn lemma_rem_root(a: Seq<Fr>, c: Fr, q: Seq<Fr>, r: Seq<Fr>) requires #[trigger] is_rem(a, Seq::<Fr>::empty().push(c).push(fz(1)), q, r), canon(r), peval(a, fneg(c)) == fz(0) ensures r == Seq::<Fr>::empty()
{ lemma_root_trim(c); let z = fneg(c); lemma_ev2(c, fz(1), z); r_cmc(c); r_mul0_add(peval(q, z), peval(r, z)); lemma_const(r, z, z); assert(peval(r, z) == fz(0)); if r.len() == 1 { } assert(r =~= Seq::<Fr>::empty()); }
/// the quotient of a multiple of c + X
pub broadcast proof fn lemma_pdiv_root(a: DensePolynomial, b: DensePolynomial, x: Fr) requires pok(a), plen(b) == 2, b.coeffs@[1] == fz(1), pev(a, fneg(b.coeffs@[0])) == fz(0) ensures fmul(pev(#[trigger] pdiv(a, b), x), fadd(b.coeffs@[0], x)) == #[trigger] pev(a, x)
{ ax_one(); ax_pdiv(a, b); let c = b.coeffs@[0]; let z = fneg(c); assert(b.coeffs@ =~= rootc(c)); lemma_root_trim(c); let q = pdiv(a, b).coeffs@; let r = choose|r: Seq<Fr>| #[trigger] is_rem(a.coeffs@, b.coeffs@, q, r); lemma_ev2(c, fz(1), z); lemma_ev2(c, fz(1), x); r_cmc(c); r_mul0_add(peval(q, z), peval(r, z)); lemma_const(r, z, x);
  assert(peval(a.coeffs@, z) == fadd(fmul(peval(q, z), peval(b.coeffs@, z)), peval(r, z))); assert(peval(a.coeffs@, x) == fadd(fmul(peval(q, x), peval(b.coeffs@, x)), peval(r, x))); r_cx(c, x); r_add0(fmul(peval(q, x), fadd(c, x))); }
pub broadcast proof fn lemma_pdiv_len(a: DensePolynomial, b: DensePolynomial) requires pok(a), canon(b.coeffs@), plen(b) > 0 ensures canon((#[trigger] pdiv(a, b)).coeffs@), plen(pdiv(a, b)) <= plen(a) { ax_pdiv(a, b); lemma_trim(a.coeffs@); }
pub broadcast group pdivs { lemma_root_trim, lemma_empty_trim, lemma_rem_root, lemma_pdiv_root, lemma_pdiv_len }
pub broadcast proof fn lemma_trim_b(c: Seq<Fr>) ensures canon(#[trigger] ptrim(c)), ptrim(c).len() <= c.len() { lemma_trim(c); }
pub broadcast proof fn lemma_pev_first(p: DensePolynomial, y: Fr, x: Fr) requires plen(p) > 0 ensures #[trigger] peval(p.coeffs@.update(0, fsub(p.coeffs@[0], y)), x) == fsub(pev(p, x), y) { lemma_ev_first(p.coeffs@, y, x); }
pub broadcast proof fn lemma_pev_firsta(p: DensePolynomial, y: Fr, x: Fr) requires plen(p) > 0 ensures #[trigger] peval(p.coeffs@.update(0, fadd(p.coeffs@[0], y)), x) == fadd(pev(p, x), y) { lemma_ev_firsta(p.coeffs@, y, x); }
pub broadcast group pvals { lemma_pev_first, lemma_pev_firsta,  lemma_trim_b, lemma_ev_trim, lemma_ev1, lemma_ev2, lemma_ev3, lemma_ev_first, lemma_ev_firsta }
/// panicking is allowed in the stated case only
pub trait VExpectW<T>: Sized { spec fn wo(self) -> Option<T>; fn v_expect_when(self, g: Ghost<bool>, m: &str) -> (r: T) requires self.wo() is Some || g@ ensures self.wo() == Some(r); fn v_unwrap_when(self, g: Ghost<bool>) -> (r: T) requires self.wo() is Some || g@ ensures self.wo() == Some(r); }
impl<T> VExpectW<T> for Result<T, &'static str> { open spec fn wo(self) -> Option<T> { match self { Ok(x) => Some(x), Err(e) => None } } #[verifier::external_body] fn v_expect_when(self, g: Ghost<bool>, m: &str) -> (r: T) { unimplemented!() } #[verifier::external_body] fn v_unwrap_when(self, g: Ghost<bool>) -> (r: T) { unimplemented!() } }
