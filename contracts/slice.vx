@import kzg
@files plonk/src/slice_polynomial.rs
@each broadcast use comms, units;
@prelude base.rs ring.rs curve.rs poly.rs domain.rs roots.rs palg.rs
@struct SlicePoly
@raw
/// the number of coefficients of a slice
pub open spec fn sm(p: SlicePoly) -> nat { (p.degree + 1) as nat }
/// slice_0 + x^m slice_1 + x^2m slice_2
pub open spec fn recombined(p: SlicePoly, x: Fr) -> Fr { fadd(pev(p.slices[0], x), fadd(fmul(fpow(x, sm(p)), pev(p.slices[1], x)), fmul(fpow(x, 2 * sm(p)), pev(p.slices[2], x)))) }
/// the compacted polynomial's value at x: slice_0(x) + z^m slice_1(x) + z^2m slice_2(x)
pub open spec fn comp_at(p: SlicePoly, z: Fr, x: Fr) -> Fr { fadd(pev(p.slices[0], x), fadd(fmul(fpow(z, sm(p)), pev(p.slices[1], x)), fmul(fpow(z, 2 * sm(p)), pev(p.slices[2], x)))) }
pub open spec fn recn(p: SlicePoly, z: Fr, x: Fr, n: nat) -> Fr decreases n { if n == 0 { fz(0) } else { fadd(recn(p, z, x, (n - 1) as nat), fmul(fpow(z, sm(p) * ((n - 1) as nat)), pev(p.slices[n - 1], x))) } }
pub proof fn lemma_recn(p: SlicePoly, z: Fr, x: Fr) ensures recn(p, z, x, 3) == comp_at(p, z, x)
{ reveal_with_fuel(recn, 4); assert(sm(p) * 0 == 0) by (nonlinear_arith); assert(sm(p) * 1 == sm(p)) by (nonlinear_arith); assert(sm(p) * 2 == 2 * sm(p)) by (nonlinear_arith); assert(fpow(z, 0) == fz(1)); r_rec(pev(p.slices[0], x), fmul(fpow(z, sm(p)), pev(p.slices[1], x)), fmul(fpow(z, 2 * sm(p)), pev(p.slices[2], x))); }
@ring r_rec | a b c | ((0 + 1*a) + b) + c == a + (b + c)
@ring r_c1 | a | a*(0 + 1*1) == 0 + 1*a
@ring r_c2 | v s p | v + s*(0 + 1*p) == v + p*s
/// three slices of at most m coefficients each, 3m at most two more than the number of coefficients of t
pub open spec fn slices_of(p: SlicePoly, t: Seq<Fr>) -> bool { p.degree < usize::MAX / 2 - 2 && 3 * sm(p) <= t.len() + 2 && (forall|j: int| 0 <= j < 3 ==> canon((#[trigger] p.slices[j]).coeffs@) && plen(p.slices[j]) <= sm(p)) && (forall|x: Fr| #[trigger] recombined(p, x) == peval(t, x)) }
pub open spec fn cend(n: int, m: int, k: int) -> int { if k * m >= n { n } else { k * m } }
pub open spec fn pchunk(t: Seq<Fr>, m: int, k: int) -> Seq<Fr> { t.subrange(cend(t.len() as int, m, k), cend(t.len() as int, m, k + 1)) }
pub proof fn lemma_chunks(p: SlicePoly, t: Seq<Fr>, x: Fr)
  requires p.degree < usize::MAX, t.len() <= 3 * sm(p), forall|j: int| 0 <= j < 3 ==> (#[trigger] p.slices[j]).coeffs@ == ptrim(pchunk(t, sm(p) as int, j))
  ensures recombined(p, x) == peval(t, x)
{ let m = sm(p); let n = t.len() as int; let (c0, c1, c2) = (pchunk(t, m as int, 0), pchunk(t, m as int, 1), pchunk(t, m as int, 2));
  lemma_trim_eval(c0, x); lemma_trim_eval(c1, x); lemma_trim_eval(c2, x); let (e1, e2) = (cend(n, m as int, 1) as nat, cend(n, m as int, 2) as nat);
  assert(pev(p.slices[0], x) == peval(c0, x)); assert(pev(p.slices[1], x) == peval(c1, x)); assert(pev(p.slices[2], x) == peval(c2, x));
  lemma_split(t, x, e1, (e2 - e1) as nat); lemma_split(t, x, e2, (n - e2) as nat);
  lemma_psum_ext(t, c0, x, e1); assert(c1 =~= t.subrange(e1 as int, e2 as int)); assert(c2 =~= t.subrange(e2 as int, n)); assert(2 * (m as int) == m + m);
  let (v0, v1, v2) = (peval(c0, x), peval(c1, x), peval(c2, x));
  assert(peval(t, x) == fadd(fadd(v0, fmul(fpow(x, e1), v1)), fmul(fpow(x, e2), v2)));
  if n <= m { assert(v1 == fz(0)); r_k0(fpow(x, e1)); r_k0(fpow(x, m)); } if n <= 2 * m { assert(v2 == fz(0)); r_k0(fpow(x, e2)); r_k0(fpow(x, 2 * m)); }
  r_assoc(v0, fmul(fpow(x, m), v1), fmul(fpow(x, 2 * m), v2)); }
@ring r_assoc | a b c | (a + b) + c == a + (b + c)
pub open spec fn coms_are(srs: Srs, p: SlicePoly, c: Seq<KzgCommitment>, n: int) -> bool { forall|j: int| 0 <= j < n ==> com_is(srs, p.slices[j].coeffs@, (#[trigger] c[j]).0) }
pub open spec fn all_zero_polys(c: Seq<DensePolynomial>) -> bool { forall|j: int| 0 <= j < c.len() ==> (#[trigger] c[j]).coeffs@ == Seq::<Fr>::empty() }
@end
@fn SlicePoly::new | P06 | r
requires polynomial.coeffs@.len() > 0, polynomial.coeffs@.len() < usize::MAX / 4
ensures slices_of(r, polynomial.coeffs@)
@start
let ghost t = polynomial.coeffs@;
@loop 1
invariant __v1@.len() == __i1, all_zero_polys(__v1@)
@before_loop 2
proof { let n = t.len() as int; let m = tmp as int; assert(0 < m && n <= 3 * m <= n + 2); assert((n + m - 1) / m <= 3) by (nonlinear_arith) requires n <= 3 * m, m > 0; assert(0 <= (n + m - 1) / m); 
  assert(forall|j: int| 0 <= j < (n + m - 1) / m ==> #[trigger] (j * m) < n) by (nonlinear_arith) requires m > 0, n > 0;
  assert(forall|j: int| (n + m - 1) / m <= j ==> #[trigger] (j * m) >= n) by (nonlinear_arith) requires m > 0, n > 0; }
@loop 2
invariant __L2 == (t.len() + tmp - 1) / tmp as int, __L2 <= 3, forall|j: int| 0 <= j < __i2 ==> (#[trigger] slices[j]).coeffs@ == ptrim(pchunk(t, tmp as int, j)), forall|j: int| __i2 <= j < 3 ==> (#[trigger] slices[j]).coeffs@ == Seq::<Fr>::empty()
@loop_start 2
proof { assert((__i2 as int) * (tmp as int) < t.len()); assert((__i2 + 1) * tmp == __i2 * tmp + tmp) by (nonlinear_arith); }
@loop_end 2
proof { assert(slices[__c2 as int].coeffs@ == ptrim(pchunk(t, tmp as int, __c2 as int))); }
@after_loop 2
proof { assert forall|j: int| __L2 <= j < 3 implies pchunk(t, tmp as int, j) =~= Seq::<Fr>::empty() by { assert(j * (tmp as int) >= t.len()); assert((j + 1) * (tmp as int) >= t.len()) by (nonlinear_arith) requires j * (tmp as int) >= t.len(), tmp > 0; } }
@post
proof { let m = sm(r) as int; assert forall|j: int| 0 <= j < 3 implies (#[trigger] r.slices[j]).coeffs@ == ptrim(pchunk(t, m, j)) && canon(r.slices[j].coeffs@) && plen(r.slices[j]) <= m by { lemma_trim(pchunk(t, m, j)); assert(j * m + m == (j + 1) * m) by (nonlinear_arith); }
  assert forall|x: Fr| #[trigger] recombined(r, x) == peval(t, x) by { lemma_chunks(r, t, x); } }
@fn SlicePoly::get_degree | P06 | r
ensures r == self.degree
@fn SlicePoly::commit | P06 | r
requires scheme.0.g1_points@.len() > 0, forall|j: int| 0 <= j < 3 ==> canon((#[trigger] self.slices[j]).coeffs@) && plen(self.slices[j]) <= scheme.0.g1_points@.len()
ensures coms_are(scheme.0, *self, r@, 3)
@loop 1
invariant __L1 == 3, __v1@.len() == __i1, coms_are(scheme.0, *self, __v1@, __i1 as int)
@fn SlicePoly::compact | P06 | r
requires self.degree < usize::MAX / 2 - 2, forall|j: int| 0 <= j < 3 ==> canon((#[trigger] self.slices[j]).coeffs@) && plen(self.slices[j]) <= sm(*self)
ensures canon(r.coeffs@), plen(r) <= sm(*self), pev(r, *point) == recombined(*self, *point),
  forall|x: Fr| #[trigger] pev(r, x) == comp_at(*self, *point, x)
@start
broadcast use palg;
let ghost m = sm(*self); let ghost z = *point;
proof { reveal_with_fuel(seval, 3); assert((self.degree + 1) * 0 == 0) by (nonlinear_arith); assert(0 * (self.degree + 1) == 0) by (nonlinear_arith); }
@before_loop 1
proof { assert forall|x: Fr| #[trigger] pev(__v1, x) == fmul(pev(self.slices[0], x), fadd(fz(0), fmul(fz(1), fpow(z, 0)))) by { }
  assert forall|x: Fr| #[trigger] pev(__v1, x) == recn(*self, z, x, 1) by { r_c1(pev(self.slices[0], x)); assert(recn(*self, z, x, 0) == fz(0)); assert(recn(*self, z, x, 1) == fadd(recn(*self, z, x, 0), fmul(fpow(z, 0), pev(self.slices[0], x)))) by { assert(0 * m == 0) by (nonlinear_arith); } } }
@loop 1
invariant 1 <= __i1, __L1 == 3, canon(__v1.coeffs@), plen(__v1) <= m, forall|x: Fr| #[trigger] pev(__v1, x) == recn(*self, z, x, __i1 as nat)
@loop_start 1
let ghost v0 = __v1;
proof { assert((self.degree + 1) * __i1 <= usize::MAX) by (nonlinear_arith) requires self.degree < usize::MAX / 2 - 2, 0 <= __i1 <= 2; assert(m * (__i1 as nat) == (self.degree + 1) * __i1) by (nonlinear_arith) requires m == self.degree + 1; lemma_vlen(self.slices[__i1 as int]); }
@loop_end 1
proof { assert forall|x: Fr| #[trigger] pev(__v1, x) == recn(*self, z, x, __i1 as nat) by { r_c2(pev(v0, x), pev(self.slices[__c1 as int], x), fpow(z, m * (__c1 as nat))); assert(pev(v0, x) == recn(*self, z, x, __c1 as nat)); } }
@post
proof { assert forall|x: Fr| #[trigger] pev(r, x) == comp_at(*self, *point, x) by { lemma_recn(*self, *point, x); } }
@lemma p06_nothing_is_lost P06
/// for every non-zero polynomial: the slices recombine to it, the compaction at z takes its value at z, and the commitments are those of the slices
pub fn p06_nothing_is_lost(t: DensePolynomial, z: &Fr, scheme: &KzgScheme) -> (r: (SlicePoly, DensePolynomial, [KzgCommitment; 3])) requires 0 < t.coeffs@.len() < usize::MAX / 4, 3 * scheme.0.g1_points@.len() >= t.coeffs@.len() + 2
  ensures forall|x: Fr| #[trigger] recombined(r.0, x) == peval(t.coeffs@, x), forall|j: int| 0 <= j < 3 ==> plen(#[trigger] r.0.slices[j]) <= sm(r.0), pev(r.1, *z) == peval(t.coeffs@, *z),
    forall|s: Fr| #[trigger] srs_wf(scheme.0, s) ==> fadd(lg(r.2[0].0), fadd(fmul(fpow(s, sm(r.0)), lg(r.2[1].0)), fmul(fpow(s, 2 * sm(r.0)), lg(r.2[2].0)))) == peval(t.coeffs@, s)
{ broadcast use groups; let ghost c = t.coeffs@; let p = SlicePoly::new(t); let d = p.compact(z); let k = p.commit(scheme);
  proof { assert(recombined(p, *z) == peval(c, *z)); assert forall|s: Fr| #[trigger] srs_wf(scheme.0, s) implies fadd(lg(k[0].0), fadd(fmul(fpow(s, sm(p)), lg(k[1].0)), fmul(fpow(s, 2 * sm(p)), lg(k[2].0)))) == peval(c, s) by {
    assert(recombined(p, s) == peval(c, s)); assert(com_is(scheme.0, p.slices[0].coeffs@, k[0].0) && com_is(scheme.0, p.slices[1].coeffs@, k[1].0) && com_is(scheme.0, p.slices[2].coeffs@, k[2].0)); } }
  (p, d, k) }
