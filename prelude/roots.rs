// ---- powers and roots of unity
@ring r_pow2 | y x | y*(x*x) == y*x*x
@ring r_neg2 | y x | y*(-x)*(-x) == y*x*x
pub proof fn lemma_pow_even(x: Fr, n: nat) ensures fpow(fmul(x, x), n) == fpow(x, 2 * n), fpow(fneg(x), 2 * n) == fpow(x, 2 * n) decreases n
{ if n > 0 { let m = (n - 1) as nat; lemma_pow_even(x, m); assert(fpow(x, (2 * m + 1) as nat) == fmul(fpow(x, 2 * m), x)); assert(fpow(x, 2 * n) == fmul(fpow(x, (2 * m + 1) as nat), x));
   assert(fpow(fneg(x), (2 * m + 1) as nat) == fmul(fpow(fneg(x), 2 * m), fneg(x))); assert(fpow(fneg(x), 2 * n) == fmul(fpow(fneg(x), (2 * m + 1) as nat), fneg(x)));
   r_pow2(fpow(x, 2 * m), x); r_neg2(fpow(x, 2 * m), x); } else { assert(fpow(x, 0) == fz(1)); assert(fpow(fneg(x), 0) == fz(1)); } }
pub proof fn lemma_pow_nz(x: Fr, n: nat) requires x != fz(0) ensures fpow(x, n) != fz(0) decreases n { ax_one(); if n > 0 { lemma_pow_nz(x, (n - 1) as nat); if fpow(x, n) == fz(0) { ax_dom(fpow(x, (n - 1) as nat), x); } } }
pub proof fn lemma_mul_nz(x: Fr, y: Fr) requires x != fz(0), y != fz(0) ensures fmul(x, y) != fz(0) { if fmul(x, y) == fz(0) { ax_dom(x, y); } }
@ring r_pa | x y z | x*(y*z) == x*y*z
@ring r_m1 | x | x*1 == x
@ring r_1m | x | 1*x == x
pub proof fn lemma_pow_add(x: Fr, a: nat, b: nat) ensures fpow(x, a + b) == fmul(fpow(x, a), fpow(x, b)) decreases b { if b == 0 { r_m1(fpow(x, a)); } else { lemma_pow_add(x, a, (b - 1) as nat); r_pa(fpow(x, a), fpow(x, (b - 1) as nat), x); assert(fpow(x, a + b) == fmul(fpow(x, (a + b - 1) as nat), x)); } }
pub proof fn lemma_omega(k: nat) requires two_adic(k) ensures fpow(omega(k), p2(k)) == fz(1), k > 0 ==> fpow(omega(k), p2((k - 1) as nat)) == fneg(fz(1)), omega(k) != fz(0) decreases k
{ ax_one(); let w = omega(k);
  if k == 0 { ax_omega0(); assert(p2(0) == 1); assert(fpow(w, 0) == fz(1)); assert(fpow(w, 1) == fmul(fpow(w, 0), w)); r_1m(w); }
  else { let m = (k - 1) as nat; ax_adic(m, k); lemma_omega(m); ax_omega_sq(k); lemma_p2(k); lemma_pow_even(w, p2(m)); assert(p2(k) == 2 * p2(m));
    if m == 0 { ax_omega1(); assert(p2(0) == 1); assert(fpow(w, 0) == fz(1)); assert(fpow(w, 1) == fmul(fpow(w, 0), w)); r_1m(w); } else { lemma_pow_even(w, p2((m - 1) as nat)); assert(p2(m) == 2 * p2((m - 1) as nat)); }
    if w == fz(0) { r_00m(); assert(omega(m) == fz(0)); } } }
@ring r_00m | | 0*0 == 0
@ring r_mm1 | x z | (x*(-1))*z == -(x*z)
@ring r_mm2 | x z | -x == x*(-1)
pub proof fn lemma_omega_mod(k: nat, n: nat) requires two_adic(k) ensures fpow(omega(k), n) == fpow(omega(k), n % p2(k)) decreases n
{ lemma_p2(k); lemma_omega(k); let q = p2(k) as int; if n >= q { let m = (n - q) as nat; lemma_omega_mod(k, m); lemma_pow_add(omega(k), m, p2(k)); assert(m + p2(k) == n); r_m1(fpow(omega(k), m)); vstd::arithmetic::div_mod::lemma_mod_add_multiples_vanish(m as int, q); assert(n as int % q == m as int % q); } else { vstd::arithmetic::div_mod::lemma_small_mod(n, p2(k)); } }
/// n-fold squaring
pub open spec fn fsq(x: Fr, n: nat) -> Fr decreases n { if n == 0 { x } else { fsq(fmul(x, x), (n - 1) as nat) } }
pub proof fn lemma_fsq(x: Fr, n: nat) ensures fpow(x, p2(n)) == fsq(x, n) decreases n
{ if n == 0 { assert(fpow(x, 0) == fz(1)); assert(fpow(x, 1) == fmul(fpow(x, 0), x)); r_1m(x); } else { lemma_fsq(fmul(x, x), (n - 1) as nat); lemma_pow_even(x, p2((n - 1) as nat)); } }
pub proof fn lemma_pow_mul(x: Fr, y: Fr, n: nat) ensures fpow(fmul(x, y), n) == fmul(fpow(x, n), fpow(y, n)) decreases n
{ if n == 0 { r_m1(fz(1)); } else { lemma_pow_mul(x, y, (n - 1) as nat); r_pm(fpow(x, (n - 1) as nat), fpow(y, (n - 1) as nat), x, y); } }
@ring r_pm | a b x y | (a*b)*(x*y) == (a*x)*(b*y)
pub proof fn lemma_pow1(n: nat) ensures fpow(fz(1), n) == fz(1) decreases n { if n > 0 { lemma_pow1((n - 1) as nat); r_m1(fz(1)); } }
pub proof fn lemma_pow_pow(x: Fr, a: nat, b: nat) ensures fpow(fpow(x, a), b) == fpow(x, a * b) decreases b
{ if b == 0 { assert(a * 0 == 0) by (nonlinear_arith); } else { lemma_pow_pow(x, a, (b - 1) as nat); lemma_pow_add(x, a * ((b - 1) as nat), a); assert(a * ((b - 1) as nat) + a == a * b) by (nonlinear_arith) requires b > 0; } }
/// every point of the domain raised to the size of the domain is one
pub proof fn lemma_root(k: nat, i: nat) requires two_adic(k) ensures fpow(fpow(omega(k), i), p2(k)) == fz(1)
{ lemma_omega(k); lemma_pow_pow(omega(k), i, p2(k)); lemma_pow_pow(omega(k), p2(k), i); lemma_pow1(i); assert(i * p2(k) == p2(k) * i) by (nonlinear_arith); }
@ring r_invis | d i x | i*(d*x) == x*(d*i)
@ring r_inv0 | x | 0*x == 0
/// a number whose product with d is one is the inverse of d
pub proof fn lemma_inv_is(d: Fr, x: Fr) requires fmul(d, x) == fz(1) ensures d != fz(0), finv(d) == x { ax_one(); if d == fz(0) { r_inv0(x); } ax_inv(d); r_invis(d, finv(d), x); r_m1(x); r_m1(finv(d)); }
