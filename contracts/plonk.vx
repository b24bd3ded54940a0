@import kzg circuit challenge slice verifier links
@prelude pdom.rs
@files plonk/src/prover.rs
@each broadcast use comms;
@raw
// ---- the first Lagrange polynomial
pub open spec fn l1c(k: nat) -> Seq<Fr> { ifft(Seq::new(p2(k), |i: int| if i == 0 { fz(1) } else { fz(0) }), k) }
/// L1(x) n (x - 1) = x^n - 1
pub proof fn lemma_l1(k: nat, x: Fr) requires two_adic(k), k <= 32 ensures canon(l1c(k)), l1c(k).len() <= p2(k), fmul(fmul(peval(l1c(k), x), fz(p2(k) as int)), fsub(x, fz(1))) == zh(p2(k) as int, x),
  peval(l1c(k), fz(1)) == fz(1), forall|i: int| 0 < i < p2(k) ==> peval(l1c(k), #[trigger] dpt(k, i)) == fz(0)
{ let n = p2(k); let v = Seq::new(n, |i: int| if i == 0 { fz(1) } else { fz(0) }); let l = l1c(k); ax_ifft(v, k); lemma_p2(k); let nn = fz(n as int); let w = omega(k);
  assert(fpow(w, 0) == fz(1)); assert(v[0] == fz(1)); assert(fpow(w, 0int as nat) == fz(1));
  assert forall|i: int| 0 <= i < n implies peval(l, #[trigger] dpt(k, i)) == v[i] by { assert(dpt(k, i) == fpow(w, i as nat)); }
  let c = pscal(l, nn); 
  assert forall|i: int| 0 <= i < n implies peval(c, #[trigger] dpt(k, i)) == peval(ones(n), dpt(k, i)) by { let y = dpt(k, i); lemma_pscal_n(l, nn, y, l.len()); lemma_geo(y, n, n); 
    if i == 0 { assert(y == fz(1)); lemma_count(n, n); r_1m(nn); } else { lemma_zh_zero(k, i as nat); ax_dom(peval(ones(n), y), fsub(y, fz(1))); lemma_distinct(k); assert(dpts(k)[0] == fz(1)); assert(dpts(k)[i] == y); lemma_sub0(y, fz(1)); r_0k(nn); } }
  lemma_dom_agree(c, ones(n), k, x); lemma_pscal_n(l, nn, x, l.len()); lemma_geo(x, n, n); }
pub broadcast proof fn lemma_l1v(v: Seq<Fr>, k: nat) requires v.len() == p2(k), v.len() > 0, v[0] == fz(1), forall|i: int| 0 < i < v.len() ==> v[i] == fz(0) ensures #[trigger] ifft(v, k) == l1c(k)
{ assert(v =~= Seq::new(p2(k), |i: int| if i == 0 { fz(1) } else { fz(0) })); }
@end
@spec p_gate | a b c qm ql qr qo qc pi | a*b*qm + a*ql + b*qr + c*qo + pi + qc
@spec p_num | be ga x a b c k1 k2 | (a + be*x + ga)*(b + be*k1*x + ga)*(c + be*k2*x + ga)
@spec p_den | be ga a b c s1 s2 s3 | (a + be*s1 + ga)*(b + be*s2 + ga)*(c + be*s3 + ga)
@spec p_perm | al be ga x a b c z zw k1 k2 s1 s2 s3 | (p_num(be, ga, x, a, b, c, k1, k2)*z - p_den(be, ga, a, b, c, s1, s2, s3)*zw)*al
@spec p_one | z l1 al | (z - 1)*l1*al*al
@raw
/// a compiled circuit over a domain of 2^k points
pub open spec fn ccwf(cc: CompiledCircuit, k: nat) -> bool { let g = cc.gate_constraint; let c = cc.copy_constraint; let n = p2(k); k <= 28 && cc.size == n
  && fits(g.f_ax, n) && fits(g.f_bx, n) && fits(g.f_cx, n) && fits(g.q_lx, n) && fits(g.q_rx, n) && fits(g.q_ox, n) && fits(g.q_mx, n) && fits(g.q_cx, n) && fits(g.pi_x, n) && fits(c.s_sigma_1, n) && fits(c.s_sigma_2, n) && fits(c.s_sigma_3, n) }
/// the gate equation's left-hand side over the polynomials a, b, c at x
pub open spec fn gate_of(cc: CompiledCircuit, a: Fr, b: Fr, c: Fr, x: Fr) -> Fr { let g = cc.gate_constraint; p_gate(a, b, c, pev(g.q_mx, x), pev(g.q_lx, x), pev(g.q_rx, x), pev(g.q_ox, x), pev(g.q_cx, x), pev(g.pi_x, x)) }
pub open spec fn gate_at(cc: CompiledCircuit, x: Fr) -> Fr { let g = cc.gate_constraint; gate_of(cc, pev(g.f_ax, x), pev(g.f_bx, x), pev(g.f_cx, x), x) }
pub open spec fn num_at(cc: CompiledCircuit, be: Fr, ga: Fr, x: Fr) -> Fr { let g = cc.gate_constraint; let c = cc.copy_constraint; p_num(be, ga, x, pev(g.f_ax, x), pev(g.f_bx, x), pev(g.f_cx, x), c.k1, c.k2) }
pub open spec fn den_at(cc: CompiledCircuit, be: Fr, ga: Fr, x: Fr) -> Fr { let g = cc.gate_constraint; let c = cc.copy_constraint; p_den(be, ga, pev(g.f_ax, x), pev(g.f_bx, x), pev(g.f_cx, x), pev(c.s_sigma_1, x), pev(c.s_sigma_2, x), pev(c.s_sigma_3, x)) }
/// the accumulated products: 1 at the first point, multiplied by num/den from point to point
pub open spec fn acc_step(cc: CompiledCircuit, be: Fr, ga: Fr, k: nat, e: Seq<Fr>, i: int) -> bool { den_at(cc, be, ga, dpt(k, i)) != fz(0) && fmul(e[i + 1], den_at(cc, be, ga, dpt(k, i))) == fmul(e[i], num_at(cc, be, ga, dpt(k, i))) }
pub open spec fn acc_e_is(cc: CompiledCircuit, be: Fr, ga: Fr, k: nat, e: Seq<Fr>, n: int) -> bool { e.len() == n && n > 0 && e[0] == fz(1) && (forall|i: int| 0 <= i < n - 1 ==> #[trigger] acc_step(cc, be, ga, k, e, i)) }
pub open spec fn rot(e: Seq<Fr>) -> Seq<Fr> { e.subrange(1, e.len() as int) + e.subrange(0, 1) }
pub open spec fn acc_is(cc: CompiledCircuit, be: Fr, ga: Fr, k: nat, e: Seq<Fr>, a: DensePolynomial, aw: DensePolynomial) -> bool { acc_e_is(cc, be, ga, k, e, p2(k) as int) && a.coeffs@ == ifft(e, k) && aw.coeffs@ == ifft(rot(e), k) }
pub open spec fn acc_ok(cc: CompiledCircuit, be: Fr, ga: Fr, k: nat, a: DensePolynomial, aw: DensePolynomial) -> bool { exists|e: Seq<Fr>| #[trigger] acc_is(cc, be, ga, k, e, a, aw) }
@ring r_step | p n d i | (p*n*i)*d == (p*n)*(d*i)
@ring r_step2 | p n d i | (p*(n*i))*d == (p*n)*(d*i)
@ring r_step3 | p n d i | (p*i*n)*d == (p*n)*(d*i)
@end
@fn poly_sub_para | P07 P08 | r
ensures poly.coeffs@.len() > 0, r.coeffs@ == poly.coeffs@.update(0, fsub(poly.coeffs@[0], *para)), forall|x: Fr| #[trigger] pev(r, x) == fsub(pev(*poly, x), *para)
@subst tmp \. coeffs \[0 \] =(?!=) => v_nonempty (& tmp . coeffs ) ; tmp . coeffs [0 ] =
@start
broadcast use pvals;
@fn commit_round1 | P07 P08 | r
requires scheme.0.g1_points@.len() > 0, fits(*ax, scheme.0.g1_points@.len()), fits(*bx, scheme.0.g1_points@.len()), fits(*cx, scheme.0.g1_points@.len())
ensures com_is(scheme.0, ax.coeffs@, r@[0].0), com_is(scheme.0, bx.coeffs@, r@[1].0), com_is(scheme.0, cx.coeffs@, r@[2].0)
@fn l1_poly | P07 P08 | r
requires domain.n > 0
ensures forall|k: nat| domain.n == #[trigger] p2(k) ==> r.coeffs@ == l1c(k)
@start
broadcast use lemma_l1v;
@fn divide_by_vanishing_poly | P07 P08 | r
requires canon(poly.coeffs@), domain.n > 0
ensures r is Ok ==> canon(r->Ok_0.coeffs@) && plen(r->Ok_0) <= (if plen(*poly) >= domain.n { plen(*poly) - domain.n } else { 0 }) && (forall|x: Fr| #[trigger] pev(*poly, x) == fmul(pev(r->Ok_0, x), zh(domain.n as int, x))),
  forall|k: nat| domain.n == #[trigger] p2(k) && two_adic(k) && (forall|i: int| 0 <= i < p2(k) ==> pev(*poly, #[trigger] dpt(k, i)) == fz(0)) ==> r is Ok
@after_let result, rest
proof { assert forall|x: Fr| allz(rest.coeffs@) implies #[trigger] pev(*poly, x) == fmul(pev(result, x), zh(domain.n as int, x)) by { lemma_allz(rest.coeffs@, x); r_add0(fmul(pev(result, x), zh(domain.n as int, x))); }
  assert forall|k: nat| domain.n == #[trigger] p2(k) && two_adic(k) && (forall|i: int| 0 <= i < p2(k) ==> pev(*poly, #[trigger] dpt(k, i)) == fz(0)) implies allz(rest.coeffs@) by {
    assert forall|i: int| 0 <= i < p2(k) implies peval(rest.coeffs@, #[trigger] dpt(k, i)) == fz(0) by { let x = dpt(k, i); lemma_zh_zero(k, i as nat); r_mul0_add(pev(result, x), pev(rest, x)); assert(pev(*poly, x) == fadd(fmul(pev(result, x), zh(domain.n as int, x)), pev(rest, x))); }
    lemma_dom_zero(rest.coeffs@, k); } }
@fn compute_acc | P07 P08 | r | divq
requires exists|k: nat| ccwf(*compiled_circuit, k) && domain.n == #[trigger] p2(k)
ensures forall|k: nat| domain.n == #[trigger] p2(k) ==> acc_ok(*compiled_circuit, *beta, *gamma, k, r.0, r.1)
@start
let ghost kk = choose|k: nat| ccwf(*compiled_circuit, k) && domain.n == #[trigger] p2(k);
proof { lemma_p2(kk); }
@loop 1
invariant __L1 == p2(kk), __v1@ == dpts(kk).take(__i1 as int)
@loop_end 1
assert(__v1@ =~= dpts(kk).take(__i1 as int));
@after_loop 1
assert(__v1@ =~= dpts(kk));
@loop 2
invariant roots@ == dpts(kk), domain.n == p2(kk), ccwf(*compiled_circuit, kk), *k1 == compiled_circuit.copy_constraint.k1, *k2 == compiled_circuit.copy_constraint.k2, pre_acc_e == acc_e@[__i2 - 1], acc_e_is(*compiled_circuit, *beta, *gamma, kk, acc_e@, __i2 as int)
@loop_start 2
let ghost e0 = acc_e@;
@loop_end 2
proof { assert(acc_e@ =~= e0.push(pre_acc_e)); let p = e0[__c2 - 1]; ax_inv(denominator); r_step(p, numerator, denominator, finv(denominator)); r_step2(p, numerator, denominator, finv(denominator)); r_step3(p, numerator, denominator, finv(denominator)); r_m1(fmul(p, numerator));
  assert(acc_step(*compiled_circuit, *beta, *gamma, kk, acc_e@, __c2 - 1));
  assert forall|i: int| 0 <= i < __i2 - 1 implies #[trigger] acc_step(*compiled_circuit, *beta, *gamma, kk, acc_e@, i) by { if i < __c2 - 1 { assert(acc_step(*compiled_circuit, *beta, *gamma, kk, e0, i)); } } }
@poly ^compiled_circuit\.gate_constraints\(\)\.(\w+)\(\)$ => pev(compiled_circuit.gate_constraint.\1, $x)
@poly ^compiled_circuit\.copy_constraints\(\)\.(s_\w+)\(\)$ => pev(compiled_circuit.copy_constraint.\1, $x)
@stop w_i_sub1 k1 k2
@atom ^(w_i_sub1|k1|k2|beta|gamma)$ => *\1
@atom \(w_i_sub1\) => (*w_i_sub1)
@atom , ?w_i_sub1\) => , *w_i_sub1)
@autoring numerator | p_num(*beta; *gamma; *w_i_sub1; pev(compiled_circuit.gate_constraint.f_ax, *w_i_sub1); pev(compiled_circuit.gate_constraint.f_bx, *w_i_sub1); pev(compiled_circuit.gate_constraint.f_cx, *w_i_sub1); *k1; *k2)
@autoring denominator | p_den(*beta; *gamma; pev(compiled_circuit.gate_constraint.f_ax, *w_i_sub1); pev(compiled_circuit.gate_constraint.f_bx, *w_i_sub1); pev(compiled_circuit.gate_constraint.f_cx, *w_i_sub1); pev(compiled_circuit.copy_constraint.s_sigma_1, *w_i_sub1); pev(compiled_circuit.copy_constraint.s_sigma_2, *w_i_sub1); pev(compiled_circuit.copy_constraint.s_sigma_3, *w_i_sub1))
@after_let acc_e_shifted
let ghost e = acc_e@;
@after_let acc_w
proof { assert forall|k: nat| domain.n == #[trigger] p2(k) implies acc_ok(*compiled_circuit, *beta, *gamma, k, acc, acc_w) by { lemma_p2_inj(k, kk); assert(ppad(e, p2(k)) =~= e); assert(ppad(rot(e), p2(k)) =~= rot(e)); assert(acc_is(*compiled_circuit, *beta, *gamma, k, e, acc, acc_w)); } }
@raw
/// the exponent of a power of two
pub open spec fn lk(n: int) -> nat { choose|k: nat| n == #[trigger] p2(k) }
pub proof fn lemma_lk(k: nat) ensures lk(p2(k) as int) == k { let j = choose|j: nat| p2(k) as int == #[trigger] p2(j); lemma_p2_inj(k, j); }
pub proof fn lemma_p2_28() ensures p2(28) == 0x1000_0000 { reveal_with_fuel(p2, 30); }
pub open spec fn gates_ok(cc: CompiledCircuit, k: nat) -> bool { forall|i: int| 0 <= i < p2(k) ==> gate_at(cc, #[trigger] dpt(k, i)) == fz(0) }
/// the products of the numerators and of the denominators over the first n points
pub open spec fn pnum(cc: CompiledCircuit, be: Fr, ga: Fr, k: nat, n: nat) -> Fr decreases n { if n == 0 { fz(1) } else { fmul(pnum(cc, be, ga, k, (n - 1) as nat), num_at(cc, be, ga, dpt(k, n - 1))) } }
pub open spec fn pden(cc: CompiledCircuit, be: Fr, ga: Fr, k: nat, n: nat) -> Fr decreases n { if n == 0 { fz(1) } else { fmul(pden(cc, be, ga, k, (n - 1) as nat), den_at(cc, be, ga, dpt(k, n - 1))) } }
pub open spec fn copy_eq(cc: CompiledCircuit, be: Fr, ga: Fr, k: nat) -> bool { pnum(cc, be, ga, k, p2(k)) == pden(cc, be, ga, k, p2(k)) }
/// every gate equation holds, and the wires' values are invariant under the permutation
pub open spec fn sat(cc: CompiledCircuit, k: nat) -> bool { gates_ok(cc, k) && (forall|be: Fr, ga: Fr| #[trigger] copy_eq(cc, be, ga, k)) }
pub open spec fn gatep(cc: CompiledCircuit, a: DensePolynomial, b: DensePolynomial, c: DensePolynomial, x: Fr) -> Fr { gate_of(cc, pev(a, x), pev(b, x), pev(c, x), x) }
pub open spec fn permp(cc: CompiledCircuit, al: Fr, be: Fr, ga: Fr, a: DensePolynomial, b: DensePolynomial, c: DensePolynomial, z: DensePolynomial, zw: DensePolynomial, x: Fr) -> Fr { let k = cc.copy_constraint;
  p_perm(al, be, ga, x, pev(a, x), pev(b, x), pev(c, x), pev(z, x), pev(zw, x), k.k1, k.k2, pev(k.s_sigma_1, x), pev(k.s_sigma_2, x), pev(k.s_sigma_3, x)) }
pub open spec fn onep(k: nat, al: Fr, z: DensePolynomial, x: Fr) -> Fr { p_one(pev(z, x), peval(l1c(k), x), al) }
/// the three parts vanish on the domain
pub open spec fn van_gate(cc: CompiledCircuit, k: nat, a: DensePolynomial, b: DensePolynomial, c: DensePolynomial) -> bool { forall|i: int| 0 <= i < p2(k) ==> gatep(cc, a, b, c, #[trigger] dpt(k, i)) == fz(0) }
pub open spec fn van_perm(cc: CompiledCircuit, k: nat, al: Fr, be: Fr, ga: Fr, a: DensePolynomial, b: DensePolynomial, c: DensePolynomial, z: DensePolynomial, zw: DensePolynomial) -> bool { forall|i: int| 0 <= i < p2(k) ==> permp(cc, al, be, ga, a, b, c, z, zw, #[trigger] dpt(k, i)) == fz(0) }
pub open spec fn van_one(k: nat, al: Fr, z: DensePolynomial) -> bool { forall|i: int| 0 <= i < p2(k) ==> onep(k, al, z, #[trigger] dpt(k, i)) == fz(0) }
@end
@ring r_q3 | a b c d | (a + b + c)*d == a*d + b*d + c*d
@fn compute_quotient_polynomial | P07 P08 | r | rlimit=60
requires ccwf(*compiled_circuit, lk(domain.n as int)), domain.n == p2(lk(domain.n as int)), fits(*ax, (domain.n + 2) as nat), fits(*bx, (domain.n + 2) as nat), fits(*cx, (domain.n + 2) as nat), fits(*z_x, (domain.n + 3) as nat), fits(*z_wx, (domain.n + 3) as nat),
  van_one(lk(domain.n as int), *alpha, *z_x),
  sat(*compiled_circuit, lk(domain.n as int)) ==> van_gate(*compiled_circuit, lk(domain.n as int), *ax, *bx, *cx) && van_perm(*compiled_circuit, lk(domain.n as int), *alpha, *beta, *gamma, *ax, *bx, *cx, *z_x, *z_wx)
ensures fits(r, (3 * domain.n + 6) as nat),
  forall|x: Fr| fmul(#[trigger] pev(r, x), zh(domain.n as int, x)) == fadd(fadd(gatep(*compiled_circuit, *ax, *bx, *cx, x), permp(*compiled_circuit, *alpha, *beta, *gamma, *ax, *bx, *cx, *z_x, *z_wx, x)), onep(lk(domain.n as int), *alpha, *z_x, x)),
  van_gate(*compiled_circuit, lk(domain.n as int), *ax, *bx, *cx), van_perm(*compiled_circuit, lk(domain.n as int), *alpha, *beta, *gamma, *ax, *bx, *cx, *z_x, *z_wx)
@subst \. expect \( => . v_expect_when (Ghost(!sat(*compiled_circuit, kk)), 
@subst \. unwrap \( \) => . v_unwrap_when (Ghost(!sat(*compiled_circuit, kk)))
@subst zx2 \. coeffs \[0 \] =(?!=) => v_nonempty (& zx2 . coeffs ) ; zx2 . coeffs [0 ] =
@start
broadcast use palg, pvals;
let ghost kk = lk(domain.n as int);
proof { lemma_p2_28(); lemma_p2_mono(kk, 28); lemma_p2(kk); ax_adic32(kk); lemma_l1(kk, fz(0)); }
@after_let line1
assert(fits(line1, (3 * domain.n + 2) as nat));
@after_let line23
assert(fits(line23, (4 * domain.n + 6) as nat));
@after_let line4
assert(fits(line4, (2 * domain.n + 2) as nat));
@after_let quotient1
proof { assert forall|i: int| 0 <= i < p2(kk) implies gatep(*compiled_circuit, *ax, *bx, *cx, #[trigger] dpt(kk, i)) == fz(0) by { let x = dpt(kk, i); lemma_zh_zero(kk, i as nat); r_k0(pev(quotient1, x)); assert(pev(line1, x) == fmul(pev(quotient1, x), zh(domain.n as int, x))); } }
@after_let quotient23
proof { assert forall|i: int| 0 <= i < p2(kk) implies permp(*compiled_circuit, *alpha, *beta, *gamma, *ax, *bx, *cx, *z_x, *z_wx, #[trigger] dpt(kk, i)) == fz(0) by { let x = dpt(kk, i); lemma_zh_zero(kk, i as nat); r_k0(pev(quotient23, x)); assert(pev(line23, x) == fmul(pev(quotient23, x), zh(domain.n as int, x))); } }
@after_let quotient4
proof { assert forall|x: Fr| fmul(fadd(fadd(#[trigger] pev(quotient1, x), pev(quotient23, x)), pev(quotient4, x)), zh(domain.n as int, x)) == fadd(fadd(gatep(*compiled_circuit, *ax, *bx, *cx, x), permp(*compiled_circuit, *alpha, *beta, *gamma, *ax, *bx, *cx, *z_x, *z_wx, x)), onep(kk, *alpha, *z_x, x)) by { r_q3(pev(quotient1, x), pev(quotient23, x), pev(quotient4, x), zh(domain.n as int, x)); assert(pev(line1, x) == fmul(pev(quotient1, x), zh(domain.n as int, x))); assert(pev(line23, x) == fmul(pev(quotient23, x), zh(domain.n as int, x))); assert(pev(line4, x) == fmul(pev(quotient4, x), zh(domain.n as int, x))); } }
@poly ^compiled_circuit\.gate_constraints\(\)\.(\w+)\(\)$ => pev(compiled_circuit.gate_constraint.\1, $x)
@poly ^compiled_circuit\.copy_constraints\(\)\.(s_\w+)\(\)$ => pev(compiled_circuit.copy_constraint.\1, $x)
@poly ^(ax|bx|cx|z_x|z_wx)$ => pev(*\1, $x)
@poly ^l1_poly\(domain\)$ => peval(l1c(kk), $x)
@atom ^compiled_circuit\.copy_constraints\(\)\.(k\d)\(\)$ => compiled_circuit.copy_constraint.\1
@atom ^(alpha|beta|gamma)$ => *\1
@autoring line1 poly | p_gate(pev(*ax, x); pev(*bx, x); pev(*cx, x); pev(compiled_circuit.gate_constraint.q_mx, x); pev(compiled_circuit.gate_constraint.q_lx, x); pev(compiled_circuit.gate_constraint.q_rx, x); pev(compiled_circuit.gate_constraint.q_ox, x); pev(compiled_circuit.gate_constraint.q_cx, x); pev(compiled_circuit.gate_constraint.pi_x, x))
@autoring line23 poly | p_perm(*alpha; *beta; *gamma; x; pev(*ax, x); pev(*bx, x); pev(*cx, x); pev(*z_x, x); pev(*z_wx, x); compiled_circuit.copy_constraint.k1; compiled_circuit.copy_constraint.k2; pev(compiled_circuit.copy_constraint.s_sigma_1, x); pev(compiled_circuit.copy_constraint.s_sigma_2, x); pev(compiled_circuit.copy_constraint.s_sigma_3, x))
@autoring line4 poly | p_one(pev(*z_x, x); peval(l1c(kk), x); *alpha)
@spec p_cdiff | al be ga x a b c z zw k1 k2 s1 s2 s3 | (p_den(be, ga, a, b, c, s1, s2, s3)*zw - p_num(be, ga, x, a, b, c, k1, k2)*z)*al
@spec p_lin | al be ga ze a b c zw k1 k2 s1 s2 qm ql qr qo qc pi s3 z l1 t zhx | p_gate(a, b, c, qm, ql, qr, qo, qc, pi) + p_num(be, ga, ze, a, b, c, k1, k2)*al*z - (a + be*s1 + ga)*(b + be*s2 + ga)*zw*al*(c + ga + be*s3) + (z - 1)*l1*al*al - t*zhx
@raw
/// the linearisation polynomial's value at x
pub open spec fn lin_at(cc: CompiledCircuit, k: nat, al: Fr, be: Fr, ga: Fr, ze: Fr, a: Fr, b: Fr, c: Fr, zw: Fr, s1: Fr, s2: Fr, pi: Fr, z: DensePolynomial, t: DensePolynomial, x: Fr) -> Fr { let g = cc.gate_constraint; let p = cc.copy_constraint;
  p_lin(al, be, ga, ze, a, b, c, zw, p.k1, p.k2, s1, s2, pev(g.q_mx, x), pev(g.q_lx, x), pev(g.q_rx, x), pev(g.q_ox, x), pev(g.q_cx, x), pi, pev(p.s_sigma_3, x), pev(z, x), peval(l1c(k), ze), pev(t, x), zh(p2(k) as int, ze)) }
@end
@fn compute_linearisation_polynomial | P07 P08 | r | rlimit=60
requires ccwf(*compiled_circuit, lk(domain.n as int)), domain.n == p2(lk(domain.n as int)), fits(*ax, (domain.n + 2) as nat), fits(*bx, (domain.n + 2) as nat), fits(*cx, (domain.n + 2) as nat), fits(*z_x, (domain.n + 3) as nat), fits(*z_wx, (domain.n + 3) as nat), fits(*tx_compact, (domain.n + 3) as nat),
  *bar_a == pev(*ax, *eval_challenge), *bar_b == pev(*bx, *eval_challenge), *bar_c == pev(*cx, *eval_challenge), *bar_z_w == pev(*z_wx, *eval_challenge),
  *bar_s_sigma_1 == pev(compiled_circuit.copy_constraint.s_sigma_1, *eval_challenge), *bar_s_sigma_2 == pev(compiled_circuit.copy_constraint.s_sigma_2, *eval_challenge)
ensures fits(r, (domain.n + 3) as nat), forall|x: Fr| #[trigger] pev(r, x) == lin_at(*compiled_circuit, lk(domain.n as int), *alpha, *beta, *gamma, *eval_challenge, *bar_a, *bar_b, *bar_c, *bar_z_w, *bar_s_sigma_1, *bar_s_sigma_2, *pi_e, *z_x, *tx_compact, x)
@subst (\w+) \. coeffs \[0 \] =(?!=) => v_nonempty (& \1 . coeffs ) ; \1 . coeffs [0 ] =
@start
broadcast use palg, pvals;
let ghost kk = lk(domain.n as int);
proof { lemma_p2_28(); lemma_p2_mono(kk, 28); lemma_p2(kk); ax_adic32(kk); lemma_l1(kk, fz(0)); }
@poly ^compiled_circuit\.gate_constraints\(\)\.(\w+)\(\)$ => pev(compiled_circuit.gate_constraint.\1, $x)
@poly ^compiled_circuit\.copy_constraints\(\)\.(s_\w+)\(\)$ => pev(compiled_circuit.copy_constraint.\1, $x)
@poly ^(ax|bx|cx|z_x|z_wx|tx_compact)$ => pev(*\1, $x)
@poly ^l1_poly\(domain\)$ => peval(l1c(kk), $x)
@atom ^compiled_circuit\.copy_constraints\(\)\.(k\d)\(\)$ => compiled_circuit.copy_constraint.\1
@atom ^domain\.evaluate_vanishing_polynomial\((\w+)\)$ => zh(domain.n as int, *\1)
@atom , ?eval_challenge\) => , *eval_challenge)
@atom ^(alpha|beta|gamma|eval_challenge|bar_\w+|pi_e)$ => *\1
@autoring diff2 | p_cdiff(*alpha; *beta; *gamma; *eval_challenge; pev(*ax, *eval_challenge); pev(*bx, *eval_challenge); pev(*cx, *eval_challenge); pev(*z_x, *eval_challenge); pev(*z_wx, *eval_challenge); compiled_circuit.copy_constraint.k1; compiled_circuit.copy_constraint.k2; pev(compiled_circuit.copy_constraint.s_sigma_1, *eval_challenge); pev(compiled_circuit.copy_constraint.s_sigma_2, *eval_challenge); pev(compiled_circuit.copy_constraint.s_sigma_3, *eval_challenge))
@autoring cur | p_cdiff(*alpha; *beta; *gamma; *eval_challenge; *bar_a; *bar_b; *bar_c; pev(*z_x, *eval_challenge); *bar_z_w; compiled_circuit.copy_constraint.k1; compiled_circuit.copy_constraint.k2; *bar_s_sigma_1; *bar_s_sigma_2; pev(compiled_circuit.copy_constraint.s_sigma_3, *eval_challenge))
@autoring return poly | p_lin(*alpha; *beta; *gamma; *eval_challenge; *bar_a; *bar_b; *bar_c; *bar_z_w; compiled_circuit.copy_constraint.k1; compiled_circuit.copy_constraint.k2; *bar_s_sigma_1; *bar_s_sigma_2; pev(compiled_circuit.gate_constraint.q_mx, x); pev(compiled_circuit.gate_constraint.q_lx, x); pev(compiled_circuit.gate_constraint.q_rx, x); pev(compiled_circuit.gate_constraint.q_ox, x); pev(compiled_circuit.gate_constraint.q_cx, x); *pi_e; pev(compiled_circuit.copy_constraint.s_sigma_3, x); pev(*z_x, x); peval(l1c(kk), *eval_challenge); pev(*tx_compact, x); zh(domain.n as int, *eval_challenge))
@spec p_z | b7 b8 b9 x zhx acc | (b9 + b8*x + b7*x*x)*zhx + acc
@spec p_zw | b7 b8 b9 w x zhx acc | (b9 + b8*w*x + b7*w*w*x*x)*zhx + acc
@spec p_bl | b1 b2 x zhx f | (b2 + b1*x)*zhx + f
@spec p_w | r a b c g1 g2 br ba bb bc s1 s2 v | (r - br) + (a - ba)*v + (b - bb)*v**2 + (c - bc)*v**3 + (g1 - s1)*v**4 + (g2 - s2)*v**5
@ring r_lin0 | al be ga ze a b c zw k1 k2 s1 s2 qm ql qr qo qc pi s3 z l1 t zhx | p_lin(al, be, ga, ze, a, b, c, zw, k1, k2, s1, s2, qm, ql, qr, qo, qc, pi, s3, z, l1, t, zhx) == ((p_gate(a, b, c, qm, ql, qr, qo, qc, pi) + p_perm(al, be, ga, ze, a, b, c, z, zw, k1, k2, s1, s2, s3)) + p_one(z, l1, al)) - t*zhx
@ring r_fin | s W X A B C Z T0 T1 T2 p1 p2 pw l1 pi qm ql qr qo qc g1 g2 g3 al be ga ze v u w k1 k2 a b c s1 s2 zw | v_lhs(W, X, u)*s - v_rhs(W, X, A, B, C, Z, T0, T1, T2, p1, p2, pw, l1, pi, qm, ql, qr, qo, qc, g1, g2, g3, al, be, ga, ze, v, u, w, k1, k2, a, b, c, s1, s2, zw) == (W*(s - ze) - p_w(p_lin(al, be, ga, ze, a, b, c, zw, k1, k2, s1, s2, qm, ql, qr, qo, qc, pi, g3, Z, l1, T0 + (p1*T1 + p2*T2), pw - 1), A, B, C, g1, g2, 0, a, b, c, s1, s2, v)) + u*(X*(s - ze*w) - (Z - zw))
@ring r_fin0 | u | (0) + u*(0) == 0
@ring r_pm0 | al n z d | (n*z - d*1)*al == (z*n - d)*al
@ring r_pm1 | al n z d zw | (n*z - d*zw)*al == (z*n - zw*d)*al
@ring r_zwx | b7 b8 b9 w x h a | (b9 + b8*(w*x) + b7*(w*x)*(w*x))*h + a == (b9 + b8*w*x + b7*w*w*x*x)*h + a
@ring r_1k | p | 1*p == p
@ring r_prod1 | e n p d | (e*n)*p == (e*p)*n
@ring r_prod2 | f d p | (f*d)*p == f*(p*d)
@ring r_selfm | a b | (a - a)*b == 0
@ring r_bl0 | b c x a | (b + c*x)*0 + a == a
@ring r_z0 | b c d x a | (b + c*x + d*x*x)*0 + a == a
@ring r_one0 | l al | (1 - 1)*l*al*al == 0
@ring r_one1 | z al | (z - 1)*0*al*al == 0
@raw
/// what the interpolations are at the points of the domain, and that the second is the first one shifted
pub proof fn lemma_acc(cc: CompiledCircuit, be: Fr, ga: Fr, k: nat, e: Seq<Fr>, a: DensePolynomial, aw: DensePolynomial)
  requires acc_is(cc, be, ga, k, e, a, aw), two_adic(k)
  ensures fits(a, p2(k)), fits(aw, p2(k)), forall|i: int| 0 <= i < p2(k) ==> pev(a, #[trigger] dpt(k, i)) == e[i], forall|i: int| 0 <= i < p2(k) ==> pev(aw, #[trigger] dpt(k, i)) == rot(e)[i],
    forall|x: Fr| #[trigger] pev(aw, x) == pev(a, fmul(omega(k), x))
{ let n = p2(k); let w = omega(k); lemma_p2(k); ax_ifft(e, k); assert(rot(e).len() == n); ax_ifft(rot(e), k); lemma_omega(k);
  assert forall|i: int| 0 <= i < n implies pev(a, #[trigger] dpt(k, i)) == e[i] by { assert(dpt(k, i) == fpow(w, i as nat)); }
  assert forall|i: int| 0 <= i < n implies pev(aw, #[trigger] dpt(k, i)) == rot(e)[i] by { assert(dpt(k, i) == fpow(w, i as nat)); }
  let c = shiftp(a.coeffs@, w);
  assert forall|i: int| 0 <= i < n implies peval(aw.coeffs@, #[trigger] dpt(k, i)) == peval(c, dpt(k, i)) by { let x = dpt(k, i); lemma_shiftp_n(a.coeffs@, w, x, a.coeffs@.len()); assert(pev(aw, x) == rot(e)[i]);
    assert(fpow(w, (i + 1) as nat) == fmul(fpow(w, i as nat), w)); r_comm(w, x);
    if i + 1 < n { assert(fmul(w, x) == dpt(k, i + 1)); assert(pev(a, dpt(k, i + 1)) == e[i + 1]); } else { assert(fmul(w, x) == fz(1)); assert(dpt(k, 0) == fz(1)); assert(pev(a, dpt(k, 0)) == e[0]); } }
  assert forall|x: Fr| #[trigger] pev(aw, x) == pev(a, fmul(w, x)) by { lemma_dom_agree(aw.coeffs@, c, k, x); lemma_shiftp_n(a.coeffs@, w, x, a.coeffs@.len()); } }
/// e[m] is the quotient of the products
pub proof fn lemma_prod(cc: CompiledCircuit, be: Fr, ga: Fr, k: nat, e: Seq<Fr>, m: nat)
  requires acc_e_is(cc, be, ga, k, e, p2(k) as int), m < p2(k)
  ensures fmul(e[m as int], pden(cc, be, ga, k, m)) == pnum(cc, be, ga, k, m), pden(cc, be, ga, k, m) != fz(0) decreases m
{ ax_one(); if m == 0 { r_1k(fz(1)); } else { let j = (m - 1) as nat; lemma_prod(cc, be, ga, k, e, j); assert(acc_step(cc, be, ga, k, e, j as int)); let (p, d, n) = (pden(cc, be, ga, k, j), den_at(cc, be, ga, dpt(k, j as int)), num_at(cc, be, ga, dpt(k, j as int)));
  lemma_mul_nz(p, d); r_prod1(e[j as int], n, p, d); r_prod2(e[m as int], d, p); } }
/// at the last point the product closes, or not at all
pub proof fn lemma_last(cc: CompiledCircuit, be: Fr, ga: Fr, k: nat, e: Seq<Fr>)
  requires acc_e_is(cc, be, ga, k, e, p2(k) as int)
  ensures ({ let x = dpt(k, p2(k) - 1); (fmul(e[p2(k) - 1], num_at(cc, be, ga, x)) == den_at(cc, be, ga, x)) == copy_eq(cc, be, ga, k) })
{ let n = p2(k); lemma_p2(k); let j = (n - 1) as nat; lemma_prod(cc, be, ga, k, e, j); let (p, d, m) = (pden(cc, be, ga, k, j), den_at(cc, be, ga, dpt(k, n - 1)), num_at(cc, be, ga, dpt(k, n - 1))); let l = fmul(e[n - 1], m);
  r_prod1(e[n - 1], m, p, d); assert(fmul(l, p) == pnum(cc, be, ga, k, n)); r_comm(d, p); assert(fmul(d, p) == pden(cc, be, ga, k, n));
  if fmul(l, p) == fmul(d, p) { lemma_cancel(l, d, p); } }
pub proof fn lemma_cancel(a: Fr, b: Fr, p: Fr) requires fmul(a, p) == fmul(b, p), p != fz(0) ensures a == b { lemma_sub0(fmul(a, p), fmul(b, p)); r_dist(a, b, p); ax_dom(fsub(a, b), p); lemma_sub0(a, b); }
@end
@ring r_dist | a b p | (a - b)*p == a*p - b*p
@raw
/// the blinded polynomials of the prover
pub open spec fn blinded(f: DensePolynomial, q: DensePolynomial, k: nat) -> bool { forall|i: int| 0 <= i < p2(k) ==> pev(q, #[trigger] dpt(k, i)) == pev(f, dpt(k, i)) }
pub open spec fn zparts(z: DensePolynomial, zw: DensePolynomial, a: DensePolynomial, aw: DensePolynomial, k: nat) -> bool { blinded(a, z, k) && blinded(aw, zw, k) }
pub proof fn lemma_van(cc: CompiledCircuit, k: nat, al: Fr, be: Fr, ga: Fr, e: Seq<Fr>, acc: DensePolynomial, accw: DensePolynomial, a: DensePolynomial, b: DensePolynomial, c: DensePolynomial, z: DensePolynomial, zw: DensePolynomial)
  requires acc_is(cc, be, ga, k, e, acc, accw), two_adic(k), k <= 32, blinded(cc.gate_constraint.f_ax, a, k), blinded(cc.gate_constraint.f_bx, b, k), blinded(cc.gate_constraint.f_cx, c, k), zparts(z, zw, acc, accw, k)
  ensures van_one(k, al, z), van_gate(cc, k, a, b, c) == gates_ok(cc, k), van_perm(cc, k, al, be, ga, a, b, c, z, zw) == (al == fz(0) || copy_eq(cc, be, ga, k))
{ let n = p2(k); lemma_p2(k); lemma_acc(cc, be, ga, k, e, acc, accw); lemma_l1(k, fz(0));
  assert forall|i: int| 0 <= i < n implies onep(k, al, z, #[trigger] dpt(k, i)) == fz(0) by { let x = dpt(k, i); assert(pev(z, x) == pev(acc, x)); if i == 0 { assert(x == fz(1)); r_one0(peval(l1c(k), x), al); } else { r_one1(pev(z, x), al); } }
  assert forall|i: int| 0 <= i < n implies gatep(cc, a, b, c, #[trigger] dpt(k, i)) == gate_at(cc, dpt(k, i)) by { let x = dpt(k, i); assert(pev(a, x) == pev(cc.gate_constraint.f_ax, x)); assert(pev(b, x) == pev(cc.gate_constraint.f_bx, x)); assert(pev(c, x) == pev(cc.gate_constraint.f_cx, x)); }
  if van_gate(cc, k, a, b, c) { assert forall|i: int| 0 <= i < n implies gate_at(cc, #[trigger] dpt(k, i)) == fz(0) by { assert(gatep(cc, a, b, c, dpt(k, i)) == fz(0)); } }
  if gates_ok(cc, k) { assert forall|i: int| 0 <= i < n implies gatep(cc, a, b, c, #[trigger] dpt(k, i)) == fz(0) by { assert(gate_at(cc, dpt(k, i)) == fz(0)); } }
  assert forall|i: int| 0 <= i < n implies permp(cc, al, be, ga, a, b, c, z, zw, #[trigger] dpt(k, i)) == fmul(fsub(fmul(e[i], num_at(cc, be, ga, dpt(k, i))), fmul(rot(e)[i], den_at(cc, be, ga, dpt(k, i)))), al) by { let x = dpt(k, i);
    assert(pev(a, x) == pev(cc.gate_constraint.f_ax, x)); assert(pev(b, x) == pev(cc.gate_constraint.f_bx, x)); assert(pev(c, x) == pev(cc.gate_constraint.f_cx, x)); assert(pev(z, x) == pev(acc, x)); assert(pev(zw, x) == pev(accw, x)); r_pm1(al, num_at(cc, be, ga, x), e[i], den_at(cc, be, ga, x), rot(e)[i]); }
  let last = dpt(k, n - 1); let (lm, ld) = (num_at(cc, be, ga, last), den_at(cc, be, ga, last)); lemma_last(cc, be, ga, k, e); r_1k(ld); assert(rot(e)[n - 1] == e[0]); assert(permp(cc, al, be, ga, a, b, c, z, zw, last) == fmul(fsub(fmul(e[n - 1], lm), ld), al));
  if van_perm(cc, k, al, be, ga, a, b, c, z, zw) { assert(permp(cc, al, be, ga, a, b, c, z, zw, last) == fz(0)); ax_dom(fsub(fmul(e[n - 1], lm), ld), al); lemma_sub0(fmul(e[n - 1], lm), ld); }
  if al == fz(0) || copy_eq(cc, be, ga, k) { assert forall|i: int| 0 <= i < n implies permp(cc, al, be, ga, a, b, c, z, zw, #[trigger] dpt(k, i)) == fz(0) by { let x = dpt(k, i); let p = fmul(e[i], num_at(cc, be, ga, x));
    assert(permp(cc, al, be, ga, a, b, c, z, zw, x) == fmul(fsub(p, fmul(rot(e)[i], den_at(cc, be, ga, x))), al));
    if al == fz(0) { r_k0(fsub(p, fmul(rot(e)[i], den_at(cc, be, ga, x)))); } else { if i < n - 1 { assert(acc_step(cc, be, ga, k, e, i)); assert(rot(e)[i] == e[i + 1]); } r_selfm(p, al); } } } }
@end
@raw
pub open spec fn quot_is(cc: CompiledCircuit, k: nat, al: Fr, be: Fr, ga: Fr, a: DensePolynomial, b: DensePolynomial, c: DensePolynomial, z: DensePolynomial, zw: DensePolynomial, t: DensePolynomial) -> bool { forall|x: Fr| fmul(#[trigger] pev(t, x), zh(p2(k) as int, x)) == fadd(fadd(gatep(cc, a, b, c, x), permp(cc, al, be, ga, a, b, c, z, zw, x)), onep(k, al, z, x)) }
/// the linearisation polynomial vanishes at the evaluation point
pub proof fn lemma_bar_r(cc: CompiledCircuit, k: nat, al: Fr, be: Fr, ga: Fr, ze: Fr, a: DensePolynomial, b: DensePolynomial, c: DensePolynomial, z: DensePolynomial, zw: DensePolynomial, t: DensePolynomial, tc: DensePolynomial)
  requires quot_is(cc, k, al, be, ga, a, b, c, z, zw, t), pev(tc, ze) == pev(t, ze)
  ensures lin_at(cc, k, al, be, ga, ze, pev(a, ze), pev(b, ze), pev(c, ze), pev(zw, ze), pev(cc.copy_constraint.s_sigma_1, ze), pev(cc.copy_constraint.s_sigma_2, ze), pev(cc.gate_constraint.pi_x, ze), z, tc, ze) == fz(0)
{ let g = cc.gate_constraint; let p = cc.copy_constraint; r_lin0(al, be, ga, ze, pev(a, ze), pev(b, ze), pev(c, ze), pev(zw, ze), p.k1, p.k2, pev(p.s_sigma_1, ze), pev(p.s_sigma_2, ze), pev(g.q_mx, ze), pev(g.q_lx, ze), pev(g.q_rx, ze), pev(g.q_ox, ze), pev(g.q_cx, ze), pev(g.pi_x, ze), pev(p.s_sigma_3, ze), pev(z, ze), peval(l1c(k), ze), pev(t, ze), zh(p2(k) as int, ze));
  let q = fmul(pev(t, ze), zh(p2(k) as int, ze)); assert(q == fadd(fadd(gatep(cc, a, b, c, ze), permp(cc, al, be, ga, a, b, c, z, zw, ze)), onep(k, al, z, ze))); lemma_sub0(q, q); }
/// what the prover's polynomials satisfy, at the secret s
pub open spec fn made(cc: CompiledCircuit, p: Proof, s: Fr, k: nat, a: DensePolynomial, b: DensePolynomial, c: DensePolynomial, z: DensePolynomial, sp: SlicePoly, tc: DensePolynomial, rx: DensePolynomial, wx: DensePolynomial, wwx: DensePolynomial) -> bool {
  let ze = ch(h3(p), 0); let v = ch(h4(p), 0); let q = cc.copy_constraint;
  lg(p.a_commit.0) == pev(a, s) && lg(p.b_commit.0) == pev(b, s) && lg(p.c_commit.0) == pev(c, s) && lg(p.z_commit.0) == pev(z, s) && lg(p.t_lo_commit.0) == pev(sp.slices[0], s) && lg(p.t_mid_commit.0) == pev(sp.slices[1], s) && lg(p.t_hi_commit.0) == pev(sp.slices[2], s)
  && lg(p.w_ev_x_commit.0) == pev(wx, s) && lg(p.w_ev_wx_commit.0) == pev(wwx, s) && p.degree == sp.degree && ch(h5(p), 0) == p.u
  && pev(rx, s) == lin_at(cc, k, ch(h2(p), 0), ch(h1(p), 0), ch(h1(p), 1), ze, p.bar_a, p.bar_b, p.bar_c, p.bar_z_w, p.bar_s_sigma_1, p.bar_s_sigma_2, pev(cc.gate_constraint.pi_x, ze), z, tc, s) && pev(tc, s) == comp_at(sp, ze, s)
  && fmul(pev(wx, s), fsub(s, ze)) == p_w(pev(rx, s), pev(a, s), pev(b, s), pev(c, s), pev(q.s_sigma_1, s), pev(q.s_sigma_2, s), fz(0), p.bar_a, p.bar_b, p.bar_c, p.bar_s_sigma_1, p.bar_s_sigma_2, v)
  && fmul(pev(wwx, s), fsub(s, fmul(ze, omega(k)))) == fsub(pev(z, s), p.bar_z_w) }
pub proof fn lemma_accept(cc: CompiledCircuit, p: Proof, s: Fr, k: nat, a: DensePolynomial, b: DensePolynomial, c: DensePolynomial, z: DensePolynomial, sp: SlicePoly, tc: DensePolynomial, rx: DensePolynomial, wx: DensePolynomial, wwx: DensePolynomial)
  requires made(cc, p, s, k, a, b, c, z, sp, tc, rx, wx, wwx), cc.size == p2(k), k <= 32, two_adic(k), ch(h3(p), 0) != fz(1)
  ensures accepts(cc, p, s)
{ let ze = ch(h3(p), 0); let n = cc.size as int; let g = cc.gate_constraint; let q = cc.copy_constraint; let w = omega(k); lemma_wof(k); lemma_size_nz(k, ze); lemma_l1(k, ze);
  let (l, d, h) = (peval(l1c(k), ze), fmul(fz(n), fsub(ze, fz(1))), zh(n, ze)); assert(l == l1_at(n, ze)) by { ax_inv(d); r_l1a(l, fz(n), fsub(ze, fz(1))); r_l1b(l, d, finv(d)); r_m1(l); }
  let (ww, xx, u, v) = (pev(wx, s), pev(wwx, s), p.u, ch(h4(p), 0)); let (p1, p2) = (fpow(ze, sm(sp)), fpow(ze, 2 * sm(sp))); let pw = fpow(ze, n as nat);
  let (t0, t1, t2) = (pev(sp.slices[0], s), pev(sp.slices[1], s), pev(sp.slices[2], s));
  r_fin(s, ww, xx, pev(a, s), pev(b, s), pev(c, s), pev(z, s), t0, t1, t2, p1, p2, pw, l, pev(g.pi_x, ze), pev(g.q_mx, s), pev(g.q_lx, s), pev(g.q_rx, s), pev(g.q_ox, s), pev(g.q_cx, s), pev(q.s_sigma_1, s), pev(q.s_sigma_2, s), pev(q.s_sigma_3, s), ch(h2(p), 0), ch(h1(p), 0), ch(h1(p), 1), ze, v, u, w, q.k1, q.k2, p.bar_a, p.bar_b, p.bar_c, p.bar_s_sigma_1, p.bar_s_sigma_2, p.bar_z_w);
  let (e1, e2) = (fmul(ww, fsub(s, ze)), fmul(xx, fsub(s, fmul(ze, w)))); lemma_sub0(e1, e1); lemma_sub0(e2, e2); r_fin0(u);
  assert(2 * sm(sp) == (2 * p.degree + 2) as nat); assert(sm(sp) == (p.degree + 1) as nat);
  lemma_sub0(fmul(v_lhs(ww, xx, u), s), rhs(cc, p, s, w)); }
@end
@ring r_l1a | l n d | (l*n)*d == l*(n*d)
@ring r_l1b | l d i | (l*d)*i == l*(d*i)
@ring r_w0 | a b c d e f v | p_w(a, b, c, d, e, f, a, b, c, d, e, f, v) == 0
@ring r_nm | a b | -((-a)*b) == a*b
@ring r_nadd | a x | -a + x == x - a
@ring r_nadd2 | a b x | (-a)*b + x == x - a*b
@fn generate_proof | P07 P08 | r | rlimit=200 spinoff
requires ccwf(*compiled_circuit, lk(compiled_circuit.size as int)), srs.g1_points@.len() >= compiled_circuit.size + 3
ensures gates_ok(*compiled_circuit, lk(compiled_circuit.size as int)), ch(h2(r), 0) == fz(0) || copy_eq(*compiled_circuit, ch(h1(r), 0), ch(h1(r), 1), lk(compiled_circuit.size as int)), r.degree < 0x4000_0000_0000_0000,
  forall|s: Fr| #[trigger] srs_wf(srs, s) && ch(h3(r), 0) != fz(1) ==> accepts(*compiled_circuit, r, s)
@start
broadcast use palg, pvals, pdivs, groups;
let ghost cc = *compiled_circuit; let ghost kk = lk(cc.size as int); let ghost n = p2(kk); let ghost s0 = choose|s: Fr| srs_wf(srs, s);
proof { lemma_p2_28(); lemma_p2_mono(kk, 28); lemma_p2(kk); ax_adic32(kk); lemma_np2_pow(kk); lemma_lk(kk); }
@after_let domain
assert(domain.n == n);
@after_let c_commit
let ghost hh1 = seq![a_commit, b_commit, c_commit];
let ghost hh10 = Seq::<KzgCommitment>::empty().push(a_commit).push(b_commit).push(c_commit);
proof { lemma_state(hh1); }
@after_let challenge
proof { assert(encs(Seq::<KzgCommitment>::empty()) =~= Seq::<Seq<u8>>::empty()); let fd = fed(challenge, Seq::<KzgCommitment>::empty()); assert(fd || !fd); }
@after_let beta
proof { assert(cdata(challenge) == tstate(encs(hh10))); assert(hh1 == hh10); assert(cdata(challenge) == tstate(encs(hh1))); assert(beta == ch(hh1, 0)); }
@after_let ax #2
proof { assert forall|i: int| 0 <= i < n implies pev(ax, #[trigger] dpt(kk, i)) == pev(cc.gate_constraint.f_ax, dpt(kk, i)) by { let x = dpt(kk, i); lemma_zh_zero(kk, i as nat); r_bl0(b2, b1, x, pev(cc.gate_constraint.f_ax, x)); assert(pev(ax, x) == p_bl(b1, b2, x, zh(domain.n as int, x), pev(cc.gate_constraint.f_ax, x))); } assert(blinded(cc.gate_constraint.f_ax, ax, kk)); assert(fits(ax, n + 2)); }
@after_let bx #2
proof { assert forall|i: int| 0 <= i < n implies pev(bx, #[trigger] dpt(kk, i)) == pev(cc.gate_constraint.f_bx, dpt(kk, i)) by { let x = dpt(kk, i); lemma_zh_zero(kk, i as nat); r_bl0(b4, b3, x, pev(cc.gate_constraint.f_bx, x)); assert(pev(bx, x) == p_bl(b3, b4, x, zh(domain.n as int, x), pev(cc.gate_constraint.f_bx, x))); } assert(blinded(cc.gate_constraint.f_bx, bx, kk)); assert(fits(bx, n + 2)); }
@after_let cx #2
proof { assert forall|i: int| 0 <= i < n implies pev(cx, #[trigger] dpt(kk, i)) == pev(cc.gate_constraint.f_cx, dpt(kk, i)) by { let x = dpt(kk, i); lemma_zh_zero(kk, i as nat); r_bl0(b6, b5, x, pev(cc.gate_constraint.f_cx, x)); assert(pev(cx, x) == p_bl(b5, b6, x, zh(domain.n as int, x), pev(cc.gate_constraint.f_cx, x))); } assert(blinded(cc.gate_constraint.f_cx, cx, kk)); assert(fits(cx, n + 2)); }
@after_let w
proof { assert(fpow(omega(kk), 0) == fz(1)); assert(fpow(omega(kk), 1) == fmul(fpow(omega(kk), 0), omega(kk))); r_1k(omega(kk)); assert(w == omega(kk)); assert(fpow(omega(kk), 2) == fmul(fpow(omega(kk), 1), omega(kk))); }
@after_let acc_x, acc_wx
let ghost e = choose|e: Seq<Fr>| #[trigger] acc_is(cc, beta, gamma, kk, e, acc_x, acc_wx);
proof { assert(acc_ok(cc, beta, gamma, kk, acc_x, acc_wx)); lemma_acc(cc, beta, gamma, kk, e, acc_x, acc_wx); }
@after_let z_x
proof { assert forall|i: int| 0 <= i < n implies pev(z_x, #[trigger] dpt(kk, i)) == pev(acc_x, dpt(kk, i)) by { let x = dpt(kk, i); lemma_zh_zero(kk, i as nat); r_z0(b9, b8, b7, x, pev(acc_x, x)); assert(pev(z_x, x) == p_z(b7, b8, b9, x, zh(domain.n as int, x), pev(acc_x, x))); } assert(blinded(acc_x, z_x, kk)); assert(fits(z_x, n + 3)); }
@after_let z_wx
proof { assert forall|x: Fr| #[trigger] pev(z_wx, x) == pev(z_x, fmul(w, x)) by { assert(pev(z_x, fmul(w, x)) == p_z(b7, b8, b9, fmul(w, x), zh(domain.n as int, fmul(w, x)), pev(acc_x, fmul(w, x)))); lemma_pow_mul(w, x, n); lemma_omega(kk); r_1k(fpow(x, n)); r_zwx(b7, b8, b9, w, x, zh(domain.n as int, x), pev(acc_wx, x)); }
  assert forall|i: int| 0 <= i < n implies pev(z_wx, #[trigger] dpt(kk, i)) == pev(acc_wx, dpt(kk, i)) by { let x = dpt(kk, i); assert(pev(z_wx, x) == pev(z_x, fmul(w, x))); assert(pev(acc_wx, x) == pev(acc_x, fmul(w, x))); lemma_zh_zero(kk, (i + 1) as nat); r_comm(w, x); assert(fpow(w, (i + 1) as nat) == fmul(x, w)); r_z0(b9, b8, b7, fmul(w, x), pev(acc_x, fmul(w, x))); assert(pev(z_x, fmul(w, x)) == p_z(b7, b8, b9, fmul(w, x), zh(domain.n as int, fmul(w, x)), pev(acc_x, fmul(w, x)))); } assert(blinded(acc_wx, z_wx, kk)); assert(fits(z_wx, n + 3)); }
@after_let z_commit
let ghost hh2 = hh1.push(z_commit);
proof { lemma_state(hh2); }
@after_let alpha
proof { lemma_van(cc, kk, alpha, beta, gamma, e, acc_x, acc_wx, ax, bx, cx, z_x, z_wx); assert(sat(cc, kk) ==> copy_eq(cc, beta, gamma, kk)); }
@after_let tx
v_nonempty(&tx.coeffs);
let ghost t = tx;
proof { assert(quot_is(cc, kk, alpha, beta, gamma, ax, bx, cx, z_x, z_wx, t)); }
@after_let slice_poly
assert(sm(slice_poly) <= n + 2);
@after_let t_hi_commit
let ghost hh3 = hh2.push(t_lo_commit).push(t_mid_commit).push(t_hi_commit);
proof { lemma_state(hh3); }
@after_let bar_z_w
proof { r_comm(evaluation_challenge, w); assert(bar_z_w == pev(z_wx, evaluation_challenge)); }
let ghost hh4 = hh3.push(cg(bar_a)).push(cg(bar_b)).push(cg(bar_c)).push(cg(bar_s_sigma_1)).push(cg(bar_s_sigma_2)).push(cg(bar_z_w));
proof { lemma_state(hh4); }
@after_let bar_r
proof { assert(pev(r_x, evaluation_challenge) == bar_r); assert(recombined(slice_poly, evaluation_challenge) == peval(t.coeffs@, evaluation_challenge)); lemma_bar_r(cc, kk, alpha, beta, gamma, evaluation_challenge, ax, bx, cx, z_x, z_wx, t, tx_compact); assert(bar_r == fz(0)); }
@after_let w_ev_x
let ghost wp = w_ev_x;
proof { let y = evaluation_challenge; r_w0(bar_r, bar_a, bar_b, bar_c, bar_s_sigma_1, bar_s_sigma_2, v); assert(pev(w_ev_x, y) == fz(0)); r_negneg(y); r_nm(y, w); r_negneg(fmul(y, w)); }
@after_let w_ev_x #2
proof { assert forall|x: Fr| fmul(#[trigger] pev(w_ev_x, x), fsub(x, evaluation_challenge)) == pev(wp, x) by { r_nadd(evaluation_challenge, x); assert(pev(wp, x) == pev(wp, x)); } assert(fits(w_ev_x, n + 3)); }
@after_let w_ev_wx
let ghost wwp = w_ev_wx;
proof { let y = fmul(evaluation_challenge, w); lemma_sub0(bar_z_w, bar_z_w); assert(pev(w_ev_wx, y) == fz(0)); }
@after_let w_ev_wx #2
proof { assert forall|x: Fr| fmul(#[trigger] pev(w_ev_wx, x), fsub(x, fmul(evaluation_challenge, w))) == fsub(pev(z_x, x), bar_z_w) by { r_nadd(fmul(evaluation_challenge, w), x); r_nadd2(evaluation_challenge, w, x); assert(pev(wwp, x) == fsub(pev(z_x, x), bar_z_w)); } assert(fits(w_ev_wx, n + 3)); }
@after_let w_ev_wx_commit
let ghost hh5 = hh4.push(w_ev_x_commit).push(w_ev_wx_commit);
proof { lemma_state(hh5); }
@after_let u
let ghost pf = Proof { a_commit, b_commit, c_commit, z_commit, t_lo_commit, t_mid_commit, t_hi_commit, w_ev_x_commit, w_ev_wx_commit, bar_a, bar_b, bar_c, bar_s_sigma_1, bar_s_sigma_2, bar_z_w, u, degree: slice_poly.degree };
proof { assert(h1(pf) == hh1); assert(h2(pf) == hh2); assert(h3(pf) == hh3); assert(h4(pf) == hh4); assert(h5(pf) == hh5); assert(beta == ch(hh1, 0)); assert(gamma == ch(hh1, 1)); assert(alpha == ch(hh2, 0)); assert(evaluation_challenge == ch(hh3, 0));
  assert forall|s: Fr| #[trigger] srs_wf(srs, s) && ch(h3(pf), 0) != fz(1) implies accepts(cc, pf, s) by {
    assert(pev(wp, s) == p_w(pev(r_x, s), pev(ax, s), pev(bx, s), pev(cx, s), pev(cc.copy_constraint.s_sigma_1, s), pev(cc.copy_constraint.s_sigma_2, s), bar_r, bar_a, bar_b, bar_c, bar_s_sigma_1, bar_s_sigma_2, v));
    assert(coms_are(scheme.0, slice_poly, __arr4@, 3));
    assert(com_is(srs, slice_poly.slices[0].coeffs@, t_lo_commit.0) && com_is(srs, slice_poly.slices[1].coeffs@, t_mid_commit.0) && com_is(srs, slice_poly.slices[2].coeffs@, t_hi_commit.0));
    assert(pev(r_x, s) == pev(r_x, s)); assert(pev(tx_compact, s) == pev(tx_compact, s));
    assert(v == ch(hh4, 0)); assert(u == ch(hh5, 0));
    assert(lg(a_commit.0) == pev(ax, s) && lg(b_commit.0) == pev(bx, s) && lg(c_commit.0) == pev(cx, s)); assert(lg(z_commit.0) == pev(z_x, s)); assert(lg(t_lo_commit.0) == pev(slice_poly.slices[0], s) && lg(t_mid_commit.0) == pev(slice_poly.slices[1], s) && lg(t_hi_commit.0) == pev(slice_poly.slices[2], s));
    assert(lg(w_ev_x_commit.0) == pev(w_ev_x, s) && lg(w_ev_wx_commit.0) == pev(w_ev_wx, s));
    assert(pev(tx_compact, s) == comp_at(slice_poly, evaluation_challenge, s));
    assert(fmul(pev(w_ev_x, s), fsub(s, evaluation_challenge)) == pev(wp, s)); assert(fmul(pev(w_ev_wx, s), fsub(s, fmul(evaluation_challenge, w))) == fsub(pev(z_x, s), bar_z_w));
    assert(made(cc, pf, s, kk, ax, bx, cx, z_x, slice_poly, tx_compact, r_x, w_ev_x, w_ev_wx)); lemma_accept(cc, pf, s, kk, ax, bx, cx, z_x, slice_poly, tx_compact, r_x, w_ev_x, w_ev_wx); } }
@stop domain b1 b2 b3 b4 b5 b6 b7 b8 b9 w v bar_r bar_a bar_b bar_c bar_s_sigma_1 bar_s_sigma_2 bar_z_w acc_x acc_wx
@poly ^compiled_circuit\.gate_constraints\(\)\.(\w+)\(\)$ => pev(compiled_circuit.gate_constraint.\1, $x)
@poly ^compiled_circuit\.copy_constraints\(\)\.(s_\w+)\(\)$ => pev(compiled_circuit.copy_constraint.\1, $x)
@poly ^(acc_x|acc_wx)$ => pev(\1, $x)
@call poly_sub_para => A - B
@atom ^domain\.element\(2\)$ => =w*w
@autoring ax #2 poly | p_bl(b1; b2; x; zh(domain.n as int, x); pev(compiled_circuit.gate_constraint.f_ax, x))
@autoring bx #2 poly | p_bl(b3; b4; x; zh(domain.n as int, x); pev(compiled_circuit.gate_constraint.f_bx, x))
@autoring cx #2 poly | p_bl(b5; b6; x; zh(domain.n as int, x); pev(compiled_circuit.gate_constraint.f_cx, x))
@autoring z_x poly | p_z(b7; b8; b9; x; zh(domain.n as int, x); pev(acc_x, x))
@autoring z_wx poly | p_zw(b7; b8; b9; w; x; zh(domain.n as int, x); pev(acc_wx, x))
@stop ax bx cx z_x r_x
@poly ^(ax|bx|cx|z_x|r_x)$ => pev(\1, $x)
@autoring w_ev_x #1 poly | p_w(pev(r_x, x); pev(ax, x); pev(bx, x); pev(cx, x); pev(compiled_circuit.copy_constraint.s_sigma_1, x); pev(compiled_circuit.copy_constraint.s_sigma_2, x); bar_r; bar_a; bar_b; bar_c; bar_s_sigma_1; bar_s_sigma_2; v)
@autoring w_ev_wx #1 poly | p_sub(pev(z_x, x); bar_z_w)
@spec p_sub | a b | a - b
@raw
// ---- the copy constraints: products over the wires; wire w = 3 i + j is the wire of column j in row i
pub open spec fn sprod(s: Seq<Fr>) -> Fr decreases s.len() { if s.len() == 0 { fz(1) } else { fmul(sprod(s.drop_last()), s.last()) } }
pub open spec fn wv(cc: CompiledCircuit, k: nat, w: int) -> Fr { let g = cc.gate_constraint; let x = dpt(k, w / 3); if w % 3 == 0 { pev(g.f_ax, x) } else if w % 3 == 1 { pev(g.f_bx, x) } else { pev(g.f_cx, x) } }
/// the label of the wire, and the label the permutation gives it
pub open spec fn wid(cc: CompiledCircuit, k: nat, w: int) -> Fr { let c = cc.copy_constraint; let x = dpt(k, w / 3); if w % 3 == 0 { x } else if w % 3 == 1 { fmul(c.k1, x) } else { fmul(c.k2, x) } }
pub open spec fn wsg(cc: CompiledCircuit, k: nat, w: int) -> Fr { let c = cc.copy_constraint; let x = dpt(k, w / 3); if w % 3 == 0 { pev(c.s_sigma_1, x) } else if w % 3 == 1 { pev(c.s_sigma_2, x) } else { pev(c.s_sigma_3, x) } }
pub open spec fn fac(v: Fr, l: Fr, be: Fr, ga: Fr) -> Fr { fadd(fadd(v, fmul(be, l)), ga) }
pub open spec fn nums(cc: CompiledCircuit, be: Fr, ga: Fr, k: nat, m: nat) -> Seq<Fr> { Seq::new(m, |w: int| fac(wv(cc, k, w), wid(cc, k, w), be, ga)) }
pub open spec fn dens(cc: CompiledCircuit, be: Fr, ga: Fr, k: nat, m: nat) -> Seq<Fr> { Seq::new(m, |w: int| fac(wv(cc, k, w), wsg(cc, k, w), be, ga)) }
@end
@ring r_fl3 | p q r s | ((p*q)*r)*s == p*(q*r*s)
@ring r_flk | v be k x ga | v + be*(k*x) + ga == v + be*k*x + ga
@raw
pub proof fn lemma_prod3(s: Seq<Fr>) requires s.len() >= 3 ensures ({ let n = s.len() as int; sprod(s) == fmul(sprod(s.take(n - 3)), fmul(fmul(s[n - 3], s[n - 2]), s[n - 1])) })
{ let n = s.len() as int; let a = s.drop_last(); let b = a.drop_last(); assert(b.drop_last() =~= s.take(n - 3)); assert(sprod(b) == fmul(sprod(s.take(n - 3)), s[n - 3])); assert(sprod(a) == fmul(sprod(b), s[n - 2])); assert(sprod(s) == fmul(sprod(a), s[n - 1])); r_fl3(sprod(s.take(n - 3)), s[n - 3], s[n - 2], s[n - 1]); }
pub proof fn lemma_flat(cc: CompiledCircuit, be: Fr, ga: Fr, k: nat, n: nat) ensures sprod(nums(cc, be, ga, k, 3 * n)) == pnum(cc, be, ga, k, n), sprod(dens(cc, be, ga, k, 3 * n)) == pden(cc, be, ga, k, n) decreases n
{ if n > 0 { let m = (n - 1) as nat; lemma_flat(cc, be, ga, k, m); let (s, t) = (nums(cc, be, ga, k, 3 * n), dens(cc, be, ga, k, 3 * n)); let g = cc.gate_constraint; let c = cc.copy_constraint; let x = dpt(k, n - 1);
    lemma_prod3(s); lemma_prod3(t); assert(s.take(3 * n - 3) =~= nums(cc, be, ga, k, 3 * m)); assert(t.take(3 * n - 3) =~= dens(cc, be, ga, k, 3 * m));
    assert((3 * n - 3) / 3 == n - 1 && (3 * n - 2) / 3 == n - 1 && (3 * n - 1) / 3 == n - 1 && (3 * n - 3) % 3 == 0 && (3 * n - 2) % 3 == 1 && (3 * n - 1) % 3 == 2);
    r_flk(pev(g.f_bx, x), be, c.k1, x, ga); r_flk(pev(g.f_cx, x), be, c.k2, x, ga);
    assert(s[3 * n - 3] == fac(wv(cc, k, 3 * n - 3), wid(cc, k, 3 * n - 3), be, ga)); assert(s[3 * n - 2] == fac(wv(cc, k, 3 * n - 2), wid(cc, k, 3 * n - 2), be, ga)); assert(s[3 * n - 1] == fac(wv(cc, k, 3 * n - 1), wid(cc, k, 3 * n - 1), be, ga));
    assert(t[3 * n - 3] == fac(wv(cc, k, 3 * n - 3), wsg(cc, k, 3 * n - 3), be, ga)); assert(t[3 * n - 2] == fac(wv(cc, k, 3 * n - 2), wsg(cc, k, 3 * n - 2), be, ga)); assert(t[3 * n - 1] == fac(wv(cc, k, 3 * n - 1), wsg(cc, k, 3 * n - 1), be, ga));
    assert(fmul(fmul(s[3 * n - 3], s[3 * n - 2]), s[3 * n - 1]) == num_at(cc, be, ga, x)); assert(fmul(fmul(t[3 * n - 3], t[3 * n - 2]), t[3 * n - 1]) == den_at(cc, be, ga, x)); } }
@end
@ring r_pm3 | p a b | (p*a)*b == (p*b)*a
@raw
pub proof fn lemma_sprod_remove(s: Seq<Fr>, i: int) requires 0 <= i < s.len() ensures sprod(s) == fmul(sprod(s.remove(i)), s[i]) decreases s.len()
{ if i == s.len() - 1 { assert(s.remove(i) =~= s.drop_last()); } else { let d = s.drop_last(); lemma_sprod_remove(d, i); assert(s.remove(i).drop_last() =~= d.remove(i)); assert(s.remove(i).last() == s.last()); r_pm3(sprod(d.remove(i)), s[i], s.last()); } }
pub proof fn lemma_onto(p: Seq<int>, v: int) requires isperm(p), 0 <= v < p.len() ensures exists|i: int| 0 <= i < p.len() && #[trigger] p[i] == v
{ if forall|i: int| 0 <= i < p.len() ==> #[trigger] p[i] != v { p.unique_seq_to_set(); let n = p.len() as int; let r = vstd::set_lib::set_int_range(0, n); vstd::set_lib::lemma_int_range(0, n);
    assert(p.to_set().subset_of(r.remove(v))); vstd::set_lib::lemma_len_subset(p.to_set(), r.remove(v)); assert(r.contains(v)); assert(r.remove(v).len() == n - 1); } }
/// the factors of a product may be rearranged
pub proof fn lemma_perm(f: Seq<Fr>, p: Seq<int>) requires isperm(p), p.len() == f.len() ensures sprod(Seq::new(p.len(), |i: int| f[p[i]])) == sprod(f) decreases f.len()
{ let n = f.len() as int; let s = Seq::new(p.len(), |i: int| f[p[i]]);
  if n > 0 { lemma_onto(p, n - 1); let j = choose|i: int| 0 <= i < p.len() && #[trigger] p[i] == n - 1; let q = p.remove(j); let d = f.drop_last();
    assert forall|i: int| 0 <= i < q.len() implies 0 <= #[trigger] q[i] < q.len() by { if i < j { assert(q[i] == p[i]); } else { assert(q[i] == p[i + 1]); } }
    assert(q.no_duplicates()) by { assert forall|a: int, b: int| 0 <= a < q.len() && 0 <= b < q.len() && a != b implies q[a] != q[b] by { let x = if a < j { a } else { a + 1 }; let y = if b < j { b } else { b + 1 }; assert(q[a] == p[x] && q[b] == p[y]); } }
    lemma_perm(d, q); lemma_sprod_remove(s, j); assert(s.remove(j) =~= Seq::new(q.len(), |i: int| d[q[i]])); } }
// ---- circuits
pub open spec fn compiled(a: CompiledCircuit, c: Circuit, k: nat) -> bool { compiled_is(a, c) && cwf(c) && linked(c) && k <= 28 && a.size == p2(k) && a.size >= c.gates@.len() }
pub proof fn lemma_wired(c: Circuit, m: nat) requires wired(c.gates@, c.gates@.len()), m >= c.gates@.len() ensures wired(c.gates@, m) { }
/// the values and labels of the wires at the points of the domain
pub proof fn lemma_wires(a: CompiledCircuit, c: Circuit, k: nat, w: int) requires compiled(a, c, k), 0 <= w < 3 * p2(k)
  ensures wv(a, k, w) == value(c, w), wsg(a, k, w) == wid(a, k, targets(c.gates@, 3 * p2(k))[w]), 0 <= targets(c.gates@, 3 * p2(k))[w] < 3 * p2(k)
{ lemma_p2_28(); lemma_p2_mono(k, 28); lemma_small(c, k); let i = w / 3; lemma_rows(a, c, i); let j = choose|j: nat| j <= 32 && a.size == #[trigger] p2(j) && is_np2(c.gates@.len() as int, p2(j) as int) && row_is(a, c, i, fpow(omega(j), i as nat), j); lemma_p2_inj(j, k);
  let n = c.gates@.len(); lemma_k12(a, c, k); let q = a.copy_constraint;
  if i < n { let g = c.gates@[i]; assert(g.a_pos != Position::Dummy); let t = wire(g, w % 3); assert(in_range(t, n)); let z = t->Pos_0 as int; let r = t->Pos_1 as int; assert(targets(c.gates@, 3 * p2(k))[w] == 3 * r + z); assert((3 * r + z) / 3 == r && (3 * r + z) % 3 == z); assert(wsg(a, k, w) == lab(t, k)); r_comm(dpt(k, r), fz(2)); r_comm(dpt(k, r), fz(3)); }
  else { assert(targets(c.gates@, 3 * p2(k))[w] == w); r_comm(dpt(k, i), fz(2)); r_comm(dpt(k, i), fz(3)); } }
pub proof fn lemma_small(c: Circuit, k: nat) requires c.gates@.len() <= p2(k), k <= 28, wired(c.gates@, c.gates@.len()) ensures small(c.gates@.len()), p2(k) <= 0x1000_0000, wired(c.gates@, np2(c.gates@.len() as int) as nat)
{ lemma_p2_28(); lemma_p2_mono(k, 28); lemma_np2(c.gates@.len()); lemma_wired(c, np2(c.gates@.len() as int) as nat); }
pub proof fn lemma_k12(a: CompiledCircuit, c: Circuit, k: nat) requires compiled(a, c, k) ensures a.copy_constraint.k1 == fz(2), a.copy_constraint.k2 == fz(3)
{ let g = choose|g: Seq<Gate>| #[trigger] padded(c.gates@, g) && sel_is(a.gate_constraint, g, k) && perm_is(a.copy_constraint, g, k); }
/// padding wires are their own targets
pub proof fn lemma_targets(c: Circuit, k: nat) requires linked(c), c.gates@.len() <= p2(k) ensures isperm(targets(c.gates@, 3 * p2(k)))
{ let n = c.gates@.len(); let (s, t) = (targets(c.gates@, 3 * n), targets(c.gates@, 3 * p2(k)));
  assert forall|w: int| 0 <= w < t.len() implies 0 <= #[trigger] t[w] < t.len() by { if w < 3 * n { assert(t[w] == s[w]); } }
  assert forall|x: int, y: int| 0 <= x < t.len() && 0 <= y < t.len() && x != y implies t[x] != t[y] by { if x < 3 * n { assert(t[x] == s[x]); } if y < 3 * n { assert(t[y] == s[y]); } } }
/// the compiled circuit has the form the prover needs
pub proof fn lemma_ccwf(a: CompiledCircuit, c: Circuit, k: nat) requires compiled(a, c, k) ensures ccwf(a, k)
{ lemma_small(c, k); ax_adic32(k); let n = p2(k); let g = choose|g: Seq<Gate>| #[trigger] padded(c.gates@, g) && sel_is(a.gate_constraint, g, k) && perm_is(a.copy_constraint, g, k);
  ax_ifft(ppad(col(c, 0), n), k); ax_ifft(ppad(col(c, 1), n), k); ax_ifft(ppad(col(c, 2), n), k); ax_ifft(qcol(g, 0), k); ax_ifft(qcol(g, 1), k); ax_ifft(qcol(g, 2), k); ax_ifft(qcol(g, 3), k); ax_ifft(qcol(g, 4), k); ax_ifft(qcol(g, 5), k); ax_ifft(scol(g, 0, k), k); ax_ifft(scol(g, 1, k), k); ax_ifft(scol(g, 2, k), k); }
/// the gate polynomial vanishes on the domain exactly when the equations of all rows hold
pub proof fn lemma_gates(a: CompiledCircuit, c: Circuit, k: nat) requires compiled(a, c, k) ensures gates_ok(a, k) == rows_hold(c)
{ lemma_small(c, k); let n = c.gates@.len(); let g = a.gate_constraint;
  assert forall|i: int| 0 <= i < p2(k) implies #[trigger] gate_at(a, dpt(k, i)) == (if i < n { gate_eq(c.gates@[i], col(c, 0)[i], col(c, 1)[i], col(c, 2)[i]) } else { fz(0) }) by {
    lemma_rows(a, c, i); let j = choose|j: nat| j <= 32 && a.size == #[trigger] p2(j) && is_np2(n as int, p2(j) as int) && row_is(a, c, i, fpow(omega(j), i as nat), j); lemma_p2_inj(j, k);
    if i < n { let h = c.gates@[i]; r_geq(col(c, 0)[i], col(c, 1)[i], col(c, 2)[i], h.q_m, h.q_l, h.q_r, h.q_o, h.q_c, h.pi); } else { r_geq0(); } }
  if gates_ok(a, k) { assert forall|i: int| 0 <= i < n implies #[trigger] row_holds(c, i) by { assert(gate_at(a, dpt(k, i)) == fz(0)); } }
  if rows_hold(c) { assert forall|i: int| 0 <= i < p2(k) implies gate_at(a, #[trigger] dpt(k, i)) == fz(0) by { if i < n { assert(row_holds(c, i)); } } } }
@end
@ring r_geq | a b c m l r o q p | p_gate(a, b, c, m, l, r, o, q, p) == m*a*b + l*a + r*b + o*c + q + p
@ring r_geq0 | | p_gate(0, 0, 0, 0, 0, 0, 0, 0, 0) == 0
@lemma p07_a_satisfied_circuit_compiles_to_a_satisfied_one P07
/// the compiled form of a circuit whose gates and links hold satisfies what the prover needs
pub proof fn p07_a_satisfied_circuit_compiles_to_a_satisfied_one(a: CompiledCircuit, c: Circuit, k: nat)
  requires compiled(a, c, k), rows_hold(c), copies_hold(c)
  ensures ccwf(a, k), sat(a, k)
{ lemma_ccwf(a, c, k); lemma_gates(a, c, k); lemma_targets(c, k); let n = c.gates@.len(); let t = targets(c.gates@, 3 * p2(k));
  assert forall|be: Fr, ga: Fr| #[trigger] copy_eq(a, be, ga, k) by { let (p, d) = (nums(a, be, ga, k, 3 * p2(k)), dens(a, be, ga, k, 3 * p2(k))); lemma_flat(a, be, ga, k, p2(k)); lemma_perm(p, t);
    assert forall|w: int| 0 <= w < 3 * p2(k) implies #[trigger] d[w] == p[t[w]] by { lemma_wires(a, c, k, w); lemma_wires(a, c, k, t[w]); if w < 3 * n { assert(t[w] == targets(c.gates@, 3 * n)[w]); } }
    assert(d =~= Seq::new(t.len(), |i: int| p[t[i]])); } }
@raw
pub proof fn lemma_np2_min(n: nat, k: nat, j: nat) requires is_np2(n as int, p2(k) as int), p2(j) >= n ensures k <= j
{ let m = choose|m: nat| p2(k) as int == #[trigger] p2(m) && p2(k) >= n && (forall|i: nat| #[trigger] p2(i) >= n ==> m <= i); lemma_p2_inj(m, k); }
@end
@lemma p07_proved P07
/// a satisfied circuit, compiled and proved: the proof is accepted under every secret the string is made from
pub fn p07_proved(c: Circuit, srs: Srs) -> (r: (CompiledCircuit, Proof))
  requires c.gates@.len() <= 0x1000_0000, cwf(c), linked(c), rows_hold(c), copies_hold(c), srs.g1_points@.len() == np2(c.gates@.len() as int) + 3
  ensures cfits(r.0, srs), csize(r.0), r.1.degree < 0x4000_0000_0000_0000, forall|s: Fr| #[trigger] srs_wf(srs, s) && ch(h3(r.1), 0) != fz(1) ==> accepts(r.0, r.1, s)
{ let ghost n = c.gates@.len(); let ghost c0 = c;
  proof { lemma_np2(n); lemma_p2_28(); }
  let ghost k = choose|k: nat| k <= 32 && np2(n as int) == #[trigger] p2(k) && is_np2(n as int, p2(k) as int);
  proof { if k > 28 { lemma_np2_min(n, k, 28); } lemma_small(c, k); lemma_lk(k); }
  match c.compile() { Ok(a) => {
    proof { assert(compiled(a, c0, k)); p07_a_satisfied_circuit_compiles_to_a_satisfied_one(a, c0, k); }
    let p = generate_proof(&a, srs); (a, p) } Err(e) => vstd::pervasive::unreached() } }
@lemma p07_accepted P07
/// such a proof passes the verifier
pub fn p07_accepted(a: &CompiledCircuit, srs: Srs, p: Proof) -> (r: Result<(), String>)
  requires cfits(*a, srs), csize(*a), p.degree < 0x4000_0000_0000_0000, ch(h3(p), 0) != fz(1), exists|s: Fr| #[trigger] srs_wf(srs, s), forall|s: Fr| #[trigger] srs_wf(srs, s) ==> accepts(*a, p, s)
  ensures r is Ok
{ verify(a, srs, p) }
@lemma p08_gate P08
/// a violated gate equation: generate_proof does not return
pub proof fn p08_gate(a: CompiledCircuit, c: Circuit, k: nat) requires compiled(a, c, k), !rows_hold(c) ensures !gates_ok(a, k) { lemma_gates(a, c, k); }
@raw
/// (r + X) c, and the product of the (s_i + X)
pub open spec fn mulx(c: Seq<Fr>, r: Fr) -> Seq<Fr> { pcomb(r, c, fz(1), seq![fz(0)] + c) }
pub open spec fn ppoly(s: Seq<Fr>) -> Seq<Fr> decreases s.len() { if s.len() == 0 { seq![fz(1)] } else { mulx(ppoly(s.drop_last()), s.last()) } }
pub open spec fn plus(s: Seq<Fr>, x: Fr) -> Seq<Fr> { Seq::new(s.len(), |i: int| fadd(s[i], x)) }
@end
@ring r_mulx | r c x | r*c + 1*(0 + x*c) == c*(r + x)
@raw
pub proof fn lemma_mulx(c: Seq<Fr>, r: Fr, x: Fr) ensures peval(mulx(c, r), x) == fmul(peval(c, x), fadd(r, x)), mulx(c, r).len() == c.len() + 1
{ let d = seq![fz(0)] + c; lemma_comb(r, c, fz(1), d, x); lemma_cons(d, x); assert(d.drop_first() =~= c); r_mulx(r, peval(c, x), x); }
pub proof fn lemma_ppoly(s: Seq<Fr>, x: Fr) ensures peval(ppoly(s), x) == sprod(plus(s, x)), ppoly(s).len() == s.len() + 1 decreases s.len()
{ if s.len() == 0 { let c = seq![fz(1)]; assert(c =~= Seq::<Fr>::empty().push(fz(1))); lemma_ev1(fz(1), x); } else { let d = s.drop_last(); lemma_ppoly(d, x); lemma_mulx(ppoly(d), s.last(), x); assert(plus(s, x).drop_last() =~= plus(d, x)); } }
pub proof fn lemma_sprod_nz(s: Seq<Fr>) requires forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != fz(0) ensures sprod(s) != fz(0) decreases s.len()
{ ax_one(); if s.len() > 0 { let d = s.drop_last(); assert forall|i: int| 0 <= i < d.len() implies #[trigger] d[i] != fz(0) by { assert(d[i] == s[i]); } lemma_sprod_nz(d); assert(s.last() == s[s.len() - 1]); lemma_mul_nz(sprod(d), s.last()); } }
pub proof fn lemma_sprod_zero(s: Seq<Fr>, i: int) requires 0 <= i < s.len(), s[i] == fz(0) ensures sprod(s) == fz(0) { lemma_sprod_remove(s, i); r_k0(sprod(s.remove(i))); }
pub open spec fn nbase(a: CompiledCircuit, be: Fr, k: nat) -> Seq<Fr> { Seq::new(3 * p2(k), |w: int| fadd(wv(a, k, w), fmul(be, wid(a, k, w)))) }
pub open spec fn dbase(a: CompiledCircuit, be: Fr, k: nat) -> Seq<Fr> { Seq::new(3 * p2(k), |w: int| fadd(wv(a, k, w), fmul(be, wsg(a, k, w)))) }
/// wire w and its target carry different values
pub open spec fn broken(c: Circuit, w: int) -> bool { 0 <= w < 3 * c.gates@.len() && value(c, targets(c.gates@, 3 * c.gates@.len())[w]) != value(c, w) }
/// no other wire's factor coincides with the factor of w's target label
pub open spec fn separates(a: CompiledCircuit, c: Circuit, k: nat, w: int, be: Fr) -> bool { let q = targets(c.gates@, 3 * p2(k))[w]; forall|j: int| 0 <= j < 3 * p2(k) && j != q ==> #[trigger] nbase(a, be, k)[j] != fadd(value(c, w), fmul(be, wid(a, k, q))) }
pub proof fn lemma_no_gamma(a: CompiledCircuit, c: Circuit, k: nat, w: int, be: Fr, gs: Seq<Fr>)
  requires compiled(a, c, k), broken(c, w), separates(a, c, k, w, be), distinct(gs), gs.len() >= 3 * p2(k) + 1
  ensures exists|i: int| 0 <= i < gs.len() && !copy_eq(a, be, #[trigger] gs[i], k)
{ if forall|i: int| 0 <= i < gs.len() ==> copy_eq(a, be, #[trigger] gs[i], k) { let m = 3 * p2(k); let (nb, db) = (nbase(a, be, k), dbase(a, be, k)); let q = targets(c.gates@, m)[w]; lemma_wires(a, c, k, w); lemma_wires(a, c, k, q);
    assert(q == targets(c.gates@, 3 * c.gates@.len())[w]);
    assert forall|i: int| 0 <= i < gs.len() implies peval(ppoly(nb), #[trigger] gs[i]) == peval(ppoly(db), gs[i]) by { let g = gs[i]; assert(copy_eq(a, be, g, k)); lemma_ppoly(nb, g); lemma_ppoly(db, g); lemma_flat(a, be, g, k, p2(k)); assert(plus(nb, g) =~= nums(a, be, g, k, m)); assert(plus(db, g) =~= dens(a, be, g, k, m)); }
    let y = fadd(value(c, w), fmul(be, wid(a, k, q))); let x = fneg(y); lemma_ppoly(nb, x); lemma_ppoly(db, x); lemma_agree(ppoly(nb), ppoly(db), gs, x);
    assert(plus(db, x)[w] == fz(0)) by { assert(db[w] == y); r_ppm(y); } lemma_sprod_zero(plus(db, x), w);
    assert forall|j: int| 0 <= j < m implies #[trigger] plus(nb, x)[j] != fz(0) by { r_psub(nb[j], y); lemma_sub0(nb[j], y); if j == q { let z = fmul(be, wid(a, k, q)); r_padd(value(c, q), value(c, w), z); lemma_sub0(value(c, q), value(c, w)); } }
    lemma_sprod_nz(plus(nb, x)); } }
/// different wires have different labels
pub proof fn lemma_labels(a: CompiledCircuit, c: Circuit, k: nat, i: int, j: int) requires compiled(a, c, k), 0 <= i < 3 * p2(k), 0 <= j < 3 * p2(k), i != j ensures wid(a, k, i) != wid(a, k, j)
{ lemma_k12(a, c, k); ax_adic32(k); lemma_distinct(k); let (x, y) = (dpt(k, i / 3), dpt(k, j / 3)); lemma_disjoint(k, (i / 3) as nat, (j / 3) as nat); lemma_disjoint(k, (j / 3) as nat, (i / 3) as nat); r_comm(fz(2), x); r_comm(fz(3), x); r_comm(fz(2), y); r_comm(fz(3), y);
  if i % 3 == j % 3 { assert(i / 3 != j / 3); assert(dpts(k)[i / 3] == x && dpts(k)[j / 3] == y); assert(x != y); lemma_shifts(k); lemma_pow_z(k); if fmul(x, fz(2)) == fmul(y, fz(2)) { lemma_cancel(x, y, fz(2)); } if fmul(x, fz(3)) == fmul(y, fz(3)) { lemma_cancel(x, y, fz(3)); } } }
pub proof fn lemma_pow_z(k: nat) ensures fz(2) != fz(0), fz(3) != fz(0) { assert((2 - 0) % modulus() != 0) by (compute_only); assert((3 - 0) % modulus() != 0) by (compute_only); lemma_fz_ne(2, 0); lemma_fz_ne(3, 0); }
/// the challenges that do not separate: at most one for every wire
pub open spec fn bad_betas(a: CompiledCircuit, c: Circuit, k: nat, w: int) -> Seq<Fr> { let q = targets(c.gates@, 3 * p2(k))[w]; Seq::new(3 * p2(k), |j: int| fmul(fsub(value(c, w), wv(a, k, j)), finv(fsub(wid(a, k, j), wid(a, k, q))))) }
@end
@ring r_ppm | y | y + (-y) == 0
@ring r_psub | a y | a + (-y) == a - y
@ring r_padd | a b z | (a + z) - (b + z) == a - b
@ring r_bb | v u be x y i | ((v + be*x) - (u + be*y))*i == be*((x - y)*i) - (u - v)*i
@ring r_b1 | b p | b*1 - p == b - p
@lemma p08_copy P08
/// a violated copy constraint: for all but at most 3n values of beta, at most 3n values of gamma let the products agree; for every other challenge generate_proof (by its contract) does not return unless alpha is zero
pub proof fn p08_copy(a: CompiledCircuit, c: Circuit, k: nat, w: int, be: Fr, gs: Seq<Fr>)
  requires compiled(a, c, k), broken(c, w), !bad_betas(a, c, k, w).contains(be), distinct(gs), gs.len() >= 3 * p2(k) + 1
  ensures bad_betas(a, c, k, w).len() == 3 * p2(k), exists|i: int| 0 <= i < gs.len() && !copy_eq(a, be, #[trigger] gs[i], k)
{ let q = targets(c.gates@, 3 * p2(k))[w]; lemma_wires(a, c, k, w);
  assert forall|j: int| 0 <= j < 3 * p2(k) && j != q implies #[trigger] nbase(a, be, k)[j] != fadd(value(c, w), fmul(be, wid(a, k, q))) by { lemma_labels(a, c, k, j, q); let (v, u, x, y) = (wv(a, k, j), value(c, w), wid(a, k, j), wid(a, k, q)); let i = finv(fsub(x, y)); lemma_sub0(x, y); ax_inv(fsub(x, y));
    if fadd(v, fmul(be, x)) == fadd(u, fmul(be, y)) { lemma_sub0(fadd(v, fmul(be, x)), fadd(u, fmul(be, y))); r_bb(v, u, be, x, y, i); r_z1(i); r_b1(be, fmul(fsub(u, v), i)); lemma_sub0(be, fmul(fsub(u, v), i)); assert(bad_betas(a, c, k, w)[j] == be); } }
  lemma_no_gamma(a, c, k, w, be, gs); }
@ring r_z1 | i | 0*i == 0
@lemma p08_challenges P08
/// what is left of the products' agreement at one pair of challenges: with alpha not zero generate_proof returns only where they agree
pub fn p08_challenges(a: &CompiledCircuit, srs: Srs) -> (r: Proof)
  requires ccwf(*a, lk(a.size as int)), srs.g1_points@.len() >= a.size + 3
  ensures gates_ok(*a, lk(a.size as int)), ch(h2(r), 0) != fz(0) ==> copy_eq(*a, ch(h1(r), 0), ch(h1(r), 1), lk(a.size as int))
{ generate_proof(a, srs) }
