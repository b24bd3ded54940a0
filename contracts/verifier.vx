@import kzg circuit challenge slice
@prelude bigint.rs
@files plonk/src/verifier.rs plonk/src/prover.rs
@each broadcast use comms;
@struct Proof
@raw
/// what is absorbed before each challenge
pub open spec fn h1(p: Proof) -> Seq<KzgCommitment> { seq![p.a_commit, p.b_commit, p.c_commit] }
pub open spec fn h2(p: Proof) -> Seq<KzgCommitment> { h1(p).push(p.z_commit) }
pub open spec fn h3(p: Proof) -> Seq<KzgCommitment> { h2(p).push(p.t_lo_commit).push(p.t_mid_commit).push(p.t_hi_commit) }
pub open spec fn cg(x: Fr) -> KzgCommitment { KzgCommitment(gp(x)) }
pub open spec fn h4(p: Proof) -> Seq<KzgCommitment> { h3(p).push(cg(p.bar_a)).push(cg(p.bar_b)).push(cg(p.bar_c)).push(cg(p.bar_s_sigma_1)).push(cg(p.bar_s_sigma_2)).push(cg(p.bar_z_w)) }
pub open spec fn h5(p: Proof) -> Seq<KzgCommitment> { h4(p).push(p.w_ev_x_commit).push(p.w_ev_wx_commit) }
/// the i-th challenge drawn after the history h
pub open spec fn ch(h: Seq<KzgCommitment>, i: nat) -> Fr { challenge(tstate(encs(h))->0, i) }
pub proof fn lemma_state(h: Seq<KzgCommitment>) requires h.len() > 0 ensures tstate(encs(h)) is Some, tstate(encs(h))->0.len() == 32
{ broadcast use ax_sha_len; let e = encs(h); assert(e.len() > 0); assert(absorb(tstate(e.drop_last()), e.last()).len() == 32); }
@end
@spec v_lhs | W X u | W + u*X
@spec v_r0 | pi l1 al be ga a b c s1 s2 zw | pi - l1*al*al - al*(a + be*s1 + ga)*(b + be*s2 + ga)*(c + ga)*zw
@spec v_gate | a b c qm ql qr qo qc | a*b*qm + a*ql + b*qr + c*qo + qc
@spec v_zc | al be ga a b c ze k1 k2 l1 u | (a + be*ze + ga)*(b + be*k1*ze + ga)*(c + be*k2*ze + ga)*al + l1*al*al + u
@spec v_sc | al be ga a b s1 s2 zw | (a + be*s1 + ga)*(b + be*s2 + ga)*al*be*zw
@spec v_t | T0 T1 T2 p1 p2 zh | (T0 + p1*T1 + p2*T2)*zh
@spec v_d | Z T0 T1 T2 p1 p2 zh qm ql qr qo qc g3 al be ga a b c s1 s2 zw ze k1 k2 l1 u | v_gate(a, b, c, qm, ql, qr, qo, qc) + v_zc(al, be, ga, a, b, c, ze, k1, k2, l1, u)*Z - v_sc(al, be, ga, a, b, s1, s2, zw)*g3 - v_t(T0, T1, T2, p1, p2, zh)
@spec v_f | D A B C g1 g2 v | D + v*A + v**2*B + v**3*C + v**4*g1 + v**5*g2
@spec v_e | r0 v u a b c s1 s2 zw | -r0 + v*a + v**2*b + v**3*c + v**4*s1 + v**5*s2 + u*zw
@spec v_rhs | W X A B C Z T0 T1 T2 p1 p2 pw l1 pi qm ql qr qo qc g1 g2 g3 al be ga ze v u w k1 k2 a b c s1 s2 zw | ze*W + u*ze*w*X + v_f(v_d(Z, T0, T1, T2, p1, p2, pw - 1, qm, ql, qr, qo, qc, g3, al, be, ga, a, b, c, s1, s2, zw, ze, k1, k2, l1, u), A, B, C, g1, g2, v) - v_e(v_r0(pi, l1, al, be, ga, a, b, c, s1, s2, zw), v, u, a, b, c, s1, s2, zw)
@raw
pub open spec fn zh_at(n: int, x: Fr) -> Fr { fsub(fpow(x, n as nat), fz(1)) }
pub open spec fn l1_at(n: int, x: Fr) -> Fr { fmul(zh_at(n, x), finv(fmul(fz(n), fsub(x, fz(1))))) }
/// the right-hand side of the protocol's pairing equation, in the exponent, over circuit polynomials at s
pub open spec fn rhs(cc: CompiledCircuit, p: Proof, s: Fr, w: Fr) -> Fr {
  let g = cc.gate_constraint; let k = cc.copy_constraint; let n = cc.size as int; let ze = ch(h3(p), 0);
  v_rhs(lg(p.w_ev_x_commit.0), lg(p.w_ev_wx_commit.0), lg(p.a_commit.0), lg(p.b_commit.0), lg(p.c_commit.0), lg(p.z_commit.0), lg(p.t_lo_commit.0), lg(p.t_mid_commit.0), lg(p.t_hi_commit.0),
    fpow(ze, (p.degree + 1) as nat), fpow(ze, (2 * p.degree + 2) as nat), fpow(ze, n as nat), l1_at(n, ze), pev(g.pi_x, ze),
    pev(g.q_mx, s), pev(g.q_lx, s), pev(g.q_rx, s), pev(g.q_ox, s), pev(g.q_cx, s), pev(k.s_sigma_1, s), pev(k.s_sigma_2, s), pev(k.s_sigma_3, s),
    ch(h2(p), 0), ch(h1(p), 0), ch(h1(p), 1), ze, ch(h4(p), 0), ch(h5(p), 0), w, k.k1, k.k2, p.bar_a, p.bar_b, p.bar_c, p.bar_s_sigma_1, p.bar_s_sigma_2, p.bar_z_w) }
/// the protocol's equation: (W + u W') s == rhs
pub open spec fn equation(cc: CompiledCircuit, p: Proof, s: Fr, w: Fr) -> bool { fmul(v_lhs(lg(p.w_ev_x_commit.0), lg(p.w_ev_wx_commit.0), ch(h5(p), 0)), s) == rhs(cc, p, s, w) }
/// the first point after one of the domain of n points
pub open spec fn wof(n: int) -> Fr { omega(choose|k: nat| n == #[trigger] p2(k)) }
pub open spec fn accepts(cc: CompiledCircuit, p: Proof, s: Fr) -> bool { ch(h5(p), 0) == p.u && equation(cc, p, s, wof(cc.size as int)) }
pub open spec fn fits(q: DensePolynomial, n: nat) -> bool { canon(q.coeffs@) && plen(q) <= n }
/// the polynomials of the circuit fit the reference string
pub open spec fn cfits(cc: CompiledCircuit, srs: Srs) -> bool { let n = srs.g1_points@.len(); let g = cc.gate_constraint; let k = cc.copy_constraint; n > 0
  && fits(g.q_mx, n) && fits(g.q_lx, n) && fits(g.q_rx, n) && fits(g.q_ox, n) && fits(g.q_cx, n) && fits(k.s_sigma_1, n) && fits(k.s_sigma_2, n) && fits(k.s_sigma_3, n) }
/// a domain of the circuit's size exists
pub open spec fn csize(cc: CompiledCircuit) -> bool { exists|k: nat| k <= 32 && cc.size == #[trigger] p2(k) }
@end
@fn get_circuit_commitment | P09 | r
requires cfits(*compiled_circuit, scheme.0)
ensures ({ let g = compiled_circuit.gate_constraint; let k = compiled_circuit.copy_constraint; let q = scheme.0;
 com_is(q, g.q_mx.coeffs@, r.0.0) && com_is(q, g.q_lx.coeffs@, r.1.0) && com_is(q, g.q_rx.coeffs@, r.2.0) && com_is(q, g.q_ox.coeffs@, r.3.0) && com_is(q, g.q_cx.coeffs@, r.4.0) && com_is(q, k.s_sigma_1.coeffs@, r.5.0) && com_is(q, k.s_sigma_2.coeffs@, r.6.0) && com_is(q, k.s_sigma_3.coeffs@, r.7.0) })
@fn verify_challenges | P09 | r
requires scheme.0.g1_points@.len() > 0
ensures r.0 == ch(h2(*proof), 0), r.1 == ch(h1(*proof), 0), r.2 == ch(h1(*proof), 1), r.3 == ch(h3(*proof), 0), forall|s: Fr| #[trigger] srs_wf(scheme.0, s) ==> r.4 == ch(h4(*proof), 0) && r.5 == ch(h5(*proof), 0)
@start
let ghost s0 = choose|s: Fr| srs_wf(scheme.0, s);
proof { lemma_state(h1(*proof)); lemma_state(h2(*proof)); lemma_state(h3(*proof)); lemma_state(h4(*proof)); lemma_state(h5(*proof)); }
@ring r_1w | x | 1*x == x
@raw
pub proof fn lemma_size_nz(k: nat, x: Fr) requires k <= 32, x != fz(1) ensures fz(p2(k) as int) != fz(0), fmul(fz(p2(k) as int), fsub(x, fz(1))) != fz(0)
{ lemma_p2_32(); lemma_p2_mono(k, 32); lemma_p2(k); assert(modulus() > 0x1_0000_0000) by (compute_only); vstd::arithmetic::div_mod::lemma_small_mod(p2(k), modulus() as nat); ax_char(p2(k) as int);
  lemma_sub0(x, fz(1)); lemma_mul_nz(fz(p2(k) as int), fsub(x, fz(1))); }
pub proof fn lemma_wof(k: nat) ensures wof(p2(k) as int) == omega(k) { let j = choose|j: nat| p2(k) as int == #[trigger] p2(j); lemma_p2_inj(k, j); }
@end
@fn verify | P09 | r
requires cfits(*compiled_circuit, srs), csize(*compiled_circuit), proof.degree < 0x4000_0000_0000_0000, ch(h3(proof), 0) != fz(1)
ensures forall|s: Fr| #[trigger] srs_wf(srs, s) ==> (r is Ok) == accepts(*compiled_circuit, proof, s)
@start
broadcast use groups, ax_adic32;
let ghost kk = choose|k: nat| k <= 32 && compiled_circuit.size == #[trigger] p2(k);
proof { lemma_np2_pow(kk); lemma_p2_32(); lemma_p2_mono(kk, 32); lemma_wof(kk); lemma_size_nz(kk, ch(h3(proof), 0)); r_1w(omega(kk)); assert(fpow(omega(kk), 0) == fz(1)); assert(fpow(omega(kk), 1) == fmul(fpow(omega(kk), 0), omega(kk))); }
@after_let w
assert(w == wof(compiled_circuit.size as int));
@after_let l_1_e
assert(l_1_e == l1_at(compiled_circuit.size as int, evaluation_challenge));
@after_let pairing_left_side
proof { assert forall|s: Fr| #[trigger] srs_wf(srs, s) implies pairing_left_side == gpt(fmul(v_lhs(lg(proof.w_ev_x_commit.0), lg(proof.w_ev_wx_commit.0), u), s)) by { } }
@after_let pairing_right_side
proof { assert forall|s: Fr| #[trigger] srs_wf(srs, s) implies pairing_right_side == gpt(rhs(*compiled_circuit, proof, s, w)) by { let y = rhs(*compiled_circuit, proof, s, w); r_mul_one(y); assert(pairing_right_side == gpt(fmul(y, fz(1)))); }
 assert forall|s: Fr| #[trigger] srs_wf(srs, s) implies (pairing_left_side == pairing_right_side) == equation(*compiled_circuit, proof, s, w) by { ax_gpt(rhs(*compiled_circuit, proof, s, w)); ax_gpt(fmul(v_lhs(lg(proof.w_ev_x_commit.0), lg(proof.w_ev_wx_commit.0), u), s)); } }
@stop l_1_e p_i_e w
@atom ^proof\.(\w+)_commit$ => lg(proof.\1_commit.0)
@atom ^(q_\w_c|s_sigma_\d_c)$ => lg(\1.0)
@atom ^(\w+)\.v_pow\(BigInt::new\(\[(.*)\]\)\)$ => fpow(\1, (\2) as nat)
@atom (\w|\))asu64 => \1
@atom ^(fpow.*)\bdomain\.size\(\) => \1domain.n
@atom ^compiled_circuit\.copy_constraints\(\)\.k(\d)\(\)$ => compiled_circuit.copy_constraint.k\1
@autoring pairing_left_side arg0 | v_lhs(lg(proof.w_ev_x_commit.0); lg(proof.w_ev_wx_commit.0); u)
@autoring pairing_right_side arg0 | v_rhs(lg(proof.w_ev_x_commit.0); lg(proof.w_ev_wx_commit.0); lg(proof.a_commit.0); lg(proof.b_commit.0); lg(proof.c_commit.0); lg(proof.z_commit.0); lg(proof.t_lo_commit.0); lg(proof.t_mid_commit.0); lg(proof.t_hi_commit.0); fpow(evaluation_challenge, (proof.degree + 1) as nat); fpow(evaluation_challenge, (2 * proof.degree + 2) as nat); fpow(evaluation_challenge, (domain.n) as nat); l_1_e; p_i_e; lg(q_m_c.0); lg(q_l_c.0); lg(q_r_c.0); lg(q_o_c.0); lg(q_c_c.0); lg(s_sigma_1_c.0); lg(s_sigma_2_c.0); lg(s_sigma_3_c.0); alpha; beta; gamma; evaluation_challenge; v; u; w; compiled_circuit.copy_constraint.k1; compiled_circuit.copy_constraint.k2; proof.bar_a; proof.bar_b; proof.bar_c; proof.bar_s_sigma_1; proof.bar_s_sigma_2; proof.bar_z_w)
@fn verify | P09 | r | as=verify_refuse divq
requires cfits(*compiled_circuit, srs), csize(*compiled_circuit), proof.degree < 0x4000_0000_0000_0000
ensures forall|s: Fr| #[trigger] srs_wf(srs, s) ==> (r is Ok) ==> accepts(*compiled_circuit, proof, s)
@start
broadcast use groups, ax_adic32;
let ghost kk = choose|k: nat| k <= 32 && compiled_circuit.size == #[trigger] p2(k);
proof { lemma_np2_pow(kk); lemma_p2_32(); lemma_p2_mono(kk, 32); lemma_wof(kk); r_1w(omega(kk)); assert(fpow(omega(kk), 0) == fz(1)); assert(fpow(omega(kk), 1) == fmul(fpow(omega(kk), 0), omega(kk))); }
@after_let w
assert(w == wof(compiled_circuit.size as int));
@after_let l_1_e
assert(l_1_e == l1_at(compiled_circuit.size as int, evaluation_challenge));
@after_let pairing_left_side
proof { assert forall|s: Fr| #[trigger] srs_wf(srs, s) implies pairing_left_side == gpt(fmul(v_lhs(lg(proof.w_ev_x_commit.0), lg(proof.w_ev_wx_commit.0), u), s)) by { } }
@after_let pairing_right_side
proof { assert forall|s: Fr| #[trigger] srs_wf(srs, s) implies pairing_right_side == gpt(rhs(*compiled_circuit, proof, s, w)) by { let y = rhs(*compiled_circuit, proof, s, w); r_mul_one(y); assert(pairing_right_side == gpt(fmul(y, fz(1)))); }
 assert forall|s: Fr| #[trigger] srs_wf(srs, s) implies (pairing_left_side == pairing_right_side) == equation(*compiled_circuit, proof, s, w) by { ax_gpt(rhs(*compiled_circuit, proof, s, w)); ax_gpt(fmul(v_lhs(lg(proof.w_ev_x_commit.0), lg(proof.w_ev_wx_commit.0), u), s)); } }
@stop l_1_e p_i_e w
@atom ^proof\.(\w+)_commit$ => lg(proof.\1_commit.0)
@atom ^(q_\w_c|s_sigma_\d_c)$ => lg(\1.0)
@atom ^(\w+)\.v_pow\(BigInt::new\(\[(.*)\]\)\)$ => fpow(\1, (\2) as nat)
@atom (\w|\))asu64 => \1
@atom ^(fpow.*)\bdomain\.size\(\) => \1domain.n
@atom ^compiled_circuit\.copy_constraints\(\)\.k(\d)\(\)$ => compiled_circuit.copy_constraint.k\1
@autoring pairing_left_side arg0 | v_lhs(lg(proof.w_ev_x_commit.0); lg(proof.w_ev_wx_commit.0); u)
@autoring pairing_right_side arg0 | v_rhs(lg(proof.w_ev_x_commit.0); lg(proof.w_ev_wx_commit.0); lg(proof.a_commit.0); lg(proof.b_commit.0); lg(proof.c_commit.0); lg(proof.z_commit.0); lg(proof.t_lo_commit.0); lg(proof.t_mid_commit.0); lg(proof.t_hi_commit.0); fpow(evaluation_challenge, (proof.degree + 1) as nat); fpow(evaluation_challenge, (2 * proof.degree + 2) as nat); fpow(evaluation_challenge, (domain.n) as nat); l_1_e; p_i_e; lg(q_m_c.0); lg(q_l_c.0); lg(q_r_c.0); lg(q_o_c.0); lg(q_c_c.0); lg(s_sigma_1_c.0); lg(s_sigma_2_c.0); lg(s_sigma_3_c.0); alpha; beta; gamma; evaluation_challenge; v; u; w; compiled_circuit.copy_constraint.k1; compiled_circuit.copy_constraint.k2; proof.bar_a; proof.bar_b; proof.bar_c; proof.bar_s_sigma_1; proof.bar_s_sigma_2; proof.bar_z_w)
@lemma p09_a_changed_last_challenge_is_rejected P09
/// of two proofs that differ in the last challenge only, at most one is accepted
pub proof fn p09_a_changed_last_challenge_is_rejected(cc: CompiledCircuit, p: Proof, q: Proof, s: Fr) requires accepts(cc, p, s), q == (Proof { u: q.u, ..p }), q.u != p.u ensures !accepts(cc, q, s)
{ assert(h1(q) =~= h1(p)); }
@lemma p09_altered_proofs_are_rejected P09
/// accepted proofs with the same last challenge and any commitment or evaluation changed: a collision of the hash function, or two different states of the transcript with the same challenge
pub proof fn p09_altered_proofs_are_rejected(cc: CompiledCircuit, p: Proof, q: Proof, s: Fr)
  requires accepts(cc, p, s), accepts(cc, q, s), p.u == q.u, !same_messages(p, q)
  ensures scoll(tcoll(encs(h5(p)), encs(h5(q)))) || (tstate(encs(h5(p))) != tstate(encs(h5(q))) && ch(h5(p), 0) == ch(h5(q), 0))
{ broadcast use groups; let (a, b) = (h5(p), h5(q)); if tstate(encs(a)) == tstate(encs(b)) { lemma_state_history(a, b); if a == b {
  assert(a[0] == p.a_commit && a[1] == p.b_commit && a[2] == p.c_commit && a[3] == p.z_commit && a[4] == p.t_lo_commit && a[5] == p.t_mid_commit && a[6] == p.t_hi_commit && a[7] == cg(p.bar_a) && a[8] == cg(p.bar_b) && a[9] == cg(p.bar_c) && a[10] == cg(p.bar_s_sigma_1) && a[11] == cg(p.bar_s_sigma_2) && a[12] == cg(p.bar_z_w) && a[13] == p.w_ev_x_commit && a[14] == p.w_ev_wx_commit);
  assert(b[0] == q.a_commit && b[1] == q.b_commit && b[2] == q.c_commit && b[3] == q.z_commit && b[4] == q.t_lo_commit && b[5] == q.t_mid_commit && b[6] == q.t_hi_commit && b[7] == cg(q.bar_a) && b[8] == cg(q.bar_b) && b[9] == cg(q.bar_c) && b[10] == cg(q.bar_s_sigma_1) && b[11] == cg(q.bar_s_sigma_2) && b[12] == cg(q.bar_z_w) && b[13] == q.w_ev_x_commit && b[14] == q.w_ev_wx_commit);
  assert(lg(gp(p.bar_a)) == lg(gp(q.bar_a)) && lg(gp(p.bar_b)) == lg(gp(q.bar_b)) && lg(gp(p.bar_c)) == lg(gp(q.bar_c)) && lg(gp(p.bar_s_sigma_1)) == lg(gp(q.bar_s_sigma_1)) && lg(gp(p.bar_s_sigma_2)) == lg(gp(q.bar_s_sigma_2)) && lg(gp(p.bar_z_w)) == lg(gp(q.bar_z_w))); } } }
@raw
pub open spec fn same_messages(p: Proof, q: Proof) -> bool { p.a_commit == q.a_commit && p.b_commit == q.b_commit && p.c_commit == q.c_commit && p.z_commit == q.z_commit && p.t_lo_commit == q.t_lo_commit && p.t_mid_commit == q.t_mid_commit && p.t_hi_commit == q.t_hi_commit && p.w_ev_x_commit == q.w_ev_x_commit && p.w_ev_wx_commit == q.w_ev_wx_commit
  && p.bar_a == q.bar_a && p.bar_b == q.bar_b && p.bar_c == q.bar_c && p.bar_s_sigma_1 == q.bar_s_sigma_1 && p.bar_s_sigma_2 == q.bar_s_sigma_2 && p.bar_z_w == q.bar_z_w }
/// what a difference of the circuit polynomials contributes to the equation
pub open spec fn cdiff(c: CompiledCircuit, d: CompiledCircuit, p: Proof, s: Fr) -> Fr { let (g, h, k, l) = (c.gate_constraint, d.gate_constraint, c.copy_constraint, d.copy_constraint); let ze = ch(h3(p), 0);
  v_diff(fsub(pev(g.q_mx, s), pev(h.q_mx, s)), fsub(pev(g.q_lx, s), pev(h.q_lx, s)), fsub(pev(g.q_rx, s), pev(h.q_rx, s)), fsub(pev(g.q_ox, s), pev(h.q_ox, s)), fsub(pev(g.q_cx, s), pev(h.q_cx, s)),
    fsub(pev(k.s_sigma_1, s), pev(l.s_sigma_1, s)), fsub(pev(k.s_sigma_2, s), pev(l.s_sigma_2, s)), fsub(pev(k.s_sigma_3, s), pev(l.s_sigma_3, s)), fsub(pev(g.pi_x, ze), pev(h.pi_x, ze)),
    ch(h2(p), 0), ch(h1(p), 0), ch(h1(p), 1), ch(h4(p), 0), p.bar_a, p.bar_b, p.bar_c, p.bar_s_sigma_1, p.bar_s_sigma_2, p.bar_z_w) }
@end
@spec v_diff | dm dl dr dx dc d1 d2 d3 dp al be ga v a b c s1 s2 zw | v_gate(a, b, c, dm, dl, dr, dx, dc) + v**4*d1 + v**5*d2 - v_sc(al, be, ga, a, b, s1, s2, zw)*d3 + dp
@ring r_vdiff | W X A B C Z T0 T1 T2 p1 p2 pw l1 al be ga ze v u w k1 k2 a b c s1 s2 zw pi qm ql qr qo qc g1 g2 g3 pj rm rl rr ro rc j1 j2 j3 | v_rhs(W, X, A, B, C, Z, T0, T1, T2, p1, p2, pw, l1, pi, qm, ql, qr, qo, qc, g1, g2, g3, al, be, ga, ze, v, u, w, k1, k2, a, b, c, s1, s2, zw) == v_rhs(W, X, A, B, C, Z, T0, T1, T2, p1, p2, pw, l1, pj, rm, rl, rr, ro, rc, j1, j2, j3, al, be, ga, ze, v, u, w, k1, k2, a, b, c, s1, s2, zw) + v_diff(qm - rm, ql - rl, qr - rr, qo - ro, qc - rc, g1 - j1, g2 - j2, g3 - j3, pi - pj, al, be, ga, v, a, b, c, s1, s2, zw)
@lemma p09_another_circuit P09
/// a proof accepted for two circuits of the same size: the weighted differences of their selectors and permutation polynomials at the secret, and of their public inputs at the evaluation point, cancel
pub proof fn p09_another_circuit(c: CompiledCircuit, d: CompiledCircuit, p: Proof, s: Fr) requires accepts(c, p, s), accepts(d, p, s), c.size == d.size, c.copy_constraint.k1 == d.copy_constraint.k1, c.copy_constraint.k2 == d.copy_constraint.k2 ensures cdiff(c, d, p, s) == fz(0)
{ let (g, h, k, l) = (c.gate_constraint, d.gate_constraint, c.copy_constraint, d.copy_constraint); let ze = ch(h3(p), 0); let n = c.size as int; let w = wof(n);
  r_vdiff(lg(p.w_ev_x_commit.0), lg(p.w_ev_wx_commit.0), lg(p.a_commit.0), lg(p.b_commit.0), lg(p.c_commit.0), lg(p.z_commit.0), lg(p.t_lo_commit.0), lg(p.t_mid_commit.0), lg(p.t_hi_commit.0), fpow(ze, (p.degree + 1) as nat), fpow(ze, (2 * p.degree + 2) as nat), fpow(ze, n as nat), l1_at(n, ze),
    ch(h2(p), 0), ch(h1(p), 0), ch(h1(p), 1), ze, ch(h4(p), 0), ch(h5(p), 0), w, k.k1, k.k2, p.bar_a, p.bar_b, p.bar_c, p.bar_s_sigma_1, p.bar_s_sigma_2, p.bar_z_w,
    pev(g.pi_x, ze), pev(g.q_mx, s), pev(g.q_lx, s), pev(g.q_rx, s), pev(g.q_ox, s), pev(g.q_cx, s), pev(k.s_sigma_1, s), pev(k.s_sigma_2, s), pev(k.s_sigma_3, s),
    pev(h.pi_x, ze), pev(h.q_mx, s), pev(h.q_lx, s), pev(h.q_rx, s), pev(h.q_ox, s), pev(h.q_cx, s), pev(l.s_sigma_1, s), pev(l.s_sigma_2, s), pev(l.s_sigma_3, s));
  assert(rhs(c, p, s, w) == fadd(rhs(d, p, s, w), cdiff(c, d, p, s))); assert(equation(c, p, s, w) && equation(d, p, s, w)); assert(rhs(c, p, s, w) == rhs(d, p, s, w));
  r_cancel(rhs(d, p, s, w), cdiff(c, d, p, s)); r_suba(rhs(d, p, s, w)); }
@ring r_cancel | a b | (a + b) - a == b
@raw
/// only the named polynomials differ
pub open spec fn only(c: CompiledCircuit, d: CompiledCircuit, j: int) -> bool { let (g, h, k, l) = (c.gate_constraint, d.gate_constraint, c.copy_constraint, d.copy_constraint);
  c.size == d.size && k.k1 == l.k1 && k.k2 == l.k2 && (j != 0 ==> g.q_mx == h.q_mx) && (j != 1 ==> g.q_lx == h.q_lx) && (j != 2 ==> g.q_rx == h.q_rx) && (j != 3 ==> g.q_ox == h.q_ox) && (j != 4 ==> g.q_cx == h.q_cx)
  && (j != 5 ==> k.s_sigma_1 == l.s_sigma_1) && (j != 6 ==> k.s_sigma_2 == l.s_sigma_2) && (j != 7 ==> k.s_sigma_3 == l.s_sigma_3) && (j != 8 ==> g.pi_x == h.pi_x) }
pub open spec fn pj(c: CompiledCircuit, j: int) -> DensePolynomial { let (g, k) = (c.gate_constraint, c.copy_constraint); if j == 0 { g.q_mx } else if j == 1 { g.q_lx } else if j == 2 { g.q_rx } else if j == 3 { g.q_ox } else if j == 4 { g.q_cx } else if j == 5 { k.s_sigma_1 } else if j == 6 { k.s_sigma_2 } else if j == 7 { k.s_sigma_3 } else { g.pi_x } }
/// the weight of the polynomial in the equation
pub open spec fn wj(p: Proof, j: int) -> Fr { let v = ch(h4(p), 0); if j == 0 { fmul(p.bar_a, p.bar_b) } else if j == 1 { p.bar_a } else if j == 2 { p.bar_b } else if j == 3 { p.bar_c } else if j == 5 { fmul(fmul(fmul(v, v), v), v) } else if j == 6 { fmul(fmul(fmul(fmul(v, v), v), v), v) } else if j == 7 { v_sc(ch(h2(p), 0), ch(h1(p), 0), ch(h1(p), 1), p.bar_a, p.bar_b, p.bar_s_sigma_1, p.bar_s_sigma_2, p.bar_z_w) } else { fz(1) } }
pub open spec fn xj(p: Proof, s: Fr, j: int) -> Fr { if j == 8 { ch(h3(p), 0) } else { s } }
@end
@ring r_j0 | x al be ga v a b c s1 s2 zw | v_diff(x, 0, 0, 0, 0, 0, 0, 0, 0, al, be, ga, v, a, b, c, s1, s2, zw) == (a*b)*x
@ring r_j1 | x al be ga v a b c s1 s2 zw | v_diff(0, x, 0, 0, 0, 0, 0, 0, 0, al, be, ga, v, a, b, c, s1, s2, zw) == a*x
@ring r_j2 | x al be ga v a b c s1 s2 zw | v_diff(0, 0, x, 0, 0, 0, 0, 0, 0, al, be, ga, v, a, b, c, s1, s2, zw) == b*x
@ring r_j3 | x al be ga v a b c s1 s2 zw | v_diff(0, 0, 0, x, 0, 0, 0, 0, 0, al, be, ga, v, a, b, c, s1, s2, zw) == c*x
@ring r_j4 | x al be ga v a b c s1 s2 zw | v_diff(0, 0, 0, 0, x, 0, 0, 0, 0, al, be, ga, v, a, b, c, s1, s2, zw) == 1*x
@ring r_j5 | x al be ga v a b c s1 s2 zw | v_diff(0, 0, 0, 0, 0, x, 0, 0, 0, al, be, ga, v, a, b, c, s1, s2, zw) == (v*v*v*v)*x
@ring r_j6 | x al be ga v a b c s1 s2 zw | v_diff(0, 0, 0, 0, 0, 0, x, 0, 0, al, be, ga, v, a, b, c, s1, s2, zw) == (v*v*v*v*v)*x
@ring r_j7 | x al be ga v a b c s1 s2 zw | v_diff(0, 0, 0, 0, 0, 0, 0, x, 0, al, be, ga, v, a, b, c, s1, s2, zw) == -(v_sc(al, be, ga, a, b, s1, s2, zw)*x)
@ring r_j8 | x al be ga v a b c s1 s2 zw | v_diff(0, 0, 0, 0, 0, 0, 0, 0, x, al, be, ga, v, a, b, c, s1, s2, zw) == 1*x
@ring r_nn | a | -(-a) == a
@ring r_n0 | | -0 == 0
@lemma p09_one_altered_polynomial P09
/// one selector, permutation or public-input polynomial changed: the proof is only accepted for both circuits when its weight is zero or the two polynomials agree at the secret (at the evaluation point for the public input)
pub proof fn p09_one_altered_polynomial(c: CompiledCircuit, d: CompiledCircuit, p: Proof, s: Fr, j: int) requires accepts(c, p, s), accepts(d, p, s), 0 <= j <= 8, only(c, d, j) ensures wj(p, j) == fz(0) || pev(pj(c, j), xj(p, s, j)) == pev(pj(d, j), xj(p, s, j))
{ p09_another_circuit(c, d, p, s); let x = fsub(pev(pj(c, j), xj(p, s, j)), pev(pj(d, j), xj(p, s, j))); let (al, be, ga, v) = (ch(h2(p), 0), ch(h1(p), 0), ch(h1(p), 1), ch(h4(p), 0)); let (a, b, e, s1, s2, zw) = (p.bar_a, p.bar_b, p.bar_c, p.bar_s_sigma_1, p.bar_s_sigma_2, p.bar_z_w);
  assert forall|y: Fr| #[trigger] fsub(y, y) == fz(0) by { r_suba(y); }
  r_j0(x, al, be, ga, v, a, b, e, s1, s2, zw); r_j1(x, al, be, ga, v, a, b, e, s1, s2, zw); r_j2(x, al, be, ga, v, a, b, e, s1, s2, zw); r_j3(x, al, be, ga, v, a, b, e, s1, s2, zw); r_j4(x, al, be, ga, v, a, b, e, s1, s2, zw); r_j5(x, al, be, ga, v, a, b, e, s1, s2, zw); r_j6(x, al, be, ga, v, a, b, e, s1, s2, zw); r_j7(x, al, be, ga, v, a, b, e, s1, s2, zw); r_j8(x, al, be, ga, v, a, b, e, s1, s2, zw);
  if j == 7 { r_nn(fmul(wj(p, 7), x)); r_n0(); }
  assert(fmul(wj(p, j), x) == fz(0)); ax_dom(wj(p, j), x); lemma_sub0(pev(pj(c, j), xj(p, s, j)), pev(pj(d, j), xj(p, s, j))); }
