@files plonk/src/gate.rs plonk/src/circuit.rs plonk/src/constraint.rs plonk/src/compiled_circuit.rs plonk/src/common_preprocessed_input/cpi_circuit.rs
@each broadcast use comms, units;
@prelude base.rs ring.rs poly.rs domain.rs roots.rs circ.rs
@struct Position eq
@struct Gate
@struct GateType
@struct Circuit
@struct CPICircuit
@struct GateConstraints
@struct CopyConstraints
@struct CompiledCircuit
@raw
global size_of usize == 8;
pub open spec fn odef(o: Option<Fr>) -> Fr { match o { Some(x) => x, None => fz(0) } }
/// q_M a b + q_L a + q_R b + q_O c + q_C + PI
pub open spec fn gate_eq(g: Gate, a: Fr, b: Fr, c: Fr) -> Fr { fadd(fadd(fadd(fadd(fadd(fmul(fmul(g.q_m, a), b), fmul(g.q_l, a)), fmul(g.q_r, b)), fmul(g.q_o, c)), g.q_c), g.pi) }
pub open spec fn at(g: Gate, a: Position, b: Position, c: Position) -> bool { g.a_pos == a && g.b_pos == b && g.c_pos == c }
pub open spec fn add_gate_is(g: Gate, pi: Fr) -> bool { g.q_l == fz(1) && g.q_r == fz(1) && g.q_m == fz(0) && g.q_o == fneg(fz(1)) && g.q_c == fz(0) && g.pi == fneg(pi) }
pub open spec fn mul_gate_is(g: Gate, pi: Fr) -> bool { g.q_l == fz(0) && g.q_r == fz(0) && g.q_m == fz(1) && g.q_o == fneg(fz(1)) && g.q_c == fz(0) && g.pi == fneg(pi) }
pub open spec fn const_gate_is(g: Gate, k: Fr, pi: Fr) -> bool { g.q_l == fz(1) && g.q_r == fz(0) && g.q_m == fz(0) && g.q_o == fz(0) && g.q_c == fneg(k) && g.pi == fneg(pi) }
pub open spec fn dummy_is(g: Gate) -> bool { g.q_l == fz(0) && g.q_r == fz(0) && g.q_m == fz(0) && g.q_o == fz(0) && g.q_c == fz(0) && g.pi == fz(0) && at(g, Position::Dummy, Position::Dummy, Position::Dummy) }
@end
@fn Gate::new_add_gate | P01 | r
ensures at(r, a_pos, b_pos, c_pos), add_gate_is(r, odef(pi))
@fn Gate::new_mul_gate | P01 | r
ensures at(r, a_pos, b_pos, c_pos), mul_gate_is(r, odef(pi))
@fn Gate::new_constant_gate | P01 | r
ensures at(r, a_pos, b_pos, c_pos), const_gate_is(r, constant, odef(pi))
@fn Gate::new_dummy_gate | P01 P02 | r
ensures dummy_is(r)
@fn Gate::is_dummy_gate | P01 P02 | r
ensures r == (self.a_pos == Position::Dummy)
@fn Gate::get_a_wire | P02 | r
ensures *r == self.a_pos
@fn Gate::get_b_wire | P02 | r
ensures *r == self.b_pos
@fn Gate::get_c_wire | P02 | r
ensures *r == self.c_pos
@lemma p01_gate_equations P01
/// the gate equations express exactly the meaning of the gates; a dummy gate imposes nothing
pub proof fn p01_gate_equations(g: Gate, a: Fr, b: Fr, c: Fr, k: Fr, pi: Fr)
  ensures add_gate_is(g, pi) ==> ((gate_eq(g, a, b, c) == fz(0)) == (c == fsub(fadd(a, b), pi))),
    mul_gate_is(g, pi) ==> ((gate_eq(g, a, b, c) == fz(0)) == (c == fsub(fmul(a, b), pi))),
    const_gate_is(g, k, pi) ==> ((gate_eq(g, a, b, c) == fz(0)) == (a == fadd(k, pi))),
    dummy_is(g) ==> gate_eq(g, a, b, c) == fz(0)
{ r_gadd(a, b, c, pi); r_gmul(a, b, c, pi); r_gcon(a, b, c, k, pi); r_gdum(a, b, c);
  lemma_sub0(fsub(fadd(a, b), pi), c); lemma_sub0(fsub(fmul(a, b), pi), c); lemma_sub0(a, fadd(k, pi)); }
@ring r_gadd | a b c p | 0*a*b + 1*a + 1*b + (-1)*c + 0 + (-p) == (a + b - p) - c
@ring r_gmul | a b c p | 1*a*b + 0*a + 0*b + (-1)*c + 0 + (-p) == (a*b - p) - c
@ring r_gcon | a b c k p | 0*a*b + 1*a + 0*b + 0*c + (-k) + (-p) == a - (k + p)
@ring r_gdum | a b c | 0*a*b + 0*a + 0*b + 0*c + 0 + 0 == 0
@raw
pub open spec fn col(c: Circuit, j: int) -> Seq<Fr> { c.vals@[j].v@ }
/// as many values on every wire as gates, none of which is a dummy
pub open spec fn cwf(c: Circuit) -> bool { c.vals@.len() == 3 && (forall|j: int| 0 <= j < 3 ==> (#[trigger] col(c, j)).len() == c.gates@.len()) && (forall|i: int| 0 <= i < c.gates@.len() ==> (#[trigger] c.gates@[i]).a_pos != Position::Dummy) }
pub open spec fn ppos(a: (usize, usize, Fr)) -> Position { Position::Pos(a.0, a.1) }
pub open spec fn qpos(a: (usize, usize)) -> Position { Position::Pos(a.0, a.1) }
/// a gate appended with its wires and its row of values
pub open spec fn added(o: Circuit, n: Circuit, a: (usize, usize, Fr), b: (usize, usize, Fr), c: (usize, usize, Fr)) -> bool {
  cwf(n) && n.gates@.len() == o.gates@.len() + 1 && (forall|i: int| 0 <= i < o.gates@.len() ==> n.gates@[i] == o.gates@[i]) && at(n.gates@.last(), ppos(a), ppos(b), ppos(c))
  && col(n, 0) == col(o, 0).push(a.2) && col(n, 1) == col(o, 1).push(b.2) && col(n, 2) == col(o, 2).push(c.2) }
pub open spec fn cadded(o: CPICircuit, n: CPICircuit, a: (usize, usize), b: (usize, usize), c: (usize, usize)) -> bool {
  n.gates@.len() == o.gates@.len() + 1 && (forall|i: int| 0 <= i < o.gates@.len() ==> n.gates@[i] == o.gates@[i]) && at(n.gates@.last(), qpos(a), qpos(b), qpos(c)) }
@end
@fn Circuit::add_gate | P01 | r
requires cwf(*old(self))
ensures added(*old(self), *final(self), a, b, c),
 gate_type is Addition ==> add_gate_is(final(self).gates@.last(), pi), gate_type is Multiplication ==> mul_gate_is(final(self).gates@.last(), pi), gate_type is Constant ==> const_gate_is(final(self).gates@.last(), a.2, pi)
@start
assert(col(*self, 0).len() == self.gates@.len()); assert(col(*self, 1).len() == self.gates@.len()); assert(col(*self, 2).len() == self.gates@.len());
@fn Circuit::add_addition_gate | P01 | r
requires cwf(*old(self))
ensures added(*old(self), *final(self), a, b, c), add_gate_is(final(self).gates@.last(), pi)
@fn Circuit::add_multiplication_gate | P01 | r
requires cwf(*old(self))
ensures added(*old(self), *final(self), a, b, c), mul_gate_is(final(self).gates@.last(), pi)
@fn Circuit::add_constant_gate | P01 | r
requires cwf(*old(self))
ensures added(*old(self), *final(self), a, b, c), const_gate_is(final(self).gates@.last(), a.2, pi)
@fn CPICircuit::add_addition_gate | P01 | r
ensures cadded(self, r, a, b, c), add_gate_is(r.gates@.last(), pi)
@fn CPICircuit::add_multiplication_gate | P01 | r
ensures cadded(self, r, a, b, c), mul_gate_is(r.gates@.last(), pi)
@fn CPICircuit::add_constant_gate | P01 | r
ensures cadded(self, r, a, b, c), const_gate_is(r.gates@.last(), value, pi)
@fn CPICircuit::add_dummy_gate | P01 P02 | r
ensures final(self).gates@.len() == old(self).gates@.len() + 1, forall|i: int| 0 <= i < old(self).gates@.len() ==> final(self).gates@[i] == old(self).gates@[i], dummy_is(final(self).gates@.last())
@fn Circuit::add_dummy_gate | P01 P02 | r
ensures final(self).gates@.len() == old(self).gates@.len() + 1, forall|i: int| 0 <= i < old(self).gates@.len() ==> final(self).gates@[i] == old(self).gates@[i], dummy_is(final(self).gates@.last()), final(self).vals == old(self).vals
@fn Circuit::Default::default | P01 | r
ensures cwf(r), r.gates@.len() == 0
@raw
/// g followed by dummies up to the next power of two
pub open spec fn padded(g: Seq<Gate>, o: Seq<Gate>) -> bool { o.len() == np2(g.len() as int) && o.len() >= g.len() && (forall|i: int| 0 <= i < g.len() ==> o[i] == g[i]) && (forall|i: int| g.len() <= i < o.len() ==> dummy_is(#[trigger] o[i])) }
pub open spec fn small(n: nat) -> bool { n <= 0x1_0000_0000 }
pub proof fn lemma_np2(n: nat) requires small(n) ensures np2(n as int) >= n, np2(n as int) <= 0x1_0000_0000, exists|k: nat| k <= 32 && np2(n as int) == #[trigger] p2(k) && is_np2(n as int, p2(k) as int)
{ ax_np2(n as int); let k = choose|k: nat| np2(n as int) == #[trigger] p2(k) && np2(n as int) >= n && (forall|j: nat| #[trigger] p2(j) >= n ==> k <= j); lemma_p2_32(); assert(p2(32) >= n); assert(k <= 32); lemma_p2_mono(k, 32); }
pub proof fn lemma_p2_32() ensures p2(32) == 0x1_0000_0000 { reveal_with_fuel(p2, 34); }
/// the i-th value of the column of q: the gate's, zero for padding
pub open spec fn sel(g: Gate, q: int) -> Fr { if q == 0 { g.q_l } else if q == 1 { g.q_r } else if q == 2 { g.q_m } else if q == 3 { g.q_o } else if q == 4 { g.q_c } else { g.pi } }
pub open spec fn qcol(g: Seq<Gate>, q: int) -> Seq<Fr> { Seq::new(g.len(), |i: int| sel(g[i], q)) }
/// the label of a wire: the point of the domain in the coset of the wire's column
pub open spec fn lab(p: Position, k: nat) -> Fr { match p { Position::Pos(c, i) => if c == 0 { fpow(omega(k), i as nat) } else if c == 1 { fmul(fpow(omega(k), i as nat), fz(2)) } else { fmul(fpow(omega(k), i as nat), fz(3)) }, Position::Dummy => fz(0) } }
pub open spec fn plab(p: Position, c: int, i: int, k: nat) -> Fr { if p == Position::Dummy { lab(Position::Pos(c as usize, i as usize), k) } else { lab(p, k) } }
pub open spec fn wire(g: Gate, c: int) -> Position { if c == 0 { g.a_pos } else if c == 1 { wb(g) } else { wc(g) } }
pub open spec fn scol(g: Seq<Gate>, c: int, k: nat) -> Seq<Fr> { Seq::new(g.len(), |i: int| plab(wire(g[i], c), c, i, k)) }
pub open spec fn in_range(p: Position, n: nat) -> bool { match p { Position::Pos(c, i) => c <= 2 && i < n, Position::Dummy => false } }
/// every gate is a dummy or has its three wires on the grid
pub open spec fn wired(g: Seq<Gate>, n: nat) -> bool { forall|i: int| 0 <= i < g.len() ==> (#[trigger] g[i]).a_pos == Position::Dummy || (in_range(g[i].a_pos, n) && in_range(g[i].b_pos, n) && in_range(g[i].c_pos, n)) }
pub open spec fn elems(k: nat) -> Seq<Fr> { Seq::new(p2(k), |i: int| fpow(omega(k), i as nat)) }
pub open spec fn scaled(s: Seq<Fr>, x: Fr) -> Seq<Fr> { Seq::new(s.len(), |i: int| fmul(s[i], x)) }
pub open spec fn perm_is(r: CopyConstraints, g: Seq<Gate>, k: nat) -> bool {
  r.s_sigma_1.coeffs@ == ifft(scol(g, 0, k), k) && r.s_sigma_2.coeffs@ == ifft(scol(g, 1, k), k) && r.s_sigma_3.coeffs@ == ifft(scol(g, 2, k), k) && r.k1 == fz(2) && r.k2 == fz(3) }
/// the b and c wires of a padding gate are its own
pub open spec fn wb(g: Gate) -> Position { if g.a_pos == Position::Dummy { Position::Dummy } else { g.b_pos } }
pub open spec fn wc(g: Gate) -> Position { if g.a_pos == Position::Dummy { Position::Dummy } else { g.c_pos } }
pub open spec fn sel_is(r: GateConstraints, g: Seq<Gate>, k: nat) -> bool {
  r.q_lx.coeffs@ == ifft(qcol(g, 0), k) && r.q_rx.coeffs@ == ifft(qcol(g, 1), k) && r.q_ox.coeffs@ == ifft(qcol(g, 3), k)
  && r.q_mx.coeffs@ == ifft(qcol(g, 2), k) && r.q_cx.coeffs@ == ifft(qcol(g, 4), k) && r.pi_x.coeffs@ == ifft(qcol(g, 5), k) }
pub open spec fn wires_is(r: GateConstraints, v: Seq<Arc<Vec<Fr>>>, k: nat) -> bool {
  r.f_ax.coeffs@ == ifft(ppad(v[0].v@, p2(k)), k) && r.f_bx.coeffs@ == ifft(ppad(v[1].v@, p2(k)), k) && r.f_cx.coeffs@ == ifft(ppad(v[2].v@, p2(k)), k) }
@end
@fn GateConstraints::new | P02 | r
ensures r.f_ax == f_ax, r.f_bx == f_bx, r.f_cx == f_cx, r.q_lx == q_lx, r.q_rx == q_rx, r.q_ox == q_ox, r.q_mx == q_mx, r.q_cx == q_cx, r.pi_x == pi_x
@fn GateConstraints::f_ax | P02 P07 P08 P09 | r
ensures *r == self.f_ax
@fn GateConstraints::f_bx | P02 P07 P08 P09 | r
ensures *r == self.f_bx
@fn GateConstraints::f_cx | P02 P07 P08 P09 | r
ensures *r == self.f_cx
@fn GateConstraints::q_lx | P02 P07 P08 P09 | r
ensures *r == self.q_lx
@fn GateConstraints::q_rx | P02 P07 P08 P09 | r
ensures *r == self.q_rx
@fn GateConstraints::q_ox | P02 P07 P08 P09 | r
ensures *r == self.q_ox
@fn GateConstraints::q_mx | P02 P07 P08 P09 | r
ensures *r == self.q_mx
@fn GateConstraints::q_cx | P02 P07 P08 P09 | r
ensures *r == self.q_cx
@fn GateConstraints::pi_x | P02 P07 P08 P09 | r
ensures *r == self.pi_x
@fn CopyConstraints::new | P02 | r
ensures r.s_sigma_1 == s_sigma_1, r.s_sigma_2 == s_sigma_2, r.s_sigma_3 == s_sigma_3, r.k1 == k1, r.k2 == k2
@fn CopyConstraints::s_sigma_1 | P02 P07 P08 P09 | r
ensures *r == self.s_sigma_1
@fn CopyConstraints::s_sigma_2 | P02 P07 P08 P09 | r
ensures *r == self.s_sigma_2
@fn CopyConstraints::s_sigma_3 | P02 P07 P08 P09 | r
ensures *r == self.s_sigma_3
@fn CopyConstraints::k1 | P02 P07 P08 P09 | r
ensures *r == self.k1
@fn CopyConstraints::k2 | P02 P07 P08 P09 | r
ensures *r == self.k2
@fn CompiledCircuit::new | P02 | r
ensures r.size == size, r.gate_constraint == gate_constraint, r.copy_constraint == copy_constraint
@fn CompiledCircuit::gate_constraints | P02 P07 P08 P09 | r
ensures *r == self.gate_constraint
@fn CompiledCircuit::copy_constraints | P02 P07 P08 P09 | r
ensures *r == self.copy_constraint
@fn Circuit::pad_circuit | P02 | r
requires small(old(self).gates@.len())
ensures padded(old(self).gates@, final(self).gates@), final(self).vals == old(self).vals
@start
let ghost g0 = self.gates@;
proof { lemma_np2(g0.len()); }
@loop 1
invariant self.gates@.len() == __i1, g0.len() <= self.gates@.len(), self.vals == old(self).vals, forall|i: int| 0 <= i < g0.len() ==> self.gates@[i] == g0[i], forall|i: int| g0.len() <= i < self.gates@.len() ==> dummy_is(#[trigger] self.gates@[i])
@fn CPICircuit::pad_circuit | P02 | r
requires small(self.gates@.len())
ensures padded(self.gates@, r.gates@)
@start
let ghost g0 = self.gates@;
proof { lemma_np2(g0.len()); }
@loop 1
invariant self_.gates@.len() == __i1, g0.len() <= self_.gates@.len(), forall|i: int| 0 <= i < g0.len() ==> self_.gates@[i] == g0[i], forall|i: int| g0.len() <= i < self_.gates@.len() ==> dummy_is(#[trigger] self_.gates@[i])
@fn Circuit::find_cosets | P02 | r
requires roots@.len() > 0, roots@[0] == fz(1)
ensures r.0@ == scaled(roots@, fz(2)), r.1@ == scaled(roots@, fz(3)), r.2 == fz(2), r.3 == fz(3)
@start
broadcast use ring;
@loop 1
invariant __L1 == roots@.len(), __v1@ == scaled(roots@, fz(2)).take(__i1 as int), k1 == fz(2), k2 == fz(3)
@loop_end 1
assert(__v1@ =~= scaled(roots@, fz(2)).take(__i1 as int));
@after_loop 1
assert(__v1@ =~= scaled(roots@, fz(2)));
@loop 2
invariant __L2 == roots@.len(), __v2@ == scaled(roots@, fz(3)).take(__i2 as int), k1 == fz(2), k2 == fz(3)
@loop_end 2
assert(__v2@ =~= scaled(roots@, fz(3)).take(__i2 as int));
@after_loop 2
assert(__v2@ =~= scaled(roots@, fz(3)));
@fn CPICircuit::find_cosets | P02 | r
requires small(len as nat)
ensures forall|k: nat| np2(len as int) == #[trigger] p2(k) ==> r.0@ == scaled(elems(k), fz(2)) && r.1@ == scaled(elems(k), fz(3)) && r.2 == fz(2) && r.3 == fz(3)
@start
broadcast use ring, ax_adic32;
proof { lemma_np2(len as nat); }
let ghost kk = choose|k: nat| k <= 32 && np2(len as int) == #[trigger] p2(k) && is_np2(len as int, p2(k) as int);
proof { lemma_dom(len as nat, kk); }
@loop 1
invariant __v1@ == elems(kk).take(__i1 as int), __L1 == p2(kk)
@loop_end 1
assert(__v1@ =~= elems(kk).take(__i1 as int));
@after_loop 1
assert(__v1@ =~= elems(kk));
@after_let k2
proof { assert(fpow(omega(kk), 0) == fz(1)); }
@loop 2
invariant __L2 == roots@.len(), __v2@ == scaled(roots@, fz(2)).take(__i2 as int), k1 == fz(2), k2 == fz(3)
@loop_end 2
assert(__v2@ =~= scaled(roots@, fz(2)).take(__i2 as int));
@after_loop 2
assert(__v2@ =~= scaled(roots@, fz(2)));
@loop 3
invariant __L3 == roots@.len(), __v3@ == scaled(roots@, fz(3)).take(__i3 as int), k1 == fz(2), k2 == fz(3)
@loop_end 3
assert(__v3@ =~= scaled(roots@, fz(3)).take(__i3 as int));
@after_loop 3
assert(__v3@ =~= scaled(roots@, fz(3)));
@post
proof { assert forall|k: nat| np2(len as int) == #[trigger] p2(k) implies r.0@ == scaled(elems(k), fz(2)) && r.1@ == scaled(elems(k), fz(3)) by { lemma_np2(len as nat); let kk = choose|k: nat| k <= 32 && np2(len as int) == #[trigger] p2(k) && is_np2(len as int, p2(k) as int); lemma_p2_inj(k, kk); } }
@raw
/// the domain made for n points
pub proof fn lemma_dom(n: nat, k: nat) requires k <= 32, np2(n as int) == p2(k), is_np2(n as int, p2(k) as int) ensures two_adic(k), p2(k) <= usize::MAX, p2(k) >= 1, forall|j: nat| #[trigger] p2(j) == p2(k) ==> j == k
{ broadcast use ax_adic32; lemma_p2_32(); lemma_p2_mono(k, 32); lemma_p2(k); assert forall|j: nat| #[trigger] p2(j) == p2(k) implies j == k by { lemma_p2_inj(j, k); } }
/// a power of two is its own next power of two
pub proof fn lemma_np2_pow(k: nat) ensures np2(p2(k) as int) == p2(k), is_np2(p2(k) as int, p2(k) as int)
{ ax_np2(p2(k) as int); let r = np2(p2(k) as int); let j = choose|j: nat| r == #[trigger] p2(j) && r >= p2(k) && (forall|i: nat| #[trigger] p2(i) >= p2(k) ==> j <= i); assert(j <= k); lemma_p2_mono(j, k); if j < k { lemma_p2_mono(j, k); lemma_p2(j); }
  assert forall|i: nat| #[trigger] p2(i) >= p2(k) implies k <= i by { if i < k { lemma_p2_mono(i, k); lemma_p2(i); } } }
@end
@fn Circuit::cal_permutation | P02 | r
requires small(self.gates@.len()), exists|k: nat| self.gates@.len() == #[trigger] p2(k), wired(self.gates@, self.gates@.len())
ensures forall|k: nat| self.gates@.len() == #[trigger] p2(k) ==> perm_is(r, self.gates@, k)
@start
broadcast use ring, ax_adic32;
let ghost kk = choose|k: nat| self.gates@.len() == #[trigger] p2(k);
let ghost g = self.gates@;
proof { lemma_np2_pow(kk); lemma_np2(g.len()); let k2 = choose|k: nat| k <= 32 && np2(g.len() as int) == #[trigger] p2(k) && is_np2(g.len() as int, p2(k) as int); lemma_p2_inj(kk, k2); lemma_dom(g.len(), kk); assert(fpow(omega(kk), 0) == fz(1)); }
@loop 1
invariant __v1@ == elems(kk).take(__i1 as int), __L1 == p2(kk)
@loop_end 1
assert(__v1@ =~= elems(kk).take(__i1 as int));
@after_loop 1
assert(__v1@ =~= elems(kk));
@loop 2
invariant __L2 == g.len(), sigma_1@.len() == g.len(), sigma_2@.len() == g.len(), sigma_3@.len() == g.len(), roots@ == elems(kk), coset1@ == scaled(elems(kk), fz(2)), coset2@ == scaled(elems(kk), fz(3)),
 forall|i: int| 0 <= i < g.len() ==> #[trigger] sigma_1@[i] == (if i < __i2 { plab(g[i].a_pos, 0, i, kk) } else { plab(Position::Dummy, 0, i, kk) }),
 forall|i: int| 0 <= i < g.len() ==> #[trigger] sigma_2@[i] == (if i < __i2 { plab(wb(g[i]), 1, i, kk) } else { plab(Position::Dummy, 1, i, kk) }),
 forall|i: int| 0 <= i < g.len() ==> #[trigger] sigma_3@[i] == (if i < __i2 { plab(wc(g[i]), 2, i, kk) } else { plab(Position::Dummy, 2, i, kk) })
@after_loop 2
proof { assert(sigma_1@ =~= scol(g, 0, kk)); assert(sigma_2@ =~= scol(g, 1, kk)); assert(sigma_3@ =~= scol(g, 2, kk)); assert(ppad(sigma_1@, p2(kk)) =~= sigma_1@); assert(ppad(sigma_2@, p2(kk)) =~= sigma_2@); assert(ppad(sigma_3@, p2(kk)) =~= sigma_3@); }
@post
proof { assert forall|k: nat| self.gates@.len() == #[trigger] p2(k) implies perm_is(r, self.gates@, k) by { lemma_p2_inj(k, choose|k: nat| self.gates@.len() == #[trigger] p2(k)); } }
@fn Circuit::get_assignment | P02 | r
requires self.vals@.len() == 3, forall|j: int| 0 <= j < 3 ==> (#[trigger] col(*self, j)).len() <= self.gates@.len(), forall|i: int| 0 <= i < self.gates@.len() ==> ((#[trigger] self.gates@[i]).a_pos != Position::Dummy) == (i < col(*self, 0).len()), col(*self, 1).len() == col(*self, 0).len(), col(*self, 2).len() == col(*self, 0).len()
ensures ({ let m = col(*self, 0).len() as int; let g = self.gates@.take(m);
 has(r@, "vec_a"@, col(*self, 0)) && has(r@, "vec_b"@, col(*self, 1)) && has(r@, "vec_c"@, col(*self, 2))
 && has(r@, "vec_ql"@, qcol(g, 0)) && has(r@, "vec_qr"@, qcol(g, 1)) && has(r@, "vec_qm"@, qcol(g, 2))
 && has(r@, "vec_qo"@, qcol(g, 3)) && has(r@, "vec_qc"@, qcol(g, 4)) && has(r@, "vec_pi"@, qcol(g, 5)) }),
 longest(r@, self.gates@.len() as int)
@start
proof { names(); }
let ghost m = col(*self, 0).len() as int;
let ghost g0 = self.gates@;
@loop 1
invariant longest(result@, __i1 as int), m == col(*self, 0).len(), self.vals@.len() == 3, ({ let n = if __i1 <= m { __i1 as int } else { m }; let g = g0.take(n);
 has(result@, "vec_a"@, col(*self, 0).take(n)) && has(result@, "vec_b"@, col(*self, 1).take(n)) && has(result@, "vec_c"@, col(*self, 2).take(n))
 && has(result@, "vec_ql"@, qcol(g, 0)) && has(result@, "vec_qr"@, qcol(g, 1)) && has(result@, "vec_qm"@, qcol(g, 2))
 && has(result@, "vec_qo"@, qcol(g, 3)) && has(result@, "vec_qc"@, qcol(g, 4)) && has(result@, "vec_pi"@, qcol(g, 5)) })
@raw
pub open spec fn longest(m: Map<Seq<char>, Vec<Fr>>, n: int) -> bool { forall|k: Seq<char>| #[trigger] m.dom().contains(k) ==> m[k]@.len() <= n }
pub open spec fn has(m: Map<Seq<char>, Vec<Fr>>, k: Seq<char>, v: Seq<Fr>) -> bool { m.dom().contains(k) && m[k]@ =~= v }
/// the names of the columns differ
pub proof fn names() ensures "vec_a"@ != "vec_b"@, "vec_a"@ != "vec_c"@, "vec_a"@ != "vec_ql"@, "vec_a"@ != "vec_qr"@, "vec_a"@ != "vec_qm"@, "vec_a"@ != "vec_qo"@, "vec_a"@ != "vec_qc"@, "vec_a"@ != "vec_pi"@, "vec_b"@ != "vec_c"@, "vec_b"@ != "vec_ql"@, "vec_b"@ != "vec_qr"@, "vec_b"@ != "vec_qm"@, "vec_b"@ != "vec_qo"@, "vec_b"@ != "vec_qc"@, "vec_b"@ != "vec_pi"@, "vec_c"@ != "vec_ql"@, "vec_c"@ != "vec_qr"@, "vec_c"@ != "vec_qm"@, "vec_c"@ != "vec_qo"@, "vec_c"@ != "vec_qc"@, "vec_c"@ != "vec_pi"@, "vec_ql"@ != "vec_qr"@, "vec_ql"@ != "vec_qm"@, "vec_ql"@ != "vec_qo"@, "vec_ql"@ != "vec_qc"@, "vec_ql"@ != "vec_pi"@, "vec_qr"@ != "vec_qm"@, "vec_qr"@ != "vec_qo"@, "vec_qr"@ != "vec_qc"@, "vec_qr"@ != "vec_pi"@, "vec_qm"@ != "vec_qo"@, "vec_qm"@ != "vec_qc"@, "vec_qm"@ != "vec_pi"@, "vec_qo"@ != "vec_qc"@, "vec_qo"@ != "vec_pi"@, "vec_qc"@ != "vec_pi"@
{ reveal_strlit("vec_a"); reveal_strlit("vec_b"); reveal_strlit("vec_c"); reveal_strlit("vec_ql"); reveal_strlit("vec_qr"); reveal_strlit("vec_qm"); reveal_strlit("vec_qo"); reveal_strlit("vec_qc"); reveal_strlit("vec_pi");
  assert("vec_a"@[4] != "vec_b"@[4]); assert("vec_a"@[4] != "vec_c"@[4]); assert("vec_a"@.len() != "vec_ql"@.len()); assert("vec_a"@.len() != "vec_qr"@.len()); assert("vec_a"@.len() != "vec_qm"@.len()); assert("vec_a"@.len() != "vec_qo"@.len()); assert("vec_a"@.len() != "vec_qc"@.len()); assert("vec_a"@.len() != "vec_pi"@.len()); assert("vec_b"@[4] != "vec_c"@[4]); assert("vec_b"@.len() != "vec_ql"@.len()); assert("vec_b"@.len() != "vec_qr"@.len()); assert("vec_b"@.len() != "vec_qm"@.len()); assert("vec_b"@.len() != "vec_qo"@.len()); assert("vec_b"@.len() != "vec_qc"@.len()); assert("vec_b"@.len() != "vec_pi"@.len()); assert("vec_c"@.len() != "vec_ql"@.len()); assert("vec_c"@.len() != "vec_qr"@.len()); assert("vec_c"@.len() != "vec_qm"@.len()); assert("vec_c"@.len() != "vec_qo"@.len()); assert("vec_c"@.len() != "vec_qc"@.len()); assert("vec_c"@.len() != "vec_pi"@.len()); assert("vec_ql"@[5] != "vec_qr"@[5]); assert("vec_ql"@[5] != "vec_qm"@[5]); assert("vec_ql"@[5] != "vec_qo"@[5]); assert("vec_ql"@[5] != "vec_qc"@[5]); assert("vec_ql"@[4] != "vec_pi"@[4]); assert("vec_qr"@[5] != "vec_qm"@[5]); assert("vec_qr"@[5] != "vec_qo"@[5]); assert("vec_qr"@[5] != "vec_qc"@[5]); assert("vec_qr"@[4] != "vec_pi"@[4]); assert("vec_qm"@[5] != "vec_qo"@[5]); assert("vec_qm"@[5] != "vec_qc"@[5]); assert("vec_qm"@[4] != "vec_pi"@[4]); assert("vec_qo"@[5] != "vec_qc"@[5]); assert("vec_qo"@[4] != "vec_pi"@[4]); assert("vec_qc"@[4] != "vec_pi"@[4]); }
@end
@fn CPICircuit::cal_permutation | P02 | r
requires small(self.gates@.len()), exists|k: nat| self.gates@.len() == #[trigger] p2(k), wired(self.gates@, self.gates@.len())
ensures forall|k: nat| self.gates@.len() == #[trigger] p2(k) ==> perm_is(r, self.gates@, k)
@start
broadcast use ring, ax_adic32;
let ghost kk = choose|k: nat| self.gates@.len() == #[trigger] p2(k);
let ghost g = self.gates@;
proof { lemma_np2_pow(kk); lemma_np2(g.len()); let k2 = choose|k: nat| k <= 32 && np2(g.len() as int) == #[trigger] p2(k) && is_np2(g.len() as int, p2(k) as int); lemma_p2_inj(kk, k2); lemma_dom(g.len(), kk); assert(fpow(omega(kk), 0) == fz(1)); }
@loop 1
invariant __v1@ == elems(kk).take(__i1 as int), __L1 == p2(kk)
@loop_end 1
assert(__v1@ =~= elems(kk).take(__i1 as int));
@after_loop 1
assert(__v1@ =~= elems(kk));
@loop 2
invariant __L2 == g.len(), sigma_1@.len() == g.len(), sigma_2@.len() == g.len(), sigma_3@.len() == g.len(), roots@ == elems(kk), coset1@ == scaled(elems(kk), fz(2)), coset2@ == scaled(elems(kk), fz(3)),
 forall|i: int| 0 <= i < g.len() ==> #[trigger] sigma_1@[i] == (if i < __i2 { plab(g[i].a_pos, 0, i, kk) } else { plab(Position::Dummy, 0, i, kk) }),
 forall|i: int| 0 <= i < g.len() ==> #[trigger] sigma_2@[i] == (if i < __i2 { plab(wb(g[i]), 1, i, kk) } else { plab(Position::Dummy, 1, i, kk) }),
 forall|i: int| 0 <= i < g.len() ==> #[trigger] sigma_3@[i] == (if i < __i2 { plab(wc(g[i]), 2, i, kk) } else { plab(Position::Dummy, 2, i, kk) })
@after_loop 2
proof { assert(sigma_1@ =~= scol(g, 0, kk)); assert(sigma_2@ =~= scol(g, 1, kk)); assert(sigma_3@ =~= scol(g, 2, kk)); assert(ppad(sigma_1@, p2(kk)) =~= sigma_1@); assert(ppad(sigma_2@, p2(kk)) =~= sigma_2@); assert(ppad(sigma_3@, p2(kk)) =~= sigma_3@); }
@post
proof { assert forall|k: nat| self.gates@.len() == #[trigger] p2(k) implies perm_is(r, self.gates@, k) by { lemma_p2_inj(k, choose|k: nat| self.gates@.len() == #[trigger] p2(k)); } }
@fn CPICircuit::get_assignment | P02 | r
ensures ({ let g = self.gates@; has(r@, "vec_ql"@, qcol(g, 0)) && has(r@, "vec_qr"@, qcol(g, 1)) && has(r@, "vec_qm"@, qcol(g, 2)) && has(r@, "vec_qo"@, qcol(g, 3)) && has(r@, "vec_qc"@, qcol(g, 4)) && has(r@, "vec_pi"@, qcol(g, 5)) }), longest(r@, self.gates@.len() as int)
@start
proof { names(); }
let ghost g0 = self.gates@;
@loop 1
invariant longest(result@, __i1 as int), ({ let g = g0.take(__i1 as int);
 has(result@, "vec_ql"@, qcol(g, 0)) && has(result@, "vec_qr"@, qcol(g, 1)) && has(result@, "vec_qm"@, qcol(g, 2)) && has(result@, "vec_qo"@, qcol(g, 3)) && has(result@, "vec_qc"@, qcol(g, 4)) && has(result@, "vec_pi"@, qcol(g, 5)) })
@fn Circuit::compile | P02 | r
requires cwf(self), small(self.gates@.len()), wired(self.gates@, np2(self.gates@.len() as int) as nat)
ensures r is Ok, compiled_is(r->Ok_0, self)
@start
broadcast use ax_adic32;
let ghost g0 = self.gates@;
proof { lemma_np2(g0.len()); names(); }
let ghost kk = choose|k: nat| k <= 32 && np2(g0.len() as int) == #[trigger] p2(k) && is_np2(g0.len() as int, p2(k) as int);
proof { lemma_dom(g0.len(), kk); lemma_np2_pow(kk); assert(col(self, 0).len() == g0.len()); assert(col(self, 1).len() == g0.len()); assert(col(self, 2).len() == g0.len()); }
@after_let assignment
let ghost gp = self_.gates@;
proof { assert(padded(g0, gp)); lemma_pad_cols(g0, gp); ax_entries(assignment); assert(gp.take(g0.len() as int) =~= g0); }
@loop 1
invariant interp(__v1, entries(assignment), __i1 as int, kk)
@after_loop 1
proof { assert forall|k: Seq<char>| #[trigger] assignment@.dom().contains(k) implies has_poly(__v1, k, ifft(ppad(assignment@[k]@, p2(kk)), kk)) by { let i = choose|i: int| 0 <= i < entries(assignment).len() && (#[trigger] entries(assignment)[i]).0.st() == k; } }
@after_let copy_constraints
proof { assert(padded(self.gates@, gp) && sel_is(gate_constraints, gp, kk) && perm_is(copy_constraints, gp, kk)); assert(wires_is(gate_constraints, self.vals@, kk)); }
@raw
pub open spec fn has_poly<K: VStr>(m: HashMap<K, DensePolynomial>, k: Seq<char>, c: Seq<Fr>) -> bool { m@.dom().contains(k) && m@[k].coeffs@ == c }
/// the first n entries are interpolated
pub open spec fn interp<K: VStr, L: VStr>(m: HashMap<K, DensePolynomial>, e: Seq<(L, Vec<Fr>)>, n: int, k: nat) -> bool { forall|j: int| 0 <= j < n ==> has_poly(m, (#[trigger] e[j]).0.st(), ifft(ppad(e[j].1@, p2(k)), k)) }
/// the columns of the selectors after padding
pub proof fn lemma_pad_cols(g: Seq<Gate>, o: Seq<Gate>) requires padded(g, o) ensures forall|q: int| 0 <= q <= 5 ==> ppad(#[trigger] qcol(g, q), o.len()) == qcol(o, q)
{ assert forall|q: int| 0 <= q <= 5 implies ppad(#[trigger] qcol(g, q), o.len()) == qcol(o, q) by { assert(ppad(qcol(g, q), o.len()) =~= qcol(o, q)); } }
/// the compiled circuit is the encoding of c's gates and values
pub open spec fn compiled_is(r: CompiledCircuit, c: Circuit) -> bool { r.size == np2(c.gates@.len() as int) && forall|k: nat| r.size == #[trigger] p2(k) ==> wires_is(r.gate_constraint, c.vals@, k) && exists|g: Seq<Gate>| #[trigger] padded(c.gates@, g) && sel_is(r.gate_constraint, g, k) && perm_is(r.copy_constraint, g, k) }
/// what the preprocessing side computes from the gates
pub open spec fn cpi_is(r: (GateConstraints, CopyConstraints, usize), c: CPICircuit) -> bool { r.2 == np2(c.gates@.len() as int) && r.0.f_ax.coeffs@.len() == 0 && r.0.f_bx.coeffs@.len() == 0 && r.0.f_cx.coeffs@.len() == 0 && forall|k: nat| r.2 == #[trigger] p2(k) ==> exists|g: Seq<Gate>| #[trigger] padded(c.gates@, g) && sel_is(r.0, g, k) && perm_is(r.1, g, k) }
@end
@fn CPICircuit::compile | P02 | r
requires small(self.gates@.len()), wired(self.gates@, np2(self.gates@.len() as int) as nat)
ensures r is Ok, cpi_is(r->Ok_0, self)
@start
broadcast use ax_adic32;
let ghost g0 = self.gates@;
proof { lemma_np2(g0.len()); names(); }
let ghost kk = choose|k: nat| k <= 32 && np2(g0.len() as int) == #[trigger] p2(k) && is_np2(g0.len() as int, p2(k) as int);
proof { lemma_dom(g0.len(), kk); lemma_np2_pow(kk); }
@after_let assignment
let ghost gp = self_.gates@;
proof { assert(padded(g0, gp)); lemma_pad_cols(gp, gp); ax_entries(assignment); }
@loop 1
invariant interp(__v1, entries(assignment), __i1 as int, kk)
@after_loop 1
proof { assert forall|k: Seq<char>| #[trigger] assignment@.dom().contains(k) implies has_poly(__v1, k, ifft(ppad(assignment@[k]@, p2(kk)), kk)) by { let i = choose|i: int| 0 <= i < entries(assignment).len() && (#[trigger] entries(assignment)[i]).0.st() == k; } }
@after_let copy_constraints
proof { assert(padded(self.gates@, gp) && sel_is(gate_constraints, gp, kk) && perm_is(copy_constraints, gp, kk)); }
@lemma p02_preprocessing_agrees P02
/// both sides compute the same selectors and permutation from the same gates
pub proof fn p02_preprocessing_agrees(a: CompiledCircuit, c: Circuit, b: (GateConstraints, CopyConstraints, usize), d: CPICircuit)
  requires compiled_is(a, c), cpi_is(b, d), c.gates@ == d.gates@, small(c.gates@.len())
  ensures a.size == b.2, a.gate_constraint.q_lx.coeffs@ == b.0.q_lx.coeffs@, a.gate_constraint.q_rx.coeffs@ == b.0.q_rx.coeffs@, a.gate_constraint.q_mx.coeffs@ == b.0.q_mx.coeffs@, a.gate_constraint.q_ox.coeffs@ == b.0.q_ox.coeffs@, a.gate_constraint.q_cx.coeffs@ == b.0.q_cx.coeffs@, a.gate_constraint.pi_x.coeffs@ == b.0.pi_x.coeffs@,
    a.copy_constraint.s_sigma_1.coeffs@ == b.1.s_sigma_1.coeffs@, a.copy_constraint.s_sigma_2.coeffs@ == b.1.s_sigma_2.coeffs@, a.copy_constraint.s_sigma_3.coeffs@ == b.1.s_sigma_3.coeffs@, a.copy_constraint.k1 == b.1.k1, a.copy_constraint.k2 == b.1.k2
{ lemma_np2(c.gates@.len()); let k = choose|k: nat| k <= 32 && np2(c.gates@.len() as int) == #[trigger] p2(k) && is_np2(c.gates@.len() as int, p2(k) as int);
  let g = choose|g: Seq<Gate>| #[trigger] padded(c.gates@, g) && sel_is(a.gate_constraint, g, k) && perm_is(a.copy_constraint, g, k);
  let h = choose|h: Seq<Gate>| #[trigger] padded(d.gates@, h) && sel_is(b.0, h, k) && perm_is(b.1, h, k);
  assert forall|q: int| 0 <= q <= 5 implies #[trigger] qcol(g, q) == qcol(h, q) by { assert(qcol(g, q) =~= qcol(h, q)); }
  assert forall|q: int| 0 <= q <= 2 implies #[trigger] scol(g, q, k) == scol(h, q, k) by { assert(scol(g, q, k) =~= scol(h, q, k)); } }
@lemma p02_rows P02
/// at the i-th point of the domain every polynomial takes the value of the i-th row
pub proof fn p02_rows(a: CompiledCircuit, c: Circuit, i: int)
  requires compiled_is(a, c), cwf(c), small(c.gates@.len()), wired(c.gates@, np2(c.gates@.len() as int) as nat), 0 <= i < a.size
  ensures a.size >= c.gates@.len(), exists|k: nat| k <= 32 && a.size == #[trigger] p2(k) && is_np2(c.gates@.len() as int, p2(k) as int) && row_is(a, c, i, fpow(omega(k), i as nat), k)
{ lemma_rows(a, c, i); }
@raw
pub proof fn lemma_rows(a: CompiledCircuit, c: Circuit, i: int)
  requires compiled_is(a, c), cwf(c), small(c.gates@.len()), wired(c.gates@, np2(c.gates@.len() as int) as nat), 0 <= i < a.size
  ensures a.size >= c.gates@.len(), exists|k: nat| k <= 32 && a.size == #[trigger] p2(k) && is_np2(c.gates@.len() as int, p2(k) as int) && row_is(a, c, i, fpow(omega(k), i as nat), k)
{ broadcast use ax_adic32; lemma_np2(c.gates@.len()); let k = choose|k: nat| k <= 32 && np2(c.gates@.len() as int) == #[trigger] p2(k) && is_np2(c.gates@.len() as int, p2(k) as int);
  let g = choose|g: Seq<Gate>| #[trigger] padded(c.gates@, g) && sel_is(a.gate_constraint, g, k) && perm_is(a.copy_constraint, g, k);
  assert(col(c, 0).len() == c.gates@.len()); assert(col(c, 1).len() == c.gates@.len()); assert(col(c, 2).len() == c.gates@.len());
  ax_ifft(ppad(col(c, 0), p2(k)), k); ax_ifft(ppad(col(c, 1), p2(k)), k); ax_ifft(ppad(col(c, 2), p2(k)), k);
  ax_ifft(qcol(g, 0), k); ax_ifft(qcol(g, 1), k); ax_ifft(qcol(g, 2), k); ax_ifft(qcol(g, 3), k); ax_ifft(qcol(g, 4), k); ax_ifft(qcol(g, 5), k);
  ax_ifft(scol(g, 0, k), k); ax_ifft(scol(g, 1, k), k); ax_ifft(scol(g, 2, k), k); 
  if i < c.gates@.len() { assert(g[i] == c.gates@[i]); assert(g[i].a_pos != Position::Dummy); assert(in_range(g[i].b_pos, g.len())); assert(in_range(g[i].c_pos, g.len())); } else { assert(dummy_is(g[i])); }
  assert(row_is(a, c, i, fpow(omega(k), i as nat), k)); }
pub open spec fn row_is(a: CompiledCircuit, c: Circuit, i: int, x: Fr, k: nat) -> bool {
  let gc = a.gate_constraint; let cc = a.copy_constraint;
  if i < c.gates@.len() { let g = c.gates@[i];
    &&& peval(gc.f_ax.coeffs@, x) == col(c, 0)[i] && peval(gc.f_bx.coeffs@, x) == col(c, 1)[i] && peval(gc.f_cx.coeffs@, x) == col(c, 2)[i]
    &&& peval(gc.q_lx.coeffs@, x) == g.q_l && peval(gc.q_rx.coeffs@, x) == g.q_r && peval(gc.q_mx.coeffs@, x) == g.q_m && peval(gc.q_ox.coeffs@, x) == g.q_o && peval(gc.q_cx.coeffs@, x) == g.q_c && peval(gc.pi_x.coeffs@, x) == g.pi
    &&& peval(cc.s_sigma_1.coeffs@, x) == lab(g.a_pos, k) && peval(cc.s_sigma_2.coeffs@, x) == lab(g.b_pos, k) && peval(cc.s_sigma_3.coeffs@, x) == lab(g.c_pos, k)
  } else {
    &&& peval(gc.f_ax.coeffs@, x) == fz(0) && peval(gc.f_bx.coeffs@, x) == fz(0) && peval(gc.f_cx.coeffs@, x) == fz(0)
    &&& peval(gc.q_lx.coeffs@, x) == fz(0) && peval(gc.q_rx.coeffs@, x) == fz(0) && peval(gc.q_mx.coeffs@, x) == fz(0) && peval(gc.q_ox.coeffs@, x) == fz(0) && peval(gc.q_cx.coeffs@, x) == fz(0) && peval(gc.pi_x.coeffs@, x) == fz(0)
    &&& peval(cc.s_sigma_1.coeffs@, x) == lab(Position::Pos(0, i as usize), k) && peval(cc.s_sigma_2.coeffs@, x) == lab(Position::Pos(1, i as usize), k) && peval(cc.s_sigma_3.coeffs@, x) == lab(Position::Pos(2, i as usize), k)
  } }
/// repeated squaring of a number modulo the characteristic
pub open spec fn sqm(a: int, n: nat) -> int decreases n { if n == 0 { a } else { sqm((a * a) % modulus(), (n - 1) as nat) } }
pub proof fn lemma_mod_eq(a: int) ensures fz(a % modulus()) == fz(a)
{ broadcast use ring; let m = modulus(); assert(m > 0) by (compute); ax_char(a - a % m); assert((a - a % m) % m == 0) by { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a, m); assert(a - a % m == m * (a / m)); vstd::arithmetic::div_mod::lemma_mod_multiples_basic(a / m, m); assert(m * (a / m) == (a / m) * m) by (nonlinear_arith); }
  lemma_sub0(fz(a), fz(a % m)); }
pub proof fn lemma_sqm(a: int, n: nat) ensures fsq(fz(a), n) == fz(sqm(a, n)) decreases n
{ broadcast use ring; if n > 0 { lemma_mod_eq(a * a); lemma_sqm((a * a) % modulus(), (n - 1) as nat); } }
pub proof fn lemma_fz_ne(a: int, b: int) requires (a - b) % modulus() != 0 ensures fz(a) != fz(b) { broadcast use ring; ax_char(a - b); lemma_sub0(fz(a), fz(b)); }
/// 2, 3 and 3/2 are not roots of unity of order 2^32
pub proof fn lemma_shifts(k: nat) requires k <= 32 ensures fpow(fz(2), p2(k)) != fz(1), fpow(fz(3), p2(k)) != fz(1), fpow(fz(2), p2(k)) != fpow(fz(3), p2(k))
{ lemma_fsq(fz(2), 32); lemma_fsq(fz(3), 32); lemma_sqm(2, 32); lemma_sqm(3, 32);
  assert((sqm(2, 32) - 1) % modulus() != 0) by (compute_only); assert((sqm(3, 32) - 1) % modulus() != 0) by (compute_only); assert((sqm(2, 32) - sqm(3, 32)) % modulus() != 0) by (compute_only);
  lemma_fz_ne(sqm(2, 32), 1); lemma_fz_ne(sqm(3, 32), 1); lemma_fz_ne(sqm(2, 32), sqm(3, 32));
  lemma_p2_div(k); let m = p2((32 - k) as nat); lemma_pow_pow(fz(2), p2(k), m); lemma_pow_pow(fz(3), p2(k), m); lemma_pow1(m); }
pub proof fn lemma_p2_div(k: nat) requires k <= 32 ensures p2(k) * p2((32 - k) as nat) == p2(32) decreases k
{ if k == 0 { assert(p2(0) == 1); } else { lemma_p2_div((k - 1) as nat); let (a, b) = (p2((k - 1) as nat) as int, p2((32 - k) as nat) as int); assert(p2((32 - (k - 1)) as nat) == 2 * b); assert((2 * a) * b == a * (2 * b)) by (nonlinear_arith); assert(p2(k) == 2 * p2((k - 1) as nat)); assert(p2(k) as int * b == a * (2 * b)); assert(p2(k) * p2((32 - k) as nat) == p2(k) as int * b); } }
@end
@raw
pub proof fn lemma_disjoint(k: nat, i: nat, j: nat) requires k <= 32
  ensures fpow(omega(k), i) != fmul(fpow(omega(k), j), fz(2)), fpow(omega(k), i) != fmul(fpow(omega(k), j), fz(3)), fmul(fpow(omega(k), i), fz(2)) != fmul(fpow(omega(k), j), fz(3))
{ broadcast use ax_adic32; let n = p2(k); lemma_root(k, i); lemma_root(k, j); lemma_shifts(k); let (x, y) = (fpow(omega(k), i), fpow(omega(k), j));
  lemma_pow_mul(y, fz(2), n); lemma_pow_mul(y, fz(3), n); lemma_pow_mul(x, fz(2), n); r_1m(fpow(fz(2), n)); r_1m(fpow(fz(3), n)); }
@end
@lemma p02_disjoint P02
/// labels of different columns differ
pub proof fn p02_disjoint(k: nat, i: nat, j: nat) requires k <= 32
  ensures fpow(omega(k), i) != fmul(fpow(omega(k), j), fz(2)), fpow(omega(k), i) != fmul(fpow(omega(k), j), fz(3)), fmul(fpow(omega(k), i), fz(2)) != fmul(fpow(omega(k), j), fz(3))
{ lemma_disjoint(k, i, j); }
