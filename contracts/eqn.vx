@import kzg circuit parser links
@files plonk/src/parser.rs plonk/src/common_preprocessed_input/cpi_parser.rs
@prelude names.rs
@each broadcast use comms, units;
@rename plonk/src/parser.rs Gate => PGate
@rename plonk/src/common_preprocessed_input/cpi_parser.rs TypeOfCircuit => CTypeOfCircuit
@struct TypeOfCircuit hash
@struct Wire hash
@struct PGate hash
@struct Parser
@struct CTypeOfCircuit hash
@struct ParserWire hash
@struct ParserGate hash
@struct CPIGenerator
@struct CommonPreprocessedInput
@raw
use TypeOfCircuit::*;
impl CPICircuit { #[verifier::external_body] pub fn vdefault() -> (r: CPICircuit) ensures r.gates@.len() == 0 { unimplemented!() } }
// ---- names: sums of products of atoms
pub open spec fn jn(a: Seq<char>, c: char, b: Seq<char>) -> Seq<char> { a + seq![c] + b }
pub open spec fn free(s: Seq<char>, c: char) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != c }
pub proof fn lemma_lastof(s: Seq<char>, c: char) ensures -1 <= lastof(s, c) < s.len(), lastof(s, c) >= 0 ==> s[lastof(s, c)] == c, forall|i: int| lastof(s, c) < i < s.len() ==> s[i] != c decreases s.len() { if s.len() > 0 && s.last() != c { let v = s.drop_last(); lemma_lastof(v, c); assert forall|i: int| lastof(s, c) < i < s.len() implies s[i] != c by { if i < v.len() { assert(v[i] == s[i]); } } } }
pub proof fn lemma_lastof_is(s: Seq<char>, c: char, p: int) requires 0 <= p < s.len(), s[p] == c, forall|i: int| p < i < s.len() ==> s[i] != c ensures lastof(s, c) == p { lemma_lastof(s, c); let q = lastof(s, c); if q < p { assert(s[p] != c); } if q > p { assert(s[q] != c); } }
pub proof fn lemma_split_free(s: Seq<char>, c: char) requires free(s, c) ensures split(s, c) == seq![s] { lemma_lastof(s, c); let q = lastof(s, c); if q >= 0 { assert(s[q] != c); } }
/// the pieces do not contain the separator, nor anything that the whole does not contain
pub proof fn lemma_split_pieces(s: Seq<char>, c: char) ensures split(s, c).len() > 0, forall|i: int| 0 <= i < split(s, c).len() ==> free(#[trigger] split(s, c)[i], c) && forall|d: char| #[trigger] free(s, d) ==> free(split(s, c)[i], d) decreases s.len() {
  lemma_lastof(s, c); let q = lastof(s, c);
  if q >= 0 { let u = s.subrange(0, q); let v = s.subrange(q + 1, s.len() as int); lemma_split_pieces(u, c);
    assert forall|i: int| 0 <= i < split(s, c).len() implies free(#[trigger] split(s, c)[i], c) && forall|d: char| #[trigger] free(s, d) ==> free(split(s, c)[i], d) by {
      assert forall|d: char| #[trigger] free(s, d) implies free(split(s, c)[i], d) by { assert(free(u, d)) by { assert forall|j: int| 0 <= j < u.len() implies #[trigger] u[j] != d by { assert(u[j] == s[j]); } } assert(free(v, d)) by { assert forall|j: int| 0 <= j < v.len() implies #[trigger] v[j] != d by { assert(v[j] == s[q + 1 + j]); } } }
      if i == split(u, c).len() { assert forall|j: int| 0 <= j < v.len() implies #[trigger] v[j] != c by { assert(v[j] == s[q + 1 + j]); } } else { assert(free(split(u, c)[i], c)); } } }
  else { assert(free(s, c)); } }
pub proof fn lemma_split_join(u: Seq<char>, c: char, v: Seq<char>) requires free(v, c) ensures split(jn(u, c, v), c) == split(u, c).push(v) {
  let s = jn(u, c, v); let p = u.len() as int; assert forall|i: int| p < i < s.len() implies s[i] != c by { assert(s[i] == v[i - p - 1]); } assert(s[p] == c); lemma_lastof_is(s, c, p); assert(s.subrange(0, p) =~= u); assert(s.subrange(p + 1, s.len() as int) =~= v); }
pub proof fn lemma_free_join(u: Seq<char>, c: char, v: Seq<char>, d: char) requires free(u, d), free(v, d), c != d ensures free(jn(u, c, v), d) { let s = jn(u, c, v); assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] != d by { if i < u.len() { assert(s[i] == u[i]); } else if i > u.len() { assert(s[i] == v[i - u.len() - 1]); } } }
pub proof fn lemma_free_trim(s: Seq<char>, d: char) requires free(s, d) ensures free(trim(s), d) { ax_trim(s); assert forall|i: int| 0 <= i < trim(s).len() implies #[trigger] trim(s)[i] != d by { let j = s.index_of(trim(s)[i]); assert(s[j] == trim(s)[i]); assert(s[j] != d); } }
// ---- the equation
pub open spec fn negd(a: Seq<char>) -> bool { a.len() > 0 && a[0] == '-' }
pub open spec fn strip1(a: Seq<char>) -> Seq<char> { if negd(a) { a.subrange(1, a.len() as int) } else { a } }
/// constants are numbers, possibly with a sign
pub open spec fn cst(a: Seq<char>) -> bool { pint(strip1(a)) is Some }
pub open spec fn atoms(t: Seq<char>) -> Seq<Seq<char>> { Seq::new(split(t, '*').len(), |i: int| trim(split(t, '*')[i])) }
/// the summands: those on the left and the negated right side
pub open spec fn terms(s: Seq<char>) -> Seq<Seq<char>> { split(split(s, '=')[0], '+').push(seq!['-'] + split(s, '=')[1]) }
pub open spec fn pname(a: Seq<Seq<char>>, n: int) -> Seq<char> decreases n { if n <= 1 { a[0] } else { jn(pname(a, n - 1), '*', a[n - 1]) } }
pub open spec fn tname(t: Seq<char>) -> Seq<char> { pname(atoms(t), atoms(t).len() as int) }
pub open spec fn sname(ts: Seq<Seq<char>>, n: int) -> Seq<char> decreases n { if n <= 1 { tname(ts[0]) } else { jn(sname(ts, n - 1), '+', tname(ts[n - 1])) } }
// ---- the gates of an equation: kind 0 adds, 1 multiplies, 2 is a constant
pub struct NG { pub l: Seq<char>, pub r: Seq<char>, pub o: Seq<char>, pub t: int }
pub open spec fn ag(l: Seq<char>, r: Seq<char>) -> NG { NG { l, r, o: jn(l, '+', r), t: 0 } }
pub open spec fn mg(l: Seq<char>, r: Seq<char>) -> NG { NG { l, r, o: jn(l, '*', r), t: 1 } }
pub open spec fn cg(a: Seq<char>) -> NG { NG { l: a, r: seq!['0'], o: jn(a, '+', seq!['0']), t: 2 } }
/// a gate that is not there yet is appended
pub open spec fn addg(gs: Seq<NG>, g: NG) -> Seq<NG> { if gs.contains(g) { gs } else { gs.push(g) } }
pub open spec fn consts(gs: Seq<NG>, a: Seq<Seq<char>>, n: int) -> Seq<NG> decreases n { if n <= 0 { gs } else { let h = consts(gs, a, n - 1); if cst(a[n - 1]) { addg(h, cg(a[n - 1])) } else { h } } }
pub open spec fn prods(gs: Seq<NG>, a: Seq<Seq<char>>, n: int) -> Seq<NG> decreases n { if n <= 1 { gs } else { addg(prods(gs, a, n - 1), mg(pname(a, n - 1), a[n - 1])) } }
pub open spec fn term(gs: Seq<NG>, t: Seq<char>) -> Seq<NG> { let a = atoms(t); prods(consts(gs, a, a.len() as int), a, a.len() as int) }
pub open spec fn grun(ts: Seq<Seq<char>>, n: int) -> Seq<NG> decreases n { if n <= 0 { Seq::<NG>::empty() } else { let h = term(grun(ts, n - 1), ts[n - 1]); if n == 1 { h } else { addg(h, ag(sname(ts, n - 1), tname(ts[n - 1]))) } } }
pub open spec fn eqgates(s: Seq<char>) -> Seq<NG> { grun(terms(s), terms(s).len() as int) }
// ---- values
pub open spec fn rawv(w: Map<Seq<char>, Fr>, b: Seq<char>) -> Fr { if w.dom().contains(b) { w[b] } else { fz(pint(b)->0 as int) } }
pub open spec fn aval(w: Map<Seq<char>, Fr>, a: Seq<char>) -> Fr { if negd(a) { fneg(rawv(w, strip1(a))) } else { rawv(w, a) } }
pub open spec fn prodv(w: Map<Seq<char>, Fr>, a: Seq<Seq<char>>, n: int) -> Fr decreases n { if n <= 1 { aval(w, a[0]) } else { fmul(prodv(w, a, n - 1), aval(w, a[n - 1])) } }
pub open spec fn pval(w: Map<Seq<char>, Fr>, s: Seq<char>) -> Fr { prodv(w, split(s, '*'), split(s, '*').len() as int) }
pub open spec fn sumv(w: Map<Seq<char>, Fr>, p: Seq<Seq<char>>, n: int) -> Fr decreases n { if n <= 1 { pval(w, p[0]) } else { fadd(sumv(w, p, n - 1), pval(w, p[n - 1])) } }
/// the value of a name
pub open spec fn nval(w: Map<Seq<char>, Fr>, s: Seq<char>) -> Fr { sumv(w, split(s, '+'), split(s, '+').len() as int) }
/// no variable is called like a number
pub open spec fn names_ok(w: Map<Seq<char>, Fr>) -> bool { forall|k: Seq<char>| #[trigger] w.dom().contains(k) ==> pint(k) is None }
pub open spec fn known(w: Map<Seq<char>, Fr>, a: Seq<char>) -> bool { w.dom().contains(strip1(a)) || cst(a) }
pub open spec fn plain(a: Seq<char>) -> bool { free(a, '+') && free(a, '*') }
/// one '=' with a single product on its right
pub open spec fn eq_ok(s: Seq<char>) -> bool { split(s, '=').len() == 2 && free(split(s, '=')[1], '+') }
pub open spec fn term_known(w: Map<Seq<char>, Fr>, t: Seq<char>) -> bool { forall|i: int| 0 <= i < atoms(t).len() ==> known(w, #[trigger] atoms(t)[i]) }
pub open spec fn wit_ok(w: Map<Seq<char>, Fr>, s: Seq<char>) -> bool { forall|i: int| 0 <= i < terms(s).len() ==> term_known(w, #[trigger] terms(s)[i]) }
pub proof fn lemma_prodv_ext(w: Map<Seq<char>, Fr>, a: Seq<Seq<char>>, b: Seq<Seq<char>>, n: int) requires n >= 1, n <= a.len(), n <= b.len(), forall|i: int| 0 <= i < n ==> a[i] == b[i] ensures prodv(w, a, n) == prodv(w, b, n) decreases n { if n > 1 { lemma_prodv_ext(w, a, b, n - 1); } }
pub proof fn lemma_sumv_ext(w: Map<Seq<char>, Fr>, a: Seq<Seq<char>>, b: Seq<Seq<char>>, n: int) requires n >= 1, n <= a.len(), n <= b.len(), forall|i: int| 0 <= i < n ==> a[i] == b[i] ensures sumv(w, a, n) == sumv(w, b, n) decreases n { if n > 1 { lemma_sumv_ext(w, a, b, n - 1); } }
pub proof fn lemma_nval_free(w: Map<Seq<char>, Fr>, s: Seq<char>) requires free(s, '+') ensures nval(w, s) == pval(w, s) { lemma_split_free(s, '+'); assert(split(s, '+')[0] == s); }
pub proof fn lemma_pval_atom(w: Map<Seq<char>, Fr>, a: Seq<char>) requires free(a, '*') ensures pval(w, a) == aval(w, a) { lemma_split_free(a, '*'); assert(split(a, '*')[0] == a); }
pub proof fn lemma_nval_atom(w: Map<Seq<char>, Fr>, a: Seq<char>) requires plain(a) ensures nval(w, a) == aval(w, a) { lemma_nval_free(w, a); lemma_pval_atom(w, a); }
/// the value of a sum, the value of a product
pub proof fn lemma_nval_sum(w: Map<Seq<char>, Fr>, u: Seq<char>, v: Seq<char>) requires free(v, '+') ensures nval(w, jn(u, '+', v)) == fadd(nval(w, u), nval(w, v)) {
  lemma_split_join(u, '+', v); lemma_split_pieces(u, '+'); let p = split(u, '+'); let q = p.push(v); lemma_sumv_ext(w, p, q, p.len() as int); lemma_nval_free(w, v); assert(q[q.len() - 1] == v); }
pub proof fn lemma_nval_prod(w: Map<Seq<char>, Fr>, u: Seq<char>, v: Seq<char>) requires free(u, '+'), plain(v) ensures nval(w, jn(u, '*', v)) == fmul(nval(w, u), nval(w, v)) {
  lemma_free_join(u, '*', v, '+'); lemma_nval_free(w, jn(u, '*', v)); lemma_nval_free(w, u); lemma_nval_free(w, v); lemma_pval_atom(w, v);
  lemma_split_join(u, '*', v); lemma_split_pieces(u, '*'); let p = split(u, '*'); let q = p.push(v); lemma_prodv_ext(w, p, q, p.len() as int); assert(q[q.len() - 1] == v); }
pub proof fn lemma_zero_name(w: Map<Seq<char>, Fr>) requires names_ok(w) ensures nval(w, seq!['0']) == fz(0), plain(seq!['0']) {
  let z = seq!['0']; broadcast use ax_pint; assert(digits(z)); assert(z.drop_last() =~= Seq::<char>::empty()); assert(dval(z.drop_last()) == 0); assert(dval(z) == 0); assert(pint(z) == Some(0i32)); lemma_nval_atom(w, z); assert(z[0] == '0'); }
/// the summands are free of '+', their atoms of '*' as well
pub proof fn lemma_terms(s: Seq<char>) requires eq_ok(s) ensures terms(s).len() >= 2, forall|i: int| 0 <= i < terms(s).len() ==> free(#[trigger] terms(s)[i], '+') {
  let p = split(s, '='); lemma_split_pieces(p[0], '+'); let t = seq!['-'] + p[1]; assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] != '+' by { if i > 0 { assert(t[i] == p[1][i - 1]); } }
  assert forall|i: int| 0 <= i < terms(s).len() implies free(#[trigger] terms(s)[i], '+') by { if i < split(p[0], '+').len() { assert(terms(s)[i] == split(p[0], '+')[i]); } else { assert(terms(s)[i] == t); } } }
pub proof fn lemma_atoms(t: Seq<char>) ensures atoms(t).len() > 0, forall|i: int| 0 <= i < atoms(t).len() ==> free(#[trigger] atoms(t)[i], '*') && (free(t, '+') ==> plain(atoms(t)[i])) {
  lemma_split_pieces(t, '*'); assert forall|i: int| 0 <= i < atoms(t).len() implies free(#[trigger] atoms(t)[i], '*') && (free(t, '+') ==> plain(atoms(t)[i])) by { lemma_free_trim(split(t, '*')[i], '*'); if free(t, '+') { lemma_free_trim(split(t, '*')[i], '+'); } } }
pub open spec fn aplain(a: Seq<Seq<char>>) -> bool { a.len() > 0 && forall|i: int| 0 <= i < a.len() ==> plain(#[trigger] a[i]) }
pub proof fn lemma_pname(w: Map<Seq<char>, Fr>, a: Seq<Seq<char>>, n: int) requires aplain(a), 1 <= n <= a.len() ensures free(pname(a, n), '+'), nval(w, pname(a, n)) == prodv(w, a, n) decreases n {
  assert(plain(a[0])); if n > 1 { lemma_pname(w, a, n - 1); assert(plain(a[n - 1])); lemma_free_join(pname(a, n - 1), '*', a[n - 1], '+'); lemma_nval_prod(w, pname(a, n - 1), a[n - 1]); lemma_nval_atom(w, a[n - 1]); } else { lemma_nval_atom(w, a[0]); } }
/// the value of a term, the value of the first n summands
pub open spec fn tval(w: Map<Seq<char>, Fr>, t: Seq<char>) -> Fr { prodv(w, atoms(t), atoms(t).len() as int) }
pub open spec fn total(w: Map<Seq<char>, Fr>, ts: Seq<Seq<char>>, n: int) -> Fr decreases n { if n <= 1 { tval(w, ts[0]) } else { fadd(total(w, ts, n - 1), tval(w, ts[n - 1])) } }
pub proof fn lemma_tname(w: Map<Seq<char>, Fr>, t: Seq<char>) requires free(t, '+') ensures aplain(atoms(t)), free(tname(t), '+'), nval(w, tname(t)) == tval(w, t) { lemma_atoms(t); lemma_pname(w, atoms(t), atoms(t).len() as int); }
pub open spec fn tplain(ts: Seq<Seq<char>>) -> bool { ts.len() >= 2 && forall|i: int| 0 <= i < ts.len() ==> free(#[trigger] ts[i], '+') }
pub proof fn lemma_sname(w: Map<Seq<char>, Fr>, ts: Seq<Seq<char>>, n: int) requires tplain(ts), 1 <= n <= ts.len() ensures nval(w, sname(ts, n)) == total(w, ts, n) decreases n {
  if n > 1 { lemma_sname(w, ts, n - 1); lemma_tname(w, ts[n - 1]); lemma_nval_sum(w, sname(ts, n - 1), tname(ts[n - 1])); } else { lemma_tname(w, ts[0]); } }
// ---- occurrences of a name among the wires of a list of gates
pub open spec fn nam(g: NG, j: int) -> Seq<char> { if j == 0 { g.l } else if j == 1 { g.r } else { g.o } }
pub open spec fn nms(gs: Seq<NG>) -> Seq<Seq<char>> { Seq::new(3 * gs.len(), |w: int| nam(gs[w / 3], w % 3)) }
pub open spec fn occ(nm: Seq<Seq<char>>, k: Seq<char>) -> Seq<int> decreases nm.len() { if nm.len() == 0 { Seq::<int>::empty() } else { let o = occ(nm.drop_last(), k); if nm.last() == k { o.push(nm.len() - 1) } else { o } } }
pub open spec fn pos(w: int) -> (usize, usize) { ((w % 3) as usize, (w / 3) as usize) }
pub open spec fn poss(o: Seq<int>) -> Seq<(usize, usize)> { Seq::new(o.len(), |i: int| pos(o[i])) }
pub open spec fn pent(pm: Map<Seq<char>, Vec<(usize, usize)>>, k: Seq<char>) -> Seq<(usize, usize)> { if pm.dom().contains(k) { pm[k]@ } else { Seq::<(usize, usize)>::empty() } }
pub open spec fn pm_at(pm: Map<Seq<char>, Vec<(usize, usize)>>, nm: Seq<Seq<char>>, k: Seq<char>) -> bool { pm.dom().contains(k) == (occ(nm, k).len() > 0) && pent(pm, k) == poss(occ(nm, k)) }
/// every name with the places where it occurs
pub open spec fn pm_ok(pm: Map<Seq<char>, Vec<(usize, usize)>>, nm: Seq<Seq<char>>) -> bool { forall|k: Seq<char>| #[trigger] pm_at(pm, nm, k) }
pub open spec fn pushed(o: Map<Seq<char>, Vec<(usize, usize)>>, n: Map<Seq<char>, Vec<(usize, usize)>>, k: Seq<char>, p: (usize, usize)) -> bool { n.dom().contains(k) && pent(n, k) == pent(o, k).push(p) && forall|j: Seq<char>| j != k ==> #[trigger] n.dom().contains(j) == o.dom().contains(j) && pent(n, j) == pent(o, j) }
pub proof fn lemma_push(o: Map<Seq<char>, Vec<(usize, usize)>>, n: Map<Seq<char>, Vec<(usize, usize)>>, nm: Seq<Seq<char>>, k: Seq<char>) requires pm_ok(o, nm), pushed(o, n, k, pos(nm.len() as int)) ensures pm_ok(n, nm.push(k)) {
  let m = nm.push(k); assert(m.drop_last() =~= nm); assert forall|j: Seq<char>| #[trigger] pm_at(n, m, j) by { assert(pm_at(o, nm, j)); if j == k { assert(occ(m, k) == occ(nm, k).push(nm.len() as int)); assert(poss(occ(m, k)) =~= poss(occ(nm, k)).push(pos(nm.len() as int))); } else { assert(occ(m, j) == occ(nm, j)); assert(n.dom().contains(j) == o.dom().contains(j)); } } }
pub proof fn lemma_push3(o: Map<Seq<char>, Vec<(usize, usize)>>, a: Map<Seq<char>, Vec<(usize, usize)>>, b: Map<Seq<char>, Vec<(usize, usize)>>, n: Map<Seq<char>, Vec<(usize, usize)>>, gs: Seq<NG>, g: NG, i: usize)
  requires pm_ok(o, nms(gs)), i == gs.len(), pushed(o, a, g.l, (0usize, i)), pushed(a, b, g.r, (1usize, i)), pushed(b, n, g.o, (2usize, i)) ensures pm_ok(n, nms(gs.push(g))) {
  let m = nms(gs); assert(m.len() == 3 * gs.len()); assert(pos(m.len() as int) == (0usize, i)); lemma_push(o, a, m, g.l); let m1 = m.push(g.l); assert(pos(m1.len() as int) == (1usize, i)); lemma_push(a, b, m1, g.r); let m2 = m1.push(g.r); assert(pos(m2.len() as int) == (2usize, i)); lemma_push(b, n, m2, g.o);
  assert(nms(gs.push(g)) =~= m2.push(g.o)) by { assert forall|w: int| 0 <= w < 3 * gs.len() + 3 implies #[trigger] nms(gs.push(g))[w] == m2.push(g.o)[w] by { if w < 3 * gs.len() { assert(w / 3 < gs.len()); assert(gs.push(g)[w / 3] == gs[w / 3]); } else { assert(w / 3 == gs.len()); } } } }
// ---- the prover's side
pub open spec fn ty(t: TypeOfCircuit) -> int { match t { TypeOfCircuit::Addition => 0, TypeOfCircuit::Multiplication => 1, TypeOfCircuit::Constant => 2 } }
pub open spec fn ngp(g: PGate) -> NG { NG { l: g.left.value_string@, r: g.right.value_string@, o: g.bottom.value_string@, t: ty(g.type_of_circuit) } }
pub open spec fn ngsp(gl: Seq<PGate>) -> Seq<NG> { Seq::new(gl.len(), |i: int| ngp(gl[i])) }
impl VKey for PGate { type KV = (NG, Fr, Fr, Fr); open spec fn key(&self) -> (NG, Fr, Fr, Fr) { (ngp(*self), self.left.value_fr, self.right.value_fr, self.bottom.value_fr) } }
/// every wire carries the value of its name
pub open spec fn wvals(w: Map<Seq<char>, Fr>, g: PGate) -> bool { g.left.value_fr == nval(w, g.left.value_string@) && g.right.value_fr == nval(w, g.right.value_string@) && g.bottom.value_fr == nval(w, g.bottom.value_string@) }
pub open spec fn keyok(w: Map<Seq<char>, Fr>, gs: Seq<NG>, k: (NG, Fr, Fr, Fr)) -> bool { gs.contains(k.0) && k.1 == nval(w, k.0.l) && k.2 == nval(w, k.0.r) && k.3 == nval(w, k.0.o) }
/// the list of gates so far, the set of its members and the places of its names
pub open spec fn stp(w: Map<Seq<char>, Fr>, gl: Seq<PGate>, set: Set<(NG, Fr, Fr, Fr)>, pm: Map<Seq<char>, Vec<(usize, usize)>>) -> bool { (forall|i: int| 0 <= i < gl.len() ==> wvals(w, #[trigger] gl[i])) && pm_ok(pm, nms(ngsp(gl))) && forall|k: (NG, Fr, Fr, Fr)| #[trigger] set.contains(k) == keyok(w, ngsp(gl), k) }
pub proof fn lemma_addp(w: Map<Seq<char>, Fr>, gl: Seq<PGate>, set: Set<(NG, Fr, Fr, Fr)>, pm: Map<Seq<char>, Vec<(usize, usize)>>, a: Map<Seq<char>, Vec<(usize, usize)>>, b: Map<Seq<char>, Vec<(usize, usize)>>, set2: Set<(NG, Fr, Fr, Fr)>, pm2: Map<Seq<char>, Vec<(usize, usize)>>, g: PGate, i: usize)
  requires stp(w, gl, set, pm), wvals(w, g), !set.contains(g.key()), i == gl.len(), sins(set, set2, g.key()), pushed(pm, a, ngp(g).l, (0usize, i)), pushed(a, b, ngp(g).r, (1usize, i)), pushed(b, pm2, ngp(g).o, (2usize, i))
  ensures stp(w, gl.push(g), set2, pm2), ngsp(gl.push(g)) == addg(ngsp(gl), ngp(g)) {
  let gs = ngsp(gl); let h = ngp(g); assert(ngsp(gl.push(g)) =~= gs.push(h)); assert(g.key() == (h, g.left.value_fr, g.right.value_fr, g.bottom.value_fr)); assert(!keyok(w, gs, g.key())); assert(!gs.contains(h)); lemma_push3(pm, a, b, pm2, gs, h, i); lemma_pushc(gs, h);
  assert forall|k: (NG, Fr, Fr, Fr)| #[trigger] set2.contains(k) == keyok(w, gs.push(h), k) by { assert(set.contains(k) == keyok(w, gs, k)); assert(gs.push(h).contains(k.0) == (gs.contains(k.0) || k.0 == h)); } }
pub proof fn lemma_pushc(gs: Seq<NG>, h: NG) ensures forall|k: NG| #[trigger] gs.push(h).contains(k) == (gs.contains(k) || k == h) { assert forall|k: NG| #[trigger] gs.push(h).contains(k) == (gs.contains(k) || k == h) by { assert(gs.push(h)[gs.len() as int] == h); if gs.contains(k) { let i = gs.index_of(k); assert(gs.push(h)[i] == k); } if gs.push(h).contains(k) { let i = gs.push(h).index_of(k); if i < gs.len() { assert(gs[i] == k); } } } }
pub proof fn lemma_oldp(w: Map<Seq<char>, Fr>, gl: Seq<PGate>, set: Set<(NG, Fr, Fr, Fr)>, pm: Map<Seq<char>, Vec<(usize, usize)>>, g: PGate) requires stp(w, gl, set, pm), set.contains(g.key()) ensures ngsp(gl) == addg(ngsp(gl), ngp(g)) { assert(keyok(w, ngsp(gl), g.key())); }
/// what the code does with a new gate keeps the state
pub proof fn lemma_gatep(w: Map<Seq<char>, Fr>, gl: Seq<PGate>, set: Set<(NG, Fr, Fr, Fr)>, pm: Map<Seq<char>, Vec<(usize, usize)>>, g: PGate, i: usize)
  requires stp(w, gl, set, pm), wvals(w, g), i == gl.len()
  ensures ngp(g) == (NG { l: g.left.value_string@, r: g.right.value_string@, o: g.bottom.value_string@, t: ty(g.type_of_circuit) }), set.contains(g.key()) ==> ngsp(gl) == addg(ngsp(gl), ngp(g)), !set.contains(g.key()) ==> forall|a: Map<Seq<char>, Vec<(usize, usize)>>, b: Map<Seq<char>, Vec<(usize, usize)>>, c: Map<Seq<char>, Vec<(usize, usize)>>, s: Set<(NG, Fr, Fr, Fr)>|
    #[trigger] pushed(pm, a, g.left.value_string@, (0usize, i)) && #[trigger] pushed(a, b, g.right.value_string@, (1usize, i)) && #[trigger] pushed(b, c, g.bottom.value_string@, (2usize, i)) && #[trigger] sins(set, s, g.key()) ==> stp(w, gl.push(g), s, c) && ngsp(gl.push(g)) == addg(ngsp(gl), ngp(g)) {
  if set.contains(g.key()) { lemma_oldp(w, gl, set, pm, g); } else {
    assert forall|a: Map<Seq<char>, Vec<(usize, usize)>>, b: Map<Seq<char>, Vec<(usize, usize)>>, c: Map<Seq<char>, Vec<(usize, usize)>>, s: Set<(NG, Fr, Fr, Fr)>|
    #[trigger] pushed(pm, a, g.left.value_string@, (0usize, i)) && #[trigger] pushed(a, b, g.right.value_string@, (1usize, i)) && #[trigger] pushed(b, c, g.bottom.value_string@, (2usize, i)) && #[trigger] sins(set, s, g.key()) implies stp(w, gl.push(g), s, c) && ngsp(gl.push(g)) == addg(ngsp(gl), ngp(g)) by { lemma_addp(w, gl, set, pm, a, b, s, c, g, i); } } }
@end
@fn PGate::new | P03 | r
ensures r.left == left, r.right == right, r.bottom == bottom, r.type_of_circuit == type_of_circuit
@fn PGate::change_result | P03 | r
ensures final(self).bottom.value_fr == value, final(self).bottom.value_string == old(self).bottom.value_string, final(self).left == old(self).left, final(self).right == old(self).right, final(self).type_of_circuit == old(self).type_of_circuit
@fn Wire::new | P03 | r
ensures r.value_string == value_string, r.value_fr == value_fr
@fn Parser::add_witness | P03 | r
ensures final(self).witnesses@ == old(self).witnesses@.insert(variable@, value)
@fn Parser::push_into_position_map_or_insert | P03 | r
ensures pushed(old(position_map)@, final(position_map)@, value@, (wire_number, gate_number))
@start
let ghost pm0 = position_map@;
@fn Parser::generate_additional_gate | P03 | r
requires stp(self.witnesses@, old(gate_list)@, old(gate_set)@, old(position_map)@), left.value_fr == nval(self.witnesses@, left.value_string@), right.value_fr == nval(self.witnesses@, right.value_string@), free(right.value_string@, '+')
ensures stp(self.witnesses@, final(gate_list)@, final(gate_set)@, final(position_map)@), ngsp(final(gate_list)@) == addg(ngsp(old(gate_list)@), ag(left.value_string@, right.value_string@)), r.value_string@ == jn(left.value_string@, '+', right.value_string@), r.value_fr == nval(self.witnesses@, r.value_string@)
@start
proof { reveal_strlit("+"); assert("+"@ =~= seq!['+']); lemma_nval_sum(self.witnesses@, left.value_string@, right.value_string@); }
@after_let gate
proof { lemma_gatep(self.witnesses@, gate_list@, gate_set@, position_map@, gate, gate_number); }
@fn Parser::generate_constant_gate | P03 | r
requires stp(self.witnesses@, old(gate_list)@, old(gate_set)@, old(position_map)@), names_ok(self.witnesses@), value.value_fr == nval(self.witnesses@, value.value_string@)
ensures stp(self.witnesses@, final(gate_list)@, final(gate_set)@, final(position_map)@), ngsp(final(gate_list)@) == addg(ngsp(old(gate_list)@), cg(value.value_string@))
@start
proof { reveal_strlit("+"); reveal_strlit("0"); assert("+"@ =~= seq!['+']); lemma_zero_name(self.witnesses@); assert("0"@ =~= seq!['0']); lemma_nval_sum(self.witnesses@, value.value_string@, seq!['0']); }
@after_let gate
proof { lemma_gatep(self.witnesses@, gate_list@, gate_set@, position_map@, gate, gate_number); }
@fn Parser::get_witness_value | P03 | r
requires stp(self.witnesses@, old(gate_list)@, old(gate_set)@, old(position_map)@), names_ok(self.witnesses@), known(self.witnesses@, value@), plain(value@)
ensures stp(self.witnesses@, final(gate_list)@, final(gate_set)@, final(position_map)@), ngsp(final(gate_list)@) == (if cst(value@) { addg(ngsp(old(gate_list)@), cg(value@)) } else { ngsp(old(gate_list)@) }), r == nval(self.witnesses@, value@)
@start
broadcast use strs;
proof { ax_sadd_on(); reveal_strlit("-"); lemma_nval_atom(self.witnesses@, value@); if negd(value@) { assert("-"@ + strip1(value@) =~= value@); } }
@raw
/// the summing gates of the first n terms have results no longer than the sum's name
pub open spec fn small_sums(gs: Seq<NG>, m: nat) -> bool { forall|i: int| 0 <= i < gs.len() && (#[trigger] gs[i]).t == 0 ==> gs[i].o.len() <= m }
pub proof fn lemma_addg_sums(gs: Seq<NG>, g: NG, m: nat) requires small_sums(gs, m), g.t == 0 ==> g.o.len() <= m ensures small_sums(addg(gs, g), m) { }
pub proof fn lemma_consts_sums(gs: Seq<NG>, a: Seq<Seq<char>>, n: int, m: nat) requires small_sums(gs, m) ensures small_sums(consts(gs, a, n), m) decreases n { if n > 0 { lemma_consts_sums(gs, a, n - 1, m); } }
pub proof fn lemma_prods_sums(gs: Seq<NG>, a: Seq<Seq<char>>, n: int, m: nat) requires small_sums(gs, m) ensures small_sums(prods(gs, a, n), m) decreases n { if n > 1 { lemma_prods_sums(gs, a, n - 1, m); } }
pub proof fn lemma_run_sums(ts: Seq<Seq<char>>, n: int) requires 1 <= n <= ts.len() ensures small_sums(grun(ts, n), sname(ts, n).len()) decreases n {
  let m = sname(ts, n).len(); let a = atoms(ts[n - 1]); let h = grun(ts, n - 1);
  if n > 1 { lemma_run_sums(ts, n - 1); assert(sname(ts, n - 1).len() <= m); }
  assert(small_sums(h, m)); lemma_consts_sums(h, a, a.len() as int, m); lemma_prods_sums(consts(h, a, a.len() as int), a, a.len() as int, m); }
/// the last gate forms the whole sum and is new
pub proof fn lemma_run_last(ts: Seq<Seq<char>>, n: int) requires 2 <= n <= ts.len() ensures ({ let h = term(grun(ts, n - 1), ts[n - 1]); let g = ag(sname(ts, n - 1), tname(ts[n - 1])); !h.contains(g) && grun(ts, n) == h.push(g) && g.o == sname(ts, n) }) {
  lemma_run_sums(ts, n - 1); let m = sname(ts, n - 1).len(); let a = atoms(ts[n - 1]); let h0 = grun(ts, n - 1); lemma_consts_sums(h0, a, a.len() as int, m); lemma_prods_sums(consts(h0, a, a.len() as int), a, a.len() as int, m);
  let h = term(h0, ts[n - 1]); let g = ag(sname(ts, n - 1), tname(ts[n - 1])); assert(g.o.len() > m); if h.contains(g) { let i = h.index_of(g); assert(h[i].t == 0); } }
/// the gates of the list carry the values of their names, only the last result is 0
pub open spec fn glp(w: Map<Seq<char>, Fr>, gl: Seq<PGate>, gs: Seq<NG>) -> bool { ngsp(gl) == gs && gl.len() > 0 && (forall|i: int| 0 <= i < gl.len() - 1 ==> wvals(w, #[trigger] gl[i])) && gl.last().left.value_fr == nval(w, gs.last().l) && gl.last().right.value_fr == nval(w, gs.last().r) && gl.last().bottom.value_fr == fz(0) }
/// the first n strings, the first n wires, the wire of a sum
pub open spec fn strs_are(v: Seq<String>, p: Seq<Seq<char>>, n: int) -> bool { v.len() == n && forall|j: int| 0 <= j < n ==> (#[trigger] v[j])@ == p[j] }
pub open spec fn wires_are(w: Map<Seq<char>, Fr>, v: Seq<Wire>, a: Seq<Seq<char>>, n: int) -> bool { v.len() == n && forall|j: int| 0 <= j < n ==> (#[trigger] v[j]).value_string@ == a[j] && v[j].value_fr == nval(w, a[j]) }
pub open spec fn acc_is(w: Map<Seq<char>, Fr>, x: Option<Wire>, ts: Seq<Seq<char>>, n: int) -> bool { x is None == (n == 0) && (x is Some ==> x->0.value_string@ == sname(ts, n) && x->0.value_fr == nval(w, x->0.value_string@)) }
pub proof fn lemma_stp0(w: Map<Seq<char>, Fr>, set: Set<(NG, Fr, Fr, Fr)>, pm: Map<Seq<char>, Vec<(usize, usize)>>) requires pm == Map::<Seq<char>, Vec<(usize, usize)>>::empty(), forall|k: (NG, Fr, Fr, Fr)| !(#[trigger] set.contains(k)) ensures stp(w, Seq::<PGate>::empty(), set, pm), ngsp(Seq::<PGate>::empty()) == Seq::<NG>::empty() {
  let e = Seq::<PGate>::empty(); assert(ngsp(e) =~= Seq::<NG>::empty()); assert(nms(ngsp(e)) =~= Seq::<Seq<char>>::empty()); assert forall|k: Seq<char>| #[trigger] pm_at(pm, nms(ngsp(e)), k) by { assert(poss(occ(nms(ngsp(e)), k)) =~= Seq::<(usize, usize)>::empty()); } }
@end
@fn Parser::prepare_gen_circuit | P03 | r
requires names_ok(self.witnesses@), eq_ok(string@), wit_ok(self.witnesses@, string@)
ensures glp(self.witnesses@, r.0@, eqgates(string@)), pm_ok(r.1@, nms(eqgates(string@)))
@start
broadcast use strs;
let ghost s0 = string@; let ghost ts = terms(s0); let ghost w = self.witnesses@;
proof { ax_sadd_on(); reveal_strlit("-"); reveal_strlit("*"); assert("-"@ =~= seq!['-']); assert("*"@ =~= seq!['*']); lemma_terms(s0); lemma_run_last(ts, ts.len() as int); }
@loop 1
invariant __L1 == split(s0, '=').len(), strs_are(__v1@, split(s0, '='), __i1 as int)
@after_let split_list
let ghost sl0 = split_list@;
@loop 2
invariant __L2 == split(split(s0, '=')[0], '+').len(), strs_are(__v2@, split(split(s0, '=')[0], '+'), __i2 as int)
@before_loop 3
proof { assert(gate_list@ =~= Seq::<PGate>::empty()); lemma_stp0(w, gate_set@, position_map@); }
@loop 3
invariant __L3 == ts.len(), stp(w, gate_list@, gate_set@, position_map@), ngsp(gate_list@) == grun(ts, __i3 as int), acc_is(w, __v3, ts, __i3 as int)
@loop_start 3
let ghost g0 = ngsp(gate_list@); let ghost tt = ts[__i3 as int]; let ghost aa = atoms(tt);
proof { lemma_tname(w, tt); assert(term_known(w, tt)); }
@loop 4
invariant __L4 == aa.len(), stp(w, gate_list@, gate_set@, position_map@), ngsp(gate_list@) == consts(g0, aa, __i4 as int), wires_are(w, __v4@, aa, __i4 as int)
@loop_start 4
proof { assert(known(w, aa[__i4 as int]) && plain(aa[__i4 as int])); }
@before_loop 5
let ghost g1 = ngsp(gate_list@);
@loop 5
invariant __L5 == aa.len(), 1 <= __i5, stp(w, gate_list@, gate_set@, position_map@), ngsp(gate_list@) == prods(g1, aa, __i5 as int), __v5.value_string@ == pname(aa, __i5 as int), __v5.value_fr == nval(w, __v5.value_string@)
@loop_start 5
proof { assert(plain(aa[__i5 as int])); lemma_pname(w, aa, __i5 as int); lemma_nval_prod(w, pname(aa, __i5 as int), aa[__i5 as int]); }
@after_let gate
proof { lemma_gatep(w, gate_list@, gate_set@, position_map@, gate, gate_number); }
@post
proof { assert(ngsp(r.0@) =~= eqgates(string@)); }
@raw
// ---- from lists of gates and places to circuits
pub proof fn lemma_occ_mem(nm: Seq<Seq<char>>, k: Seq<char>) ensures forall|i: int| 0 <= i < occ(nm, k).len() ==> 0 <= #[trigger] occ(nm, k)[i] < nm.len() && nm[occ(nm, k)[i]] == k, forall|i: int, j: int| 0 <= i < j < occ(nm, k).len() ==> #[trigger] occ(nm, k)[i] < #[trigger] occ(nm, k)[j] decreases nm.len() {
  if nm.len() > 0 { let p = nm.drop_last(); lemma_occ_mem(p, k); let o = occ(p, k); assert forall|i: int| 0 <= i < occ(nm, k).len() implies 0 <= #[trigger] occ(nm, k)[i] < nm.len() && nm[occ(nm, k)[i]] == k by { if i < o.len() { assert(occ(nm, k)[i] == o[i]); assert(p[o[i]] == k); } } } }
pub proof fn lemma_occ_prefix(nm: Seq<Seq<char>>, n: int, k: Seq<char>) requires 0 <= n <= nm.len() ensures occ(nm.take(n), k).len() <= occ(nm, k).len(), forall|i: int| 0 <= i < occ(nm.take(n), k).len() ==> #[trigger] occ(nm, k)[i] == occ(nm.take(n), k)[i] decreases nm.len() {
  if n < nm.len() { let p = nm.drop_last(); lemma_occ_prefix(p, n, k); assert(p.take(n) =~= nm.take(n)); } else { assert(nm.take(n) =~= nm); } }
/// a wire stands where its name occurs for the next time
pub proof fn lemma_occ_at(nm: Seq<Seq<char>>, w: int) requires 0 <= w < nm.len() ensures ({ let k = nm[w]; let c = occ(nm.take(w), k).len() as int; c < occ(nm, k).len() && occ(nm, k)[c] == w && occ(nm.take(w + 1), k).len() == c + 1 }) {
  let k = nm[w]; let t = nm.take(w + 1); assert(t.drop_last() =~= nm.take(w)); assert(t.last() == k); lemma_occ_prefix(nm, w + 1, k); let c = occ(nm.take(w), k).len() as int; assert(occ(t, k)[c] == w); assert(occ(nm, k)[c] == occ(t, k)[c]); }
pub proof fn lemma_occ_other(nm: Seq<Seq<char>>, w: int, k: Seq<char>) requires 0 <= w < nm.len(), nm[w] != k ensures occ(nm.take(w + 1), k) == occ(nm.take(w), k) { let t = nm.take(w + 1); assert(t.drop_last() =~= nm.take(w)); assert(t.last() == nm[w]); }
/// the wire that a wire is linked to: the next one of that name, after the last one the first
pub open spec fn tgt(nm: Seq<Seq<char>>, w: int) -> int { let o = occ(nm, nm[w]); o[(occ(nm.take(w), nm[w]).len() as int + 1) % (o.len() as int)] }
pub open spec fn rr<T>(s: Seq<T>) -> Seq<T> { rotr(s.reverse(), 1) }
/// what is left on the stacks when the first n wires are placed
pub open spec fn stk_at(pm: Map<Seq<char>, Vec<(usize, usize)>>, nm: Seq<Seq<char>>, n: int, k: Seq<char>) -> bool { pm.dom().contains(k) == (occ(nm, k).len() > 0) && pent(pm, k) == (if occ(nm, k).len() > 0 { rr(poss(occ(nm, k))).take(occ(nm, k).len() - occ(nm.take(n), k).len()) } else { Seq::<(usize, usize)>::empty() }) }
pub open spec fn stk(pm: Map<Seq<char>, Vec<(usize, usize)>>, nm: Seq<Seq<char>>, n: int) -> bool { forall|k: Seq<char>| #[trigger] stk_at(pm, nm, n, k) }
pub open spec fn popped(o: Map<Seq<char>, Vec<(usize, usize)>>, n: Map<Seq<char>, Vec<(usize, usize)>>, k: Seq<char>) -> bool { n.dom().contains(k) && o.dom().contains(k) && pent(n, k) == pent(o, k).drop_last() && forall|j: Seq<char>| j != k ==> #[trigger] n.dom().contains(j) == o.dom().contains(j) && pent(n, j) == pent(o, j) }
/// on top of the stack of a wire's name lies the place it is linked to
pub proof fn lemma_top(pm: Map<Seq<char>, Vec<(usize, usize)>>, nm: Seq<Seq<char>>, w: int) requires stk(pm, nm, w), 0 <= w < nm.len() ensures ({ let k = nm[w]; pm.dom().contains(k) && pm[k]@.len() > 0 && pm[k]@.last() == pos(tgt(nm, w)) }) {
  let k = nm[w]; assert(stk_at(pm, nm, w, k)); lemma_occ_at(nm, w); let o = occ(nm, k); let m = o.len() as int; let c = occ(nm.take(w), k).len() as int; let p = poss(o); let r = rr(p); let j = m - c - 1;
  assert(pm[k]@ == r.take(m - c)); assert(pm[k]@.last() == r[j]); assert(p.reverse().len() == m); assert(r.len() == m);
  if j == 0 { assert(r[0] == p.reverse()[m - 1]); assert(r[0] == p[0]); vstd::arithmetic::div_mod::lemma_mod_self_0(m); } else { assert(r[j] == p.reverse()[j - 1]); assert(r[j] == p[m - 1 - (j - 1)]); vstd::arithmetic::div_mod::lemma_small_mod((c + 1) as nat, m as nat); } }
pub proof fn lemma_pop(o: Map<Seq<char>, Vec<(usize, usize)>>, n: Map<Seq<char>, Vec<(usize, usize)>>, nm: Seq<Seq<char>>, w: int) requires stk(o, nm, w), 0 <= w < nm.len(), popped(o, n, nm[w]) ensures stk(n, nm, w + 1) {
  let k = nm[w]; lemma_occ_at(nm, w);
  assert forall|j: Seq<char>| #[trigger] stk_at(n, nm, w + 1, j) by { assert(stk_at(o, nm, w, j)); if j == k { let m = occ(nm, k).len() as int; let c = occ(nm.take(w), k).len() as int; let r = rr(poss(occ(nm, k))); assert(r.len() == m); assert(r.take(m - c).drop_last() =~= r.take(m - c - 1)); } else { lemma_occ_other(nm, w, j); assert(n.dom().contains(j) == o.dom().contains(j)); } } }
pub open spec fn wpos(w: int) -> Position { Position::Pos(pos(w).0, pos(w).1) }
/// the i-th gate of gs with its links, k the constant of a constant gate
pub open spec fn gis(g: Gate, gs: Seq<NG>, i: int, k: Fr) -> bool { let nm = nms(gs); at(g, wpos(tgt(nm, 3 * i)), wpos(tgt(nm, 3 * i + 1)), wpos(tgt(nm, 3 * i + 2))) && (gs[i].t == 0 ==> add_gate_is(g, fz(0))) && (gs[i].t == 1 ==> mul_gate_is(g, fz(0))) && (gs[i].t == 2 ==> const_gate_is(g, k, fz(0))) }
pub open spec fn row_built(c: Circuit, gl: Seq<PGate>, gs: Seq<NG>, i: int) -> bool { gis(c.gates@[i], gs, i, gl[i].left.value_fr) && col(c, 0)[i] == gl[i].left.value_fr && col(c, 1)[i] == gl[i].right.value_fr && col(c, 2)[i] == gl[i].bottom.value_fr }
pub open spec fn built(c: Circuit, gl: Seq<PGate>, n: int) -> bool { cwf(c) && c.gates@.len() == n && forall|i: int| 0 <= i < n ==> #[trigger] row_built(c, gl, ngsp(gl), i) }
pub proof fn lemma_built(o: Circuit, n: Circuit, gl: Seq<PGate>, m: int, a: (usize, usize, Fr), b: (usize, usize, Fr), c: (usize, usize, Fr))
  requires built(o, gl, m), 0 <= m < gl.len(), added(o, n, a, b, c), gis(n.gates@.last(), ngsp(gl), m, gl[m].left.value_fr), a.2 == gl[m].left.value_fr, b.2 == gl[m].right.value_fr, c.2 == gl[m].bottom.value_fr ensures built(n, gl, m + 1) {
  assert(col(o, 0).len() == m); assert(col(o, 1).len() == m); assert(col(o, 2).len() == m);
  assert forall|i: int| 0 <= i < m + 1 implies #[trigger] row_built(n, gl, ngsp(gl), i) by { if i < m { assert(row_built(o, gl, ngsp(gl), i)); assert(n.gates@[i] == o.gates@[i]); } else { assert(n.gates@[i] == n.gates@.last()); } } }
/// the stacks made of the first n entries
pub open spec fn stacks(v: HashMap<String, Vec<(usize, usize)>>, m: HashMap<String, Vec<(usize, usize)>>, n: int) -> bool { let e = entries(m); (forall|j: int| 0 <= j < n ==> v@.dom().contains((#[trigger] e[j]).0.st()) && v@[e[j].0.st()]@ == rr(e[j].1@)) && forall|k: Seq<char>| #[trigger] v@.dom().contains(k) ==> exists|j: int| 0 <= j < n && (#[trigger] e[j]).0.st() == k }
pub proof fn lemma_stacks(v: HashMap<String, Vec<(usize, usize)>>, m: HashMap<String, Vec<(usize, usize)>>, nm: Seq<Seq<char>>) requires pm_ok(m@, nm), stacks(v, m, entries(m).len() as int) ensures stk(v@, nm, 0) {
  ax_entries(m); let e = entries(m); assert(nm.take(0) =~= Seq::<Seq<char>>::empty());
  assert forall|k: Seq<char>| #[trigger] stk_at(v@, nm, 0, k) by { assert(pm_at(m@, nm, k)); assert(occ(nm.take(0), k).len() == 0);
    if m@.dom().contains(k) { let j = choose|j: int| 0 <= j < e.len() && (#[trigger] e[j]).0.st() == k; let r = rr(poss(occ(nm, k))); assert(v@[k]@ == r); assert(r.take(r.len() as int) =~= r); }
    else { if v@.dom().contains(k) { let j = choose|j: int| 0 <= j < e.len() && (#[trigger] e[j]).0.st() == k; } } } }
@end
@fn Parser::gen_circuit | P03 | r
@subst \bCircuit :: vdefault\b => Circuit :: default
requires pm_ok(position_map@, nms(ngsp(gate_list@)))
ensures built(r, gate_list@, gate_list@.len() as int)
@start
let ghost gl = gate_list@; let ghost gs = ngsp(gl); let ghost nm = nms(gs); let ghost pm0 = position_map;
proof { ax_entries(pm0); assert forall|i: int| 0 <= i < entries(pm0).len() implies (#[trigger] entries(pm0)[i]).1@.len() > 0 by { assert(pm_at(pm0@, nm, entries(pm0)[i].0.st())); } }
@loop 1
invariant __L1 == entries(pm0).len(), stacks(__v1, pm0, __i1 as int)
@after_let position_map
proof { lemma_stacks(position_map, pm0, nm); }
@loop 2
invariant __L2 == gl.len(), stk(position_map@, nm, 3 * __i2), built(result, gl, __i2 as int)
@loop_start 2
let ghost n = __i2 as int; let ghost r0 = result; let ghost q0 = position_map@;
proof { assert(gs[n] == ngp(gl[n])); assert(nm[3 * n] == gs[n].l); assert(nm[3 * n + 1] == gs[n].r); assert(nm[3 * n + 2] == gs[n].o); lemma_top(q0, nm, 3 * n); }
@after_let left
let ghost q1 = position_map@;
proof { lemma_pop(q0, q1, nm, 3 * n); lemma_top(q1, nm, 3 * n + 1); }
@after_let right
let ghost q2 = position_map@;
proof { lemma_pop(q1, q2, nm, 3 * n + 1); lemma_top(q2, nm, 3 * n + 2); }
@after_let bottom
let ghost q3 = position_map@;
proof { lemma_pop(q2, q3, nm, 3 * n + 2); }
@loop_end 2
proof { lemma_built(r0, result, gl, n, left, right, bottom); }
@raw
pub open spec fn vrow(w: Map<Seq<char>, Fr>, c: Circuit, gs: Seq<NG>, i: int) -> bool { gis(c.gates@[i], gs, i, nval(w, gs[i].l)) && col(c, 0)[i] == nval(w, gs[i].l) && col(c, 1)[i] == nval(w, gs[i].r) && col(c, 2)[i] == (if i == gs.len() - 1 { fz(0) } else { nval(w, gs[i].o) }) }
/// the circuit has exactly the gates gs, every wire carries the value of its name, only the last result is 0
pub open spec fn circ_is(w: Map<Seq<char>, Fr>, c: Circuit, gs: Seq<NG>) -> bool { cwf(c) && c.gates@.len() == gs.len() && gs.len() > 0 && forall|i: int| 0 <= i < gs.len() ==> #[trigger] vrow(w, c, gs, i) }
pub proof fn lemma_circ(w: Map<Seq<char>, Fr>, c: Circuit, gl: Seq<PGate>, gs: Seq<NG>) requires glp(w, gl, gs), built(c, gl, gl.len() as int) ensures circ_is(w, c, gs) {
  assert forall|i: int| 0 <= i < gs.len() implies #[trigger] vrow(w, c, gs, i) by { assert(row_built(c, gl, gs, i)); assert(gs[i] == ngp(gl[i])); if i < gl.len() - 1 { assert(wvals(w, gl[i])); } } }
/// an input as the parser takes it: it can be normalised to one equation whose names are known
pub open spec fn input_ok(w: Map<Seq<char>, Fr>, i: Seq<char>) -> bool { let m = machine(lower(i)); !m.bad && eq_ok(m.out) && wit_ok(w, m.out) && names_ok(w) }
@end
@fn Parser::parse | P03 P05 | r
requires input_ok(self.witnesses@, input@)
ensures circ_is(self.witnesses@, r, eqgates(machine(lower(input@)).out))
@after_let gate_list, position_map
proof { assert forall|c: Circuit| #[trigger] built(c, gate_list@, gate_list@.len() as int) implies circ_is(self.witnesses@, c, eqgates(input@)) by { lemma_circ(self.witnesses@, c, gate_list@, eqgates(input@)); } }
@raw
// ---- the links
pub proof fn lemma_tgt(nm: Seq<Seq<char>>, k: Seq<char>, j: int) requires 0 <= j < occ(nm, k).len() ensures ({ let o = occ(nm, k); 0 <= o[j] < nm.len() && nm[o[j]] == k && occ(nm.take(o[j]), k).len() == j && tgt(nm, o[j]) == o[(j + 1) % (o.len() as int)] }) {
  lemma_occ_mem(nm, k); let o = occ(nm, k); let w = o[j]; lemma_occ_at(nm, w); let c = occ(nm.take(w), k).len() as int; if c < j { assert(o[c] < o[j]); } if j < c { assert(o[j] < o[c]); } }
pub proof fn lemma_next_mod(c: int, m: int) requires 0 <= c < m ensures (c + 1) % m == (if c + 1 == m { 0 } else { c + 1 }) { if c + 1 == m { vstd::arithmetic::div_mod::lemma_mod_self_0(m); } else { vstd::arithmetic::div_mod::lemma_small_mod((c + 1) as nat, m as nat); } }
pub proof fn lemma_tgt_inj(nm: Seq<Seq<char>>) ensures forall|w: int| 0 <= w < nm.len() ==> 0 <= #[trigger] tgt(nm, w) < nm.len() && nm[tgt(nm, w)] == nm[w], forall|w: int, v: int| 0 <= w < nm.len() && 0 <= v < nm.len() && #[trigger] tgt(nm, w) == #[trigger] tgt(nm, v) ==> w == v {
  assert forall|w: int| 0 <= w < nm.len() implies 0 <= #[trigger] tgt(nm, w) < nm.len() && nm[tgt(nm, w)] == nm[w] by { lemma_occ_at(nm, w); let k = nm[w]; let c = occ(nm.take(w), k).len() as int; lemma_tgt(nm, k, c); lemma_next_mod(c, occ(nm, k).len() as int); lemma_occ_mem(nm, k); }
  assert forall|w: int, v: int| 0 <= w < nm.len() && 0 <= v < nm.len() && #[trigger] tgt(nm, w) == #[trigger] tgt(nm, v) implies w == v by { lemma_occ_at(nm, w); lemma_occ_at(nm, v); let k = nm[w]; let o = occ(nm, k); let m = o.len() as int; assert(nm[tgt(nm, w)] == nm[w] && nm[tgt(nm, v)] == nm[v]); let c = occ(nm.take(w), k).len() as int; let d = occ(nm.take(v), k).len() as int; lemma_tgt(nm, k, c); lemma_tgt(nm, k, d); lemma_next_mod(c, m); lemma_next_mod(d, m); lemma_occ_mem(nm, k);
    let (x, y) = ((c + 1) % m, (d + 1) % m); if x < y { assert(o[x] < o[y]); } if y < x { assert(o[y] < o[x]); } } }
pub open spec fn walk(nm: Seq<Seq<char>>, w: int, n: nat) -> int decreases n { if n == 0 { w } else { tgt(nm, walk(nm, w, (n - 1) as nat)) } }
pub proof fn lemma_walk(nm: Seq<Seq<char>>, k: Seq<char>, j: int, n: nat) requires 0 <= j < occ(nm, k).len() ensures ({ let o = occ(nm, k); let m = o.len() as int; 0 <= (j + n) % m < m && walk(nm, o[j], n) == o[(j + n) % m] }) decreases n {
  let o = occ(nm, k); let m = o.len() as int; if n == 0 { vstd::arithmetic::div_mod::lemma_small_mod(j as nat, m as nat); } else { lemma_walk(nm, k, j, (n - 1) as nat); let i = (j + n - 1) % m; lemma_tgt(nm, k, i); vstd::arithmetic::div_mod::lemma_add_mod_noop(j + n - 1, 1, m); vstd::arithmetic::div_mod::lemma_add_mod_noop(i, 1, m); vstd::arithmetic::div_mod::lemma_mod_twice(j + n - 1, m); vstd::arithmetic::div_mod::lemma_mod_bound(j + n, m); } }
pub proof fn lemma_targets(w: Map<Seq<char>, Fr>, c: Circuit, gs: Seq<NG>) requires circ_is(w, c, gs) ensures wired(c.gates@, c.gates@.len()), targets(c.gates@, 3 * c.gates@.len()) == Seq::new(3 * gs.len(), |i: int| tgt(nms(gs), i)) {
  let nm = nms(gs); let n = gs.len() as int; lemma_tgt_inj(nm); let g = c.gates@;
  assert(c.gates.len() == c.gates@.len());
  assert forall|i: int| 0 <= i < n implies (#[trigger] g[i]).a_pos == Position::Dummy || (in_range(g[i].a_pos, n as nat) && in_range(g[i].b_pos, n as nat) && in_range(g[i].c_pos, n as nat)) by { assert(vrow(w, c, gs, i)); assert(0 <= tgt(nm, 3 * i) < nm.len()); assert(0 <= tgt(nm, 3 * i + 1) < nm.len()); assert(0 <= tgt(nm, 3 * i + 2) < nm.len()); }
  assert forall|i: int| 0 <= i < 3 * n implies #[trigger] targets(g, 3 * g.len())[i] == tgt(nm, i) by { assert(vrow(w, c, gs, i / 3)); let t = tgt(nm, i); assert(0 <= t < nm.len()); assert(i == 3 * (i / 3) + i % 3); let p = wire(g[i / 3], i % 3); assert(p == wpos(t)) by { if i % 3 == 0 { assert(i == 3 * (i / 3)); } else if i % 3 == 1 { assert(i == 3 * (i / 3) + 1); } else { assert(i == 3 * (i / 3) + 2); } } assert(t == 3 * (t / 3) + t % 3); }
  assert(targets(g, 3 * g.len()) =~= Seq::new(3 * gs.len(), |i: int| tgt(nms(gs), i))); }
@lemma p03_links P03
/// the links permute the wires; following them from a wire leads through the wires of the same name and through no others
pub proof fn p03_links(w: Map<Seq<char>, Fr>, c: Circuit, gs: Seq<NG>) requires circ_is(w, c, gs)
  ensures linked(c), forall|i: int| 0 <= i < 3 * gs.len() ==> #[trigger] targets(c.gates@, 3 * c.gates@.len())[i] == walk(nms(gs), i, 1),
    forall|i: int, j: int| 0 <= i < 3 * gs.len() && 0 <= j < 3 * gs.len() ==> ((#[trigger] nms(gs)[i] == #[trigger] nms(gs)[j]) == (exists|n: nat| #[trigger] walk(nms(gs), i, n) == j)) {
  lemma_linked(w, c, gs); lemma_targets(w, c, gs); let nm = nms(gs);
  assert forall|i: int| 0 <= i < 3 * gs.len() implies #[trigger] targets(c.gates@, 3 * c.gates@.len())[i] == walk(nm, i, 1) by { assert(walk(nm, i, 0) == i); }
  assert forall|i: int, j: int| 0 <= i < 3 * gs.len() && 0 <= j < 3 * gs.len() implies ((#[trigger] nms(gs)[i] == #[trigger] nms(gs)[j]) == (exists|n: nat| #[trigger] walk(nms(gs), i, n) == j)) by {
    let k = nm[i]; let o = occ(nm, k); let m = o.len() as int; lemma_occ_at(nm, i); let a = occ(nm.take(i), k).len() as int;
    if nm[j] == k { lemma_occ_at(nm, j); let b = occ(nm.take(j), k).len() as int; let n = (if b >= a { b - a } else { b - a + m }) as nat; lemma_walk(nm, k, a, n); if b >= a { vstd::arithmetic::div_mod::lemma_small_mod(b as nat, m as nat); } else { vstd::arithmetic::div_mod::lemma_mod_add_multiples_vanish(b, m); assert(a + n == m + b); vstd::arithmetic::div_mod::lemma_small_mod(b as nat, m as nat); } assert(walk(nm, i, n) == j); }
    else { assert forall|n: nat| #[trigger] walk(nm, i, n) != j by { lemma_walk(nm, k, a, n); lemma_occ_mem(nm, k); } } } }
@raw
pub proof fn lemma_linked(w: Map<Seq<char>, Fr>, c: Circuit, gs: Seq<NG>) requires circ_is(w, c, gs) ensures linked(c) {
  lemma_targets(w, c, gs); lemma_tgt_inj(nms(gs)); let p = targets(c.gates@, 3 * c.gates@.len()); let nm = nms(gs);
  assert forall|i: int| 0 <= i < p.len() implies 0 <= #[trigger] p[i] < p.len() by { assert(p[i] == tgt(nm, i)); }
  assert(p.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < p.len() && 0 <= j < p.len() && i != j implies p[i] != p[j] by { assert(p[i] == tgt(nm, i)); assert(p[j] == tgt(nm, j)); } } }
@end
@ring r_e0 | a | a + 0 == a
@ring r_e1 | a | a - 0 == a
@ring r_e2 | a b | (-a) * b == -(a * b)
@ring r_e3 | a b | a + -b == a - b
@ring r_e4 | a | -(-a) == a
@raw
// ---- the values
pub open spec fn grel(w: Map<Seq<char>, Fr>, g: NG) -> bool { 0 <= g.t <= 2 && (g.t == 0 ==> nval(w, g.o) == fadd(nval(w, g.l), nval(w, g.r))) && (g.t == 1 ==> nval(w, g.o) == fmul(nval(w, g.l), nval(w, g.r))) }
pub open spec fn grels(w: Map<Seq<char>, Fr>, gs: Seq<NG>) -> bool { forall|i: int| 0 <= i < gs.len() ==> grel(w, #[trigger] gs[i]) }
pub proof fn lemma_grels_consts(w: Map<Seq<char>, Fr>, gs: Seq<NG>, a: Seq<Seq<char>>, n: int) requires grels(w, gs) ensures grels(w, consts(gs, a, n)) decreases n { if n > 0 { lemma_grels_consts(w, gs, a, n - 1); } }
pub proof fn lemma_grels_prods(w: Map<Seq<char>, Fr>, gs: Seq<NG>, a: Seq<Seq<char>>, n: int) requires grels(w, gs), aplain(a), n <= a.len() ensures grels(w, prods(gs, a, n)) decreases n { if n > 1 { lemma_grels_prods(w, gs, a, n - 1); lemma_pname(w, a, n - 1); assert(plain(a[n - 1])); lemma_nval_prod(w, pname(a, n - 1), a[n - 1]); assert(grel(w, mg(pname(a, n - 1), a[n - 1]))); } }
pub proof fn lemma_grels_run(w: Map<Seq<char>, Fr>, ts: Seq<Seq<char>>, n: int) requires tplain(ts), n <= ts.len() ensures grels(w, grun(ts, n)) decreases n { if n > 0 { lemma_grels_run(w, ts, n - 1); let t = ts[n - 1]; let a = atoms(t); lemma_tname(w, t); let h = grun(ts, n - 1); lemma_grels_consts(w, h, a, a.len() as int); lemma_grels_prods(w, consts(h, a, a.len() as int), a, a.len() as int); if n > 1 { lemma_nval_sum(w, sname(ts, n - 1), tname(t)); assert(grel(w, ag(sname(ts, n - 1), tname(t)))); } } }
pub proof fn lemma_gate_eqs(g: Gate, a: Fr, b: Fr, c: Fr, k: Fr) ensures add_gate_is(g, fz(0)) ==> ((gate_eq(g, a, b, c) == fz(0)) == (c == fadd(a, b))), mul_gate_is(g, fz(0)) ==> ((gate_eq(g, a, b, c) == fz(0)) == (c == fmul(a, b))), const_gate_is(g, k, fz(0)) ==> ((gate_eq(g, a, b, c) == fz(0)) == (a == k)) {
  let pi = fz(0); r_gadd(a, b, c, pi); r_gmul(a, b, c, pi); r_gcon(a, b, c, k, pi); lemma_sub0(fsub(fadd(a, b), pi), c); lemma_sub0(fsub(fmul(a, b), pi), c); lemma_sub0(a, fadd(k, pi)); r_e0(k); r_e1(fadd(a, b)); r_e1(fmul(a, b)); }
/// the rows and links hold exactly when the sum of the summands is zero
pub proof fn lemma_sat(w: Map<Seq<char>, Fr>, c: Circuit, s: Seq<char>) requires circ_is(w, c, eqgates(s)), eq_ok(s)
  ensures ({ let t = total(w, terms(s), terms(s).len() as int); (t == fz(0) ==> rows_hold(c) && copies_hold(c)) && (t != fz(0) ==> !rows_hold(c)) }) {
  let ts = terms(s); let n = ts.len() as int; let gs = eqgates(s); let nm = nms(gs); let t = total(w, ts, n); lemma_terms(s); lemma_run_last(ts, n); lemma_grels_run(w, ts, n); lemma_sname(w, ts, n); let m = gs.len() as int; assert(gs.last() == ag(sname(ts, n - 1), tname(ts[n - 1]))); assert(nval(w, gs[m - 1].o) == t);
  assert forall|i: int| 0 <= i < m implies #[trigger] row_holds(c, i) == (i < m - 1 || t == fz(0)) by { assert(vrow(w, c, gs, i)); assert(grel(w, gs[i])); lemma_gate_eqs(c.gates@[i], col(c, 0)[i], col(c, 1)[i], col(c, 2)[i], nval(w, gs[i].l)); }
  if t == fz(0) { assert(rows_hold(c)); lemma_targets(w, c, gs); lemma_tgt_inj(nm);
    assert forall|i: int| 0 <= i < 3 * m implies #[trigger] value(c, i) == nval(w, nm[i]) by { assert(vrow(w, c, gs, i / 3)); }
    assert forall|i: int| 0 <= i < 3 * c.gates@.len() implies value(c, #[trigger] targets(c.gates@, 3 * c.gates@.len())[i]) == value(c, i) by { assert(targets(c.gates@, 3 * c.gates@.len())[i] == tgt(nm, i)); assert(nm[tgt(nm, i)] == nm[i]); assert(value(c, i) == nval(w, nm[i])); assert(value(c, tgt(nm, i)) == nval(w, nm[tgt(nm, i)])); } }
  else { assert(!row_holds(c, m - 1)); } }
/// the sides of the equation
pub open spec fn lhs(w: Map<Seq<char>, Fr>, s: Seq<char>) -> Fr { let p = split(split(s, '=')[0], '+'); total(w, p, p.len() as int) }
pub open spec fn rhs(w: Map<Seq<char>, Fr>, s: Seq<char>) -> Fr { tval(w, split(s, '=')[1]) }
/// a right side whose first factor has no blanks in it and at most one sign, in front of a number
pub open spec fn rhs_ok(s: Seq<char>) -> bool { let a = split(split(s, '=')[1], '*')[0]; (forall|i: int| 0 <= i < a.len() ==> !is_blank(#[trigger] a[i])) && (negd(a) ==> { let d = strip1(a); d.len() > 0 && digits(d) && dval(d) <= 0x7fff_ffff }) }
pub proof fn lemma_total_ext(w: Map<Seq<char>, Fr>, a: Seq<Seq<char>>, b: Seq<Seq<char>>, n: int) requires n >= 1, n <= a.len(), n <= b.len(), forall|i: int| 0 <= i < n ==> a[i] == b[i] ensures total(w, a, n) == total(w, b, n) decreases n { if n > 1 { lemma_total_ext(w, a, b, n - 1); } }
/// a character in front of a string goes in front of its first piece
pub proof fn lemma_split_front(x: char, s: Seq<char>, c: char) requires x != c ensures split(s, c).len() > 0, split(seq![x] + s, c) == split(s, c).update(0, seq![x] + split(s, c)[0]) decreases s.len() {
  let v = seq![x] + s; lemma_lastof(s, c); let q = lastof(s, c);
  if q >= 0 { assert(v[q + 1] == c); assert forall|i: int| q + 1 < i < v.len() implies v[i] != c by { assert(v[i] == s[i - 1]); } lemma_lastof_is(v, c, q + 1); let u = s.subrange(0, q); lemma_split_front(x, u, c); assert(v.subrange(0, q + 1) =~= seq![x] + u); assert(v.subrange(q + 2, v.len() as int) =~= s.subrange(q + 1, s.len() as int)); assert(split(v, c) =~= split(s, c).update(0, seq![x] + split(s, c)[0])); }
  else { assert(free(v, c)) by { assert forall|i: int| 0 <= i < v.len() implies #[trigger] v[i] != c by { if i > 0 { assert(v[i] == s[i - 1]); } } } lemma_split_free(v, c); lemma_split_free(s, c) ; assert(split(v, c) =~= split(s, c).update(0, seq![x] + split(s, c)[0])); } }
pub proof fn lemma_prodv_neg(w: Map<Seq<char>, Fr>, a: Seq<Seq<char>>, b: Seq<Seq<char>>, n: int) requires 1 <= n <= a.len(), n <= b.len(), aval(w, b[0]) == fneg(aval(w, a[0])), forall|i: int| 1 <= i < n ==> a[i] == b[i] ensures prodv(w, b, n) == fneg(prodv(w, a, n)) decreases n { if n > 1 { lemma_prodv_neg(w, a, b, n - 1); r_e2(prodv(w, a, n - 1), aval(w, a[n - 1])); } }
pub proof fn lemma_dval(d: Seq<char>) requires digits(d) ensures dval(d) >= 0 decreases d.len() { if d.len() > 0 { let e = d.drop_last(); assert forall|i: int| 0 <= i < e.len() implies is_digit(#[trigger] e[i]) by { assert(e[i] == d[i]); } lemma_dval(e); assert(is_digit(d[d.len() - 1])); } }
pub proof fn lemma_neg_term(w: Map<Seq<char>, Fr>, s: Seq<char>) requires rhs_ok(s), names_ok(w) ensures tval(w, seq!['-'] + split(s, '=')[1]) == fneg(rhs(w, s)) {
  let p = split(s, '=')[1]; let v = seq!['-'] + p; lemma_split_front('-', p, '*'); let a = split(p, '*')[0]; let b = seq!['-'] + a; ax_trim(a); ax_trim(b); assert forall|i: int| 0 <= i < b.len() implies !is_blank(#[trigger] b[i]) by { if i > 0 { assert(b[i] == a[i - 1]); } }
  assert(atoms(p)[0] == a); assert(atoms(v)[0] == b); assert(strip1(b) =~= a); assert(negd(b));
  if negd(a) { let d = strip1(a); ax_pint_neg(d); assert(seq!['-'] + d =~= a); lemma_dval(d); broadcast use ax_pint, ring; assert(pint(a) is Some); assert(!w.dom().contains(a)); assert(pint(d) is Some); assert(!w.dom().contains(d)); assert(rawv(w, a) == fz(-dval(d))); assert(aval(w, a) == fneg(fz(dval(d)))); }
  lemma_prodv_neg(w, atoms(p), atoms(v), atoms(p).len() as int); }
@end
@lemma p03_equation P03
/// the parsed circuit: its links are a permutation, and its rows and links hold exactly when the witness satisfies the equation
pub proof fn p03_equation(w: Map<Seq<char>, Fr>, c: Circuit, s: Seq<char>) requires circ_is(w, c, eqgates(s)), eq_ok(s), rhs_ok(s), names_ok(w)
  ensures linked(c), cwf(c), lhs(w, s) == rhs(w, s) ==> rows_hold(c) && copies_hold(c), lhs(w, s) != rhs(w, s) ==> !rows_hold(c) {
  lemma_linked(w, c, eqgates(s)); lemma_sat(w, c, s); lemma_neg_term(w, s); let p = split(split(s, '=')[0], '+'); lemma_split_pieces(split(s, '=')[0], '+'); lemma_total_ext(w, p, terms(s), p.len() as int); r_e3(lhs(w, s), rhs(w, s)); lemma_sub0(lhs(w, s), rhs(w, s)); assert(terms(s)[p.len() as int] == seq!['-'] + split(s, '=')[1]); }
@lemma p03_gates P03
pub proof fn lemma_consts_keep(gs: Seq<NG>, a: Seq<Seq<char>>, n: int, g: NG) requires gs.contains(g) ensures consts(gs, a, n).contains(g) decreases n { if n > 0 { lemma_consts_keep(gs, a, n - 1, g); lemma_pushc(consts(gs, a, n - 1), cg(a[n - 1])); } }
pub proof fn lemma_prods_keep(gs: Seq<NG>, a: Seq<Seq<char>>, n: int, g: NG) requires gs.contains(g) ensures prods(gs, a, n).contains(g) decreases n { if n > 1 { lemma_prods_keep(gs, a, n - 1, g); lemma_pushc(prods(gs, a, n - 1), mg(pname(a, n - 1), a[n - 1])); } }
pub proof fn lemma_run_keep(ts: Seq<Seq<char>>, m: int, n: int, g: NG) requires m <= n, grun(ts, m).contains(g) ensures grun(ts, n).contains(g) decreases n - m { if m < n { lemma_run_keep(ts, m, n - 1, g); let t = ts[n - 1]; let a = atoms(t); let h = grun(ts, n - 1); if n >= 1 { lemma_consts_keep(h, a, a.len() as int, g); lemma_prods_keep(consts(h, a, a.len() as int), a, a.len() as int, g); lemma_pushc(term(h, t), ag(sname(ts, n - 1), tname(t))); } else { assert(grun(ts, m).len() == 0); } } }
pub proof fn lemma_consts_in(gs: Seq<NG>, a: Seq<Seq<char>>, n: int, i: int) requires 0 <= i < n, cst(a[i]) ensures consts(gs, a, n).contains(cg(a[i])) decreases n { lemma_pushc(consts(gs, a, n - 1), cg(a[n - 1])); if i < n - 1 { lemma_consts_in(gs, a, n - 1, i); } }
pub proof fn lemma_prods_in(gs: Seq<NG>, a: Seq<Seq<char>>, n: int, i: int) requires 1 <= i < n ensures prods(gs, a, n).contains(mg(pname(a, i), a[i])) decreases n { lemma_pushc(prods(gs, a, n - 1), mg(pname(a, n - 1), a[n - 1])); if i < n - 1 { lemma_prods_in(gs, a, n - 1, i); } }
/// there is a gate for every constant, for every partial product and for every partial sum, and no gate twice
pub proof fn p03_gates(s: Seq<char>) requires eq_ok(s)
  ensures forall|i: int, j: int| 0 <= i < terms(s).len() && 0 <= j < atoms(terms(s)[i]).len() && cst(#[trigger] atoms(terms(s)[i])[j]) ==> eqgates(s).contains(cg(atoms(terms(s)[i])[j])),
    forall|i: int, j: int| 0 <= i < terms(s).len() && 1 <= j < atoms(terms(s)[i]).len() ==> eqgates(s).contains(#[trigger] mg(pname(atoms(terms(s)[i]), j), atoms(terms(s)[i])[j])),
    forall|i: int| 1 <= i < terms(s).len() ==> eqgates(s).contains(#[trigger] ag(sname(terms(s), i), tname(terms(s)[i]))), eqgates(s).no_duplicates() {
  let ts = terms(s); let n = ts.len() as int;
  assert forall|i: int, j: int| 0 <= i < n && 0 <= j < atoms(ts[i]).len() && cst(#[trigger] atoms(ts[i])[j]) implies eqgates(s).contains(cg(atoms(ts[i])[j])) by { let a = atoms(ts[i]); let h = grun(ts, i); let g = cg(a[j]); lemma_consts_in(h, a, a.len() as int, j); lemma_prods_keep(consts(h, a, a.len() as int), a, a.len() as int, g); lemma_pushc(term(h, ts[i]), ag(sname(ts, i), tname(ts[i]))); lemma_run_keep(ts, i + 1, n, g); }
  assert forall|i: int, j: int| 0 <= i < n && 1 <= j < atoms(ts[i]).len() implies eqgates(s).contains(#[trigger] mg(pname(atoms(ts[i]), j), atoms(ts[i])[j])) by { let a = atoms(ts[i]); let h = grun(ts, i); let g = mg(pname(a, j), a[j]); lemma_prods_in(consts(h, a, a.len() as int), a, a.len() as int, j); lemma_pushc(term(h, ts[i]), ag(sname(ts, i), tname(ts[i]))); lemma_run_keep(ts, i + 1, n, g); }
  assert forall|i: int| 1 <= i < n implies eqgates(s).contains(#[trigger] ag(sname(ts, i), tname(ts[i]))) by { let g = ag(sname(ts, i), tname(ts[i])); lemma_pushc(term(grun(ts, i), ts[i]), g); lemma_run_keep(ts, i + 1, n, g); }
  lemma_run_nodup(ts, n); }
pub proof fn lemma_consts_nodup(gs: Seq<NG>, a: Seq<Seq<char>>, n: int) requires gs.no_duplicates() ensures consts(gs, a, n).no_duplicates() decreases n { if n > 0 { lemma_consts_nodup(gs, a, n - 1); lemma_addg_nodup(consts(gs, a, n - 1), cg(a[n - 1])); } }
pub proof fn lemma_prods_nodup(gs: Seq<NG>, a: Seq<Seq<char>>, n: int) requires gs.no_duplicates() ensures prods(gs, a, n).no_duplicates() decreases n { if n > 1 { lemma_prods_nodup(gs, a, n - 1); lemma_addg_nodup(prods(gs, a, n - 1), mg(pname(a, n - 1), a[n - 1])); } }
pub proof fn lemma_addg_nodup(gs: Seq<NG>, g: NG) requires gs.no_duplicates() ensures addg(gs, g).no_duplicates() { let h = gs.push(g); if !gs.contains(g) { assert forall|i: int, j: int| 0 <= i < h.len() && 0 <= j < h.len() && i != j implies h[i] != h[j] by { if i < gs.len() { assert(gs.contains(gs[i])); } if j < gs.len() { assert(gs.contains(gs[j])); } } } }
pub proof fn lemma_run_nodup(ts: Seq<Seq<char>>, n: int) ensures grun(ts, n).no_duplicates() decreases n { if n > 0 { lemma_run_nodup(ts, n - 1); let t = ts[n - 1]; let a = atoms(t); let h = grun(ts, n - 1); lemma_consts_nodup(h, a, a.len() as int); lemma_prods_nodup(consts(h, a, a.len() as int), a, a.len() as int); lemma_addg_nodup(term(h, t), ag(sname(ts, n - 1), tname(t))); } }
@raw
// ---- the verifier's side: the same lists without values
pub open spec fn tyc(t: CTypeOfCircuit) -> int { match t { CTypeOfCircuit::Addition => 0, CTypeOfCircuit::Multiplication => 1, CTypeOfCircuit::Constant => 2 } }
pub open spec fn ngc(g: ParserGate) -> NG { NG { l: g.left.value_string@, r: g.right.value_string@, o: g.bottom.value_string@, t: tyc(g.type_of_circuit) } }
pub open spec fn ngsc(gl: Seq<ParserGate>) -> Seq<NG> { Seq::new(gl.len(), |i: int| ngc(gl[i])) }
impl VKey for ParserGate { type KV = NG; open spec fn key(&self) -> NG { ngc(*self) } }
/// the value of a constant
pub open spec fn cval(a: Seq<char>) -> Fr { if negd(a) { fneg(fz(pint(strip1(a))->0 as int)) } else { fz(pint(a)->0 as int) } }
pub open spec fn stc(gl: Seq<ParserGate>, set: Set<NG>, pm: Map<Seq<char>, Vec<(usize, usize)>>) -> bool { pm_ok(pm, nms(ngsc(gl))) && forall|k: NG| #[trigger] set.contains(k) == ngsc(gl).contains(k) }
pub proof fn lemma_addc(gl: Seq<ParserGate>, set: Set<NG>, pm: Map<Seq<char>, Vec<(usize, usize)>>, a: Map<Seq<char>, Vec<(usize, usize)>>, b: Map<Seq<char>, Vec<(usize, usize)>>, set2: Set<NG>, pm2: Map<Seq<char>, Vec<(usize, usize)>>, g: ParserGate, i: usize)
  requires stc(gl, set, pm), !set.contains(g.key()), i == gl.len(), sins(set, set2, g.key()), pushed(pm, a, ngc(g).l, (0usize, i)), pushed(a, b, ngc(g).r, (1usize, i)), pushed(b, pm2, ngc(g).o, (2usize, i))
  ensures stc(gl.push(g), set2, pm2), ngsc(gl.push(g)) == addg(ngsc(gl), ngc(g)) {
  let gs = ngsc(gl); let h = ngc(g); assert(ngsc(gl.push(g)) =~= gs.push(h)); assert(g.key() == h); assert(!gs.contains(h)); lemma_push3(pm, a, b, pm2, gs, h, i); lemma_pushc(gs, h);
  assert forall|k: NG| #[trigger] set2.contains(k) == gs.push(h).contains(k) by { assert(set.contains(k) == gs.contains(k)); } }
pub proof fn lemma_gatec(gl: Seq<ParserGate>, set: Set<NG>, pm: Map<Seq<char>, Vec<(usize, usize)>>, g: ParserGate, i: usize)
  requires stc(gl, set, pm), i == gl.len()
  ensures ngc(g) == (NG { l: g.left.value_string@, r: g.right.value_string@, o: g.bottom.value_string@, t: tyc(g.type_of_circuit) }), g.key() == ngc(g), set.contains(g.key()) ==> ngsc(gl) == addg(ngsc(gl), ngc(g)), !set.contains(g.key()) ==> forall|a: Map<Seq<char>, Vec<(usize, usize)>>, b: Map<Seq<char>, Vec<(usize, usize)>>, c: Map<Seq<char>, Vec<(usize, usize)>>, s: Set<NG>|
    #[trigger] pushed(pm, a, g.left.value_string@, (0usize, i)) && #[trigger] pushed(a, b, g.right.value_string@, (1usize, i)) && #[trigger] pushed(b, c, g.bottom.value_string@, (2usize, i)) && #[trigger] sins(set, s, g.key()) ==> stc(gl.push(g), s, c) && ngsc(gl.push(g)) == addg(ngsc(gl), ngc(g)) {
  assert(set.contains(g.key()) == ngsc(gl).contains(ngc(g)));
  if !set.contains(g.key()) {
    assert forall|a: Map<Seq<char>, Vec<(usize, usize)>>, b: Map<Seq<char>, Vec<(usize, usize)>>, c: Map<Seq<char>, Vec<(usize, usize)>>, s: Set<NG>|
    #[trigger] pushed(pm, a, g.left.value_string@, (0usize, i)) && #[trigger] pushed(a, b, g.right.value_string@, (1usize, i)) && #[trigger] pushed(b, c, g.bottom.value_string@, (2usize, i)) && #[trigger] sins(set, s, g.key()) implies stc(gl.push(g), s, c) && ngsc(gl.push(g)) == addg(ngsc(gl), ngc(g)) by { lemma_addc(gl, set, pm, a, b, s, c, g, i); } } }
pub proof fn lemma_stc0(set: Set<NG>, pm: Map<Seq<char>, Vec<(usize, usize)>>) requires pm == Map::<Seq<char>, Vec<(usize, usize)>>::empty(), forall|k: NG| !(#[trigger] set.contains(k)) ensures stc(Seq::<ParserGate>::empty(), set, pm), ngsc(Seq::<ParserGate>::empty()) == Seq::<NG>::empty() {
  let e = Seq::<ParserGate>::empty(); assert(ngsc(e) =~= Seq::<NG>::empty()); assert(nms(ngsc(e)) =~= Seq::<Seq<char>>::empty()); assert forall|k: Seq<char>| #[trigger] pm_at(pm, nms(ngsc(e)), k) by { assert(poss(occ(nms(ngsc(e)), k)) =~= Seq::<(usize, usize)>::empty()); } }
pub open spec fn cwires_are(v: Seq<ParserWire>, a: Seq<Seq<char>>, n: int) -> bool { v.len() == n && forall|j: int| 0 <= j < n ==> (#[trigger] v[j]).value_string@ == a[j] }
pub open spec fn cacc_is(x: Option<ParserWire>, ts: Seq<Seq<char>>, n: int) -> bool { x is None == (n == 0) && (x is Some ==> x->0.value_string@ == sname(ts, n)) }
/// the constant gates stand for constants
pub open spec fn kgates(gs: Seq<NG>) -> bool { forall|i: int| 0 <= i < gs.len() && (#[trigger] gs[i]).t == 2 ==> cst(gs[i].l) && plain(gs[i].l) }
pub proof fn lemma_consts_k(gs: Seq<NG>, a: Seq<Seq<char>>, n: int) requires kgates(gs), aplain(a), n <= a.len() ensures kgates(consts(gs, a, n)) decreases n { if n > 0 { lemma_consts_k(gs, a, n - 1); assert(plain(a[n - 1])); } }
pub proof fn lemma_prods_k(gs: Seq<NG>, a: Seq<Seq<char>>, n: int) requires kgates(gs) ensures kgates(prods(gs, a, n)) decreases n { if n > 1 { lemma_prods_k(gs, a, n - 1); } }
pub proof fn lemma_run_k(ts: Seq<Seq<char>>, n: int) requires tplain(ts), n <= ts.len() ensures kgates(grun(ts, n)) decreases n { if n > 0 { lemma_run_k(ts, n - 1); let a = atoms(ts[n - 1]); assert(free(ts[n - 1], '+')); lemma_atoms(ts[n - 1]); let h = grun(ts, n - 1); lemma_consts_k(h, a, a.len() as int); lemma_prods_k(consts(h, a, a.len() as int), a, a.len() as int); } }
pub proof fn lemma_cval(w: Map<Seq<char>, Fr>, a: Seq<char>) requires names_ok(w), cst(a), plain(a) ensures nval(w, a) == cval(a) { lemma_nval_atom(w, a); assert(!w.dom().contains(strip1(a))); }
@end
@fn ParserGate::new | P05 | r
ensures r.left == left, r.right == right, r.bottom == bottom, r.type_of_circuit == type_of_circuit
@fn ParserWire::new | P05 | r
ensures r.value_string == value_string
@fn CPIGenerator::parse_constant | P05 | r
ensures r is Some == cst(value@), r is Some ==> r->0 == cval(value@)
@fn CPIGenerator::push_into_position_map_or_insert | P05 | r
ensures pushed(old(position_map)@, final(position_map)@, value@, (wire_number, gate_number))
@start
let ghost pm0 = position_map@;
@fn CPIGenerator::generate_additional_gate | P05 | r
requires stc(old(gate_list)@, old(gate_set)@, old(position_map)@)
ensures stc(final(gate_list)@, final(gate_set)@, final(position_map)@), ngsc(final(gate_list)@) == addg(ngsc(old(gate_list)@), ag(left.value_string@, right.value_string@)), r.value_string@ == jn(left.value_string@, '+', right.value_string@)
@start
proof { reveal_strlit("+"); assert("+"@ =~= seq!['+']); }
@after_let gate
proof { lemma_gatec(gate_list@, gate_set@, position_map@, gate, gate_number); }
@fn CPIGenerator::generate_constant_gate | P05 | r
requires stc(old(gate_list)@, old(gate_set)@, old(position_map)@)
ensures stc(final(gate_list)@, final(gate_set)@, final(position_map)@), ngsc(final(gate_list)@) == addg(ngsc(old(gate_list)@), cg(value.value_string@))
@start
proof { reveal_strlit("+"); reveal_strlit("0"); assert("+"@ =~= seq!['+']); assert("0"@ =~= seq!['0']); }
@after_let gate
proof { lemma_gatec(gate_list@, gate_set@, position_map@, gate, gate_number); }
@fn CPIGenerator::check_constant | P05 | r
requires stc(old(gate_list)@, old(gate_set)@, old(position_map)@)
ensures stc(final(gate_list)@, final(gate_set)@, final(position_map)@), ngsc(final(gate_list)@) == (if cst(value@) { addg(ngsc(old(gate_list)@), cg(value@)) } else { ngsc(old(gate_list)@) })
@fn CPIGenerator::prepare_generation | P05 | r
@subst (?<!:: )\bMultiplication\b => CTypeOfCircuit :: Multiplication
requires eq_ok(string@)
ensures ngsc(r.0@) == eqgates(string@), pm_ok(r.1@, nms(eqgates(string@)))
@start
broadcast use strs;
let ghost s0 = string@; let ghost ts = terms(s0);
proof { ax_sadd_on(); reveal_strlit("-"); reveal_strlit("*"); assert("-"@ =~= seq!['-']); assert("*"@ =~= seq!['*']); lemma_terms(s0); }
@loop 1
invariant __L1 == split(s0, '=').len(), strs_are(__v1@, split(s0, '='), __i1 as int)
@after_let split_list
let ghost sl0 = split_list@;
@loop 2
invariant __L2 == split(split(s0, '=')[0], '+').len(), strs_are(__v2@, split(split(s0, '=')[0], '+'), __i2 as int)
@before_loop 3
proof { assert(gate_list@ =~= Seq::<ParserGate>::empty()); lemma_stc0(gate_set@, position_map@); }
@loop 3
invariant __L3 == ts.len(), stc(gate_list@, gate_set@, position_map@), ngsc(gate_list@) == grun(ts, __i3 as int), cacc_is(__v3, ts, __i3 as int)
@loop_start 3
let ghost g0 = ngsc(gate_list@); let ghost tt = ts[__i3 as int]; let ghost aa = atoms(tt);
proof { lemma_atoms(tt); }
@loop 4
invariant __L4 == aa.len(), stc(gate_list@, gate_set@, position_map@), ngsc(gate_list@) == consts(g0, aa, __i4 as int), cwires_are(__v4@, aa, __i4 as int)
@before_loop 5
let ghost g1 = ngsc(gate_list@);
@loop 5
invariant __L5 == aa.len(), 1 <= __i5, stc(gate_list@, gate_set@, position_map@), ngsc(gate_list@) == prods(g1, aa, __i5 as int), __v5.value_string@ == pname(aa, __i5 as int)
@after_let gate
proof { lemma_gatec(gate_list@, gate_set@, position_map@, gate, gate_number); }
@raw
/// the verifier's circuit: the gates with their links, the constants read from their names
pub open spec fn cbuilt(c: CPICircuit, gs: Seq<NG>, n: int) -> bool { cpwf(c) && c.gates@.len() == n && forall|i: int| 0 <= i < n ==> #[trigger] gis(c.gates@[i], gs, i, cval(gs[i].l)) }
pub open spec fn cpwf(c: CPICircuit) -> bool { forall|i: int| 0 <= i < c.gates@.len() ==> (#[trigger] c.gates@[i]).a_pos != Position::Dummy }
@end
@fn CPIGenerator::gen_circuit | P05 | r
requires pm_ok(position_map@, nms(ngsc(gate_list@))), kgates(ngsc(gate_list@))
ensures cbuilt(r, ngsc(gate_list@), gate_list@.len() as int)
@start
let ghost gl = gate_list@; let ghost gs = ngsc(gl); let ghost nm = nms(gs); let ghost pm0 = position_map;
proof { ax_entries(pm0); assert forall|i: int| 0 <= i < entries(pm0).len() implies (#[trigger] entries(pm0)[i]).1@.len() > 0 by { assert(pm_at(pm0@, nm, entries(pm0)[i].0.st())); } }
@loop 1
invariant __L1 == entries(pm0).len(), stacks(__v1, pm0, __i1 as int)
@after_let position_map
proof { lemma_stacks(position_map, pm0, nm); }
@loop 2
invariant __L2 == gl.len(), stk(position_map@, nm, 3 * __i2), cbuilt(result, gs, __i2 as int)
@loop_start 2
let ghost n = __i2 as int; let ghost r0 = result; let ghost q0 = position_map@;
proof { assert(gs[n] == ngc(gl[n])); assert(nm[3 * n] == gs[n].l); assert(nm[3 * n + 1] == gs[n].r); assert(nm[3 * n + 2] == gs[n].o); lemma_top(q0, nm, 3 * n); }
@after_let left
let ghost q1 = position_map@;
proof { lemma_pop(q0, q1, nm, 3 * n); lemma_top(q1, nm, 3 * n + 1); }
@after_let right
let ghost q2 = position_map@;
proof { lemma_pop(q1, q2, nm, 3 * n + 1); lemma_top(q2, nm, 3 * n + 2); }
@after_let bottom
let ghost q3 = position_map@;
proof { lemma_pop(q2, q3, nm, 3 * n + 2); }
@loop_end 2
proof { assert(cadded(r0, result, left, right, bottom)); assert(gis(result.gates@.last(), gs, n, cval(gs[n].l))); assert forall|i: int| 0 <= i < n + 1 implies #[trigger] gis(result.gates@[i], gs, i, cval(gs[i].l)) by { if i < n { assert(result.gates@[i] == r0.gates@[i]); } } assert(cpwf(result)) by { assert forall|i: int| 0 <= i < n + 1 implies (#[trigger] result.gates@[i]).a_pos != Position::Dummy by { if i < n { assert(result.gates@[i] == r0.gates@[i]); } } } }
@raw
pub open spec fn fits(p: DensePolynomial, srs: Srs) -> bool { canon(p.coeffs@) && p.coeffs@.len() <= srs.g1_points@.len() }
pub open spec fn polys_fit(b: (GateConstraints, CopyConstraints, usize), srs: Srs) -> bool { fits(b.0.q_mx, srs) && fits(b.0.q_lx, srs) && fits(b.0.q_rx, srs) && fits(b.0.q_ox, srs) && fits(b.0.q_cx, srs) && fits(b.1.s_sigma_1, srs) && fits(b.1.s_sigma_2, srs) && fits(b.1.s_sigma_3, srs) }
/// the published description of a compiled circuit: size, cosets, public inputs and a commitment to every polynomial
pub open spec fn cpi_new(x: CommonPreprocessedInput, b: (GateConstraints, CopyConstraints, usize), srs: Srs) -> bool {
  x.n == b.2 && x.k1 == b.1.k1 && x.k2 == b.1.k2 && x.pi_x.coeffs@ == b.0.pi_x.coeffs@
  && com_is(srs, b.0.q_mx.coeffs@, x.com_q_mx.0) && com_is(srs, b.0.q_lx.coeffs@, x.com_q_lx.0) && com_is(srs, b.0.q_rx.coeffs@, x.com_q_rx.0) && com_is(srs, b.0.q_ox.coeffs@, x.com_q_ox.0) && com_is(srs, b.0.q_cx.coeffs@, x.com_q_cx.0)
  && com_is(srs, b.1.s_sigma_1.coeffs@, x.com_s_sigma_1.0) && com_is(srs, b.1.s_sigma_2.coeffs@, x.com_s_sigma_2.0) && com_is(srs, b.1.s_sigma_3.coeffs@, x.com_s_sigma_3.0) }
pub open spec fn cpi_made(d: CPICircuit, b: (GateConstraints, CopyConstraints, usize), x: CommonPreprocessedInput, srs: Srs, gs: Seq<NG>) -> bool { cbuilt(d, gs, gs.len() as int) && cpi_is(b, d) && cpi_new(x, b, srs) }
pub open spec fn cpi_of(x: CommonPreprocessedInput, srs: Srs, gs: Seq<NG>) -> bool { exists|d: CPICircuit, b: (GateConstraints, CopyConstraints, usize)| #[trigger] cpi_made(d, b, x, srs, gs) }
/// what the verifier's side takes: one equation that can be normalised, at most 2^32 gates, a long enough reference string
pub open spec fn cinput_ok(i: Seq<char>, srs: Srs) -> bool { let m = machine(lower(i)); !m.bad && eq_ok(m.out) && small(eqgates(m.out).len()) && srs.g1_points@.len() >= np2(eqgates(m.out).len() as int) && srs.g1_points@.len() > 0 }
pub proof fn lemma_ctargets(c: CPICircuit, gs: Seq<NG>) requires cbuilt(c, gs, gs.len() as int) ensures wired(c.gates@, c.gates@.len()) {
  let nm = nms(gs); let n = gs.len() as int; lemma_tgt_inj(nm); let g = c.gates@; assert(c.gates.len() == c.gates@.len());
  assert forall|i: int| 0 <= i < n implies (#[trigger] g[i]).a_pos == Position::Dummy || (in_range(g[i].a_pos, n as nat) && in_range(g[i].b_pos, n as nat) && in_range(g[i].c_pos, n as nat)) by { assert(gis(g[i], gs, i, cval(gs[i].l))); assert(0 <= tgt(nm, 3 * i) < nm.len()); assert(0 <= tgt(nm, 3 * i + 1) < nm.len()); assert(0 <= tgt(nm, 3 * i + 2) < nm.len()); } }
pub proof fn lemma_cwired(c: CPICircuit, gs: Seq<NG>) requires cbuilt(c, gs, gs.len() as int), small(gs.len()) ensures wired(c.gates@, np2(gs.len() as int) as nat) { lemma_ctargets(c, gs); lemma_np2(gs.len()); }
/// the compiled polynomials are shorter than the domain
pub proof fn lemma_fit(b: (GateConstraints, CopyConstraints, usize), d: CPICircuit, srs: Srs) requires cpi_is(b, d), small(d.gates@.len()), srs.g1_points@.len() >= np2(d.gates@.len() as int) ensures polys_fit(b, srs) {
  broadcast use ax_adic32; lemma_np2(d.gates@.len()); let k = choose|k: nat| k <= 32 && np2(d.gates@.len() as int) == #[trigger] p2(k) && is_np2(d.gates@.len() as int, p2(k) as int);
  let g = choose|g: Seq<Gate>| #[trigger] padded(d.gates@, g) && sel_is(b.0, g, k) && perm_is(b.1, g, k);
  ax_ifft(qcol(g, 0), k); ax_ifft(qcol(g, 1), k); ax_ifft(qcol(g, 2), k); ax_ifft(qcol(g, 3), k); ax_ifft(qcol(g, 4), k); ax_ifft(scol(g, 0, k), k); ax_ifft(scol(g, 1, k), k); ax_ifft(scol(g, 2, k), k); }
pub proof fn lemma_eqg(s: Seq<char>) requires eq_ok(s) ensures kgates(eqgates(s)), eqgates(s).len() > 0 { lemma_terms(s); lemma_run_k(terms(s), terms(s).len() as int); lemma_run_last(terms(s), terms(s).len() as int); }
@end
@fn CommonPreprocessedInput::new | P05 | r
requires polys_fit(compiled_circuit, scheme.0), scheme.0.g1_points@.len() > 0
ensures cpi_new(r, compiled_circuit, scheme.0)
@fn CPIGenerator::compute_common_preprocessed_input | P05 | r
requires cinput_ok(input@, scheme.0)
ensures r is Ok, cpi_of(r->Ok_0, scheme.0, eqgates(machine(lower(input@)).out))
@start
let ghost gs = eqgates(machine(lower(input@)).out); let ghost srs = scheme.0;
proof { lemma_eqg(machine(lower(input@)).out); assert forall|c: CPICircuit| #[trigger] cbuilt(c, gs, gs.len() as int) implies wired(c.gates@, np2(gs.len() as int) as nat) by { lemma_cwired(c, gs); }
  assert forall|b: (GateConstraints, CopyConstraints, usize), c: CPICircuit| #[trigger] cpi_is(b, c) && c.gates@.len() == gs.len() implies polys_fit(b, srs) by { lemma_fit(b, c, srs); }
  assert forall|c: CPICircuit, b: (GateConstraints, CopyConstraints, usize), x: CommonPreprocessedInput| #[trigger] cbuilt(c, gs, gs.len() as int) && #[trigger] cpi_is(b, c) && #[trigger] cpi_new(x, b, srs) implies cpi_of(x, srs, gs) by { assert(cpi_made(c, b, x, srs, gs)); } }
@lemma p05_same P05
/// the verifier's input computed from the equation describes the circuit the prover compiles from it, whatever the witness
pub proof fn p05_same(w: Map<Seq<char>, Fr>, i: Seq<char>, c: Circuit, a: CompiledCircuit, x: CommonPreprocessedInput, srs: Srs)
  requires input_ok(w, i), cinput_ok(i, srs), circ_is(w, c, eqgates(machine(lower(i)).out)), compiled_is(a, c), cpi_of(x, srs, eqgates(machine(lower(i)).out))
  ensures x.n == a.size, x.k1 == a.copy_constraint.k1, x.k2 == a.copy_constraint.k2, x.pi_x.coeffs@ == a.gate_constraint.pi_x.coeffs@,
    com_is(srs, a.gate_constraint.q_mx.coeffs@, x.com_q_mx.0), com_is(srs, a.gate_constraint.q_lx.coeffs@, x.com_q_lx.0), com_is(srs, a.gate_constraint.q_rx.coeffs@, x.com_q_rx.0), com_is(srs, a.gate_constraint.q_ox.coeffs@, x.com_q_ox.0), com_is(srs, a.gate_constraint.q_cx.coeffs@, x.com_q_cx.0),
    com_is(srs, a.copy_constraint.s_sigma_1.coeffs@, x.com_s_sigma_1.0), com_is(srs, a.copy_constraint.s_sigma_2.coeffs@, x.com_s_sigma_2.0), com_is(srs, a.copy_constraint.s_sigma_3.coeffs@, x.com_s_sigma_3.0) {
  let s = machine(lower(i)).out; let gs = eqgates(s); lemma_eqg(s); let (d, b) = choose|d: CPICircuit, b: (GateConstraints, CopyConstraints, usize)| #[trigger] cpi_made(d, b, x, srs, gs);
  assert forall|j: int| 0 <= j < gs.len() implies same_gate(#[trigger] c.gates@[j], d.gates@[j]) by { assert(vrow(w, c, gs, j)); assert(gis(d.gates@[j], gs, j, cval(gs[j].l))); if gs[j].t == 2 { lemma_cval(w, gs[j].l); } lemma_kinds(s, j); }
  lemma_same_polys(a, c, b, d); }
@lemma p05_witness P05
/// the circuit's public part does not depend on the witness
pub proof fn p05_witness(w: Map<Seq<char>, Fr>, v: Map<Seq<char>, Fr>, i: Seq<char>, c: Circuit, d: Circuit) requires input_ok(w, i), input_ok(v, i), circ_is(w, c, eqgates(machine(lower(i)).out)), circ_is(v, d, eqgates(machine(lower(i)).out))
  ensures c.gates@.len() == d.gates@.len(), forall|j: int| 0 <= j < c.gates@.len() ==> same_gate(#[trigger] c.gates@[j], d.gates@[j]) {
  let s = machine(lower(i)).out; let gs = eqgates(s); lemma_eqg(s);
  assert forall|j: int| 0 <= j < gs.len() implies same_gate(#[trigger] c.gates@[j], d.gates@[j]) by { assert(vrow(w, c, gs, j)); assert(vrow(v, d, gs, j)); if gs[j].t == 2 { lemma_cval(w, gs[j].l); lemma_cval(v, gs[j].l); } lemma_kinds(s, j); } }
@raw
pub open spec fn same_gate(g: Gate, h: Gate) -> bool { g.a_pos == h.a_pos && g.b_pos == h.b_pos && g.c_pos == h.c_pos && forall|q: int| 0 <= q <= 5 ==> #[trigger] sel(g, q) == sel(h, q) }
/// every gate adds, multiplies or is a constant
pub open spec fn kinds(gs: Seq<NG>) -> bool { forall|i: int| 0 <= i < gs.len() ==> 0 <= (#[trigger] gs[i]).t <= 2 }
pub proof fn lemma_kinds(s: Seq<char>, j: int) requires 0 <= j < eqgates(s).len() ensures 0 <= eqgates(s)[j].t <= 2 { lemma_run_kinds(terms(s), terms(s).len() as int); }
pub proof fn lemma_consts_kinds(gs: Seq<NG>, a: Seq<Seq<char>>, n: int) requires kinds(gs) ensures kinds(consts(gs, a, n)) decreases n { if n > 0 { lemma_consts_kinds(gs, a, n - 1); } }
pub proof fn lemma_prods_kinds(gs: Seq<NG>, a: Seq<Seq<char>>, n: int) requires kinds(gs) ensures kinds(prods(gs, a, n)) decreases n { if n > 1 { lemma_prods_kinds(gs, a, n - 1); } }
pub proof fn lemma_run_kinds(ts: Seq<Seq<char>>, n: int) ensures kinds(grun(ts, n)) decreases n { if n > 0 { lemma_run_kinds(ts, n - 1); let a = atoms(ts[n - 1]); lemma_consts_kinds(grun(ts, n - 1), a, a.len() as int); lemma_prods_kinds(consts(grun(ts, n - 1), a, a.len() as int), a, a.len() as int); } }
pub proof fn lemma_same_polys(a: CompiledCircuit, c: Circuit, b: (GateConstraints, CopyConstraints, usize), d: CPICircuit)
  requires compiled_is(a, c), cpi_is(b, d), c.gates@.len() == d.gates@.len(), forall|j: int| 0 <= j < c.gates@.len() ==> same_gate(#[trigger] c.gates@[j], d.gates@[j]), forall|j: int| 0 <= j < c.gates@.len() ==> (#[trigger] c.gates@[j]).a_pos != Position::Dummy, small(c.gates@.len())
  ensures a.size == b.2, a.gate_constraint.q_lx.coeffs@ == b.0.q_lx.coeffs@, a.gate_constraint.q_rx.coeffs@ == b.0.q_rx.coeffs@, a.gate_constraint.q_mx.coeffs@ == b.0.q_mx.coeffs@, a.gate_constraint.q_ox.coeffs@ == b.0.q_ox.coeffs@, a.gate_constraint.q_cx.coeffs@ == b.0.q_cx.coeffs@, a.gate_constraint.pi_x.coeffs@ == b.0.pi_x.coeffs@,
    a.copy_constraint.s_sigma_1.coeffs@ == b.1.s_sigma_1.coeffs@, a.copy_constraint.s_sigma_2.coeffs@ == b.1.s_sigma_2.coeffs@, a.copy_constraint.s_sigma_3.coeffs@ == b.1.s_sigma_3.coeffs@, a.copy_constraint.k1 == b.1.k1, a.copy_constraint.k2 == b.1.k2
{ lemma_np2(c.gates@.len()); let k = choose|k: nat| k <= 32 && np2(c.gates@.len() as int) == #[trigger] p2(k) && is_np2(c.gates@.len() as int, p2(k) as int);
  let g = choose|g: Seq<Gate>| #[trigger] padded(c.gates@, g) && sel_is(a.gate_constraint, g, k) && perm_is(a.copy_constraint, g, k);
  let h = choose|h: Seq<Gate>| #[trigger] padded(d.gates@, h) && sel_is(b.0, h, k) && perm_is(b.1, h, k);
  assert forall|j: int| 0 <= j < g.len() implies same_gate(#[trigger] g[j], h[j]) by { if j < c.gates@.len() { assert(g[j] == c.gates@[j]); assert(h[j] == d.gates@[j]); } else { assert(dummy_is(g[j])); assert(dummy_is(h[j])); } }
  assert forall|q: int| 0 <= q <= 5 implies #[trigger] qcol(g, q) == qcol(h, q) by { assert forall|j: int| 0 <= j < g.len() implies qcol(g, q)[j] == qcol(h, q)[j] by { assert(same_gate(g[j], h[j])); } assert(qcol(g, q) =~= qcol(h, q)); }
  assert forall|q: int| 0 <= q <= 2 implies #[trigger] scol(g, q, k) == scol(h, q, k) by { assert forall|j: int| 0 <= j < g.len() implies scol(g, q, k)[j] == scol(h, q, k)[j] by { assert(same_gate(g[j], h[j])); } assert(scol(g, q, k) =~= scol(h, q, k)); } }
@end
