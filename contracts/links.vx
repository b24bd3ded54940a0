@import circuit
@raw
// ---- circuits: what it means that rows and links hold
/// p lists every number below its length once
pub open spec fn isperm(p: Seq<int>) -> bool { p.no_duplicates() && forall|i: int| 0 <= i < p.len() ==> 0 <= #[trigger] p[i] < p.len() }
/// the wire that the position given for wire w names
pub open spec fn pnumb(p: Position, w: int) -> int { match p { Position::Pos(c, i) => 3 * (i as int) + (c as int), Position::Dummy => w } }
pub open spec fn targets(g: Seq<Gate>, m: nat) -> Seq<int> { Seq::new(m, |w: int| if w / 3 < g.len() { pnumb(wire(g[w / 3], w % 3), w) } else { w }) }
/// the positions given are a permutation of the wires
pub open spec fn linked(c: Circuit) -> bool { wired(c.gates@, c.gates@.len()) && isperm(targets(c.gates@, 3 * c.gates@.len())) }
pub open spec fn value(c: Circuit, w: int) -> Fr { if w / 3 < c.gates@.len() { col(c, w % 3)[w / 3] } else { fz(0) } }
pub open spec fn rows_hold(c: Circuit) -> bool { forall|i: int| 0 <= i < c.gates@.len() ==> #[trigger] row_holds(c, i) }
pub open spec fn row_holds(c: Circuit, i: int) -> bool { gate_eq(c.gates@[i], col(c, 0)[i], col(c, 1)[i], col(c, 2)[i]) == fz(0) }
/// linked wires carry equal values
pub open spec fn copies_hold(c: Circuit) -> bool { forall|w: int| 0 <= w < 3 * c.gates@.len() ==> value(c, #[trigger] targets(c.gates@, 3 * c.gates@.len())[w]) == value(c, w) }
@end
