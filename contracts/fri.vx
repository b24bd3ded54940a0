@files fri/src/hasher.rs fri/src/merkle_tree.rs fri/src/fiat_shamir/transcript.rs fri/src/fri_layer.rs fri/src/prover.rs fri/src/verifier.rs
@each broadcast use comms;
@prelude base.rs ring.rs poly.rs hash.rs domain.rs roots.rs dec.rs
@struct MerkleProof
@struct MerkleTree
@struct Transcript
@struct FriLayer
@struct Decommitment
@struct Proof
@raw
// ---- hashing
/// a digest read as a field element
pub open spec fn hb(b: Seq<u8>) -> Fr { fr_le(sha(b)) }
pub open spec fn comma() -> Seq<u8> { strb(","@) }
/// what is hashed for a sequence of field elements
pub open spec fn enc(s: Seq<Fr>, n: nat) -> Seq<u8> decreases n { if n == 0 { Seq::<u8>::empty() } else { enc(s, (n - 1) as nat) + dec(s[n - 1]) + comma() } }
pub open spec fn leafh(a: Fr) -> Fr { hb(dec(a)) }
pub open spec fn pairb(a: Fr, b: Fr) -> Seq<u8> { enc(seq![a, b], 2) }
pub open spec fn nodeh(a: Fr, b: Fr) -> Fr { hb(pairb(a, b)) }
pub proof fn lemma_comma() ensures comma() == seq![44u8]
{ reveal_strlit(","); assert(","@.len() == 1); assert(","@[0] == ','); ax_strb(","@); assert(comma() =~= seq![44u8]); }
@end
@fn hash | F01 F02 | r
ensures r == leafh(*data)
@fn hash_slice | F01 F02 | r
ensures r == hb(enc(data@, data@.len()))
@loop 1
invariant __L1 == data@.len(), hasher@ == enc(data@, __i1 as nat)
@raw
// ---- Merkle trees
/// level k of the tree over the leaves l
pub open spec fn level(l: Seq<Fr>, k: nat) -> Seq<Fr> decreases k { if k == 0 { Seq::new(l.len(), |i: int| leafh(l[i])) } else { let p = level(l, (k - 1) as nat); Seq::new(p.len() / 2, |i: int| nodeh(p[2 * i], p[2 * i + 1])) } }
pub open spec fn mroot(l: Seq<Fr>, d: nat) -> Fr { level(l, d)[0] }
pub open spec fn sib(j: int) -> int { if j % 2 == 0 { j + 1 } else { j - 1 } }
pub open spec fn tree_wf(t: MerkleTree) -> bool { t.leaves@.len() == p2(t.depth as nat) && t.internal_nodes@.len() == t.depth + 1 && forall|k: int| 0 <= k <= t.depth ==> (#[trigger] t.internal_nodes@[k])@ == level(t.leaves@, k as nat) }
pub proof fn lemma_level_len(l: Seq<Fr>, d: nat, k: nat) requires l.len() == p2(d), k <= d ensures level(l, k).len() == p2((d - k) as nat) decreases k
{ if k > 0 { lemma_level_len(l, d, (k - 1) as nat); lemma_p2((d - k + 1) as nat); } }
/// the leaves with zeros appended
pub open spec fn padded(e: Seq<Fr>) -> Seq<Fr> { Seq::new(np2(e.len() as int) as nat, |i: int| pget(e, i)) }
@end
@fn MerkleTree::new | F01 F02 F03 | r
requires np2(evaluations@.len() as int) <= usize::MAX
ensures tree_wf(r), r.leaves@ == padded(evaluations@)
@start
broadcast use ax_np2;
let ghost e0 = evaluations@;
@loop 1
invariant __L1 == new_len, evaluations@ == padded(e0), __v1@.len() == __i1, forall|k: int| 0 <= k < __i1 ==> __v1@[k] == leafh(evaluations@[k])
@before_loop 1
proof { assert(evaluations@ =~= padded(e0)); }
@after_let new_len
proof { let k = choose|k: nat| new_len == #[trigger] p2(k); lemma_p2(k); }
@after_let first_level
proof { let k = choose|k: nat| new_len == #[trigger] p2(k); lemma_p2_lt(depth as nat, k + 1); lemma_p2_lt(k, (depth + 1) as nat); assert(depth == k); assert(first_level@ =~= level(evaluations@, 0)); }
@loop 2
invariant evaluations@ == padded(e0), evaluations@.len() == p2(depth as nat), internal_nodes@.len() == __i2 + 1, forall|k: int| 0 <= k <= __i2 ==> (#[trigger] internal_nodes@[k])@ == level(evaluations@, k as nat)
@loop_start 2
proof { lemma_level_len(evaluations@, depth as nat, __i2 as nat); lemma_p2((depth - __i2) as nat); }
@loop_end 2
proof { assert(internal_nodes@[i + 1]@ =~= level(evaluations@, (i + 1) as nat)); }
@loop 3
invariant __L3 == level(evaluations@, (i + 1) as nat).len(), __v3@.len() == __i3, forall|k: int| 0 <= k < __i3 ==> __v3@[k] == level(evaluations@, (i + 1) as nat)[k]
@before_loop 3
proof { lemma_level_len(evaluations@, depth as nat, (i + 1) as nat); lemma_p2((depth - i) as nat); }
@loop_start 3
proof { let lo = internal_nodes@[i as int]@; assert((2 * (__i3 + 1)) as int <= lo.len()); assert(lo.subrange(2 * __i3, 2 * __i3 + 2) =~= seq![lo[2 * __i3], lo[2 * __i3 + 1]]); assert(__i3 * 2 == 2 * __i3 && (__i3 + 1) * 2 == 2 * __i3 + 2); }
@fn MerkleTree::root | F01 F02 F03 | r
requires tree_wf(*self)
ensures r == mroot(self.leaves@, self.depth as nat)
@start
proof { lemma_level_len(self.leaves@, self.depth as nat, self.depth as nat); }
@raw
/// the honest authentication path
pub open spec fn path_is(p: MerkleProof, l: Seq<Fr>, d: nat, j: int) -> bool { p.index == j && p.leaf_val == l[j] && p.root == mroot(l, d) && p.hash_proof@.len() == d && forall|k: int| 0 <= k < d ==> #[trigger] p.hash_proof@[k] == level(l, k as nat)[sib(j / (p2(k as nat) as int))] }
/// the hash reached from a leaf after the first n siblings of a path, the side of each given by the bits of the index
pub open spec fn climb(idx: int, leaf: Fr, path: Seq<Fr>, n: nat) -> Fr decreases n
{ if n == 0 { leafh(leaf) } else { let c = climb(idx, leaf, path, (n - 1) as nat); if (idx / (p2((n - 1) as nat) as int)) % 2 == 0 { nodeh(c, path[n - 1]) } else { nodeh(path[n - 1], c) } } }
pub open spec fn accepted(p: MerkleProof) -> bool { climb(p.index as int, p.leaf_val, p.hash_proof@, p.hash_proof@.len()) == p.root }
pub proof fn lemma_half(x: int, k: nat) requires x >= 0 ensures (x / (p2(k) as int)) / 2 == x / (p2(k + 1) as int), x / (p2(k) as int) >= 0
{ lemma_p2(k); vstd::arithmetic::div_mod::lemma_div_denominator(x, p2(k) as int, 2); vstd::arithmetic::div_mod::lemma_div_pos_is_pos(x, p2(k) as int); }
@end
@fn MerkleTree::generate_proof | F01 F04 | r
requires tree_wf(*self), index < self.leaves@.len()
ensures path_is(r, self.leaves@, self.depth as nat, index as int)
@loop 1
invariant hash_proof@.len() == __i1, cur_index == (index as int) / (p2(__i1 as nat) as int), cur_index < p2((self.depth - __i1) as nat), forall|k: int| 0 <= k < __i1 ==> #[trigger] hash_proof@[k] == level(self.leaves@, k as nat)[sib((index as int) / (p2(k as nat) as int))]
@start
proof { lemma_p2(0); assert(index as int / 1 == index); }
@loop_start 1
proof { lemma_level_len(self.leaves@, self.depth as nat, __i1 as nat); lemma_p2((self.depth - __i1) as nat); lemma_half(index as int, __i1 as nat); }
@fn verify_merkle_proof | F01 F02 F05 | r
ensures r == accepted(*proof)
@loop 1
invariant cur_index == (proof.index as int) / (p2(__i1 as nat) as int), cur_hash == climb(proof.index as int, proof.leaf_val, proof.hash_proof@, __i1 as nat)
@start
proof { assert(p2(0) == 1); assert(proof.index as int / 1 == proof.index); }
@loop_start 1
proof { lemma_half(proof.index as int, __i1 as nat); assert forall|a: Fr, b: Fr| [a, b]@ =~= seq![a, b] by { } }
@lemma f01_every_leaf_has_an_accepted_proof F01
/// the honest path climbs through the nodes of the tree
pub proof fn lemma_honest_climb(p: MerkleProof, l: Seq<Fr>, d: nat, j: int, n: nat) requires path_is(p, l, d, j), l.len() == p2(d), 0 <= j < l.len(), n <= d
  ensures climb(j, l[j], p.hash_proof@, n) == level(l, n)[j / (p2(n) as int)], 0 <= j / (p2(n) as int) < level(l, n).len() decreases n
{ assert(p2(0) == 1); assert(j / 1 == j); lemma_level_len(l, d, n);
  if n > 0 { let m = (n - 1) as nat; lemma_honest_climb(p, l, d, j, m); lemma_level_len(l, d, m); lemma_half(j, m); lemma_p2((d - m) as nat);
    let i = j / (p2(m) as int); assert(p.hash_proof@[m as int] == level(l, m)[sib(i)]); } }
pub proof fn lemma_honest_path(p: MerkleProof, l: Seq<Fr>, d: nat, j: int) requires path_is(p, l, d, j), l.len() == p2(d), 0 <= j < l.len() ensures accepted(p)
{ lemma_honest_climb(p, l, d, j, d); lemma_level_len(l, d, d); }
pub fn f01_every_leaf_has_an_accepted_proof(e: Vec<Fr>, j: usize) requires np2(e@.len() as int) <= usize::MAX, j < np2(e@.len() as int)
{ let ghost e0 = e@; let t = MerkleTree::new(e); let p = t.generate_proof(j);
  proof { lemma_honest_path(p, t.leaves@, t.depth as nat, j as int); }
  let ok = verify_merkle_proof(&p); let r = t.root();
  assert(ok && p.index == j && p.leaf_val == pget(e0, j as int) && p.hash_proof@.len() == t.depth && p2(t.depth as nat) == np2(e0.len() as int));
  assert(p.root == r && r == mroot(padded(e0), t.depth as nat)); }
@lemma f02_an_accepted_proof_is_the_honest_one F02
/// two inputs on which the hash function (read as a field element) collides
pub open spec fn coll(p: (Seq<u8>, Seq<u8>)) -> bool { p.0 != p.1 && hb(p.0) == hb(p.1) }
pub proof fn lemma_enc_last(s: Seq<Fr>, n: nat) requires 0 < n <= s.len() ensures enc(s, n).len() > 0, enc(s, n).last() == 44, enc(s, n) == enc(s, (n - 1) as nat) + dec(s[n - 1]) + comma() { lemma_comma(); }
/// equal hash inputs come from equal sequences
pub proof fn lemma_enc_inj(s: Seq<Fr>, n: nat, t: Seq<Fr>, m: nat) requires n <= s.len(), m <= t.len(), enc(s, n) == enc(t, m) ensures n == m, forall|i: int| 0 <= i < n ==> s[i] == t[i] decreases n
{ if n > 0 { lemma_enc_last(s, n); } if m > 0 { lemma_enc_last(t, m); }
  if n > 0 && m > 0 {
    lemma_comma(); let u = (n - 1) as nat; let v = (m - 1) as nat; let a = dec(s[n - 1]); let b = dec(t[m - 1]);
    ax_dec(s[n - 1], t[m - 1]); ax_dec(t[m - 1], s[n - 1]);
    lemma_cat(enc(s, u) + a, comma(), enc(t, v) + b, comma());
    let e = enc(s, u) + a; assert(e == enc(t, v) + b);
    if u > 0 { lemma_enc_last(s, u); } if v > 0 { lemma_enc_last(t, v); }
    if a.len() < b.len() { let k = enc(s, u).len() - 1; if u > 0 { assert(e[k] == enc(s, u).last()); assert(e[k] == b[k - enc(t, v).len()]); } assert(false); }
    if b.len() < a.len() { let k = enc(t, v).len() - 1; if v > 0 { assert(e[k] == enc(t, v).last()); assert(e[k] == a[k - enc(s, u).len()]); } assert(false); }
    lemma_cat(enc(s, u), a, enc(t, v), b); lemma_enc_inj(s, u, t, v); } }
pub proof fn lemma_pairb(a: Fr, b: Fr, c: Fr, d: Fr) ensures pairb(a, b) == pairb(c, d) ==> a == c && b == d, pairb(a, b) != dec(c), dec(c) != pairb(a, b)
{ if pairb(a, b) == pairb(c, d) { lemma_enc_inj(seq![a, b], 2, seq![c, d], 2); assert(seq![a, b][0] == seq![c, d][0]); assert(seq![a, b][1] == seq![c, d][1]); }
  lemma_enc_last(seq![a, b], 2); ax_dec(c, c); }
/// what is hashed in the n-th step of a climb
pub open spec fn cpair(idx: int, leaf: Fr, path: Seq<Fr>, n: nat) -> Seq<u8> { let c = climb(idx, leaf, path, n); if (idx / (p2(n) as int)) % 2 == 0 { pairb(c, path[n as int]) } else { pairb(path[n as int], c) } }
pub open spec fn tpair(l: Seq<Fr>, m: nat, i: int) -> Seq<u8> { pairb(level(l, m)[2 * i], level(l, m)[2 * i + 1]) }
/// where a climb of n steps and the tree under the i-th node of level m part
pub open spec fn mcoll(idx: int, leaf: Fr, path: Seq<Fr>, n: nat, l: Seq<Fr>, m: nat, i: int) -> (Seq<u8>, Seq<u8>) decreases n
{ if n == 0 { if m == 0 { (dec(leaf), dec(l[i])) } else { (dec(leaf), tpair(l, (m - 1) as nat, i)) } } else if m == 0 { (cpair(idx, leaf, path, (n - 1) as nat), dec(l[i])) }
  else { let a = cpair(idx, leaf, path, (n - 1) as nat); let b = tpair(l, (m - 1) as nat, i); if a != b { (a, b) } else { mcoll(idx, leaf, path, (n - 1) as nat, l, (m - 1) as nat, 2 * i + (idx / (p2((n - 1) as nat) as int)) % 2) } } }
/// the path is the honest one at j, from the leaf up to level n
pub open spec fn honest_to(leaf: Fr, path: Seq<Fr>, l: Seq<Fr>, j: int, n: nat) -> bool { leaf == l[j] && forall|k: int| 0 <= k < n ==> #[trigger] path[k] == level(l, k as nat)[sib(j / (p2(k as nat) as int))] }
pub proof fn lemma_split(idx: int, n: nat) requires idx >= 0, n > 0 ensures idx % (p2(n) as int) == ((idx / (p2((n - 1) as nat) as int)) % 2) * p2((n - 1) as nat) + idx % (p2((n - 1) as nat) as int), 0 <= idx % (p2(n) as int) < p2(n)
{ lemma_p2(n); lemma_p2((n - 1) as nat); let q = p2((n - 1) as nat) as int; vstd::arithmetic::div_mod::lemma_mod_breakdown(idx, q, 2);
  assert((idx / q % 2) * q == q * (idx / q % 2)) by (nonlinear_arith); assert(q * 2 == p2(n)); vstd::arithmetic::div_mod::lemma_mod_bound(idx, p2(n) as int); }
pub proof fn lemma_mcoll(idx: int, leaf: Fr, path: Seq<Fr>, n: nat, l: Seq<Fr>, d: nat, m: nat, i: int)
  requires idx >= 0, n <= path.len(), m <= d, l.len() == p2(d), 0 <= i < p2((d - m) as nat), climb(idx, leaf, path, n) == level(l, m)[i]
  ensures coll(mcoll(idx, leaf, path, n, l, m, i)) || (n == m && honest_to(leaf, path, l, i * p2(n) + idx % (p2(n) as int), n)) decreases n
{ lemma_level_len(l, d, m);
  if m > 0 { lemma_level_len(l, d, (m - 1) as nat); lemma_p2((d - m + 1) as nat); }
  assert(p2(0) == 1);
  if n == 0 { if m == 0 { ax_dec(leaf, l[i]); assert(idx % 1 == 0); assert(i * 1 + idx % 1 == i); assert(level(l, 0)[i] == leafh(l[i])); } else { lemma_pairb(level(l, (m - 1) as nat)[2 * i], level(l, (m - 1) as nat)[2 * i + 1], leaf, leaf); } }
  else if m == 0 { let c = climb(idx, leaf, path, (n - 1) as nat); lemma_pairb(c, path[n - 1], l[i], l[i]); lemma_pairb(path[n - 1], c, l[i], l[i]); }
  else { let k = (n - 1) as nat; let a = cpair(idx, leaf, path, k); let b = tpair(l, (m - 1) as nat, i);
    assert(hb(a) == climb(idx, leaf, path, n)); assert(hb(b) == level(l, m)[i]);
    if a == b { let c = climb(idx, leaf, path, k); let bit = (idx / (p2(k) as int)) % 2; let x = level(l, (m - 1) as nat)[2 * i]; let y = level(l, (m - 1) as nat)[2 * i + 1];
      lemma_pairb(c, path[n - 1], x, y); lemma_pairb(path[n - 1], c, x, y);
      lemma_mcoll(idx, leaf, path, k, l, d, (m - 1) as nat, 2 * i + bit);
      lemma_split(idx, n); lemma_p2(n); lemma_p2(k); let q = p2(k) as int; assert(p2(n) == 2 * q);
      let j = i * p2(n) + idx % (p2(n) as int); let i2 = 2 * i + bit;
      assert(j == i2 * q + idx % q) by (nonlinear_arith) requires j == i * (2 * q) + (bit * q + idx % q), i2 == 2 * i + bit;
      if n == m && honest_to(leaf, path, l, j, k) { vstd::arithmetic::div_mod::lemma_mod_bound(idx, q); vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(j, q, i2, idx % q); assert(j / q == i2); } } } }
/// an accepted proof against the root of a tree is the honest one at the index it names, or exhibits a collision of the hash
pub proof fn f02_an_accepted_proof_is_the_honest_one(p: MerkleProof, l: Seq<Fr>, d: nat) requires accepted(p), l.len() == p2(d), p.root == mroot(l, d)
  ensures coll(mcoll(p.index as int, p.leaf_val, p.hash_proof@, p.hash_proof@.len(), l, d, 0)) || (p.hash_proof@.len() == d && honest_to(p.leaf_val, p.hash_proof@, l, (p.index as int) % (p2(d) as int), d))
{ assert(p2(0) == 1); lemma_mcoll(p.index as int, p.leaf_val, p.hash_proof@, p.hash_proof@.len(), l, d, d, 0); }
@lemma f02_the_root_determines_the_leaves F02
/// where two trees with equal nodes part
pub open spec fn lcoll(l: Seq<Fr>, m: nat, i: int, k: Seq<Fr>, n: nat, j: int) -> (Seq<u8>, Seq<u8>) decreases m
{ if m == 0 { if n == 0 { (dec(l[i]), dec(k[j])) } else { (dec(l[i]), tpair(k, (n - 1) as nat, j)) } } else if n == 0 { (tpair(l, (m - 1) as nat, i), dec(k[j])) }
  else { let a = tpair(l, (m - 1) as nat, i); let b = tpair(k, (n - 1) as nat, j); if a != b { (a, b) }
    else { let c = lcoll(l, (m - 1) as nat, 2 * i, k, (n - 1) as nat, 2 * j); if coll(c) { c } else { lcoll(l, (m - 1) as nat, 2 * i + 1, k, (n - 1) as nat, 2 * j + 1) } } } }
pub open spec fn same_leaves(l: Seq<Fr>, i: int, k: Seq<Fr>, j: int, w: int) -> bool { forall|t: int| 0 <= t < w ==> l[i * w + t] == #[trigger] k[j * w + t] }
pub proof fn lemma_same(l: Seq<Fr>, i: int, k: Seq<Fr>, j: int, w: int) requires w >= 1, same_leaves(l, 2 * i, k, 2 * j, w), same_leaves(l, 2 * i + 1, k, 2 * j + 1, w) ensures same_leaves(l, i, k, j, 2 * w)
{ assert forall|t: int| 0 <= t < 2 * w implies l[i * (2 * w) + t] == #[trigger] k[j * (2 * w) + t] by {
    assert(i * (2 * w) == (2 * i) * w && j * (2 * w) == (2 * j) * w && (2 * i + 1) * w == (2 * i) * w + w && (2 * j + 1) * w == (2 * j) * w + w) by (nonlinear_arith);
    if t < w { assert(l[(2 * i) * w + t] == k[(2 * j) * w + t]); } else { assert(l[(2 * i + 1) * w + (t - w)] == k[(2 * j + 1) * w + (t - w)]); } } }
pub proof fn lemma_lcoll(l: Seq<Fr>, d: nat, m: nat, i: int, k: Seq<Fr>, e: nat, n: nat, j: int)
  requires m <= d, l.len() == p2(d), 0 <= i < p2((d - m) as nat), n <= e, k.len() == p2(e), 0 <= j < p2((e - n) as nat), level(l, m)[i] == level(k, n)[j]
  ensures coll(lcoll(l, m, i, k, n, j)) || (m == n && same_leaves(l, i, k, j, p2(m) as int)) decreases m
{ lemma_level_len(l, d, m); lemma_level_len(k, e, n); lemma_p2(m); assert(p2(0) == 1);
  if m > 0 { lemma_level_len(l, d, (m - 1) as nat); lemma_p2((d - m + 1) as nat); } if n > 0 { lemma_level_len(k, e, (n - 1) as nat); lemma_p2((e - n + 1) as nat); }
  if m == 0 && n == 0 { ax_dec(l[i], k[j]); assert(level(l, 0)[i] == leafh(l[i])); assert(level(k, 0)[j] == leafh(k[j])); assert(i * 1 == i && j * 1 == j); }
  else if m == 0 { lemma_pairb(level(k, (n - 1) as nat)[2 * j], level(k, (n - 1) as nat)[2 * j + 1], l[i], l[i]); }
  else if n == 0 { lemma_pairb(level(l, (m - 1) as nat)[2 * i], level(l, (m - 1) as nat)[2 * i + 1], k[j], k[j]); }
  else { let a = tpair(l, (m - 1) as nat, i); let b = tpair(k, (n - 1) as nat, j);
    assert(hb(a) == level(l, m)[i]); assert(hb(b) == level(k, n)[j]);
    if a == b { lemma_pairb(level(l, (m - 1) as nat)[2 * i], level(l, (m - 1) as nat)[2 * i + 1], level(k, (n - 1) as nat)[2 * j], level(k, (n - 1) as nat)[2 * j + 1]);
      lemma_lcoll(l, d, (m - 1) as nat, 2 * i, k, e, (n - 1) as nat, 2 * j); lemma_lcoll(l, d, (m - 1) as nat, 2 * i + 1, k, e, (n - 1) as nat, 2 * j + 1);
      lemma_p2((m - 1) as nat); if m == n && !coll(lcoll(l, m, i, k, n, j)) { lemma_same(l, i, k, j, p2((m - 1) as nat) as int); } } } }
/// equal roots: equal leaves (and depths), or a collision of the hash
pub proof fn f02_the_root_determines_the_leaves(l: Seq<Fr>, d: nat, k: Seq<Fr>, e: nat) requires l.len() == p2(d), k.len() == p2(e), mroot(l, d) == mroot(k, e) ensures l == k || coll(lcoll(l, d, 0, k, e, 0))
{ assert(p2(0) == 1); lemma_lcoll(l, d, d, 0, k, e, e, 0);
  if !coll(lcoll(l, d, 0, k, e, 0)) { assert forall|t: int| 0 <= t < l.len() implies l[t] == k[t] by { assert(k[0 * (p2(d) as int) + t] == l[0 * (p2(d) as int) + t]); } assert(l =~= k); } }
@lemma f02_hash_inputs_are_injective F02
pub fn f02_hash_inputs_are_injective(a: &[Fr], b: &[Fr]) ensures a@ == b@ || coll((enc(a@, a@.len()), enc(b@, b@.len()))) || hb(enc(a@, a@.len())) != hb(enc(b@, b@.len()))
{ let x = hash_slice(a); let y = hash_slice(b); proof { if enc(a@, a@.len()) == enc(b@, b@.len()) { lemma_enc_inj(a@, a@.len(), b@, b@.len()); assert(a@ =~= b@); } } }
@raw
// ---- the transcript: the hash of the state, the number of the message and the message
global size_of usize == 8;
pub open spec fn obytes(d: Option<Seq<u8>>) -> Seq<u8> { match d { Some(v) => v, None => Seq::<u8>::empty() } }
pub open spec fn pre(d: Option<Seq<u8>>, i: u64, m: Fr) -> Seq<u8> { obytes(d) + tole64(i) + dec(m) }
/// the state after a history of messages
pub open spec fn tstate(h: Seq<Fr>) -> Option<Seq<u8>> decreases h.len() { if h.len() == 0 { None } else { Some(sha(pre(tstate(h.drop_last()), (h.len() - 1) as u64, h.last()))) } }
pub open spec fn tdata(t: Transcript) -> Option<Seq<u8>> { match t.data { Some(v) => Some(v@), None => None } }
/// a transcript that has absorbed h
pub open spec fn tr_is(t: Transcript, h: Seq<Fr>) -> bool { tdata(t) == tstate(h) && t.index == h.len() }
pub open spec fn tseed(d: Seq<u8>) -> StdRng { rseed(le64(d.subrange(0, 8))) }
/// the i-th challenge drawn from a state
pub open spec fn draw(d: Seq<u8>, i: nat) -> Fr { rdraw::<Fr>(rsteps(tseed(d), i)) }
/// the i-th challenge drawn after a history
pub open spec fn chal(h: Seq<Fr>, i: nat) -> Fr { draw(tstate(h)->0, i) }
pub open spec fn pos_of(a: Fr) -> usize { limb0(fint(a)) as usize }
@end
@fn Transcript::digest | F06 F04 F05 |
requires old(self).index < u64::MAX
ensures tdata(*final(self)) == Some(sha(pre(tdata(*old(self)), old(self).index, message))), final(self).index == old(self).index + 1, !final(self).generated,
  forall|h: Seq<Fr>| #[trigger] tr_is(*old(self), h) ==> tr_is(*final(self), h.push(message)),
  tdata(*old(self)) is None && old(self).index == 0 ==> tr_is(*final(self), seq![message])
@post
proof { let e = Seq::<Fr>::empty(); assert(e.push(message) =~= seq![message]); if tdata(*old(self)) is None && old(self).index == 0 { assert(tr_is(*old(self), e)); } }
proof { assert forall|h: Seq<Fr>| #[trigger] tr_is(*old(self), h) implies tr_is(*self, h.push(message)) by { let k = h.push(message); assert(k.drop_last() =~= h); assert(k.last() == message); } }
@fn Transcript::new | F06 F04 F05 | r
ensures tr_is(r, seq![message]), !r.generated
@fn Transcript::generate_rng_with_seed | F06 F04 F05 | r
requires !old(self).generated, old(self).data is Some, old(self).data->0@.len() >= 8
ensures final(self).generated, final(self).data == old(self).data, final(self).index == old(self).index, r == tseed(old(self).data->0@)
@fn Transcript::generate_a_challenge | F06 F04 F05 | r
requires !old(self).generated, old(self).data is Some, old(self).data->0@.len() >= 8
ensures final(self).generated, final(self).data == old(self).data, final(self).index == old(self).index, r == draw(old(self).data->0@, 0)
@fn Transcript::generate_challenges | F06 F04 F05 | r
requires !old(self).generated, old(self).data is Some, old(self).data->0@.len() >= 8
ensures final(self).generated, final(self).data == old(self).data, final(self).index == old(self).index, r@.len() == number, forall|i: int| 0 <= i < number ==> #[trigger] r@[i] == draw(old(self).data->0@, i as nat)
@loop 1
invariant __L1 == number, __v1@.len() == __i1, rng == rsteps(tseed(old(self).data->0@), __i1 as nat), self.generated, self.data == old(self).data, self.index == old(self).index, forall|k: int| 0 <= k < __i1 ==> #[trigger] __v1@[k] == draw(old(self).data->0@, k as nat)
@fn Transcript::generate_challenge_list_usize | F06 F04 F05 | r
requires !old(self).generated, old(self).data is Some, old(self).data->0@.len() >= 8
ensures final(self).generated, final(self).data == old(self).data, final(self).index == old(self).index, r@.len() == number, forall|i: int| 0 <= i < number ==> #[trigger] r@[i] == pos_of(draw(old(self).data->0@, i as nat))
@loop 1
invariant __L1 == number, __v1@.len() == __i1, self.generated, self.data == old(self).data, self.index == old(self).index, forall|k: int| 0 <= k < __i1 ==> #[trigger] __v1@[k] == pos_of(draw(old(self).data->0@, k as nat))
@fn Transcript::generate_rng_with_seed | F06 | r | as=generate_rng_with_seed_refuse
ensures !old(self).generated
@subst \bvpanic\b => vpanic_refuse
@subst \bv_range\b => v_range_refuse
@fn Transcript::generate_a_challenge | F06 | r | as=generate_a_challenge_refuse
ensures !old(self).generated
@subst \bgenerate_rng_with_seed\b => generate_rng_with_seed_refuse
@fn Transcript::generate_challenges | F06 | r | as=generate_challenges_refuse
ensures !old(self).generated
@subst \bgenerate_rng_with_seed\b => generate_rng_with_seed_refuse
@loop 1
invariant __L1 == number, __v1@.len() == __i1
@fn Transcript::generate_challenge_list_usize | F06 | r | as=generate_challenge_list_usize_refuse
ensures !old(self).generated
@subst \bgenerate_challenges\b => generate_challenges_refuse
@loop 1
invariant __v1@.len() == __i1
@lemma f06_the_state_determines_the_history F06
/// two inputs on which SHA-256 collides
pub open spec fn scoll(p: (Seq<u8>, Seq<u8>)) -> bool { p.0 != p.1 && sha(p.0) == sha(p.1) }
pub open spec fn hpre(h: Seq<Fr>) -> Seq<u8> { pre(tstate(h.drop_last()), (h.len() - 1) as u64, h.last()) }
/// where two histories with equal states part
pub open spec fn tcoll(h: Seq<Fr>, k: Seq<Fr>) -> (Seq<u8>, Seq<u8>) decreases h.len()
{ if h.len() == 0 || k.len() == 0 { (Seq::<u8>::empty(), Seq::<u8>::empty()) } else if hpre(h) != hpre(k) { (hpre(h), hpre(k)) } else { tcoll(h.drop_last(), k.drop_last()) } }
pub proof fn lemma_obytes(h: Seq<Fr>) ensures obytes(tstate(h)).len() == (if h.len() == 0 { 0nat } else { 32nat }) { broadcast use ax_sha_len; }
pub proof fn f06_the_state_determines_the_history(h: Seq<Fr>, k: Seq<Fr>) requires h.len() <= u64::MAX, k.len() <= u64::MAX, tstate(h) == tstate(k) ensures h == k || scoll(tcoll(h, k)) decreases h.len()
{ if h.len() == 0 || k.len() == 0 { assert(h =~= k); }
  else if hpre(h) == hpre(k) { let a = h.drop_last(); let b = k.drop_last(); lemma_obytes(a); lemma_obytes(b); let x = (h.len() - 1) as u64; let y = (k.len() - 1) as u64;
    ax_tole64(x, y); ax_tole64(y, x); ax_dec_len(h.last()); ax_dec_len(k.last()); ax_dec(h.last(), k.last());
    let oa = obytes(tstate(a)); let ob = obytes(tstate(b)); let da = dec(h.last()); let db = dec(k.last());
    assert(hpre(h).len() == oa.len() + 8 + da.len()); assert(hpre(k).len() == ob.len() + 8 + db.len());
    assert(oa.len() == ob.len()); assert(da.len() == db.len());
    lemma_cat(oa + tole64(x), da, ob + tole64(y), db); lemma_cat(oa, tole64(x), ob, tole64(y));
    assert(tstate(a) == tstate(b)) by { if a.len() == 0 { assert(b.len() == 0); assert(a =~= b); } }
    f06_the_state_determines_the_history(a, b);
    if a == b { assert(h =~= a.push(h.last())); assert(k =~= b.push(k.last())); } } }
@lemma f06_equal_histories_give_equal_challenges F06
pub fn f06_equal_histories_give_equal_challenges(h: &Vec<Fr>, k: &Vec<Fr>, n: usize) -> (r: (Vec<Fr>, Vec<Fr>)) requires h@.len() >= 1, h@ == k@ ensures r.0@ == r.1@, r.0@ == Seq::new(n as nat, |i: int| chal(h@, i as nat))
{ let a = f06_run(h, n); let b = f06_run(k, n); proof { assert(a@ =~= b@); assert(a@ =~= Seq::new(n as nat, |i: int| chal(h@, i as nat))); } (a, b) }
/// any interleaving of drawing and absorbing: what was drawn on the way leaves no trace
pub fn f06_run(h: &Vec<Fr>, n: usize) -> (r: Vec<Fr>) requires h@.len() >= 1 ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == chal(h@, i as nat)
{ let mut t = Transcript::new(h[0]); let mut i: usize = 1; proof { assert(h@.subrange(0, 1) =~= seq![h@[0]]); }
  while i < h.len() invariant 1 <= i <= h@.len(), !t.generated, tr_is(t, h@.subrange(0, i as int)) decreases h@.len() - i
  { proof { lemma_obytes(h@.subrange(0, i as int)); }
    if i % 3 == 1 { let _ = t.generate_a_challenge(); } else if i % 3 == 2 { let _ = t.generate_challenges(i); }
    let ghost g = h@.subrange(0, i as int); assert(tr_is(t, g)); t.digest(h[i]); proof { assert(g.push(h@[i as int]) =~= h@.subrange(0, i + 1)); } i = i + 1; }
  proof { lemma_obytes(h@); assert(h@.subrange(0, i as int) =~= h@); }
  t.generate_challenges(n) }
@lemma f06_drawing_twice_is_refused F06
pub fn f06_drawing_twice_is_refused(t: &mut Transcript, n: usize, w: u8) requires old(t).generated ensures false
{ if w == 0 { let _ = t.generate_a_challenge_refuse(); } else if w == 1 { let _ = t.generate_challenges_refuse(n); } else { let _ = t.generate_challenge_list_usize_refuse(n); } }
@raw
// ---- folding
/// coefficient i of the folded polynomial: the even one plus r times the odd one
pub open spec fn foldc(c: Seq<Fr>, r: Fr) -> Seq<Fr> { Seq::new(((c.len() + 1) / 2) as nat, |i: int| fadd(pget(c, 2 * i), fmul(pget(c, 2 * i + 1), r))) }
pub open spec fn evens(c: Seq<Fr>) -> Seq<Fr> { Seq::new(((c.len() + 1) / 2) as nat, |i: int| c[2 * i]) }
pub open spec fn odds(c: Seq<Fr>) -> Seq<Fr> { Seq::new((c.len() / 2) as nat, |i: int| c[2 * i + 1]) }
pub proof fn lemma_trim_get(c: Seq<Fr>, i: int) ensures pget(ptrim(c), i) == pget(c, i) { lemma_trim(c); }
pub proof fn lemma_trim_ext(a: Seq<Fr>, b: Seq<Fr>) requires forall|i: int| pget(a, i) == pget(b, i) ensures ptrim(a) == ptrim(b)
{ lemma_trim(a); lemma_trim(b); let x = ptrim(a); let y = ptrim(b);
  if x.len() > y.len() { assert(pget(a, x.len() - 1) == pget(b, x.len() - 1)); lemma_trim_get(b, x.len() - 1); assert(false); }
  if y.len() > x.len() { assert(pget(a, y.len() - 1) == pget(b, y.len() - 1)); lemma_trim_get(a, y.len() - 1); assert(false); }
  assert forall|i: int| 0 <= i < x.len() implies x[i] == y[i] by { lemma_trim_get(a, i); lemma_trim_get(b, i); assert(pget(a, i) == pget(b, i)); }
  assert(x =~= y); }
@ring r_z0 | r | 0*r == 0
@ring r_z1 | r | 0 + 0*r == 0
pub proof fn lemma_fold(c: Seq<Fr>, r: Fr) ensures ptrim(cadd(ptrim(evens(c)), ptrim(cscale(ptrim(odds(c)), r)))) == ptrim(foldc(c, r))
{ let e = ptrim(evens(c)); let o = ptrim(odds(c)); let s = cscale(o, r); r_z0(r); r_z1(r); r_z1(fz(0));
  lemma_trim(evens(c)); lemma_trim(odds(c)); lemma_trim(s);
  assert forall|i: int| pget(cadd(e, ptrim(s)), i) == pget(foldc(c, r), i) by { lemma_trim_get(evens(c), i); lemma_trim_get(odds(c), i); lemma_trim_get(s, i);
    if i < 0 || i >= e.len() { assert(pget(e, i) == fz(0)); }
    assert(pget(s, i) == fmul(pget(o, i), r));
    assert(pget(cadd(e, ptrim(s)), i) == fadd(pget(e, i), pget(ptrim(s), i))) by { r_00(); } }
  lemma_trim_ext(cadd(e, ptrim(s)), foldc(c, r)); }
@ring r_00 | | 0 + 0 == 0
@end
@raw
pub broadcast proof fn comm_cadd(a: Seq<Fr>, b: Seq<Fr>) ensures #[trigger] cadd(a, b) == cadd(b, a) { broadcast use comms; assert(cadd(a, b) =~= cadd(b, a)); }
@end
@fn fold_polynomial | F03 F04 | r
ensures r.coeffs@ == ptrim(foldc(poly.coeffs@, random_r))
@start
broadcast use comm_cadd; let ghost c = poly.coeffs@;
proof { lemma_fold(c, random_r); lemma_trim(evens(c)); lemma_trim(odds(c)); lemma_trim(cscale(ptrim(odds(c)), random_r)); ax_poly_of(ptrim(cscale(ptrim(odds(c)), random_r))); ax_poly_of(ptrim(foldc(c, random_r))); }
@loop 1
invariant __v1@.len() == __i1, forall|k: int| 0 <= k < __i1 ==> __v1@[k] == c[2 * k]
@after_loop 1
proof { assert(__v1@ =~= evens(c)); }
@loop 2
invariant __v2@.len() == __i2, forall|k: int| 0 <= k < __i2 ==> __v2@[k] == c[2 * k + 1]
@after_loop 2
proof { assert(__v2@ =~= odds(c)); }
@lemma f03_folding_relation F03
@ring r_step | x r f a b p q z | 2*x*(f + (a + b*r)*z) == 2*x*f + ((r + x)*(a*z + b*(z*x)) - (r - x)*(a*z + b*(z*(-x))))
@ring r_step2 | x r p q a b | ((r + x)*p - (r - x)*q) + ((r + x)*a - (r - x)*b) == (r + x)*(p + a) - (r - x)*(q + b)
@ring r_base | x r | 2*x*0 == (r + x)*0 - (r - x)*0
@ring r_as | a b c | a + b + c == a + (b + c)
/// what the verifier's formula computes from the values at x and -x, times 2 x
pub open spec fn fold2(r: Fr, x: Fr, p: Fr, q: Fr) -> Fr { fsub(fmul(fadd(r, x), p), fmul(fsub(r, x), q)) }
pub proof fn lemma_fold_n(c: Seq<Fr>, r: Fr, x: Fr, n: nat) requires 2 * n <= c.len() ensures fmul(fmul(fz(2), x), psum(foldc(c, r), fmul(x, x), n)) == fold2(r, x, psum(c, x, 2 * n), psum(c, fneg(x), 2 * n)) decreases n
{ if n == 0 { r_base(x, r); } else { let m = (n - 1) as nat; lemma_fold_n(c, r, x, m); lemma_pow_even(x, m); let z = fpow(x, 2 * m); let a = c[2 * m as int]; let b = c[2 * (m as int) + 1]; let y = fneg(x);
    let p = psum(c, x, 2 * m); let q = psum(c, y, 2 * m); let f = psum(foldc(c, r), fmul(x, x), m);
    assert(fpow(x, (2 * m + 1) as nat) == fmul(z, x)); assert(fpow(y, (2 * m + 1) as nat) == fmul(z, y));
    assert(psum(c, x, (2 * m + 1) as nat) == fadd(p, fmul(a, z))); assert(psum(c, x, 2 * n) == fadd(psum(c, x, (2 * m + 1) as nat), fmul(b, fmul(z, x))));
    assert(psum(c, y, (2 * m + 1) as nat) == fadd(q, fmul(a, z))); assert(psum(c, y, 2 * n) == fadd(psum(c, y, (2 * m + 1) as nat), fmul(b, fmul(z, y))));
    r_as(p, fmul(a, z), fmul(b, fmul(z, x))); r_as(q, fmul(a, z), fmul(b, fmul(z, y)));
    r_step(x, r, f, a, b, p, q, z); r_step2(x, r, p, q, fadd(fmul(a, z), fmul(b, fmul(z, x))), fadd(fmul(a, z), fmul(b, fmul(z, y)))); } }
pub proof fn lemma_folding(c: Seq<Fr>, r: Fr, x: Fr) ensures fmul(fmul(fz(2), x), peval(foldc(c, r), fmul(x, x))) == fold2(r, x, peval(c, x), peval(c, fneg(x)))
{ let n = ((c.len() + 1) / 2) as nat; let d = ppad(c, 2 * n); lemma_pad(c, 2 * n, x); lemma_pad(c, 2 * n, fneg(x)); lemma_fold_n(d, r, x, n);
  assert forall|i: int| 0 <= i < n implies foldc(d, r)[i] == foldc(c, r)[i] by { } assert(foldc(d, r) =~= foldc(c, r)); }
/// 2 x fold(p)(x^2) = (r + x) p(x) - (r - x) p(-x), for the polynomial the function returns
pub fn f03_folding_relation(p: &DensePolynomial, r: Fr, x: Fr) -> (f: DensePolynomial) ensures fmul(fmul(fz(2), x), peval(f.coeffs@, fmul(x, x))) == fold2(r, x, peval(p.coeffs@, x), peval(p.coeffs@, fneg(x)))
{ let f = fold_polynomial(p, r); proof { lemma_trim_eval(foldc(p.coeffs@, r), fmul(x, x)); lemma_folding(p.coeffs@, r, x); } f }
@lemma f03_fold_is_even_plus_r_odd F03
pub fn f03_fold_is_even_plus_r_odd(p: &DensePolynomial, r: Fr, k: usize) ensures true
{ let f = fold_polynomial(p, r); proof { lemma_trim_get(foldc(p.coeffs@, r), k as int); r_z1(r); assert(pget(f.coeffs@, k as int) == fadd(pget(p.coeffs@, 2 * k), fmul(pget(p.coeffs@, 2 * k + 1), r))); } }
@raw
// ---- the layers
pub proof fn lemma_np2_p2(k: nat) ensures is_np2(p2(k) as int, p2(k) as int), np2(p2(k) as int) == p2(k)
{ broadcast use ax_np2; lemma_p2(k); assert forall|j: nat| #[trigger] p2(j) >= p2(k) implies k <= j by { if j < k { lemma_p2_mono(j, k); lemma_p2(j); } }
  assert(is_np2(p2(k) as int, np2(p2(k) as int))); let i = choose|i: nat| np2(p2(k) as int) == #[trigger] p2(i) && p2(i) >= p2(k) && (forall|j: nat| #[trigger] p2(j) >= p2(k) ==> i <= j); assert(i <= k); lemma_p2_mono(i, k); }
pub proof fn lemma_p2_bound(k: nat) requires p2(k) <= usize::MAX ensures k < 64, p2(k) <= 0x8000_0000_0000_0000
{ assert(p2(64) == 0x1_0000_0000_0000_0000) by (compute_only); assert(p2(63) == 0x8000_0000_0000_0000) by (compute_only); if k >= 64 { lemma_p2_mono(64, k); } lemma_p2_mono(k, 63); }
/// the values of a polynomial over the coset z * <omega> of size 2^k, in order
pub open spec fn evals(c: Seq<Fr>, z: Fr, k: nat) -> Seq<Fr> { Seq::new(p2(k), |i: int| peval(c, fmul(fpow(omega(k), i as nat), z))) }
pub open spec fn layer_is(l: FriLayer, c: Seq<Fr>, z: Fr, k: nat) -> bool { l.evaluations@ == evals(c, z, k) && l.coset == z && l.domain_size == p2(k) && tree_wf(l.merkle_tree) && l.merkle_tree.leaves@ == evals(c, z, k) && l.merkle_tree.depth == k }
@end
@ring r_comm | y z | y*z == z*y
@fn FriLayer::from_poly | F03 F04 | r
requires exists|k: nat| domain_size == #[trigger] p2(k) && two_adic(k)
ensures forall|k: nat| domain_size == #[trigger] p2(k) ==> layer_is(r, poly.coeffs@, coset, k)
@start
let ghost k = choose|k: nat| domain_size == #[trigger] p2(k) && two_adic(k);
proof { lemma_np2_p2(k); assert forall|j: nat| domain_size == #[trigger] p2(j) implies j == k by { lemma_p2_inj(j, k); } }
@loop 1
invariant __L1 == p2(k), __v1@.len() == __i1, forall|i: int| 0 <= i < __i1 ==> #[trigger] __v1@[i] == evals(poly.coeffs@, coset, k)[i]
@loop_start 1
proof { r_comm(fpow(omega(k), __i1 as nat), coset); }
@after_loop 1
proof { assert(__v1@ =~= evals(poly.coeffs@, coset, k)); assert(padded(__v1@) =~= __v1@); }
@post
proof { assert forall|k: nat| domain_size == #[trigger] p2(k) implies r.merkle_tree.depth == k by { lemma_p2_inj(r.merkle_tree.depth as nat, k); } }
@raw
/// the prover's state before layer j: polynomial, coset, log of the domain size, messages absorbed
pub struct St { pub c: Seq<Fr>, pub z: Fr, pub k: nat, pub h: Seq<Fr> }
pub open spec fn rootof(s: St) -> Fr { mroot(evals(s.c, s.z, s.k), s.k) }
pub open spec fn snext(s: St) -> St { let h = s.h.push(rootof(s)); St { c: ptrim(foldc(s.c, chal(h, 0))), z: fmul(s.z, s.z), k: (s.k - 1) as nat, h: h } }
pub open spec fn st(c: Seq<Fr>, z: Fr, k: nat, j: nat) -> St decreases j { if j == 0 { St { c: c, z: z, k: k, h: seq![fz(0)] } } else { snext(st(c, z, k, (j - 1) as nat)) } }
pub open spec fn lay(c: Seq<Fr>, z: Fr, k: nat, j: int) -> Seq<Fr> { let s = st(c, z, k, j as nat); evals(s.c, s.z, s.k) }
pub proof fn lemma_st(c: Seq<Fr>, z: Fr, k: nat, j: nat) requires j <= k ensures st(c, z, k, j).k == k - j, st(c, z, k, j).h.len() == j + 1, canon(c) ==> canon(st(c, z, k, j).c), c.len() <= p2(k) ==> st(c, z, k, j).c.len() <= p2((k - j) as nat) decreases j
{ if j > 0 { let i = (j - 1) as nat; lemma_st(c, z, k, i); let s = st(c, z, k, i); lemma_trim(foldc(s.c, chal(s.h.push(rootof(s)), 0))); lemma_p2((k - i) as nat); } }
/// the fold of the last layer is a non-zero constant: no fold on the way vanishes (see lemma_st: it has at most one coefficient)
pub open spec fn folds_to_a_constant(c: Seq<Fr>, z: Fr, k: nat, n: nat) -> bool { st(c, z, k, n).c.len() == 1 }
pub proof fn lemma_const(c: Seq<Fr>, x: Fr) requires c.len() == 1 ensures peval(c, x) == c[0]
{ assert(psum(c, x, 0) == fz(0)); assert(fpow(x, 0) == fz(1)); assert(psum(c, x, 1) == fadd(psum(c, x, 0), fmul(c[0], fpow(x, 0)))); r_c1(c[0]); }
@ring r_c1 | a | 0 + a*1 == a
pub proof fn lemma_tstate_some(h: Seq<Fr>) requires h.len() > 0 ensures tstate(h) is Some, tstate(h)->0.len() == 32 { broadcast use ax_sha_len; }
/// the arguments are those of a domain of size 2^k with a root of unity, and n folds leave a constant
pub open spec fn fold_args(c: Seq<Fr>, z: Fr, k: nat, n: int) -> bool { two_adic(k) && 1 <= n <= k && folds_to_a_constant(c, z, k, n as nat) }
@end
@fn folding_phase | F03 F04 | r
requires exists|k: nat| domain_size == #[trigger] p2(k) && fold_args(poly.coeffs@, coset, k, number_layers as int)
ensures forall|k: nat| domain_size == #[trigger] p2(k) ==> r.2@.len() == number_layers && (forall|j: int| 0 <= j < number_layers ==> layer_is(#[trigger] r.2@[j], st(poly.coeffs@, coset, k, j as nat).c, st(poly.coeffs@, coset, k, j as nat).z, (k - j) as nat))
  && r.0 == st(poly.coeffs@, coset, k, number_layers as nat).c[0] && tr_is(r.1, st(poly.coeffs@, coset, k, number_layers as nat).h.push(r.0)) && !r.1.generated
@start
let ghost c0 = poly.coeffs@; let ghost z0 = coset;
let ghost k = choose|k: nat| domain_size == #[trigger] p2(k) && fold_args(poly.coeffs@, coset, k, number_layers as int);
proof { lemma_p2_bound(k); assert forall|j: nat| domain_size == #[trigger] p2(j) implies j == k by { lemma_p2_inj(j, k); } }
@loop 1
invariant fri_layers@.len() == __i1, number_layers <= k, k < 64, two_adic(k), poly.coeffs@ == st(c0, z0, k, __i1 as nat).c, coset == st(c0, z0, k, __i1 as nat).z, domain_size == p2((k - __i1) as nat), tr_is(transcript, st(c0, z0, k, __i1 as nat).h),
  forall|j: int| 0 <= j < __i1 ==> layer_is(#[trigger] fri_layers@[j], st(c0, z0, k, j as nat).c, st(c0, z0, k, j as nat).z, (k - j) as nat)
@loop_start 1
proof { lemma_st(c0, z0, k, __i1 as nat); ax_adic((k - __i1) as nat, k); lemma_p2((k - __i1) as nat); lemma_tstate_some(st(c0, z0, k, __i1 as nat).h.push(rootof(st(c0, z0, k, __i1 as nat)))); }
@after_loop 1
proof { lemma_st(c0, z0, k, number_layers as nat); lemma_const(poly.coeffs@, fz(0)); }
@raw
// ---- the queries
pub open spec fn lay_wf(l: FriLayer) -> bool { tree_wf(l.merkle_tree) && l.merkle_tree.leaves@ == l.evaluations@ && l.domain_size == l.evaluations@.len() }
pub open spec fn posn(c: int, n: int) -> int { c % n }
pub open spec fn symn(c: int, n: int) -> int { (c % n + n / 2) % n }
/// the opened pair of layer j is the honest one over the leaves l of a tree of depth k, for the position c
pub open spec fn open_is(d: Decommitment, j: int, l: Seq<Fr>, k: nat, c: int) -> bool { let i = posn(c, p2(k) as int); let s = symn(c, p2(k) as int);
  d.evaluations@[j] == l[i] && d.sym_evaluations@[j] == l[s] && path_is(d.auth_paths@[j], l, k, i) && path_is(d.sym_auth_paths@[j], l, k, s) }
pub open spec fn dec_lens(d: Decommitment, n: nat) -> bool { d.evaluations@.len() == n && d.auth_paths@.len() == n && d.sym_evaluations@.len() == n && d.sym_auth_paths@.len() == n }
pub open spec fn dec_for(d: Decommitment, ls: Seq<FriLayer>, c: int) -> bool { dec_lens(d, ls.len()) && forall|j: int| 0 <= j < ls.len() ==> #[trigger] open_is(d, j, ls[j].evaluations@, ls[j].merkle_tree.depth as nat, c) }
/// the position of query q derived from the state d
pub open spec fn qpos(d: Seq<u8>, q: nat, n: int) -> int { (pos_of(draw(d, q)) as int) % n }
@end
@fn query_phase | F04 F03 | r
requires forall|j: int| 0 <= j < fri_layers@.len() ==> lay_wf(#[trigger] fri_layers@[j]), domain_size > 0, !old(transcript).generated, old(transcript).data is Some, old(transcript).data->0@.len() >= 8
ensures fri_layers@.len() > 0 ==> r.0@.len() == number_of_queries && r.1@.len() == number_of_queries && (forall|q: int| 0 <= q < number_of_queries ==> r.1@[q] == qpos(old(transcript).data->0@, q as nat, domain_size as int))
  && forall|q: int| 0 <= q < number_of_queries ==> dec_for(#[trigger] r.0@[q], fri_layers@, qpos(old(transcript).data->0@, q as nat, domain_size as int)),
  fri_layers@.len() == 0 ==> r.0@.len() == 0
@start
let ghost d0 = transcript.data->0@;
@loop 1
invariant __v1@.len() == __i1, domain_size > 0, forall|q: int| 0 <= q < __i1 ==> #[trigger] __v1@[q] == qpos(d0, q as nat, domain_size as int)
@loop 2
invariant decommitment_list@.len() == __i2, forall|q: int| 0 <= q < __i2 ==> dec_for(#[trigger] decommitment_list@[q], fri_layers@, qpos(d0, q as nat, domain_size as int))
@loop 3
invariant evaluations@.len() == __i3, sym_evaluations@.len() == __i3, auth_paths@.len() == __i3, sym_auth_paths@.len() == __i3,
  forall|j: int| 0 <= j < __i3 ==> #[trigger] evaluations@[j] == fri_layers@[j].evaluations@[posn(challenge as int, fri_layers@[j].domain_size as int)],
  forall|j: int| 0 <= j < __i3 ==> #[trigger] sym_evaluations@[j] == fri_layers@[j].evaluations@[symn(challenge as int, fri_layers@[j].domain_size as int)],
  forall|j: int| 0 <= j < __i3 ==> path_is(#[trigger] auth_paths@[j], fri_layers@[j].evaluations@, fri_layers@[j].merkle_tree.depth as nat, posn(challenge as int, fri_layers@[j].domain_size as int)),
  forall|j: int| 0 <= j < __i3 ==> path_is(#[trigger] sym_auth_paths@[j], fri_layers@[j].evaluations@, fri_layers@[j].merkle_tree.depth as nat, symn(challenge as int, fri_layers@[j].domain_size as int))
@loop_start 3
proof { assert(lay_wf(fri_layers@[__i3 as int])); let k = fri_layers@[__i3 as int].merkle_tree.depth as nat; lemma_p2(k); lemma_p2_bound(k); }
@loop_end 2
proof { let q = __c2 as int; assert(dec_for(decommitment_list@[q], fri_layers@, qpos(d0, q as nat, domain_size as int))) by { assert forall|j: int| 0 <= j < fri_layers@.len() implies #[trigger] open_is(decommitment_list@[q], j, fri_layers@[j].evaluations@, fri_layers@[j].merkle_tree.depth as nat, challenge as int) by { assert(lay_wf(fri_layers@[j])); } } }
@raw
/// an honest decommitment of the layers of the chain that starts with c, z, k
pub open spec fn dec_is(d: Decommitment, c: Seq<Fr>, z: Fr, k: nat, n: nat, pos: int) -> bool { dec_lens(d, n) && forall|j: int| 0 <= j < n ==> #[trigger] open_is(d, j, lay(c, z, k, j), (k - j) as nat, pos) }
/// the history from which the positions are derived
pub open spec fn qhist(c: Seq<Fr>, z: Fr, k: nat) -> Seq<Fr> { st(c, z, k, k).h.push(st(c, z, k, k).c[0]) }
pub open spec fn proof_is(p: Proof, c: Seq<Fr>, z: Fr, k: nat, nq: int) -> bool {
  p.domain_size == p2(k) && p.coset == z && p.number_of_queries == nq && p.layers_root@.len() == k && (forall|j: int| 0 <= j < k ==> #[trigger] p.layers_root@[j] == rootof(st(c, z, k, j as nat)))
  && p.const_val == st(c, z, k, k).c[0] && p.decommitment_list@.len() == nq && forall|q: int| 0 <= q < nq ==> dec_is(#[trigger] p.decommitment_list@[q], c, z, k, k, qpos(tstate(qhist(c, z, k))->0, q as nat, p2(k) as int)) }
pub open spec fn gen_args(c: Seq<Fr>, b: int, k: nat) -> bool { c.len() * b <= usize::MAX && p2(k) == np2(c.len() * b) && p2(k) <= usize::MAX && k >= 1 && two_adic(k) && folds_to_a_constant(c, fgen(), k, k) }
@end
@fn generate_proof | F04 F03 | r
requires exists|k: nat| #[trigger] gen_args(poly.coeffs@, blowup_factor as int, k)
ensures forall|k: nat| #[trigger] gen_args(poly.coeffs@, blowup_factor as int, k) ==> proof_is(r, poly.coeffs@, fgen(), k, number_of_queries as int)
@start
proof { vstd::arithmetic::mul::lemma_mul_is_commutative(poly.coeffs@.len() as int, blowup_factor as int); }
let ghost c0 = poly.coeffs@; let ghost z0 = fgen();
let ghost k = choose|k: nat| #[trigger] gen_args(poly.coeffs@, blowup_factor as int, k);
proof { lemma_p2(k); lemma_p2_bound(k); assert forall|j: nat| #[trigger] gen_args(poly.coeffs@, blowup_factor as int, j) implies j == k by { lemma_p2_inj(j, k); } lemma_tstate_some(qhist(c0, z0, k)); }
@after_let number_of_layers
proof { lemma_p2_lt(k, (number_of_layers + 1) as nat); lemma_p2_lt(number_of_layers as nat, k + 1); assert(number_of_layers == k); assert(fold_args(c0, z0, k, k as int)); }
@before_loop 1
proof { let d = tstate(qhist(c0, z0, k))->0; assert forall|q: int| 0 <= q < number_of_queries implies dec_is(#[trigger] decommitment_list@[q], c0, z0, k, k, qpos(d, q as nat, p2(k) as int)) by { assert(dec_for(decommitment_list@[q], fri_layers@, qpos(d, q as nat, domain_size as int)));
  assert forall|j: int| 0 <= j < k implies #[trigger] open_is(decommitment_list@[q], j, lay(c0, z0, k, j), (k - j) as nat, qpos(d, q as nat, p2(k) as int)) by { lemma_st(c0, z0, k, j as nat); assert(layer_is(fri_layers@[j], st(c0, z0, k, j as nat).c, st(c0, z0, k, j as nat).z, (k - j) as nat)); assert(open_is(decommitment_list@[q], j, fri_layers@[j].evaluations@, fri_layers@[j].merkle_tree.depth as nat, qpos(d, q as nat, domain_size as int))); } } }
@loop 1
invariant __v1@.len() == __i1, __L1 == k, forall|j: int| 0 <= j < k ==> layer_is(#[trigger] fri_layers@[j], st(c0, z0, k, j as nat).c, st(c0, z0, k, j as nat).z, (k - j) as nat), forall|j: int| 0 <= j < __i1 ==> #[trigger] __v1@[j] == rootof(st(c0, z0, k, j as nat))
@loop_start 1
proof { lemma_st(c0, z0, k, __i1 as nat); }
@raw
// ---- the verifier
pub open spec fn zsq(z: Fr, j: nat) -> Fr decreases j { if j == 0 { z } else { fmul(zsq(z, (j - 1) as nat), zsq(z, (j - 1) as nat)) } }
/// the folded value computed from the values e and s at w and -w
pub open spec fn qf(r: Fr, w: Fr, e: Fr, s: Fr) -> Fr { fsub(fmul(fmul(fadd(r, w), e), finv(fmul(fz(2), w))), fmul(fmul(fsub(r, w), s), finv(fmul(fz(2), w)))) }
/// layer j of a query at position c: opened at the positions derived from c, authenticated against the layer's root, folding to the value opened in the next layer or to the constant
pub open spec fn layer_ok(d: Decommitment, roots: Seq<Fr>, rs: Seq<Fr>, c: int, k: nat, z: Fr, cv: Fr, j: int) -> bool {
  let n = p2((k - j) as nat) as int; let a = d.auth_paths@[j]; let b = d.sym_auth_paths@[j]; let w = fmul(fpow(omega((k - j) as nat), posn(c, n) as nat), zsq(z, j as nat));
  &&& a.index == posn(c, n) && b.index == symn(c, n)
  &&& d.evaluations@[j] == a.leaf_val && d.sym_evaluations@[j] == b.leaf_val
  &&& a.root == roots[j] && b.root == roots[j] && accepted(a) && accepted(b)
  &&& qf(rs[j], w, d.evaluations@[j], d.sym_evaluations@[j]) == (if j + 1 < roots.len() { d.evaluations@[j + 1] } else { cv }) }
pub open spec fn query_ok(d: Decommitment, roots: Seq<Fr>, rs: Seq<Fr>, c: int, k: nat, z: Fr, cv: Fr) -> bool { dec_lens(d, roots.len()) && forall|j: int| 0 <= j < roots.len() ==> #[trigger] layer_ok(d, roots, rs, c, k, z, cv, j) }
pub proof fn lemma_zsq(z: Fr, j: nat) requires z != fz(0) ensures zsq(z, j) != fz(0) decreases j { if j > 0 { let y = zsq(z, (j - 1) as nat); lemma_zsq(z, (j - 1) as nat); if fmul(y, y) == fz(0) { ax_dom(y, y); } } }
/// the symmetric position holds the negative of the point
pub proof fn lemma_sym(k: nat, c: int, z: Fr) requires two_adic(k), k > 0, c >= 0
  ensures fmul(fpow(omega(k), symn(c, p2(k) as int) as nat), z) == fneg(fmul(fpow(omega(k), posn(c, p2(k) as int) as nat), z))
{ lemma_p2(k); lemma_omega(k); let n = p2(k) as int; let i = c % n; let h = n / 2; lemma_omega_mod(k, (i + h) as nat); lemma_pow_add(omega(k), i as nat, h as nat); r_mm1(fpow(omega(k), i as nat), z); }
/// squaring leads to the point of the next layer
pub proof fn lemma_next_point(k: nat, c: int, z: Fr) requires two_adic(k), k > 0, c >= 0
  ensures fmul(fmul(fpow(omega(k), posn(c, p2(k) as int) as nat), z), fmul(fpow(omega(k), posn(c, p2(k) as int) as nat), z)) == fmul(fpow(omega((k - 1) as nat), posn(c, p2((k - 1) as nat) as int) as nat), fmul(z, z))
{ let m = (k - 1) as nat; lemma_p2(k); lemma_p2(m); ax_adic(m, k); ax_omega_sq(k); let i = c % (p2(k) as int); let w = omega(k);
  lemma_pow_even(w, i as nat); lemma_pow_add(w, i as nat, i as nat); assert(i + i == 2 * i); lemma_omega_mod(m, i as nat);
  vstd::arithmetic::div_mod::lemma_mod_mod(c, p2(m) as int, 2); assert(p2(m) * 2 == p2(k)); r_sqz(fpow(w, i as nat), z); }
@ring r_sqz | y z | (y*z)*(y*z) == (y*y)*(z*z)
@ring r_qf | a b i | a*i - b*i == (a - b)*i
@ring r_cancel | d f i | (d*f)*i == f*(d*i)
/// the verifier's formula, applied to the values of a polynomial at w and -w, gives the folded polynomial's value at w^2
pub proof fn lemma_qf(c: Seq<Fr>, r: Fr, w: Fr) requires w != fz(0) ensures qf(r, w, peval(c, w), peval(c, fneg(w))) == peval(ptrim(foldc(c, r)), fmul(w, w))
{ ax_one(); let d = fmul(fz(2), w); lemma_mul_nz(fz(2), w); ax_inv(d); lemma_folding(c, r, w); lemma_trim_eval(foldc(c, r), fmul(w, w)); let f = peval(foldc(c, r), fmul(w, w));
  r_qf(fmul(fadd(r, w), peval(c, w)), fmul(fsub(r, w), peval(c, fneg(w))), finv(d)); r_cancel(d, f, finv(d)); r_m1(f); }
@end
@spec folded | r p z e s i | (r+p*z)*e*i - (r-p*z)*s*i
@fn verify_query | F05 F04 | r
requires two_adic(layers_root@.len()), domain_size == p2(layers_root@.len()), random_r_list@.len() == layers_root@.len(), coset != fz(0)
ensures r is Ok <==> query_ok(*decommitment, layers_root@, random_r_list@, *challenge as int, layers_root@.len(), coset, const_val)
@atom ^(?:cur_domain|GeneralEvaluationDomain::new\(cur_domain_size\)\.\w+\(\))\.element\(.*\)$ => fpow(omega((k - __c1) as nat), posn(*challenge as int, p2((k - __c1) as nat) as int) as nat)
@stop eval sym_eval random_r
@atom ^(eval|sym_eval|random_r)$ => *\1
@den 2*(p*z) => i
@den p*z => 2*i
@den 2 => p*z*i
@denp ax_one(); { let w__ = fmul(fpow(omega((k - __c1) as nat), posn(*challenge as int, p2((k - __c1) as nat) as int) as nat), cur_coset); if w__ != fz(0) { lemma_mul_nz(fz(2), w__); } }
@autoring q_fold | folded(*random_r; fpow(omega((k - __c1) as nat), posn(*challenge as int, p2((k - __c1) as nat) as int) as nat); cur_coset; *eval; *sym_eval; finv(fmul(fz(2), fmul(fpow(omega((k - __c1) as nat), posn(*challenge as int, p2((k - __c1) as nat) as int) as nat), cur_coset))))
@start
let ghost k = layers_root@.len(); let ghost z = coset;
proof { lemma_p2_bound(k); }
@loop 1
invariant dec_lens(*decommitment, k), __L1 == k, k < 64, two_adic(k), random_r_list@.len() == k, __i1 < k ==> cur_domain_size == p2((k - __i1) as nat) && cur_coset == zsq(z, __i1 as nat), forall|j: int| 0 <= j < __i1 ==> #[trigger] layer_ok(*decommitment, layers_root@, random_r_list@, *challenge as int, k, z, const_val, j)
@loop_start 1
proof { let m = (k - __i1) as nat; lemma_p2(m); lemma_p2_bound(m); lemma_np2_p2(m); ax_adic(m, k); lemma_omega(m); lemma_zsq(z, __i1 as nat); ax_one(); let i = posn(*challenge as int, p2(m) as int);
  lemma_pow_nz(omega(m), i as nat); lemma_mul_nz(fpow(omega(m), i as nat), zsq(z, __i1 as nat)); lemma_mul_nz(fz(2), fmul(fpow(omega(m), i as nat), zsq(z, __i1 as nat)));
  assert forall|q: nat| #[trigger] p2(q) == p2(m) implies q == m by { lemma_p2_inj(q, m); }
  let okj = layer_ok(*decommitment, layers_root@, random_r_list@, *challenge as int, k, z, const_val, __i1 as int); assert(okj || !okj); }
@fn verify_query | F05 | r | as=verify_query_refuse divq
requires domain_size == p2(layers_root@.len()), random_r_list@.len() == layers_root@.len()
ensures r is Ok ==> query_ok(*decommitment, layers_root@, random_r_list@, *challenge as int, layers_root@.len(), coset, const_val)
@subst \. unwrap \(\) => . v_unwrap_refuse ()
@atom ^(?:cur_domain|GeneralEvaluationDomain::new\(cur_domain_size\)\.\w+\(\))\.element\(.*\)$ => fpow(omega((k - __c1) as nat), posn(*challenge as int, p2((k - __c1) as nat) as int) as nat)
@stop eval sym_eval random_r
@atom ^(eval|sym_eval|random_r)$ => *\1
@den 2*(p*z) => i
@den p*z => 2*i
@den 2 => p*z*i
@denp ax_one(); { let w__ = fmul(fpow(omega((k - __c1) as nat), posn(*challenge as int, p2((k - __c1) as nat) as int) as nat), cur_coset); if w__ != fz(0) { lemma_mul_nz(fz(2), w__); } }
@autoring q_fold | folded(*random_r; fpow(omega((k - __c1) as nat), posn(*challenge as int, p2((k - __c1) as nat) as int) as nat); cur_coset; *eval; *sym_eval; finv(fmul(fz(2), fmul(fpow(omega((k - __c1) as nat), posn(*challenge as int, p2((k - __c1) as nat) as int) as nat), cur_coset))))
@start
let ghost k = layers_root@.len(); let ghost z = coset;
proof { lemma_p2_bound(k); }
@loop 1
invariant dec_lens(*decommitment, k), __L1 == k, k < 64, random_r_list@.len() == k, __i1 < k ==> cur_domain_size == p2((k - __i1) as nat) && cur_coset == zsq(z, __i1 as nat), forall|j: int| 0 <= j < __i1 ==> #[trigger] layer_ok(*decommitment, layers_root@, random_r_list@, *challenge as int, k, z, const_val, j)
@loop_start 1
proof { let m = (k - __i1) as nat; lemma_p2(m); lemma_p2_bound(m); lemma_np2_p2(m);
  assert forall|q: nat| #[trigger] is_np2(p2(m) as int, p2(q) as int) implies q == m by { lemma_p2_inj(q, m); } }
@raw
/// the messages absorbed up to root j
pub open spec fn vh(roots: Seq<Fr>, j: int) -> Seq<Fr> { seq![fz(0)] + roots.subrange(0, j) }
pub open spec fn vrs(roots: Seq<Fr>) -> Seq<Fr> { Seq::new(roots.len(), |j: int| chal(vh(roots, j + 1), 0)) }
pub open spec fn vqh(p: Proof) -> Seq<Fr> { vh(p.layers_root@, p.layers_root@.len() as int).push(p.const_val) }
pub open spec fn vpos(p: Proof, q: int) -> int { qpos(tstate(vqh(p))->0, q as nat, p.domain_size as int) }
/// query q of the proof is in order
pub open spec fn pquery_ok(p: Proof, q: int) -> bool { query_ok(p.decommitment_list@[q], p.layers_root@, vrs(p.layers_root@), vpos(p, q), p.layers_root@.len(), p.coset, p.const_val) }
/// one decommitment per announced query, one layer per halving of the announced domain, every query in order
pub open spec fn verify_ok(p: Proof) -> bool { p.decommitment_list@.len() == p.number_of_queries && p.domain_size == p2(p.layers_root@.len()) && forall|q: int| 0 <= q < p.number_of_queries ==> #[trigger] pquery_ok(p, q) }
@end
@fn verify | F05 F04 | r
requires two_adic(proof.layers_root@.len()), proof.coset != fz(0), proof.layers_root@.len() < 0x1_0000_0000
ensures r is Ok <==> verify_ok(proof)
@start
let ghost pf = proof; let ghost roots = proof.layers_root@; let ghost k = roots.len();
proof { if p2(k) == proof.domain_size { lemma_p2_bound(k); } lemma_p2(k); assert(vh(roots, 0) =~= seq![fz(0)]); }
@loop 1
invariant __L1 == k, k < 64, p2(k) == pf.domain_size, __v1@.len() == __i1, tr_is(transcript, vh(roots, __i1 as int)), forall|j: int| 0 <= j < __i1 ==> #[trigger] __v1@[j] == vrs(roots)[j]
@loop_start 1
proof { let h = vh(roots, __i1 as int); assert(h.push(roots[__i1 as int]) =~= vh(roots, __i1 + 1)); lemma_tstate_some(vh(roots, __i1 + 1)); assert(tr_is(transcript, h)); }
@after_loop 1
proof { assert(__v1@ =~= vrs(roots)); lemma_tstate_some(vqh(pf)); }
@loop 2
invariant __L2 == pf.number_of_queries, pf.domain_size > 0, __v2@.len() == __i2, forall|q: int| 0 <= q < __i2 ==> #[trigger] __v2@[q] == vpos(pf, q)
@loop 3
invariant __L3 == pf.number_of_queries, forall|q: int| 0 <= q < __i3 ==> #[trigger] pquery_ok(pf, q)
@loop_start 3
proof { let okq = pquery_ok(pf, __i3 as int); assert(okq || !okq); }
@fn verify | F05 | r | as=verify_refuse
requires proof.layers_root@.len() < 0x1_0000_0000
ensures r is Ok ==> verify_ok(proof)
@subst \bverify_query\b => verify_query_refuse
@start
let ghost pf = proof; let ghost roots = proof.layers_root@; let ghost k = roots.len();
proof { if p2(k) == proof.domain_size { lemma_p2_bound(k); } lemma_p2(k); assert(vh(roots, 0) =~= seq![fz(0)]); }
@loop 1
invariant __L1 == k, k < 64, p2(k) == pf.domain_size, __v1@.len() == __i1, tr_is(transcript, vh(roots, __i1 as int)), forall|j: int| 0 <= j < __i1 ==> #[trigger] __v1@[j] == vrs(roots)[j]
@loop_start 1
proof { let h = vh(roots, __i1 as int); assert(h.push(roots[__i1 as int]) =~= vh(roots, __i1 + 1)); lemma_tstate_some(vh(roots, __i1 + 1)); assert(tr_is(transcript, h)); }
@after_loop 1
proof { assert(__v1@ =~= vrs(roots)); lemma_tstate_some(vqh(pf)); }
@loop 2
invariant __L2 == pf.number_of_queries, pf.domain_size > 0, __v2@.len() == __i2, forall|q: int| 0 <= q < __i2 ==> #[trigger] __v2@[q] == vpos(pf, q)
@loop 3
invariant __L3 == pf.number_of_queries, forall|q: int| 0 <= q < __i3 ==> #[trigger] pquery_ok(pf, q)
@raw
// ---- completeness
/// the prover's and the verifier's transcripts agree
pub proof fn lemma_hist(c: Seq<Fr>, z: Fr, k: nat, roots: Seq<Fr>, j: nat) requires j <= roots.len(), forall|i: int| 0 <= i < roots.len() ==> #[trigger] roots[i] == rootof(st(c, z, k, i as nat))
  ensures st(c, z, k, j).h == vh(roots, j as int), st(c, z, k, j).z == zsq(z, j) decreases j
{ if j == 0 { assert(vh(roots, 0) =~= seq![fz(0)]); } else { let i = (j - 1) as nat; lemma_hist(c, z, k, roots, i); assert(roots[i as int] == rootof(st(c, z, k, i))); assert(vh(roots, i as int).push(roots[i as int]) =~= vh(roots, j as int)); } }
pub proof fn lemma_vqh(c: Seq<Fr>, z: Fr, k: nat, p: Proof) requires p.layers_root@.len() == k, p.const_val == st(c, z, k, k).c[0], forall|i: int| 0 <= i < k ==> #[trigger] p.layers_root@[i] == rootof(st(c, z, k, i as nat)) ensures vqh(p) == qhist(c, z, k)
{ lemma_hist(c, z, k, p.layers_root@, k); }
pub proof fn lemma_lay_len(c: Seq<Fr>, z: Fr, k: nat, j: nat) requires j <= k ensures lay(c, z, k, j as int).len() == p2((k - j) as nat) { lemma_st(c, z, k, j); }
pub proof fn lemma_positions(k: nat, c: int) requires c >= 0 ensures 0 <= posn(c, p2(k) as int) < p2(k), 0 <= symn(c, p2(k) as int) < p2(k)
{ lemma_p2(k); vstd::arithmetic::div_mod::lemma_mod_bound(c, p2(k) as int); vstd::arithmetic::div_mod::lemma_mod_bound(c % (p2(k) as int) + p2(k) as int / 2, p2(k) as int); }
/// layer j of an honest query passes
pub proof fn lemma_layer_honest(d: Decommitment, roots: Seq<Fr>, c: Seq<Fr>, z: Fr, k: nat, cv: Fr, pos: int, j: int)
  requires two_adic(k), z != fz(0), pos >= 0, folds_to_a_constant(c, z, k, k), dec_is(d, c, z, k, k, pos), 0 <= j < k == roots.len(), cv == st(c, z, k, k).c[0], forall|i: int| 0 <= i < k ==> #[trigger] roots[i] == rootof(st(c, z, k, i as nat))
  ensures layer_ok(d, roots, vrs(roots), pos, k, z, cv, j)
{ let m = (k - j) as nat; let s = st(c, z, k, j as nat); lemma_st(c, z, k, j as nat); lemma_st(c, z, k, (j + 1) as nat); ax_adic(m, k); lemma_positions(m, pos); lemma_lay_len(c, z, k, j as nat);
  let l = lay(c, z, k, j); let i = posn(pos, p2(m) as int); let y = symn(pos, p2(m) as int); assert(open_is(d, j, l, m, pos));
  lemma_honest_path(d.auth_paths@[j], l, m, i); lemma_honest_path(d.sym_auth_paths@[j], l, m, y); assert(roots[j] == rootof(s));
  lemma_hist(c, z, k, roots, j as nat); lemma_hist(c, z, k, roots, (j + 1) as nat); lemma_sym(m, pos, s.z); lemma_next_point(m, pos, s.z); lemma_omega(m); lemma_pow_nz(omega(m), i as nat); lemma_zsq(z, j as nat);
  let w = fmul(fpow(omega(m), i as nat), s.z); lemma_mul_nz(fpow(omega(m), i as nat), s.z);
  let r = chal(vh(roots, j + 1), 0); assert(vrs(roots)[j] == r); lemma_qf(s.c, r, w);
  let t = st(c, z, k, (j + 1) as nat); assert(t == snext(s)); assert(t.c == ptrim(foldc(s.c, r)));
  if j + 1 < k { lemma_lay_len(c, z, k, (j + 1) as nat); lemma_positions((m - 1) as nat, pos); assert(open_is(d, j + 1, lay(c, z, k, j + 1), (k - (j + 1)) as nat, pos)); } else { lemma_const(t.c, fmul(w, w)); } }
@lemma f04_honest_proofs_are_in_order F04
pub proof fn f04_honest_proofs_are_in_order(p: Proof, c: Seq<Fr>, z: Fr, k: nat, nq: int) requires proof_is(p, c, z, k, nq), two_adic(k), z != fz(0), folds_to_a_constant(c, z, k, k) ensures verify_ok(p)
{ lemma_vqh(c, z, k, p); lemma_p2(k); let d = tstate(qhist(c, z, k))->0;
  assert forall|q: int| 0 <= q < p.number_of_queries implies #[trigger] pquery_ok(p, q) by { let pos = qpos(d, q as nat, p2(k) as int); vstd::arithmetic::div_mod::lemma_mod_bound(pos_of(draw(d, q as nat)) as int, p2(k) as int); assert(vpos(p, q) == pos); assert(dec_is(p.decommitment_list@[q], c, z, k, k, pos));
    assert forall|j: int| 0 <= j < k implies #[trigger] layer_ok(p.decommitment_list@[q], p.layers_root@, vrs(p.layers_root@), pos, k, z, p.const_val, j) by { lemma_layer_honest(p.decommitment_list@[q], p.layers_root@, c, z, k, p.const_val, pos, j); } } }
@lemma f04_every_honest_proof_is_accepted F04
pub fn f04_every_honest_proof_is_accepted(poly: DensePolynomial, b: usize, nq: usize) requires exists|k: nat| #[trigger] gen_args(poly.coeffs@, b as int, k)
{ let ghost c = poly.coeffs@; let ghost k = choose|k: nat| #[trigger] gen_args(c, b as int, k);
  let p = generate_proof(poly, b, nq);
  proof { ax_fgen(); assert(gen_args(c, b as int, k)); assert(proof_is(p, c, fgen(), k, nq as int)); f04_honest_proofs_are_in_order(p, c, fgen(), k, nq as int); lemma_p2_bound(k);
    assert(p.decommitment_list@.len() == nq); assert forall|q: int| 0 <= q < nq implies dec_lens(#[trigger] p.decommitment_list@[q], k) by { assert(dec_is(p.decommitment_list@[q], c, fgen(), k, k, qpos(tstate(qhist(c, fgen(), k))->0, q as nat, p2(k) as int))); } }
  let r = verify(p); assert(r is Ok); }
@lemma f04_folding_ends_in_a_constant F04 F03
/// the last fold of a polynomial that fits the domain has at most one coefficient: it is a constant unless a fold vanished
pub proof fn f04_folding_ends_in_a_constant(c: Seq<Fr>, b: int, k: nat) requires b >= 1, c.len() * b <= p2(k) ensures st(c, fgen(), k, k).c.len() <= 1, st(c, fgen(), k, k).c.len() > 0 ==> folds_to_a_constant(c, fgen(), k, k)
{ assert(c.len() <= c.len() * b) by (nonlinear_arith) requires b >= 1; lemma_st(c, fgen(), k, k); assert(p2(0) == 1); }
@lemma f05_acceptance_means_every_query_was_checked F05
pub fn f05_acceptance_means_every_query_was_checked(p: Proof) requires p.layers_root@.len() < 0x1_0000_0000 ensures true
{ let ghost g = p; let r = verify_refuse(p); assert(r is Ok ==> verify_ok(g)); }
@lemma f05_accepted_openings_are_the_honest_ones F05
/// where the openings of layer j of a decommitment part from the committed layer
pub open spec fn ocoll(d: Decommitment, j: int, l: Seq<Fr>, k: nat) -> (Seq<u8>, Seq<u8>) { let a = d.auth_paths@[j]; let b = d.sym_auth_paths@[j]; let x = mcoll(a.index as int, a.leaf_val, a.hash_proof@, a.hash_proof@.len(), l, k, 0); if coll(x) { x } else { mcoll(b.index as int, b.leaf_val, b.hash_proof@, b.hash_proof@.len(), l, k, 0) } }
/// the roots are those of trees over the layers ls
pub open spec fn roots_of(roots: Seq<Fr>, ls: Seq<Seq<Fr>>) -> bool { ls.len() == roots.len() && forall|j: int| 0 <= j < roots.len() ==> (#[trigger] ls[j]).len() == p2((roots.len() - j) as nat) && roots[j] == mroot(ls[j], (roots.len() - j) as nat) }
/// an accepted proof whose roots commit to layers (whichever they are) opens those layers' values with the honest paths, in every query and layer, or exhibits a collision
pub proof fn f05_accepted_openings_are_the_honest_ones(p: Proof, ls: Seq<Seq<Fr>>, q: int, j: int)
  requires verify_ok(p), roots_of(p.layers_root@, ls), 0 <= q < p.number_of_queries, 0 <= j < ls.len()
  ensures open_is(p.decommitment_list@[q], j, ls[j], (ls.len() - j) as nat, vpos(p, q)) || coll(ocoll(p.decommitment_list@[q], j, ls[j], (ls.len() - j) as nat))
{ assert(pquery_ok(p, q)); let d = p.decommitment_list@[q]; let k = ls.len(); let m = (k - j) as nat; let pos = vpos(p, q); assert(layer_ok(d, p.layers_root@, vrs(p.layers_root@), pos, k, p.coset, p.const_val, j)); lemma_p2(k);
  vstd::arithmetic::div_mod::lemma_mod_bound(pos_of(draw(tstate(vqh(p))->0, q as nat)) as int, p.domain_size as int);
  let l = ls[j]; assert(l.len() == p2(m)); let a = d.auth_paths@[j]; let b = d.sym_auth_paths@[j]; f02_an_accepted_proof_is_the_honest_one(a, l, m); f02_an_accepted_proof_is_the_honest_one(b, l, m);
  lemma_positions(m, pos); vstd::arithmetic::div_mod::lemma_small_mod(a.index as nat, p2(m)); vstd::arithmetic::div_mod::lemma_small_mod(b.index as nat, p2(m)); }
@lemma f05_an_altered_decommitment_is_rejected F05
/// the honest proof is the only acceptable one with its roots and constant, up to collisions: altering, dropping or exchanging decommitments, values or paths is rejected
pub proof fn f05_an_altered_decommitment_is_rejected(p: Proof, h: Proof, c: Seq<Fr>, z: Fr, k: nat, nq: int)
  requires proof_is(h, c, z, k, nq), verify_ok(p), p.layers_root@ == h.layers_root@, p.const_val == h.const_val, p.number_of_queries == h.number_of_queries
  ensures p.domain_size == h.domain_size, p.decommitment_list@.len() == nq, forall|q: int, j: int| #![trigger open_is(p.decommitment_list@[q], j, lay(c, z, k, j), (k - j) as nat, vpos(p, q))] 0 <= q < nq && 0 <= j < k ==> open_is(p.decommitment_list@[q], j, lay(c, z, k, j), (k - j) as nat, vpos(p, q)) || coll(ocoll(p.decommitment_list@[q], j, lay(c, z, k, j), (k - j) as nat)),
    (forall|q: int, j: int| 0 <= q < nq && 0 <= j < k ==> !coll(#[trigger] ocoll(p.decommitment_list@[q], j, lay(c, z, k, j), (k - j) as nat))) ==> forall|q: int| 0 <= q < nq ==> #[trigger] dec_is(p.decommitment_list@[q], c, z, k, k, qpos(tstate(qhist(c, z, k))->0, q as nat, p2(k) as int))
{ lemma_vqh(c, z, k, p); let ls = Seq::new(k, |j: int| lay(c, z, k, j));
  assert forall|j: int| 0 <= j < k implies (#[trigger] ls[j]).len() == p2((k - j) as nat) && h.layers_root@[j] == mroot(ls[j], (k - j) as nat) by { lemma_lay_len(c, z, k, j as nat); lemma_st(c, z, k, j as nat); assert(h.layers_root@[j] == rootof(st(c, z, k, j as nat))); }
  assert forall|q: int, j: int| #![trigger open_is(p.decommitment_list@[q], j, lay(c, z, k, j), (k - j) as nat, vpos(p, q))] 0 <= q < nq && 0 <= j < k implies open_is(p.decommitment_list@[q], j, lay(c, z, k, j), (k - j) as nat, vpos(p, q)) || coll(ocoll(p.decommitment_list@[q], j, lay(c, z, k, j), (k - j) as nat)) by { f05_accepted_openings_are_the_honest_ones(p, ls, q, j); assert(ls[j] == lay(c, z, k, j)); }
  if forall|q: int, j: int| 0 <= q < nq && 0 <= j < k ==> !coll(#[trigger] ocoll(p.decommitment_list@[q], j, lay(c, z, k, j), (k - j) as nat)) {
    assert forall|q: int| 0 <= q < nq implies #[trigger] dec_is(p.decommitment_list@[q], c, z, k, k, qpos(tstate(qhist(c, z, k))->0, q as nat, p2(k) as int)) by { assert(pquery_ok(p, q)); let d = p.decommitment_list@[q]; let pos = vpos(p, q); assert(pos == qpos(tstate(qhist(c, z, k))->0, q as nat, p2(k) as int));
      assert forall|j: int| 0 <= j < k implies #[trigger] open_is(d, j, lay(c, z, k, j), (k - j) as nat, pos) by { assert(!coll(ocoll(d, j, lay(c, z, k, j), (k - j) as nat))); } } } }
@lemma f05_an_altered_root_is_rejected F05
/// with at least one query, the same decommitments cannot be accepted for two lists of roots
pub proof fn f05_an_altered_root_is_rejected(p: Proof, h: Proof) requires verify_ok(p), verify_ok(h), p.decommitment_list@ == h.decommitment_list@, p.decommitment_list@.len() > 0 ensures p.layers_root@ == h.layers_root@
{ assert(pquery_ok(p, 0)); assert(pquery_ok(h, 0)); let d = p.decommitment_list@[0]; let k = p.layers_root@.len(); assert(h.layers_root@.len() == k);
  assert forall|j: int| 0 <= j < k implies p.layers_root@[j] == h.layers_root@[j] by { assert(layer_ok(d, p.layers_root@, vrs(p.layers_root@), vpos(p, 0), k, p.coset, p.const_val, j)); assert(layer_ok(d, h.layers_root@, vrs(h.layers_root@), vpos(h, 0), k, h.coset, h.const_val, j)); }
  assert(p.layers_root@ =~= h.layers_root@); }
@lemma f05_an_altered_constant_is_rejected F05
pub proof fn f05_an_altered_constant_is_rejected(p: Proof, h: Proof) requires verify_ok(p), verify_ok(h), p.decommitment_list@ == h.decommitment_list@, p.decommitment_list@.len() > 0, p.layers_root@ == h.layers_root@, p.layers_root@.len() > 0, p.coset == h.coset ensures p.const_val == h.const_val
{ assert(pquery_ok(p, 0)); assert(pquery_ok(h, 0)); let d = p.decommitment_list@[0]; let k = p.layers_root@.len(); let j = k - 1;
  assert(layer_ok(d, p.layers_root@, vrs(p.layers_root@), vpos(p, 0), k, p.coset, p.const_val, j)); assert(layer_ok(d, h.layers_root@, vrs(h.layers_root@), vpos(h, 0), k, h.coset, h.const_val, j)); }
