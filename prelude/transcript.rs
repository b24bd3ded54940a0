// ---- a transcript: the hash of what came before followed by the item's encoding
pub open spec fn absorb(d: Option<Seq<u8>>, item: Seq<u8>) -> Seq<u8> { sha((match d { Some(v) => v, None => Seq::<u8>::empty() }) + item) }
/// the state after a history of absorbed encodings
pub open spec fn tstate(h: Seq<Seq<u8>>) -> Option<Seq<u8>> decreases h.len() { if h.len() == 0 { None } else { Some(absorb(tstate(h.drop_last()), h.last())) } }
pub open spec fn tseed(d: Seq<u8>) -> StdRng { rseed(le64(d.subrange(0, 8))) }
/// the i-th challenge drawn from a state
pub open spec fn challenge(d: Seq<u8>, i: nat) -> Fr { rdraw::<Fr>(rsteps(tseed(d), i)) }
/// two inputs on which the hash function collides
pub open spec fn scoll(p: (Seq<u8>, Seq<u8>)) -> bool { p.0 != p.1 && sha(p.0) == sha(p.1) }
pub open spec fn hpre(h: Seq<Seq<u8>>) -> Seq<u8> { (match tstate(h.drop_last()) { Some(v) => v, None => Seq::<u8>::empty() }) + h.last() }
/// where two histories with equal states part
pub open spec fn tcoll(h: Seq<Seq<u8>>, k: Seq<Seq<u8>>) -> (Seq<u8>, Seq<u8>) decreases h.len()
{ if h.len() == 0 || k.len() == 0 { (Seq::<u8>::empty(), Seq::<u8>::empty()) } else if hpre(h) != hpre(k) { (hpre(h), hpre(k)) } else { tcoll(h.drop_last(), k.drop_last()) } }
/// two histories of scalars (32 bytes) and commitments (96 bytes) with the same state are equal, or exhibit a collision of the hash function
pub proof fn lemma_history(h: Seq<Seq<u8>>, k: Seq<Seq<u8>>)
  requires tstate(h) == tstate(k), forall|i: int| 0 <= i < h.len() ==> (#[trigger] h[i]).len() == 32 || h[i].len() == 96, forall|i: int| 0 <= i < k.len() ==> (#[trigger] k[i]).len() == 32 || k[i].len() == 96
  ensures h == k || scoll(tcoll(h, k)) decreases h.len()
{ broadcast use ax_sha_len; 
  if h.len() == 0 || k.len() == 0 { assert(h =~= k); } else if hpre(h) == hpre(k) {
    let (h0, k0) = (h.drop_last(), k.drop_last()); let e = Seq::<u8>::empty();
    let p = match tstate(h0) { Some(v) => v, None => e }; let q = match tstate(k0) { Some(v) => v, None => e };
    assert((p + h.last()).len() == p.len() + h.last().len()); assert((q + k.last()).len() == q.len() + k.last().len());
    assert(h.last() == h[h.len() - 1] && k.last() == k[k.len() - 1]);
    assert(p.len() == 0 <==> h0.len() == 0); assert(q.len() == 0 <==> k0.len() == 0);
    lemma_cat(p, h.last(), q, k.last());
    assert(tstate(h0) == tstate(k0));
    assert forall|i: int| 0 <= i < h0.len() implies (#[trigger] h0[i]).len() == 32 || h0[i].len() == 96 by { assert(h0[i] == h[i]); }
    assert forall|i: int| 0 <= i < k0.len() implies (#[trigger] k0[i]).len() == 32 || k0[i].len() == 96 by { assert(k0[i] == k[i]); }
    lemma_history(h0, k0);
    if h0 == k0 { assert(h =~= h0.push(h.last())); assert(k =~= k0.push(k.last())); } } }
