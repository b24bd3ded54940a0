@files plonk/src/parser.rs plonk/src/common_preprocessed_input/cpi_parser.rs
@prelude base.rs str.rs
@raw local
pub struct Parser {}
pub struct CPIGenerator {}
@raw
// ---- the normalisers as a machine over characters
pub struct Nz { pub out: Seq<char>, pub base: Seq<char>, pub num: Seq<char>, pub flag: bool, pub bad: bool }
pub open spec fn times(b: Seq<char>, n: int) -> Seq<char> decreases n { if n <= 0 { Seq::<char>::empty() } else { times(b, n - 1) + seq!['*'] + b } }
/// the pending power is written out
pub open spec fn flush(s: Nz) -> Nz { if s.num.len() > 0 && pint(s.num) is Some { Nz { out: s.out + times(s.base, pint(s.num)->0 - 1), base: Seq::<char>::empty(), flag: false, ..s } } else { Nz { bad: true, ..s } } }
pub open spec fn step(s: Nz, c: char) -> Nz {
  if s.bad || c == ' ' { s }
  else if c == '^' { Nz { flag: true, num: Seq::<char>::empty(), ..s } }
  else if !is_num(c) { let t = if s.flag { flush(s) } else { s }; if t.bad { t } else { Nz { out: t.out.push(c), base: if is_alpha(c) { t.base.push(c) } else { Seq::<char>::empty() }, num: Seq::<char>::empty(), ..t } } }
  else if s.flag { Nz { num: s.num.push(c), ..s } }
  else { Nz { num: s.num.push(c), base: s.base.push(c), out: s.out.push(c), ..s } } }
pub open spec fn nz0() -> Nz { Nz { out: Seq::<char>::empty(), base: Seq::<char>::empty(), num: Seq::<char>::empty(), flag: false, bad: false } }
pub open spec fn nrun(s: Nz, w: Seq<char>, n: nat) -> Nz decreases n { if n == 0 { s } else { step(nrun(s, w, (n - 1) as nat), w[n - 1]) } }
pub open spec fn nfin(s: Nz) -> Nz { if !s.bad && s.flag && s.num.len() > 0 { flush(s) } else { s } }
pub open spec fn machine(w: Seq<char>) -> Nz { nfin(nrun(nz0(), w, w.len())) }
/// once stuck, stuck
pub proof fn lemma_bad(s: Nz, w: Seq<char>, m: nat, n: nat) requires m <= n, nrun(s, w, m).bad ensures nrun(s, w, n).bad decreases n - m { if m < n { lemma_bad(s, w, m + 1, n); } }
pub proof fn lemma_signs(w: Seq<char>, n: nat) requires n <= w.len() ensures ({ let s = nrun(nz0(), w, n); s.num.len() > 0 ==> is_num(s.num[0]) }) decreases n { if n > 0 { lemma_signs(w, (n - 1) as nat); let t = nrun(nz0(), w, (n - 1) as nat); let c = w[n - 1]; assert(nrun(nz0(), w, n) == step(t, c)); assert(t.num.push(c)[0] == (if t.num.len() > 0 { t.num[0] } else { c })); } }
// ---- what the machine writes on the strings of the grammar
pub open spec fn alnum(c: char) -> bool { is_num(c) || is_alpha(c) }
pub open spec fn strip(w: Seq<char>) -> Seq<char> decreases w.len() { if w.len() == 0 { w } else if w.last() == ' ' { strip(w.drop_last()) } else { strip(w.drop_last()).push(w.last()) } }
/// the base of a power: the longest run of letters and digits at the end
pub open spec fn suf(u: Seq<char>) -> Seq<char> decreases u.len() { if u.len() > 0 && alnum(u.last()) { suf(u.drop_last()).push(u.last()) } else { Seq::<char>::empty() } }
/// the exponent: the longest run of digits in front
pub open spec fn dpre(w: Seq<char>) -> nat decreases w.len() { if w.len() > 0 && is_num(w[0]) { 1 + dpre(w.subrange(1, w.len() as int)) } else { 0 } }
/// the k-fold product of b
pub open spec fn power(b: Seq<char>, k: int) -> Seq<char> decreases k { if k <= 1 { b } else { power(b, k - 1) + seq!['*'] + b } }
/// the place of the first '^'
pub open spec fn hat(w: Seq<char>) -> nat decreases w.len() { if w.len() == 0 || w[0] == '^' { 0 } else { 1 + hat(w.subrange(1, w.len() as int)) } }
pub open spec fn has_hat(w: Seq<char>) -> bool { exists|i: int| 0 <= i < w.len() && #[trigger] w[i] == '^' }
pub open spec fn before(w: Seq<char>) -> Seq<char> { w.subrange(0, hat(w) as int) }
pub open spec fn behind(w: Seq<char>) -> Seq<char> { w.subrange(hat(w) as int + 1, w.len() as int) }
pub open spec fn digs(r: Seq<char>) -> Seq<char> { r.subrange(0, dpre(r) as int) }
pub open spec fn more(r: Seq<char>) -> Seq<char> { r.subrange(dpre(r) as int, r.len() as int) }
/// every '^' is followed by a number of at least one digit and at least 1, and no power is raised to a power
pub open spec fn wf(w: Seq<char>) -> bool decreases w.len() via wf_dec { has_hat(w) ==> { let r = behind(w); hat(w) < w.len() && dpre(r) > 0 && dpre(r) <= r.len() && pint(digs(r)) is Some && pint(digs(r))->0 >= 1 && (more(r).len() > 0 ==> more(r)[0] != '^') && wf(more(r)) } }
#[verifier::decreases_by] proof fn wf_dec(w: Seq<char>) { if has_hat(w) && hat(w) < w.len() { lemma_hat(w); lemma_dpre(behind(w)); } }
/// b^k written out as b*...*b, everything else as it stands
pub open spec fn ex(w: Seq<char>) -> Seq<char> decreases w.len() via ex_dec { if has_hat(w) && hat(w) < w.len() && dpre(behind(w)) <= behind(w).len() { let u = before(w); let r = behind(w); let b = suf(u); u.subrange(0, u.len() - b.len()) + power(b, pint(digs(r))->0 as int) + ex(more(r)) } else { w } }
#[verifier::decreases_by] proof fn ex_dec(w: Seq<char>) { }
pub proof fn lemma_hat(w: Seq<char>) ensures hat(w) <= w.len(), forall|i: int| 0 <= i < hat(w) ==> w[i] != '^', has_hat(w) ==> hat(w) < w.len() && w[hat(w) as int] == '^' decreases w.len() {
  if w.len() > 0 && w[0] != '^' { let v = w.subrange(1, w.len() as int); lemma_hat(v); assert forall|i: int| 0 <= i < hat(w) implies w[i] != '^' by { if i > 0 { assert(v[i - 1] == w[i]); } }
    if has_hat(w) { let i = choose|i: int| 0 <= i < w.len() && #[trigger] w[i] == '^'; assert(v[i - 1] == '^'); assert(w[hat(w) as int] == v[hat(v) as int]); } } }
pub proof fn lemma_dpre(w: Seq<char>) ensures dpre(w) <= w.len(), forall|i: int| 0 <= i < dpre(w) ==> is_num(w[i]), dpre(w) < w.len() ==> !is_num(w[dpre(w) as int]) decreases w.len() {
  if w.len() > 0 && is_num(w[0]) { let v = w.subrange(1, w.len() as int); lemma_dpre(v); assert forall|i: int| 0 <= i < dpre(w) implies is_num(w[i]) by { if i > 0 { assert(v[i - 1] == w[i]); } } if dpre(w) < w.len() { assert(w[dpre(w) as int] == v[dpre(v) as int]); } } }
pub proof fn lemma_suf(u: Seq<char>) ensures suf(u).len() <= u.len(), u == u.subrange(0, u.len() - suf(u).len()) + suf(u) decreases u.len() {
  if u.len() > 0 && alnum(u.last()) { let v = u.drop_last(); lemma_suf(v); assert(u.subrange(0, u.len() - suf(u).len()) =~= v.subrange(0, v.len() - suf(v).len())); assert(u =~= v.push(u.last())); }
  assert(u =~= u.subrange(0, u.len() - suf(u).len()) + suf(u)); }
pub proof fn lemma_power(b: Seq<char>, k: int) requires k >= 1 ensures b + times(b, k - 1) == power(b, k) decreases k { if k > 1 { lemma_power(b, k - 1); assert(times(b, k - 1) == times(b, k - 2) + seq!['*'] + b); assert(b + times(b, k - 1) =~= power(b, k)); } else { assert(times(b, k - 1) =~= Seq::<char>::empty()); assert(b + times(b, k - 1) =~= b); } }
/// the machine on a string in two parts
pub proof fn lemma_split(s: Nz, w: Seq<char>, m: int, n: int) requires 0 <= m <= n <= w.len() ensures nrun(s, w, n as nat) == nrun(nrun(s, w.subrange(0, m), m as nat), w.subrange(m, w.len() as int), (n - m) as nat) decreases n {
  if m < n { lemma_split(s, w, m, n - 1); assert(w.subrange(m, w.len() as int)[n - 1 - m] == w[n - 1]); }
  else { lemma_prefix(s, w, w.subrange(0, m), m as nat); } }
pub proof fn lemma_prefix(s: Nz, w: Seq<char>, v: Seq<char>, n: nat) requires n <= w.len(), n <= v.len(), forall|i: int| 0 <= i < n ==> w[i] == v[i] ensures nrun(s, w, n) == nrun(s, v, n) decreases n { if n > 0 { lemma_prefix(s, w, v, (n - 1) as nat); } }
/// blanks have no effect
pub proof fn lemma_blanks(s: Nz, w: Seq<char>) ensures nrun(s, w, w.len()) == nrun(s, strip(w), strip(w).len()) decreases w.len() {
  if w.len() > 0 { let v = w.drop_last(); lemma_blanks(s, v); lemma_prefix(s, w, v, v.len()); if w.last() != ' ' { lemma_prefix(s, strip(w), strip(v), strip(v).len()); } } }
/// without powers everything is copied
pub proof fn lemma_plain(s: Nz, w: Seq<char>, n: nat) requires !s.bad, !s.flag, s.base == Seq::<char>::empty(), n <= w.len(), forall|i: int| 0 <= i < n ==> #[trigger] w[i] != ' ' && w[i] != '^'
  ensures ({ let t = nrun(s, w, n); !t.bad && !t.flag && t.base == suf(w.subrange(0, n as int)) && t.out == s.out + w.subrange(0, n as int) }) decreases n {
  if n > 0 { let m = (n - 1) as nat; lemma_plain(s, w, m); let v = w.subrange(0, n as int); assert(v.drop_last() =~= w.subrange(0, m as int)); assert(v.last() == w[m as int]); assert(v =~= w.subrange(0, m as int).push(w[m as int])); let t = nrun(s, w, m); assert(nrun(s, w, n) == step(t, w[m as int])); assert((s.out + w.subrange(0, m as int)).push(w[m as int]) =~= s.out + v); }
  else { assert(w.subrange(0, 0) =~= Seq::<char>::empty()); assert(s.out + w.subrange(0, 0) =~= s.out); } }
/// the digits of the exponent are collected
pub proof fn lemma_digits(s: Nz, w: Seq<char>, n: nat) requires !s.bad, s.flag, s.num == Seq::<char>::empty(), n <= w.len(), forall|i: int| 0 <= i < n ==> is_num(#[trigger] w[i])
  ensures nrun(s, w, n) == (Nz { num: w.subrange(0, n as int), ..s }) decreases n {
  if n > 0 { let m = (n - 1) as nat; lemma_digits(s, w, m); ax_chars(); assert(is_num(w[m as int])); assert(w.subrange(0, m as int).push(w[m as int]) =~= w.subrange(0, n as int)); }
  else { assert(w.subrange(0, 0) =~= Seq::<char>::empty()); } }
/// a pending power is written out before the next character
pub proof fn lemma_next(s: Nz, w: Seq<char>, n: nat) requires 0 < n <= w.len(), !s.bad, s.flag, !flush(s).bad, !is_num(w[0]), w[0] != '^', w[0] != ' ' ensures nrun(s, w, n) == nrun(flush(s), w, n) decreases n {
  if n > 1 { lemma_next(s, w, (n - 1) as nat); } else { assert(nrun(s, w, 0) == s); assert(nrun(flush(s), w, 0) == flush(s)); assert(nrun(s, w, 1) == step(s, w[0])); assert(nrun(flush(s), w, 1) == step(flush(s), w[0])); } }
pub proof fn lemma_ex(s: Nz, w: Seq<char>) requires !s.bad, !s.flag, s.base == Seq::<char>::empty(), wf(w), forall|i: int| 0 <= i < w.len() ==> #[trigger] w[i] != ' '
  ensures ({ let t = nfin(nrun(s, w, w.len())); !t.bad && t.out == s.out + ex(w) }) decreases w.len() {
  lemma_hat(w); ax_chars();
  if has_hat(w) {
    let p = hat(w) as int; let u = before(w); let r = behind(w); let d = dpre(r) as int; let q = more(r); let b = suf(u); let k = pint(digs(r))->0 as int;
    lemma_dpre(r); lemma_suf(u); lemma_power(b, k);
    lemma_plain(s, u, p as nat); assert(u.subrange(0, p) =~= u);
    let s1 = nrun(s, u, p as nat);
    lemma_split(s, w, p, w.len() as int);
    let v = w.subrange(p, w.len() as int); let s2 = Nz { flag: true, num: Seq::<char>::empty(), ..s1 };
    lemma_split(s1, v, 1, v.len() as int); assert(v.subrange(0, 1)[0] == '^'); assert(nrun(s1, v.subrange(0, 1), 0) == s1); assert(nrun(s1, v.subrange(0, 1), 1) == step(s1, '^')); assert(step(s1, '^') == s2);
    assert(v.subrange(1, v.len() as int) =~= r);
    lemma_split(s2, r, d, r.len() as int); lemma_digits(s2, r.subrange(0, d), d as nat); assert(r.subrange(0, d).subrange(0, d) =~= digs(r));
    let s3 = Nz { num: digs(r), ..s2 };
    assert(nrun(s, w, w.len()) == nrun(s3, q, q.len()));
    let t = flush(s3);
    assert(!t.bad && !t.flag && t.out == s.out + u + times(b, k - 1));
    assert(t.out =~= s.out + (u.subrange(0, u.len() - b.len()) + power(b, k)));
    assert(forall|i: int| 0 <= i < q.len() ==> #[trigger] q[i] == w[p + 1 + d + i]);
    if q.len() > 0 { lemma_next(s3, q, q.len()); assert(q[0] == r[d]); lemma_ex(t, q); assert(t.out + ex(q) =~= s.out + ex(w)); }
    else { assert(nrun(s3, q, 0) == s3); assert(nfin(s3) == t); assert(!has_hat(q)); assert(ex(q) == q); assert(t.out =~= s.out + ex(w)); }
  } else { assert(forall|i: int| 0 <= i < w.len() ==> #[trigger] w[i] != '^'); lemma_plain(s, w, w.len()); assert(w.subrange(0, w.len() as int) =~= w); assert(nrun(s, w, w.len()) == nfin(nrun(s, w, w.len()))); } }
pub proof fn lemma_strip(w: Seq<char>) ensures forall|i: int| 0 <= i < strip(w).len() ==> #[trigger] strip(w)[i] != ' ' decreases w.len() { if w.len() > 0 { let v = w.drop_last(); lemma_strip(v); assert forall|i: int| 0 <= i < strip(w).len() implies #[trigger] strip(w)[i] != ' ' by { if i < strip(v).len() { assert(strip(v)[i] != ' '); } } } }
@end
@lemma p04_normalised P04
/// normalising: lower case, no blanks, every power written out as a product of its base, everything else unchanged
pub proof fn p04_normalised(s: Seq<char>) requires wf(strip(lower(s))) ensures !machine(lower(s)).bad, machine(lower(s)).out == ex(strip(lower(s))) {
  let w = lower(s); lemma_blanks(nz0(), w); lemma_strip(w); lemma_ex(nz0(), strip(w)); assert(nz0().out + ex(strip(w)) =~= ex(strip(w))); }
@lemma p04_powers_are_products P04
pub proof fn lemma_hat_is(w: Seq<char>, p: nat) requires p < w.len(), w[p as int] == '^', forall|i: int| 0 <= i < p ==> #[trigger] w[i] != '^' ensures hat(w) == p, has_hat(w) decreases p { assert(w[p as int] == '^'); if p > 0 { assert(w[0] != '^'); let v = w.subrange(1, w.len() as int); assert(forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i] == w[i + 1]); lemma_hat_is(v, (p - 1) as nat); } }
pub proof fn lemma_dpre_is(w: Seq<char>, p: nat) requires p <= w.len(), p < w.len() ==> !is_num(w[p as int]), forall|i: int| 0 <= i < p ==> is_num(#[trigger] w[i]) ensures dpre(w) == p decreases p { if p > 0 { assert(is_num(w[0])); let v = w.subrange(1, w.len() as int); assert(forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i] == w[i + 1]); lemma_dpre_is(v, (p - 1) as nat); } }
/// u^d q, with u free of powers and d a number: its base, the letters and digits at the end of u, becomes their d-fold product; without powers nothing changes
pub proof fn p04_powers_are_products(u: Seq<char>, d: Seq<char>, q: Seq<char>)
  requires forall|i: int| 0 <= i < u.len() ==> #[trigger] u[i] != '^', d.len() > 0, digits(d), 1 <= dval(d) <= 0x7fff_ffff, q.len() > 0 ==> !is_num(q[0]) && q[0] != '^', wf(q)
  ensures wf(u), ex(u) == u, wf(u + seq!['^'] + d + q), ex(u + seq!['^'] + d + q) == u.subrange(0, u.len() - suf(u).len()) + power(suf(u), dval(d)) + ex(q), u == u.subrange(0, u.len() - suf(u).len()) + suf(u) {
  broadcast use ax_pint; ax_chars(); lemma_suf(u);
  let w = u + seq!['^'] + d + q; let r = d + q;
  assert(forall|i: int| 0 <= i < u.len() ==> #[trigger] w[i] == u[i]); lemma_hat_is(w, u.len()); assert(behind(w) =~= r); assert(before(w) =~= u);
  assert forall|i: int| 0 <= i < d.len() implies is_num(#[trigger] r[i]) by { assert(r[i] == d[i] && is_digit(d[i])); } lemma_dpre_is(r, d.len()); assert(digs(r) =~= d); assert(more(r) =~= q); }
@lemma p04_both_normalisers_agree P04
/// on every input, inside the grammar or not: both refuse it or both write the same
pub fn p04_both_normalisers_agree(s: &str) { let a = Parser::parse_string_refuse(s); let b = CPIGenerator::normalize(s); assert(a@ == b@); }
pub fn p04_both_normalisers_agree_2(s: &str) { let a = CPIGenerator::normalize_refuse(s); let b = Parser::parse_string(s); assert(a@ == b@); }
@fn Parser::parse_string | P04 | r
requires !machine(lower(string@)).bad
ensures r@ == machine(lower(string@)).out
@start
broadcast use strs; proof { ax_sadd_on(); }
let ghost w = lower(string@);
@loop 1
invariant string@ == w, __L1 == w.len(), ({ let s = nrun(nz0(), w, __i1 as nat); !s.bad && result@ == s.out && base@ == s.base && number_buffer@ == s.num && flag == s.flag }), !machine(w).bad
@loop_start 1
let ghost s0 = nrun(nz0(), w, __i1 as nat); let ghost o0 = result@; let ghost b0 = base@;
proof { lemma_signs(w, __i1 as nat); assert(nrun(nz0(), w, (__i1 + 1) as nat) == step(s0, w[__i1 as int])); if nrun(nz0(), w, (__i1 + 1) as nat).bad { lemma_bad(nz0(), w, (__i1 + 1) as nat, w.len()); } }
@before_loop 2
let ghost p2 = pint(number_buffer@)->0 - 1;
@loop 2
invariant __i2 == __A2 || __i2 - __A2 <= p2, base@ == b0, result@ == o0 + times(b0, __i2 - __A2)
@loop_start 2
proof { assert(times(b0, __i2 + 1 - __A2) == times(b0, __i2 - __A2) + seq!['*'] + b0); }
@loop_end 2
proof { assert(result@ =~= o0 + times(b0, __i2 - __A2)); }
@after_loop 1
proof { lemma_signs(w, w.len()); assert(machine(w) == nfin(nrun(nz0(), w, w.len()))); }
@before_loop 3
let ghost o1 = result@; let ghost b1 = base@; let ghost p3 = pint(number_buffer@)->0 - 1;
@loop 3
invariant __i3 == __A3 || __i3 - __A3 <= p3, base@ == b1, result@ == o1 + times(b1, __i3 - __A3)
@loop_start 3
proof { assert(times(b1, __i3 + 1 - __A3) == times(b1, __i3 - __A3) + seq!['*'] + b1); }
@loop_end 3
proof { assert(result@ =~= o1 + times(b1, __i3 - __A3)); }
@fn Parser::parse_string | P04 | r | as=parse_string_refuse
ensures !machine(lower(string@)).bad, r@ == machine(lower(string@)).out
@subst \bvpanic\b => vpanic_refuse
@subst \. expect \( => . v_expect_refuse (
@subst \. unwrap \(\) => . v_unwrap_refuse ()
@start
broadcast use strs; proof { ax_sadd_on(); }
let ghost w = lower(string@);
@loop 1
invariant string@ == w, __L1 == w.len(), ({ let s = nrun(nz0(), w, __i1 as nat); !s.bad && result@ == s.out && base@ == s.base && number_buffer@ == s.num && flag == s.flag })
@loop_start 1
let ghost s0 = nrun(nz0(), w, __i1 as nat); let ghost o0 = result@; let ghost b0 = base@;
proof { lemma_signs(w, __i1 as nat); assert(nrun(nz0(), w, (__i1 + 1) as nat) == step(s0, w[__i1 as int])); }
@before_loop 2
let ghost p2 = pint(number_buffer@)->0 - 1;
@loop 2
invariant __i2 == __A2 || __i2 - __A2 <= p2, base@ == b0, result@ == o0 + times(b0, __i2 - __A2)
@loop_start 2
proof { assert(times(b0, __i2 + 1 - __A2) == times(b0, __i2 - __A2) + seq!['*'] + b0); }
@loop_end 2
proof { assert(result@ =~= o0 + times(b0, __i2 - __A2)); }
@after_loop 1
proof { lemma_signs(w, w.len()); assert(machine(w) == nfin(nrun(nz0(), w, w.len()))); }
@before_loop 3
let ghost o1 = result@; let ghost b1 = base@; let ghost p3 = pint(number_buffer@)->0 - 1;
@loop 3
invariant __i3 == __A3 || __i3 - __A3 <= p3, base@ == b1, result@ == o1 + times(b1, __i3 - __A3)
@loop_start 3
proof { assert(times(b1, __i3 + 1 - __A3) == times(b1, __i3 - __A3) + seq!['*'] + b1); }
@loop_end 3
proof { assert(result@ =~= o1 + times(b1, __i3 - __A3)); }
@fn CPIGenerator::normalize | P04 | r
requires !machine(lower(string@)).bad
ensures r@ == machine(lower(string@)).out
@start
broadcast use strs; proof { ax_sadd_on(); }
let ghost w = lower(string@);
@loop 1
invariant string@ == w, __L1 == w.len(), ({ let s = nrun(nz0(), w, __i1 as nat); !s.bad && result@ == s.out && base@ == s.base && number_buffer@ == s.num && flag == s.flag }), !machine(w).bad
@loop_start 1
let ghost s0 = nrun(nz0(), w, __i1 as nat); let ghost o0 = result@; let ghost b0 = base@;
proof { lemma_signs(w, __i1 as nat); assert(nrun(nz0(), w, (__i1 + 1) as nat) == step(s0, w[__i1 as int])); if nrun(nz0(), w, (__i1 + 1) as nat).bad { lemma_bad(nz0(), w, (__i1 + 1) as nat, w.len()); } }
@before_loop 2
let ghost p2 = pint(number_buffer@)->0 - 1;
@loop 2
invariant __i2 == __A2 || __i2 - __A2 <= p2, base@ == b0, result@ == o0 + times(b0, __i2 - __A2)
@loop_start 2
proof { assert(times(b0, __i2 + 1 - __A2) == times(b0, __i2 - __A2) + seq!['*'] + b0); }
@loop_end 2
proof { assert(result@ =~= o0 + times(b0, __i2 - __A2)); }
@after_loop 1
proof { lemma_signs(w, w.len()); assert(machine(w) == nfin(nrun(nz0(), w, w.len()))); }
@before_loop 3
let ghost o1 = result@; let ghost b1 = base@; let ghost p3 = pint(number_buffer@)->0 - 1;
@loop 3
invariant __i3 == __A3 || __i3 - __A3 <= p3, base@ == b1, result@ == o1 + times(b1, __i3 - __A3)
@loop_start 3
proof { assert(times(b1, __i3 + 1 - __A3) == times(b1, __i3 - __A3) + seq!['*'] + b1); }
@loop_end 3
proof { assert(result@ =~= o1 + times(b1, __i3 - __A3)); }
@fn CPIGenerator::normalize | P04 | r | as=normalize_refuse
ensures !machine(lower(string@)).bad, r@ == machine(lower(string@)).out
@subst \bvpanic\b => vpanic_refuse
@subst \. expect \( => . v_expect_refuse (
@subst \. unwrap \(\) => . v_unwrap_refuse ()
@start
broadcast use strs; proof { ax_sadd_on(); }
let ghost w = lower(string@);
@loop 1
invariant string@ == w, __L1 == w.len(), ({ let s = nrun(nz0(), w, __i1 as nat); !s.bad && result@ == s.out && base@ == s.base && number_buffer@ == s.num && flag == s.flag })
@loop_start 1
let ghost s0 = nrun(nz0(), w, __i1 as nat); let ghost o0 = result@; let ghost b0 = base@;
proof { lemma_signs(w, __i1 as nat); assert(nrun(nz0(), w, (__i1 + 1) as nat) == step(s0, w[__i1 as int])); }
@before_loop 2
let ghost p2 = pint(number_buffer@)->0 - 1;
@loop 2
invariant __i2 == __A2 || __i2 - __A2 <= p2, base@ == b0, result@ == o0 + times(b0, __i2 - __A2)
@loop_start 2
proof { assert(times(b0, __i2 + 1 - __A2) == times(b0, __i2 - __A2) + seq!['*'] + b0); }
@loop_end 2
proof { assert(result@ =~= o0 + times(b0, __i2 - __A2)); }
@after_loop 1
proof { lemma_signs(w, w.len()); assert(machine(w) == nfin(nrun(nz0(), w, w.len()))); }
@before_loop 3
let ghost o1 = result@; let ghost b1 = base@; let ghost p3 = pint(number_buffer@)->0 - 1;
@loop 3
invariant __i3 == __A3 || __i3 - __A3 <= p3, base@ == b1, result@ == o1 + times(b1, __i3 - __A3)
@loop_start 3
proof { assert(times(b1, __i3 + 1 - __A3) == times(b1, __i3 - __A3) + seq!['*'] + b1); }
@loop_end 3
proof { assert(result@ =~= o1 + times(b1, __i3 - __A3)); }
