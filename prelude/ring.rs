// ---- a verified decision procedure for identities of commutative rings, run by the verifier's evaluator
pub enum E { V(nat), C(int), Add(Box<E>, Box<E>), Sub(Box<E>, Box<E>), Mul(Box<E>, Box<E>), Neg(Box<E>) }
pub enum M { Nil, Cons(nat, Box<M>) }
pub enum P { Nil, Cons(int, M, Box<P>) }
pub open spec fn evf(e: E, v: Seq<Fr>) -> Fr decreases e { match e { E::V(i) => v[i as int], E::C(c) => fz(c), E::Add(a, b) => fadd(evf(*a, v), evf(*b, v)), E::Sub(a, b) => fsub(evf(*a, v), evf(*b, v)), E::Mul(a, b) => fmul(evf(*a, v), evf(*b, v)), E::Neg(a) => fneg(evf(*a, v)) } }
pub open spec fn evi(e: E, v: Seq<int>) -> int decreases e { match e { E::V(i) => v[i as int], E::C(c) => c, E::Add(a, b) => evi(*a, v) + evi(*b, v), E::Sub(a, b) => evi(*a, v) - evi(*b, v), E::Mul(a, b) => evi(*a, v) * evi(*b, v), E::Neg(a) => -evi(*a, v) } }
pub open spec fn vars(e: E, n: nat) -> bool decreases e { match e { E::V(i) => i < n, E::C(c) => true, E::Add(a, b) => vars(*a, n) && vars(*b, n), E::Sub(a, b) => vars(*a, n) && vars(*b, n), E::Mul(a, b) => vars(*a, n) && vars(*b, n), E::Neg(a) => vars(*a, n) } }
pub open spec fn evm(m: M, v: Seq<int>) -> int decreases m { match m { M::Nil => 1, M::Cons(i, t) => v[i as int] * evm(*t, v) } }
pub open spec fn evp(p: P, v: Seq<int>) -> int decreases p { match p { P::Nil => 0, P::Cons(c, m, t) => c * evm(m, v) + evp(*t, v) } }
pub open spec fn minsert(i: nat, m: M) -> M decreases m { match m { M::Nil => M::Cons(i, Box::new(M::Nil)), M::Cons(j, t) => if i <= j { M::Cons(i, Box::new(m)) } else { M::Cons(j, Box::new(minsert(i, *t))) } } }
pub open spec fn mmul(a: M, b: M) -> M decreases a { match a { M::Nil => b, M::Cons(i, t) => minsert(i, mmul(*t, b)) } }
pub open spec fn meq(a: M, b: M) -> bool decreases a { match a { M::Nil => match b { M::Nil => true, M::Cons(j, s) => false }, M::Cons(i, t) => match b { M::Nil => false, M::Cons(j, s) => i == j && meq(*t, *s) } } }
pub open spec fn mlt(a: M, b: M) -> bool decreases a { match a { M::Nil => true, M::Cons(i, t) => match b { M::Nil => false, M::Cons(j, s) => i < j || (i == j && mlt(*t, *s)) } } }
pub open spec fn pinsert(c: int, m: M, p: P) -> P decreases p { if c == 0 { p } else { match p { P::Nil => P::Cons(c, m, Box::new(P::Nil)), P::Cons(d, k, t) => if meq(m, k) { if c + d == 0 { *t } else { P::Cons(c + d, k, t) } } else if mlt(m, k) { P::Cons(c, m, Box::new(p)) } else { P::Cons(d, k, Box::new(pinsert(c, m, *t))) } } } }
pub open spec fn padd(a: P, b: P) -> P decreases a { match a { P::Nil => b, P::Cons(c, m, t) => pinsert(c, m, padd(*t, b)) } }
pub open spec fn pscale(c: int, m: M, p: P) -> P decreases p { match p { P::Nil => P::Nil, P::Cons(d, k, t) => pinsert(c * d, mmul(m, k), pscale(c, m, *t)) } }
pub open spec fn pmul(a: P, b: P) -> P decreases a { match a { P::Nil => P::Nil, P::Cons(c, m, t) => padd(pscale(c, m, b), pmul(*t, b)) } }
pub open spec fn nf(e: E) -> P decreases e { match e { E::V(i) => P::Cons(1, M::Cons(i, Box::new(M::Nil)), Box::new(P::Nil)), E::C(c) => pinsert(c, M::Nil, P::Nil), E::Add(a, b) => padd(nf(*a), nf(*b)), E::Sub(a, b) => padd(nf(*a), pscale(-1, M::Nil, nf(*b))), E::Mul(a, b) => pmul(nf(*a), nf(*b)), E::Neg(a) => pscale(-1, M::Nil, nf(*a)) } }
pub open spec fn peq(a: P, b: P) -> bool decreases a { match a { P::Nil => match b { P::Nil => true, P::Cons(d, k, s) => false }, P::Cons(c, m, t) => match b { P::Nil => false, P::Cons(d, k, s) => c == d && meq(m, k) && peq(*t, *s) } } }
pub proof fn rl_minsert(i: nat, m: M, v: Seq<int>) ensures evm(minsert(i, m), v) == v[i as int] * evm(m, v) decreases m
{ match m { M::Nil => { assert(evm(M::Nil, v) == 1); assert(evm(M::Cons(i, Box::new(M::Nil)), v) == v[i as int] * evm(M::Nil, v)); }, M::Cons(j, t) => { if i <= j { } else { rl_minsert(i, *t, v); let (x, y, z) = (v[j as int], v[i as int], evm(*t, v)); assert(x * (y * z) == y * (x * z)) by (nonlinear_arith); } } } }
pub proof fn rl_mmul(a: M, b: M, v: Seq<int>) ensures evm(mmul(a, b), v) == evm(a, v) * evm(b, v) decreases a
{ match a { M::Nil => { }, M::Cons(i, t) => { rl_mmul(*t, b, v); rl_minsert(i, mmul(*t, b), v); let (x, y, z) = (v[i as int], evm(*t, v), evm(b, v)); assert(x * (y * z) == (x * y) * z) by (nonlinear_arith); } } }
pub proof fn rl_meq(a: M, b: M) ensures meq(a, b) ==> a == b decreases a
{ match a { M::Nil => { }, M::Cons(i, t) => match b { M::Nil => { }, M::Cons(j, s) => { rl_meq(*t, *s); } } } }
pub proof fn rl_peq(a: P, b: P) ensures peq(a, b) ==> a == b decreases a
{ match a { P::Nil => { }, P::Cons(c, m, t) => match b { P::Nil => { }, P::Cons(d, k, s) => { rl_peq(*t, *s); rl_meq(m, k); } } } }
pub proof fn rl_pinsert(c: int, m: M, p: P, v: Seq<int>) ensures evp(pinsert(c, m, p), v) == c * evm(m, v) + evp(p, v) decreases p
{ let x = evm(m, v); if c == 0 { assert(c * x == 0) by (nonlinear_arith) requires c == 0; } else { match p { P::Nil => { assert(evp(P::Nil, v) == 0); assert(evp(P::Cons(c, m, Box::new(P::Nil)), v) == c * x + evp(P::Nil, v)); }, P::Cons(d, k, t) => { rl_meq(m, k);
  if meq(m, k) { assert((c + d) * x == c * x + d * x) by (nonlinear_arith); if c + d == 0 { assert((c + d) * x == 0) by (nonlinear_arith) requires c + d == 0; } } else if mlt(m, k) { } else { rl_pinsert(c, m, *t, v); } } } } }
pub proof fn rl_padd(a: P, b: P, v: Seq<int>) ensures evp(padd(a, b), v) == evp(a, v) + evp(b, v) decreases a
{ match a { P::Nil => { }, P::Cons(c, m, t) => { rl_padd(*t, b, v); rl_pinsert(c, m, padd(*t, b), v); } } }
pub proof fn rl_pscale(c: int, m: M, p: P, v: Seq<int>) ensures evp(pscale(c, m, p), v) == (c * evm(m, v)) * evp(p, v) decreases p
{ match p { P::Nil => { }, P::Cons(d, k, t) => { rl_pscale(c, m, *t, v); rl_mmul(m, k, v); rl_pinsert(c * d, mmul(m, k), pscale(c, m, *t), v);
  let (x, y, z) = (evm(m, v), evm(k, v), evp(*t, v)); assert((c * d) * (x * y) == (c * x) * (d * y)) by (nonlinear_arith); assert((c * x) * (d * y + z) == (c * x) * (d * y) + (c * x) * z) by (nonlinear_arith); } } }
pub proof fn rl_pmul(a: P, b: P, v: Seq<int>) ensures evp(pmul(a, b), v) == evp(a, v) * evp(b, v) decreases a
{ match a { P::Nil => { }, P::Cons(c, m, t) => { rl_pmul(*t, b, v); rl_pscale(c, m, b, v); rl_padd(pscale(c, m, b), pmul(*t, b), v); let (x, y, z) = (c * evm(m, v), evp(*t, v), evp(b, v)); assert((x + y) * z == x * z + y * z) by (nonlinear_arith); } } }
pub proof fn rl_nf(e: E, v: Seq<int>) ensures evp(nf(e), v) == evi(e, v) decreases e
{ match e {
  E::V(i) => { let one = M::Nil; assert(evm(one, v) == 1); assert(evm(M::Cons(i, Box::new(one)), v) == v[i as int] * evm(one, v)); assert(evp(P::Nil, v) == 0); assert(nf(e) == P::Cons(1, M::Cons(i, Box::new(one)), Box::new(P::Nil))); assert(evp(nf(e), v) == 1 * evm(M::Cons(i, Box::new(one)), v) + evp(P::Nil, v)); },
  E::C(c) => { rl_pinsert(c, M::Nil, P::Nil, v); assert(evm(M::Nil, v) == 1); assert(evp(P::Nil, v) == 0); },
  E::Add(a, b) => { rl_nf(*a, v); rl_nf(*b, v); rl_padd(nf(*a), nf(*b), v); },
  E::Sub(a, b) => { rl_nf(*a, v); rl_nf(*b, v); rl_pscale(-1, M::Nil, nf(*b), v); rl_padd(nf(*a), pscale(-1, M::Nil, nf(*b)), v); assert(evm(M::Nil, v) == 1); },
  E::Mul(a, b) => { rl_nf(*a, v); rl_nf(*b, v); rl_pmul(nf(*a), nf(*b), v); },
  E::Neg(a) => { rl_nf(*a, v); rl_pscale(-1, M::Nil, nf(*a), v); assert(evm(M::Nil, v) == 1); } } }
pub open spec fn reps(v: Seq<Fr>) -> Seq<int> { Seq::new(v.len(), |i: int| frep(v[i])) }
pub proof fn rl_ev(e: E, v: Seq<Fr>) requires vars(e, v.len()) ensures evf(e, v) == fz(evi(e, reps(v))) decreases e
{ broadcast use ring; match e { E::V(i) => { ax_rep(v[i as int]); }, E::C(c) => { }, E::Add(a, b) => { rl_ev(*a, v); rl_ev(*b, v); }, E::Sub(a, b) => { rl_ev(*a, v); rl_ev(*b, v); }, E::Mul(a, b) => { rl_ev(*a, v); rl_ev(*b, v); }, E::Neg(a) => { rl_ev(*a, v); } } }
/// equal normal forms, equal values
pub proof fn lemma_ring(l: E, r: E, v: Seq<Fr>) requires peq(nf(l), nf(r)), vars(l, v.len()), vars(r, v.len()) ensures evf(l, v) == evf(r, v)
{ rl_peq(nf(l), nf(r)); rl_nf(l, reps(v)); rl_nf(r, reps(v)); rl_ev(l, v); rl_ev(r, v); }
@ring r_sub_add | a b | (a - b) + b == a
@ring r_0add | a | 0 + a == a
pub proof fn lemma_sub0(a: Fr, b: Fr) ensures (fsub(a, b) == fz(0)) == (a == b) { r_sub_add(a, b); r_0add(b); r_suba(a); }
@ring r_suba | a | a - a == 0

// ---- every argument of a field operation written as the image of an integer: with `ring`, sums and products compare as integer polynomials, whatever the order they are written in
pub broadcast proof fn lift_add(a: Fr, b: Fr) ensures #![trigger fadd(a, b)] fz(frep(a)) == a, fz(frep(b)) == b { ax_rep(a); ax_rep(b); }
pub broadcast proof fn lift_sub(a: Fr, b: Fr) ensures #![trigger fsub(a, b)] fz(frep(a)) == a, fz(frep(b)) == b { ax_rep(a); ax_rep(b); }
pub broadcast proof fn lift_mul(a: Fr, b: Fr) ensures #![trigger fmul(a, b)] fz(frep(a)) == a, fz(frep(b)) == b { ax_rep(a); ax_rep(b); }
pub broadcast group lifts { ax_add, ax_sub, ax_mul, ax_neg, lift_add, lift_sub, lift_mul }
pub broadcast proof fn comm_add(a: Fr, b: Fr) ensures #[trigger] fadd(a, b) == fadd(b, a) { broadcast use ring; ax_rep(a); ax_rep(b); }
pub broadcast proof fn comm_mul(a: Fr, b: Fr) ensures #[trigger] fmul(a, b) == fmul(b, a) { broadcast use ring; ax_rep(a); ax_rep(b); assert(frep(a) * frep(b) == frep(b) * frep(a)) by(nonlinear_arith); }
pub broadcast proof fn unit_add(a: Fr) ensures #[trigger] fadd(a, fz(0)) == a { broadcast use ring; ax_rep(a); }
pub broadcast proof fn unit_sub(a: Fr) ensures #[trigger] fsub(a, fz(0)) == a { broadcast use ring; ax_rep(a); }
pub broadcast proof fn unit_mul(a: Fr) ensures #[trigger] fmul(a, fz(1)) == a { broadcast use ring; ax_rep(a); assert(frep(a) * 1 == frep(a)); }
pub broadcast proof fn neg_add(a: Fr, b: Fr) ensures #[trigger] fadd(a, fneg(b)) == fsub(a, b) { broadcast use ring; ax_rep(a); ax_rep(b); }
pub broadcast proof fn neg_sub(a: Fr, b: Fr) ensures #[trigger] fsub(a, fneg(b)) == fadd(a, b) { broadcast use ring; ax_rep(a); ax_rep(b); }
pub broadcast group comms { comm_add, comm_mul }
pub broadcast group units { unit_add, unit_sub, unit_mul, neg_add, neg_sub }
