use crate::*;
use ark_ff::PrimeField;
use ark_poly::univariate::DensePolynomial;
use ark_poly::{DenseUVPolynomial, EvaluationDomain, GeneralEvaluationDomain};
use fri::fiat_shamir::transcript::Transcript;
use fri::fields::goldilocks::Fq;
use fri::prover::{generate_proof, Decommitment, Proof};
use fri::verifier::verify;
use sha2_11::{Sha256, Sha512};
#[cfg(feature = "hooks")]
use fri::vp_hooks::{hash, hash_slice, verify_merkle_proof, FriLayer, MerkleTree};

type Fr = ark_bls12_381::Fr;

fn sh<F: PrimeField>(x: &F) -> String {
    let s = x.to_string();
    if s.is_empty() { "0".into() } else { s }
}
fn show<F: PrimeField>(v: &[F]) -> String { format!("[{}]", v.iter().map(sh).collect::<Vec<_>>().join(",")) }
fn fscalar<F: PrimeField>(r: &mut impl Rng) -> F {
    match r.gen_range(0..8) {
        0 => F::zero(),
        1 => F::one(),
        2 => -F::one(),
        3 => F::from(r.gen_range(0u64..300)),
        _ => F::rand(r),
    }
}
fn fvec<F: PrimeField>(r: &mut impl Rng, n: usize) -> Vec<F> {
    match r.gen_range(0..4) {
        0 => (0..n).map(|i| F::from(i as u64 + 1)).collect(),
        1 => (0..n).map(|_| if r.gen_range(0..3) > 0 { F::zero() } else { fscalar(r) }).collect(),
        _ => (0..n).map(|_| fscalar(r)).collect(),
    }
}
fn nz<F: PrimeField>(mut v: Vec<F>, r: &mut impl Rng) -> Vec<F> {
    if let Some(l) = v.last_mut() { if l.is_zero() { *l = F::from(r.gen_range(1u64..9)); } }
    v
}

pub fn run(p: &str, c: &mut Ctx) -> bool {
    match p {
        "F01" => { merkle(c, true); }
        "F02" => { merkle(c, false); }
        "F03" => f03(c),
        "F04" => f04(c),
        "F05" => f05(c),
        "F06" => f06(c),
        _ => return false,
    }
    true
}

#[cfg(not(feature = "hooks"))]
fn merkle(c: &mut Ctx, _: bool) {
    c.skipped.push("the Merkle tree is private and the hooks do not build".into());
}
#[cfg(not(feature = "hooks"))]
fn f03(c: &mut Ctx) { c.skipped.push("the folding functions are private and the hooks do not build".into()); }

#[cfg(feature = "hooks")]
fn levels<F: PrimeField>(leaves: &[F]) -> Vec<Vec<F>> {
    let mut v = leaves.to_vec();
    v.resize(leaves.len().next_power_of_two(), F::zero());
    let mut l: Vec<Vec<F>> = vec![v.iter().map(hash).collect()];
    while l.last().unwrap().len() > 1 {
        let cur = l.last().unwrap();
        let next = (0..cur.len() / 2).map(|i| hash_slice(&[cur[2 * i], cur[2 * i + 1]])).collect();
        l.push(next);
    }
    l
}
#[cfg(feature = "hooks")]
fn path_root<F: PrimeField>(leaf: F, index: usize, path: &[F]) -> F {
    let mut h = hash(&leaf);
    let mut i = index;
    for s in path { h = if i & 1 == 0 { hash_slice(&[h, *s]) } else { hash_slice(&[*s, h]) }; i >>= 1; }
    h
}

#[cfg(feature = "hooks")]
fn merkle(c: &mut Ctx, complete: bool) {
    c.rule = if complete { "leaf lists of every length up to 36 and larger ones, zero/duplicate/random leaves, both fields; proofs at all (or sampled) indices; non-trivial: more than one leaf" }
        else { "honest proofs with one component altered, proofs of arbitrary paths under their own root, alternative roots; verdict compared with the recomputed path; colliding-encoding candidates for the hash; non-trivial: depth >= 1" }.into();
    merkle_in::<Fq>(c, complete);
    merkle_in::<Fr>(c, complete);
}
#[cfg(feature = "hooks")]
fn merkle_in<F: PrimeField>(c: &mut Ctx, complete: bool) {
    let mut r = c.rng();
    let mut lists: Vec<Vec<F>> = vec![];
    for n in 1..=c.n(36, 140) {
        lists.push(fvec(&mut r, n));
        if n <= 9 { lists.push(vec![F::zero(); n]); lists.push((0..n).map(|i| F::from((i % 2) as u64)).collect()); }
    }
    for n in [64usize, 65, 100] { lists.push(fvec(&mut r, n)); }
    if complete { for n in [300usize, 600, 1025] { lists.push(fvec(&mut r, n)); } if c.thorough { for n in [2048usize, 4097, 9000] { lists.push(fvec(&mut r, n)); } } }
    for _ in 0..c.n(10, 200) { let n = r.gen_range(1..50); lists.push(fvec(&mut r, n)); }
    if !complete { hashes::<F>(c); }
    for v in lists {
        if !c.begin(format!("leaves={}", show(&v)), v.len() > 1) { continue; }
        let Some(t) = c.total("MerkleTree::new", || MerkleTree::new(v.clone())) else { continue };
        let n = v.len().next_power_of_two();
        let lv = levels(&v);
        let d = lv.len() - 1;
        let root = lv[d][0];
        let mut padded = v.clone();
        padded.resize(n, F::zero());
        if complete {
            c.eq(t.leaves.clone(), padded.clone(), "leaves");
            c.eq(t.root(), root, "root is not the combination of the padded leaves");
            c.eq(MerkleTree::new(padded.clone()).root(), root, "root of the padded list");
        }
        let idx: Vec<usize> = if n <= 16 { (0..n).collect() } else { (0..8).map(|_| r.gen_range(0..n)).chain([0, n - 1, v.len() - 1]).collect() };
        for i in idx {
            let Some(mut p) = c.total("generate_proof", || t.generate_proof(i)) else { continue };
            if complete {
                c.eq(p.index, i, "index in the proof");
                c.eq(p.leaf_val, padded[i], "leaf in the proof");
                c.eq(p.vp_hash_proof().len(), d, "number of siblings");
                c.eq(*p.vp_root(), root, "root in the proof");
                for k in 0..d.min(p.vp_hash_proof().len()) { c.eq(p.vp_hash_proof()[k], lv[k][(i >> k) ^ 1], "sibling"); }
                if let Some(ok) = c.total("verify_merkle_proof", || verify_merkle_proof(&p)) { c.check(ok, format!("proof of leaf {i} rejected")); }
                c.eq(t.root(), root, "root after requesting a proof");
            } else {
                let mut cases = vec![("honest", p.clone())];
                let mut q = p.clone();
                q.leaf_val += F::one();
                cases.push(("leaf altered", q));
                q = p.clone();
                q.leaf_val = hash(&p.leaf_val);
                cases.push(("leaf replaced by its hash", q));
                for k in 0..d { q = p.clone(); q.index ^= 1 << k; cases.push(("index bit flipped", q)); }
                for k in 0..d { q = p.clone(); q.vp_hash_proof()[k] += F::one(); cases.push(("sibling altered", q)); }
                if d > 0 {
                    for k in [0, d - 1] { q = p.clone(); q.vp_hash_proof().remove(k); cases.push(("sibling removed", q)); }
                    for k in 0..d - 1 { q = p.clone(); q.vp_hash_proof().swap(k, k + 1); cases.push(("siblings exchanged", q)); }
                    // an inner node presented as the leaf
                    q = p.clone();
                    q.leaf_val = lv[1][i / 2];
                    q.index = i / 2;
                    q.vp_hash_proof().remove(0);
                    cases.push(("inner node as leaf", q));
                }
                q = p.clone();
                q.vp_hash_proof().push(F::zero());
                cases.push(("sibling appended", q));
                q = p.clone();
                *q.vp_root() += F::one();
                cases.push(("root altered", q));
                q = p.clone();
                *q.vp_root() = F::zero();
                cases.push(("root zero", q));
                q = p.clone();
                q.leaf_val = fscalar(&mut r);
                for h in q.vp_hash_proof().iter_mut() { *h = fscalar(&mut r); }
                let pr = path_root(q.leaf_val, q.index, &q.vp_hash_proof().clone());
                *q.vp_root() = pr;
                cases.push(("arbitrary path with its own root", q));
                for (nm, mut q) in cases {
                    let hp = q.vp_hash_proof().clone();
                    let want = path_root(q.leaf_val, q.index, &hp) == *q.vp_root();
                    if let Some(got) = c.total("verify_merkle_proof", || verify_merkle_proof(&q)) { c.check(got == want, format!("{nm} (leaf {i}): verdict {got}, expected {want}")); }
                    if nm != "honest" && nm != "arbitrary path with its own root" && (q.leaf_val, q.index, &hp, *q.vp_root()) != (p.leaf_val, p.index, &p.clone().vp_hash_proof().clone(), *p.clone().vp_root())
                        && nm != "index bit flipped" && nm != "siblings exchanged" && nm != "sibling removed" {
                        c.check(!want, format!("{nm} (leaf {i}): the altered proof still hashes to its root"));
                    }
                    if nm == "index bit flipped" || nm == "siblings exchanged" || nm == "sibling removed" {
                        // only a proof whose alteration is invisible (equal nodes) may survive
                        let honest: Vec<F> = (0..hp.len().min(d)).map(|k| lv[k][(q.index >> k) ^ 1]).collect();
                        let same = hp.len() == d && honest == hp && q.index < n && padded[q.index] == q.leaf_val;
                        c.check(!want || same, format!("{nm} (leaf {i}): accepted"));
                    }
                }
            }
        }
        if !complete {
            c.eq(t.root(), root, "root is not the combination of all leaves");
            for i in 0..n.min(20) {
                let mut w = padded.clone();
                w[i] += F::one();
                if let Some(u) = c.total("MerkleTree::new", || MerkleTree::new(w)) { c.check(u.root() != root, format!("root does not depend on leaf {i}")); }
            }
        }
    }
}
#[cfg(feature = "hooks")]
fn hashes<F: PrimeField>(c: &mut Ctx) {
    use std::collections::HashMap;
    let f = |x: u64| F::from(x);
    let mut seqs: Vec<Vec<F>> = vec![vec![]];
    let al = [0u64, 1, 2, 11, 12, 21, 111, 112, 0x2c, 44];
    for a in al { seqs.push(vec![f(a)]); for b in al { seqs.push(vec![f(a), f(b)]); for d in [0u64, 1, 2, 12] { seqs.push(vec![f(a), f(b), f(d)]); } } }
    for n in 4..9 { seqs.push(vec![F::zero(); n]); seqs.push(vec![F::one(); n]); }
    let mut r = c.rng();
    for _ in 0..60 {
        // the same decimal digits cut at different places
        let digits: Vec<u64> = (0..r.gen_range(2..9)).map(|_| r.gen_range(1..10)).collect();
        for mask in 0..1u32 << (digits.len() - 1) {
            let mut v = vec![];
            let mut x = 0u64;
            for (i, d) in digits.iter().enumerate() { x = x * 10 + d; if mask >> i & 1 == 1 { v.push(f(x)); x = 0; } }
            v.push(f(x));
            seqs.push(v);
        }
    }
    for k in 0..250u32 { let b = f(2).pow([k as u64]); seqs.push(vec![b]); seqs.push(vec![b, f(1)]); seqs.push(vec![f(1), b]); }
    if !c.begin(format!("{} sequences of field elements hashed pairwise differently", seqs.len()), true) { return; }
    let mut seen: HashMap<F, Vec<F>> = HashMap::new();
    for s in seqs {
        let h = hash_slice(&s);
        c.check(h == hash_slice(&s.clone()), "hash_slice is not a function");
        if let Some(o) = seen.insert(h, s.clone()) { c.check(o == s, format!("{} and {} have the same hash", show(&o), show(&s))); }
    }
    let mut seen: HashMap<F, F> = HashMap::new();
    for k in 0..400u64 {
        for x in [f(k), -f(k), f(2).pow([k % 300]), f(10).pow([k % 60])] {
            if let Some(o) = seen.insert(hash(&x), x) { c.check(o == x, format!("{} and {} have the same leaf hash", sh(&o), sh(&x))); }
        }
    }
}

#[cfg(feature = "hooks")]
fn f03(c: &mut Ctx) {
    c.rule = "coefficient lists of every length up to 17 and some up to 520 (sparse, dense, trailing zeros) x challenges {0,1,-1,random}; coefficients and the even/odd relation at points; every layer of folding phases over random cosets and domain sizes; non-trivial: degree >= 1".into();
    f03_in::<Fq>(c);
    f03_in::<Fr>(c);
}
#[cfg(feature = "hooks")]
fn f03_in<F: PrimeField>(c: &mut Ctx) {
    use fri::prover::{vp_fold_polynomial, vp_folding_phase};
    let mut r = c.rng();
    let ev = |v: &[F], x: F| { let mut a = F::zero(); for k in v.iter().rev() { a = a * x + k; } a };
    let tr = |mut v: Vec<F>| { while v.last().map_or(false, |x| x.is_zero()) { v.pop(); } v };
    let half = F::from(2u64).inverse().unwrap();
    for k in 0..c.n(150, 2500) {
        let n = match k { 0..36 => k / 2, 36..48 => [63, 64, 65, 127, 128, 129, 130, 200, 255, 257, 400, 520][k - 36], _ => r.gen_range(0..34) };
        let v: Vec<F> = fvec(&mut r, n);
        let ch: F = fscalar(&mut r);
        if !c.begin(format!("fold {} with {}", show(&v), sh(&ch)), tr(v.clone()).len() > 1) { continue; }
        let p = DensePolynomial::from_coefficients_vec(v.clone());
        let Some(q) = c.total("fold_polynomial", || vp_fold_polynomial(&p, ch)) else { continue };
        let at = |i: usize| v.get(i).copied().unwrap_or(F::zero());
        let want = tr((0..(n + 1) / 2).map(|i| at(2 * i) + ch * at(2 * i + 1)).collect());
        c.eq(q.coeffs.clone(), want, "folded coefficients");
        for _ in 0..3 {
            let x = F::rand(&mut r);
            let w = ((ch + x) * ev(&v, x) - (ch - x) * ev(&v, -x)) * half * x.inverse().unwrap();
            c.eq(ev(&q.coeffs, x * x), w, "folded polynomial at x^2");
        }
    }
    for k in 0..c.n(24, 300) {
        let logd = if k % 12 == 11 { 8 + k % 3 } else { 1 + k % 6 };
        let n = r.gen_range(1..=1usize << logd);
        let v: Vec<F> = nz(fvec(&mut r, n), &mut r);
        let coset = if k % 3 == 0 { F::GENERATOR } else { F::rand(&mut r) };
        if !c.begin(format!("folding phase of {} coset={} domain=2^{logd}", show(&v), sh(&coset)), n > 1) { continue; }
        let Some((cst, mut tr2, layers)) = c.total("folding_phase", || vp_folding_phase::<Sha256, F>(DensePolynomial::from_coefficients_vec(v.clone()), coset, 1 << logd, logd)) else { continue };
        c.eq(layers.len(), logd, "number of layers");
        let mut t = Transcript::<Sha256, F>::new(F::ZERO);
        let mut cur = v.clone();
        let mut cs = coset;
        for (j, l) in layers.iter().enumerate() {
            let m = 1usize << (logd - j);
            c.eq(l.domain_size, m, "layer domain size");
            c.eq(l.coset, cs, "layer coset");
            let g = GeneralEvaluationDomain::<F>::new(m).unwrap().group_gen();
            let want: Vec<F> = (0..m).map(|i| ev(&cur, cs * g.pow([i as u64]))).collect();
            c.eq(l.evaluations.clone(), want.clone(), "layer evaluations");
            c.eq(l.merkle_tree.root(), *levels(&want).last().unwrap().first().unwrap(), "layer root");
            t.digest(l.merkle_tree.root());
            let ch = t.generate_a_challenge();
            let at = |i: usize| cur.get(i).copied().unwrap_or(F::zero());
            cur = (0..(cur.len() + 1) / 2).map(|i| at(2 * i) + ch * at(2 * i + 1)).collect();
            cs = cs * cs;
        }
        c.eq(cur.len(), 1, "coefficients after the last fold");
        c.eq(cst, cur[0], "announced constant");
        t.digest(cst);
        c.eq(tr2.generate_a_challenge(), t.generate_a_challenge(), "transcript after folding");
    }
    for k in 0..c.n(12, 100) {
        let m = 1usize << r.gen_range(0..7);
        let n = r.gen_range(0..m + 3);
        let v: Vec<F> = fvec(&mut r, n);
        let coset = if k % 3 == 0 { F::one() } else { fscalar(&mut r) };
        if !c.begin(format!("layer of {} coset={} domain={m}", show(&v), sh(&coset)), n > 1) { continue; }
        let Some(l) = c.total("FriLayer::from_poly", || FriLayer::from_poly(&DensePolynomial::from_coefficients_vec(v.clone()), coset, m)) else { continue };
        let g = GeneralEvaluationDomain::<F>::new(m).unwrap().group_gen();
        let want: Vec<F> = (0..m).map(|i| ev(&v, coset * g.pow([i as u64]))).collect();
        c.eq(l.evaluations.clone(), want.clone(), "layer evaluations");
        c.eq(l.merkle_tree.leaves.clone(), want, "layer tree leaves");
        c.eq((l.coset, l.domain_size), (coset, m), "layer coset and domain");
    }
}

fn f04(c: &mut Ctx) {
    c.rule = "non-zero coefficient lists of length 1..40, blow-up factors 2..9 (and 16), 0..12 queries (and more than the domain), both fields, SHA-256 and SHA-512; non-trivial: degree >= 1 and a query".into();
    f04_in::<Fq>(c, c.n(150, 2500));
    f04_in::<Fr>(c, c.n(25, 300));
}
fn f04_in<F: PrimeField>(c: &mut Ctx, count: usize) {
    let mut r = c.rng();
    for k in 0..count {
        let n = if k < 20 { k + 1 } else if k % 37 == 0 { [130, 257, 300][k % 3] } else { r.gen_range(1..41) };
        let v: Vec<F> = nz(if k % 5 == 0 { let mut v = vec![F::zero(); n]; v[n - 1] = F::from(3u64); v } else { fvec(&mut r, n) }, &mut r);
        let b = if k % 11 == 0 { 16 } else { r.gen_range(2..10) };
        let q = if k % 13 == 0 { 40 } else { r.gen_range(0..13) };
        if !c.begin(format!("coefficients={} blowup={b} queries={q}", show(&v)), n > 1 && q > 0) { continue; }
        let p = DensePolynomial::from_coefficients_vec(v.clone());
        let big = k % 4 == 0;
        let Some(pf) = c.total("generate_proof", || if big { generate_proof::<Sha512, F>(p, b, q) } else { generate_proof::<Sha256, F>(p, b, q) }) else { continue };
        c.eq(pf.decommitment_list.len(), q, "number of decommitments");
        c.check(pf.domain_size.is_power_of_two() && pf.domain_size >= n * b, format!("domain of {} points", pf.domain_size));
        for d in &pf.decommitment_list {
            let l = pf.layers_root.len();
            c.eq([d.evaluations.len(), d.sym_evaluations.len(), d.auth_paths.len(), d.sym_auth_paths.len()], [l; 4], "openings per decommitment");
        }
        c.eq(pf.number_of_queries, q, "number_of_queries");
        if let Some(x) = c.total("verify", || if big { verify::<Sha512, F>(pf) } else { verify::<Sha256, F>(pf) }) {
            c.check(x.is_ok(), format!("honest proof rejected: {x:?}"));
        }
    }
}

fn rejected<F: PrimeField>(c: &mut Ctx, what: &str, p: Proof<F>) {
    if let Some(x) = c.total(&format!("verify ({what})"), || verify::<Sha256, F>(p)) {
        c.check(x.is_err(), format!("{what}: accepted"));
    }
}

fn f05(c: &mut Ctx) {
    c.rule = "honest proofs of 1..9 coefficients, blow-up 2..4, 1..4 queries with every single value, path component, root, constant altered, openings/layers/decommitments dropped or exchanged; plus forged proofs violating exactly one check at one layer; non-trivial: all".into();
    f05_in::<Fq>(c, c.n(9, 60));
    f05_in::<Fr>(c, c.n(2, 15));
    #[cfg(feature = "hooks")]
    { forge::<Fq>(c); forge::<Fr>(c); }
}
fn f05_in<F: PrimeField>(c: &mut Ctx, count: usize) {
    let mut r = c.rng();
    for k in 0..count {
        let n = if k < 4 { k + 1 } else if k == 8 { 70 } else { r.gen_range(1..10) };
        let v: Vec<F> = nz((0..n).map(|_| F::rand(&mut r)).collect(), &mut r);
        let b = r.gen_range(2..5);
        let q = 1 + k % 4;
        if !c.begin(format!("alterations of the proof of coefficients={} blowup={b} queries={q}", show(&v)), true) { continue; }
        let Ok(p) = guard(|| generate_proof::<Sha256, F>(DensePolynomial::from_coefficients_vec(v.clone()), b, q)) else { c.check(false, "generate_proof panicked"); continue };
        let one = F::one();
        let l = p.layers_root.len();
        let with = |f: &dyn Fn(&mut Proof<F>)| { let mut x = p.clone(); f(&mut x); x };
        rejected(c, "constant + 1", with(&|x| x.const_val += one));
        rejected(c, "constant negated", with(&|x| x.const_val = -x.const_val));
        rejected(c, "constant zero", with(&|x| x.const_val = F::zero()));
        for i in 0..l {
            rejected(c, &format!("root {i} altered"), with(&|x| x.layers_root[i] += one));
            rejected(c, &format!("root {i} dropped"), with(&|x| { x.layers_root.remove(i); }));
            rejected(c, &format!("layer {i} dropped everywhere"), with(&|x| {
                x.layers_root.remove(i);
                for d in &mut x.decommitment_list { d.evaluations.remove(i); d.sym_evaluations.remove(i); d.auth_paths.remove(i); d.sym_auth_paths.remove(i); }
            }));
            if i + 1 < l { rejected(c, "roots exchanged", with(&|x| x.layers_root.swap(i, i + 1))); }
        }
        rejected(c, "all layers dropped", with(&|x| {
            x.layers_root.clear();
            for d in &mut x.decommitment_list { d.evaluations.clear(); d.sym_evaluations.clear(); d.auth_paths.clear(); d.sym_auth_paths.clear(); }
        }));
        rejected(c, "all openings dropped", with(&|x| for d in &mut x.decommitment_list { d.evaluations.clear(); d.sym_evaluations.clear(); d.auth_paths.clear(); d.sym_auth_paths.clear(); }));
        rejected(c, "all decommitments dropped", with(&|x| x.decommitment_list.clear()));
        for j in 0..q {
            rejected(c, &format!("decommitment {j} dropped"), with(&|x| { x.decommitment_list.remove(j); }));
            if j + 1 < q {
                let (a, b2) = (&p.decommitment_list[j], &p.decommitment_list[j + 1]);
                if a.auth_paths[0].index != b2.auth_paths[0].index { rejected(c, "decommitments exchanged", with(&|x| x.decommitment_list.swap(j, j + 1))); }
            }
            for i in 0..l {
                let w = format!("decommitment {j} layer {i}");
                rejected(c, &format!("{w}: evaluation"), with(&|x| x.decommitment_list[j].evaluations[i] += one));
                rejected(c, &format!("{w}: symmetric evaluation"), with(&|x| x.decommitment_list[j].sym_evaluations[i] += one));
                if p.decommitment_list[j].evaluations[i] != p.decommitment_list[j].sym_evaluations[i] { rejected(c, &format!("{w}: evaluations exchanged"), with(&|x| { let d = &mut x.decommitment_list[j]; std::mem::swap(&mut d.evaluations[i], &mut d.sym_evaluations[i]); })); }
                rejected(c, &format!("{w}: paths exchanged"), with(&|x| { let d = &mut x.decommitment_list[j]; std::mem::swap(&mut d.auth_paths[i], &mut d.sym_auth_paths[i]); }));
                rejected(c, &format!("{w}: both exchanged"), with(&|x| { let d = &mut x.decommitment_list[j]; std::mem::swap(&mut d.evaluations[i], &mut d.sym_evaluations[i]); std::mem::swap(&mut d.auth_paths[i], &mut d.sym_auth_paths[i]); }));
                for s in [false, true] {
macro_rules! path { ($d:expr, $i:expr, $s:expr) => { (if $s { &mut $d.sym_auth_paths[$i] } else { &mut $d.auth_paths[$i] }) }; }
                    rejected(c, &format!("{w}: path leaf"), with(&|x| path!(x.decommitment_list[j], i, s).leaf_val += one));
                    rejected(c, &format!("{w}: path leaf and evaluation"), with(&|x| { let d = &mut x.decommitment_list[j]; path!(d, i, s).leaf_val += one; if s { d.sym_evaluations[i] += one } else { d.evaluations[i] += one } }));
                    rejected(c, &format!("{w}: path index"), with(&|x| path!(x.decommitment_list[j], i, s).index ^= 1));
                    rejected(c, &format!("{w}: path index beyond"), with(&|x| path!(x.decommitment_list[j], i, s).index += p.domain_size));
                    #[cfg(feature = "hooks")]
                    {
                        rejected(c, &format!("{w}: path root"), with(&|x| *path!(x.decommitment_list[j], i, s).vp_root() += one));
                        for h in 0..l - i {
                            rejected(c, &format!("{w}: sibling {h}"), with(&|x| path!(x.decommitment_list[j], i, s).vp_hash_proof()[h] += one));
                        }
                        rejected(c, &format!("{w}: siblings dropped"), with(&|x| path!(x.decommitment_list[j], i, s).vp_hash_proof().clear()));
                        rejected(c, &format!("{w}: siblings dropped, root recomputed"), with(&|x| {
                            let p = path!(x.decommitment_list[j], i, s);
                            p.vp_hash_proof().clear();
                            *p.vp_root() = hash(&p.leaf_val.clone());
                        }));
                    }
                }
                rejected(c, &format!("{w}: pair dropped"), with(&|x| { let d = &mut x.decommitment_list[j]; d.evaluations.remove(i); d.sym_evaluations.remove(i); d.auth_paths.remove(i); d.sym_auth_paths.remove(i); }));
                if i + 1 < l { rejected(c, &format!("{w}: layers exchanged"), with(&|x| { let d = &mut x.decommitment_list[j]; d.evaluations.swap(i, i + 1); d.sym_evaluations.swap(i, i + 1); d.auth_paths.swap(i, i + 1); d.sym_auth_paths.swap(i, i + 1); })); }
            }
            rejected(c, "evaluations shortened", with(&|x| { x.decommitment_list[j].evaluations.pop(); }));
            rejected(c, "symmetric evaluations shortened", with(&|x| { x.decommitment_list[j].sym_evaluations.pop(); }));
            rejected(c, "paths shortened", with(&|x| { x.decommitment_list[j].auth_paths.pop(); }));
            rejected(c, "symmetric paths shortened", with(&|x| { x.decommitment_list[j].sym_auth_paths.pop(); }));
        }
        let h = guard(|| verify::<Sha256, F>(p.clone()));
        c.check(matches!(h, Ok(Ok(()))), "the honest proof itself is rejected");
    }
}
/// Proofs that violate exactly one of the verifier's checks.
#[cfg(feature = "hooks")]
fn forge<F: PrimeField>(c: &mut Ctx) {
    let mut r = c.rng();
    let reps = c.n(1, 6);
    for rep in 0..reps {
        for logd in [1usize, 2, 3, 4, 6, 9] {
            for k in 0..logd {
                if logd > 4 && k > 0 && k + 1 < logd && k != logd / 2 && !c.thorough { continue; }
                for kind in ["honest", "fold relation", "sym value off the path", "sym leaf off the tree", "sym path of another tree", "sym path of another tree under the committed root",
                    "value off the path", "leaf off the tree", "path of another tree", "path of another tree under the committed root", "sym index", "index", "last query only", "one layer too few", "query position"] {
                    if !c.begin(format!("forged proof #{rep}: {kind}, layer {k} of {logd}"), true) { continue; }
                    let mut done = false;
                    for _try in 0..24 {
                        let Some(p) = build::<F>(&mut r, logd, k, kind) else { continue };
                        done = true;
                        let got = c.total(&format!("verify ({kind})"), || verify::<Sha256, F>(p));
                        match (kind, got) {
                            ("honest", Some(x)) => { c.check(x.is_ok(), format!("proof over arbitrary layers rejected: {x:?}")); }
                            (_, Some(x)) => { c.check(x.is_err(), format!("layer {k} of {logd}: accepted although the {kind} check fails")); }
                            _ => {}
                        }
                        break;
                    }
                    if !done && !(kind == "index" && k == 0) && !(kind == "query position" && k > 0) && !((kind == "last query only" || kind == "one layer too few") && k > 0) { c.skipped.push(format!("{kind} layer {k} of {logd}: not constructed")); }
                }
            }
        }
    }
}

#[cfg(feature = "hooks")]
fn build<F: PrimeField>(r: &mut StdRng, logd: usize, k: usize, kind: &str) -> Option<Proof<F>> {
    let n = 1usize << logd;
    let coset = F::GENERATOR;
    let two = F::from(2u64);
    let g = |m: usize| GeneralEvaluationDomain::<F>::new(m).unwrap().group_gen();
    let foldw = |a: F, b: F, w: F, ch: F| ((ch + w) * a - (ch - w) * b) / (two * w);
    let patch_sym = kind.starts_with("sym ") && kind != "sym index";
    let patch_eval = matches!(kind, "value off the path" | "leaf off the tree" | "path of another tree" | "path of another tree under the committed root");
    if (kind == "index" && k == 0) || (kind == "query position" && k > 0) || ((kind == "last query only" || kind == "one layer too few") && k > 0) { return None; }
    if kind == "one layer too few" && logd < 2 { return None; }
    let nlayers = if kind == "one layer too few" { logd - 1 } else { logd };
    let queries = if patch_eval || kind == "sym index" || kind == "index" { 1 } else { r.gen_range(1..4) };
    let mut t = Transcript::<Sha256, F>::new(F::ZERO);
    let mut vs: Vec<Vec<F>> = vec![];
    let mut trees = vec![];
    let mut rs = vec![];
    let mut cosets = vec![];
    // the honest continuation of layer k when that layer itself is replaced
    let mut hk: Vec<F> = vec![];
    let mut cur: Vec<F> = (0..n).map(|_| F::rand(r)).collect();
    if kind == "one layer too few" {
        // evaluations of a polynomial with n/2 coefficients: constant after logd-1 folds
        let p: Vec<F> = (0..n / 2).map(|_| F::rand(r)).collect();
        let w = g(n);
        cur = (0..n).map(|i| { let x = coset * w.pow([i as u64]); let mut a = F::zero(); for q in p.iter().rev() { a = a * x + q; } a }).collect();
    }
    let mut cs = coset;
    let mut cst = F::zero();
    for j in 0..nlayers {
        let m = n >> j;
        if j == k && patch_eval { hk = cur.clone(); cur = (0..m).map(|_| F::rand(r)).collect(); }
        if j == k && kind == "index" { cur.rotate_right(1); } // v[e+1] holds what belongs at e
        let tree = MerkleTree::new(cur.clone());
        t.digest(tree.root());
        let ch = t.generate_a_challenge();
        let w = g(m);
        let half = m / 2;
        let mut next: Vec<F> = (0..half).map(|i| {
            let x = cs * w.pow([i as u64]);
            match kind {
                _ if j != k => foldw(cur[i], cur[i + half], x, ch),
                "sym index" => foldw(cur[i], cur[(i + half + 1) % m], x, ch),
                "index" => foldw(cur[(i + 1) % m], cur[i + half], x, ch),
                _ if patch_eval => foldw(hk[i], cur[i + half], x, ch),
                _ => foldw(cur[i], cur[i + half], x, ch),
            }
        }).collect();
        if j == k && (kind == "fold relation" || patch_sym) { for x in next.iter_mut() { *x += F::rand(r); } }
        vs.push(cur);
        trees.push(tree);
        rs.push(ch);
        cosets.push(cs);
        cs = cs * cs;
        cst = next[0];
        cur = next;
    }
    if kind == "last query only" { cst += F::one(); }
    t.digest(cst);
    let ch: Vec<usize> = t.generate_challenge_list_usize(queries).into_iter().map(|v| v % n).collect();
    let mut list = vec![];
    for &q0 in &ch {
        let q = if kind == "query position" { (q0 + 1) % n } else { q0 };
        let (mut ev, mut sv, mut ap, mut sp) = (vec![], vec![], vec![], vec![]);
        for j in 0..nlayers {
            let m = n >> j;
            let (half, i) = (m / 2, q % m);
            let s = (i + half) % m;
            if j == k && (patch_eval || kind == "sym index" || kind == "index") && i >= half { return None; }
            let x = cosets[j] * g(m).pow([i as u64]);
            let (mut pi, mut ps) = (i, s);
            if j == k && kind == "sym index" { ps = (s + 1) % m; if ps == i && m == 2 { /* the pair of one point */ } }
            if j == k && kind == "index" { pi = (i + 1) % m; }
            let (mut a, mut b) = (trees[j].generate_proof(pi), trees[j].generate_proof(ps));
            let (mut e, mut f) = (vs[j][pi], vs[j][ps]);
            if j == k && patch_sym {
                let want = if j + 1 < nlayers { vs[j + 1][i % half] } else { cst };
                // want = ((r+x) e - (r-x) f) / 2x
                let d = rs[j] - x;
                if d.is_zero() { return None; }
                f = ((rs[j] + x) * e - want * two * x) / d;
                match kind {
                    "sym value off the path" => {}
                    "sym leaf off the tree" => b.leaf_val = f,
                    _ => {
                        let mut v = vs[j].clone();
                        v[s] = f;
                        b = MerkleTree::new(v).generate_proof(s);
                        if kind.ends_with("committed root") { *b.vp_root() = trees[j].root(); }
                    }
                }
            }
            if j == k && patch_eval {
                e = hk[i];
                match kind {
                    "value off the path" => {}
                    "leaf off the tree" => a.leaf_val = e,
                    _ => {
                        let mut v = vs[j].clone();
                        v[i] = e;
                        a = MerkleTree::new(v).generate_proof(i);
                        if kind.ends_with("committed root") { *a.vp_root() = trees[j].root(); }
                    }
                }
            }
            ev.push(e);
            sv.push(f);
            ap.push(a);
            sp.push(b);
        }
        list.push(Decommitment { evaluations: ev, auth_paths: ap, sym_evaluations: sv, sym_auth_paths: sp });
    }
    Some(Proof { domain_size: n, coset, number_of_queries: queries, layers_root: trees.iter().map(|t| t.root()).collect(), const_val: cst, decommitment_list: list })
}

fn f06(c: &mut Ctx) {
    c.rule = "all histories up to length 4 over near-miss messages compared pairwise, long histories differing in one message, order or count, draws interleaved; both fields, two hashes; non-trivial: at least one message".into();
    f06_in::<Sha256, Fq>(c);
    f06_in::<Sha512, Fq>(c);
    f06_in::<Sha256, Fr>(c);
}
fn f06_in<T: sha2_11::Digest + Default + Clone, F: PrimeField>(c: &mut Ctx) {
    use std::collections::HashMap;
    let mut r = c.rng();
    let f = |x: u64| F::from(x);
    let draw = |h: &[F]| -> F { let mut t = Transcript::<T, F>::new(h[0]); for m in &h[1..] { t.digest(*m); } t.generate_a_challenge() };
    // pairwise
    let al: Vec<F> = vec![F::zero(), f(1), f(11), -f(1), f(1u64 << 32), f(1u64 << 63)];
    let mut hs: Vec<Vec<F>> = al.iter().map(|a| vec![*a]).collect();
    let mut cur = hs.clone();
    for _ in 0..c.n(3, 4) { cur = cur.iter().flat_map(|h| al.iter().map(move |a| { let mut g = h.clone(); g.push(*a); g })).collect(); hs.extend(cur.clone()); }
    let bits = F::MODULUS_BIT_SIZE as u64 - 1;
    for b in 0..bits { let x = f(2).pow([b]); hs.push(vec![x, f(3)]); hs.push(vec![f(3), x]); hs.push(vec![f(3), x, f(5)]); }
    if c.begin(format!("{} histories pairwise", hs.len()), true) {
        let mut seen: HashMap<F, Vec<F>> = HashMap::new();
        for h in hs {
            let Some(x) = c.total("drawing a challenge", || draw(&h)) else { break };
            if let Some(o) = seen.insert(x, h.clone()) { if o != h && !c.check(false, format!("histories {} and {} give the same challenge", show(&o), show(&h))) { break; } }
        }
    }
    for k in 0..c.n(30, 400) {
        let n = if k % 10 == 9 { 300 + r.gen_range(0..40) } else { r.gen_range(1..12) };
        let h: Vec<F> = (0..n).map(|_| fscalar(&mut r)).collect();
        if !c.begin(format!("history of {n} messages {}", show(&h[..n.min(6)])), true) { continue; }
        let m = if k % 10 == 9 { 140 } else { r.gen_range(1..20usize) };
        let run = |h: &[F], draws: u64| -> (Vec<F>, Transcript<T, F>) {
            let mut t = Transcript::<T, F>::new(h[0]);
            for (i, x) in h[1..].iter().enumerate() { if draws >> (i % 60) & 1 == 1 { t.generate_challenges(1 + i % 3); } t.digest(*x); }
            let mut u = t.clone();
            (u.generate_challenges(m), t)
        };
        let Some((a, t)) = c.total("drawing challenges", || run(&h, 0)) else { continue };
        let Some((b, _)) = c.total("drawing challenges", || run(&h, r.gen::<u64>())) else { continue };
        c.eq(a.len(), m, "number of challenges");
        c.eq(a.clone(), b, "challenges depend on earlier draws");
        c.eq(run(&h, 0).0, a.clone(), "challenges of equal histories");
        for kind in 0..5 {
            let mut g = h.clone();
            let i = r.gen_range(0..n);
            match kind {
                0 => g[i] += F::one(),
                1 => { g.remove(i); if g.is_empty() { continue; } }
                2 => g.insert(i, g[i]),
                3 => { let j = r.gen_range(0..n); g.swap(i, j); }
                _ => g.push(F::zero()),
            }
            if g == h { continue; }
            c.check(run(&g, 0).0 != a, format!("altered history (kind {kind} at {i}) gives the same challenges"));
        }
        // all drawing functions obey the guard
        for (x, y) in [(0, 0), (0, 1), (1, 0), (1, 2), (2, 1), (2, 2), (0, 2), (2, 0)] {
            let mut u = t.clone();
            let mut d = |k: i32| match k { 0 => { u.generate_a_challenge(); } 1 => { u.generate_challenges(m); } _ => { u.generate_challenge_list_usize(m); } };
            d(x);
            c.refuses("drawing twice without absorbing", || d(y));
        }
        let mut u = t.clone();
        let l = u.generate_challenge_list_usize(m);
        c.eq(l.len(), m, "number of positions");
        let mut u2 = t.clone();
        c.eq(u2.generate_challenge_list_usize(m), l, "positions of equal histories");
        u.digest(F::one());
        u2.digest(F::one());
        c.eq(u.generate_challenges(2), u2.generate_challenges(2), "challenges after further messages");
    }
}
