use crate::kzg_p::*;
use crate::*;
use ark_bls12_381::{Fq as Base, Fr, G1Affine};
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::{BigInteger, Field, One, PrimeField, UniformRand, Zero};
use kzg::commitment::KzgCommitment;
use kzg::opening::KzgOpening;
use kzg::scheme::KzgScheme;
use kzg::srs::Srs;
use nova::circuit::{AugmentedCircuit, FCircuit, State};
use nova::ivc::{IVCProof, ZkIVCProof, IVC};
use nova::nifs::{NIFSProof, NIFS};
use nova::r1cs::{create_trivial_pair, is_r1cs_satisfied, FInstance, FWitness, R1CS};
use nova::transcript::Transcript;
use nova::utils;
use sha2::{Sha256, Sha512};

pub fn run(p: &str, c: &mut Ctx) -> bool {
    match p {
        "N01" => n01(c),
        "N02" => n02(c),
        "N03" => n03(c),
        "N04" => n04(c),
        "N05" => n05(c),
        "N06" => n06(c),
        "N07" => n07(c),
        "N08" => n08(c),
        _ => return false,
    }
    true
}

type M = Vec<Vec<Fr>>;
fn dot(a: &[Fr], b: &[Fr]) -> Fr { a.iter().zip(b).map(|(x, y)| *x * y).sum() }
fn mv(m: &M, z: &[Fr]) -> Vec<Fr> { m.iter().map(|r| dot(r, z)).collect() }
fn showm(m: &M) -> String { m.iter().map(|r| showv(r)).collect::<Vec<_>>().join(";") }
fn rvec(r: &mut impl Rng, n: usize) -> Vec<Fr> { (0..n).map(|_| scalar(r)).collect() }
fn rmat(r: &mut impl Rng, rows: usize, cols: usize) -> M {
    let sparse = r.gen_range(0..2) == 0;
    (0..rows).map(|_| (0..cols).map(|_| if sparse && r.gen_range(0..3) > 0 { Fr::zero() } else { scalar(r) }).collect()).collect()
}

fn n01(c: &mut Ctx) {
    c.rule = "shapes 0..9 x 0..9 (empty and ragged rows included), entries {0,1,-1,2,small,random}, unequal vectors differing in one place or in length; each helper against its definition; non-trivial: at least two rows and columns".into();
    let mut r = c.rng();
    let shapes = [(16, 17), (17, 16), (33, 31), (64, 65), (1, 130), (130, 1), (2, 300), (300, 3), (129, 33)];
    for k in 0..c.n(300, 5000) + shapes.len() {
        let (rows, cols) = if k < 100 { (k / 10, k % 10) } else if k < c.n(300, 5000) { (r.gen_range(0..12), r.gen_range(0..12)) } else { shapes[k - c.n(300, 5000)] };
        let mut m = rmat(&mut r, rows, cols);
        if k % 3 == 1 { for row in m.iter_mut() { let l = r.gen_range(0..=row.len()); row.truncate(l); } }
        let z = rvec(&mut r, cols);
        let (a, b) = (rvec(&mut r, rows), rvec(&mut r, rows));
        let u = scalar(&mut r);
        if !c.begin(format!("matrix {} z={} a={} b={} u={}", showm(&m), showv(&z), showv(&a), showv(&b), short(&u)), rows > 1 && cols > 1) { continue; }
        if let Some(x) = c.total("matrix_vector_product", || utils::matrix_vector_product(&m, &z)) { c.eq(x, mv(&m, &z), "matrix_vector_product"); }
        if let Some(x) = c.total("hadamard_product", || utils::hadamard_product(&a, &b)) { c.eq(x, a.iter().zip(&b).map(|(x, y)| *x * y).collect(), "hadamard_product"); }
        if let Some(x) = c.total("vector_elem_product", || utils::vector_elem_product(&a, u)) { c.eq(x, a.iter().map(|x| *x * u).collect(), "vector_elem_product"); }
        if let Some(x) = c.total("vec_add", || utils::vec_add(&a, &b)) { c.eq(x, a.iter().zip(&b).map(|(x, y)| *x + y).collect(), "vec_add"); }
        if let Some(x) = c.total("vec_sub", || utils::vec_sub(&a, &b)) { c.eq(x, a.iter().zip(&b).map(|(x, y)| *x - y).collect(), "vec_sub"); }
        if let Some(x) = c.total("vec_equal", || utils::vec_equal(&a, &b)) { c.eq(x, a == b, "vec_equal"); }
        if let Some(x) = c.total("vec_equal", || utils::vec_equal(&a, &a.clone())) { c.check(x, "vec_equal of a vector with itself is false"); }
        for i in 0..rows {
            let mut d = a.clone();
            d[i] += Fr::one();
            if let Some(x) = c.total("vec_equal", || utils::vec_equal(&a, &d)) { c.check(!x, format!("vec_equal ignores entry {i}")); }
            let d = &a[..i];
            for (x, y) in [(&a[..], d), (d, &a[..])] { if let Some(x) = c.total("vec_equal", || utils::vec_equal(x, y)) { c.check(!x, format!("vec_equal of lengths {rows} and {i} is true")); } }
        }
        let um: Vec<Vec<usize>> = (0..rows).map(|_| (0..r.gen_range(0..=cols)).map(|_| *pick(&mut r, &[0usize, 1, 2, 255, 256, 65536, 1 << 31, 1 << 32, (1 << 40) + 3, usize::MAX])).collect()).collect();
        if let Some(x) = c.total("to_f_matrix", || utils::to_f_matrix::<Fr>(&um)) { c.eq(x, um.iter().map(|v| v.iter().map(|x| Fr::from(*x as u64)).collect()).collect::<M>(), "to_f_matrix"); }
        let uv: Vec<usize> = um.concat();
        if let Some(x) = c.total("to_f_vec", || utils::to_f_vec::<Fr>(uv.clone())) { c.eq(x, uv.iter().map(|x| Fr::from(*x as u64)).collect(), "to_f_vec"); }
    }
}

/// an R1CS with arbitrary matrices and relaxed pairs that satisfy it
/// the last few systems of a run are larger
const LARGE: [(usize, usize, usize); 6] = [(9, 17, 1), (17, 9, 2), (20, 33, 5), (34, 20, 0), (65, 40, 9), (3, 70, 17)];
fn sysk(rng: &mut StdRng, k: usize, n: usize) -> Sys { if k < n { sys(rng) } else { let (a, b, d) = LARGE[k - n]; sys_of(rng, a, b, d) } }
struct Sys { r: R1CS<Fr>, s: Fr, sch: KzgScheme }
fn sys(rng: &mut StdRng) -> Sys {
    let (rows, nv, io) = match rng.gen_range(0..6) { 0 => (1, 1, 1), 1 => (3, 3, 1), _ => (rng.gen_range(1..6), rng.gen_range(1..6), rng.gen_range(0..4)) };
    sys_of(rng, rows, nv, io)
}
fn sys_of(rng: &mut StdRng, rows: usize, nv: usize, io: usize) -> Sys {
    let n = nv + io + 1;
    let s = Fr::rand(rng);
    let r = R1CS { matrix_a: rmat(rng, rows, n), matrix_b: rmat(rng, rows, n), matrix_c: rmat(rng, rows, n), num_io: io, num_vars: nv };
    Sys { r, s, sch: KzgScheme::new(Srs::new_from_secret(s, rows + n)) }
}
impl Sys {
    fn rows(&self) -> usize { self.r.matrix_a.len() }
    fn show(&self) -> String { format!("A={} B={} C={} io={} vars={}", showm(&self.r.matrix_a), showm(&self.r.matrix_b), showm(&self.r.matrix_c), self.r.num_io, self.r.num_vars) }
    fn err(&self, z: &[Fr], u: Fr) -> Vec<Fr> {
        let (a, b, cc) = (mv(&self.r.matrix_a, z), mv(&self.r.matrix_b, z), mv(&self.r.matrix_c, z));
        (0..a.len()).map(|i| a[i] * b[i] - u * cc[i]).collect()
    }
    fn com(&self, v: &[Fr]) -> KzgCommitment { KzgCommitment(g1(horner(v, self.s))) }
    fn pair_of(&self, w: Vec<Fr>, x: Vec<Fr>, u: Fr) -> (FWitness, FInstance) {
        let mut z = w.clone();
        z.extend(x.iter());
        z.push(u);
        let e = self.err(&z, u);
        let fi = FInstance { com_e: self.com(&e), u, com_w: self.com(&w), x };
        (FWitness { e, w }, fi)
    }
    fn pair(&self, rng: &mut StdRng) -> (FWitness, FInstance) {
        let w = rvec(rng, self.r.num_vars);
        let x = rvec(rng, self.r.num_io);
        let u = scalar(rng);
        self.pair_of(w, x, u)
    }
    /// the definition of satisfaction
    fn sat(&self, w: &FWitness, i: &FInstance) -> bool {
        if w.w.len() != self.r.num_vars || i.x.len() != self.r.num_io || w.e.len() != self.rows() { return false; }
        let mut z = w.w.clone();
        z.extend(i.x.iter());
        z.push(i.u);
        self.err(&z, i.u) == w.e && i.com_e == self.com(&w.e) && i.com_w == self.com(&w.w)
    }
}
fn showp(w: &FWitness, i: &FInstance) -> String { format!("(W={} E={} x={} u={})", showv(&w.w), showv(&w.e), showv(&i.x), short(&i.u)) }
fn neq(i: &FInstance, j: &FInstance) -> Option<&'static str> {
    if i.u != j.u { return Some("u"); }
    if i.x != j.x { return Some("x"); }
    if i.com_e != j.com_e { return Some("commitment of E"); }
    if i.com_w != j.com_w { return Some("commitment of W"); }
    None
}
fn plus(k: &KzgCommitment) -> KzgCommitment { KzgCommitment((k.0 + G1Affine::generator()).into_affine()) }

fn n02(c: &mut Ctx) {
    c.rule = "random R1CS (1..5 constraints, 1..5 witness entries, 0..3 inputs), satisfying relaxed pairs and each with one component altered (entry, u, x, E, either commitment, lengths); verdict against the definition; trivial and fresh pairs; non-trivial: all".into();
    let mut r = c.rng();
    for k in 0..c.n(60, 900) + LARGE.len() {
        let sy = sysk(&mut r, k, c.n(60, 900));
        let (w, i) = sy.pair(&mut r);
        if !c.begin(format!("{} {}", sy.show(), showp(&w, &i)), true) { continue; }
        let mut cases = vec![("satisfying", w.clone(), i.clone())];
        let mut alt = |nm, f: &dyn Fn(&mut FWitness, &mut FInstance)| { let (mut a, mut b) = (w.clone(), i.clone()); f(&mut a, &mut b); cases.push((nm, a, b)); };
        let some = |n: usize| (0..n).filter(move |j| n < 8 || *j < 2 || *j + 2 > n || j.is_power_of_two() || *j == n / 2);
        for j in some(w.w.len()) {
            alt("witness entry altered", &|a, _| a.w[j] += Fr::one());
            alt("witness entry altered and recommitted", &|a, b| { a.w[j] += Fr::one(); b.com_w = sy.com(&a.w) });
        }
        for j in some(w.e.len()) {
            alt("error entry altered", &|a, _| a.e[j] += Fr::one());
            alt("error entry altered and recommitted", &|a, b| { a.e[j] += Fr::one(); b.com_e = sy.com(&a.e) });
        }
        for j in some(i.x.len()) { alt("public input altered", &|_, b| b.x[j] += Fr::one()); }
        alt("u altered", &|_, b| b.u += Fr::one());
        alt("u negated", &|_, b| b.u = -b.u);
        alt("E commitment altered", &|_, b| b.com_e = plus(&b.com_e));
        alt("W commitment altered", &|_, b| b.com_w = plus(&b.com_w));
        alt("commitments exchanged", &|_, b| std::mem::swap(&mut b.com_w, &mut b.com_e));
        alt("witness entry appended", &|a, _| a.w.push(Fr::zero()));
        alt("witness entry dropped", &|a, b| { a.w.pop(); b.com_w = sy.com(&a.w) });
        alt("input appended", &|_, b| b.x.push(Fr::zero()));
        alt("witness and input lengths shifted", &|a, b| { b.x.insert(0, a.w.pop().unwrap()); b.com_w = sy.com(&a.w) });
        alt("input dropped", &|_, b| { b.x.pop(); });
        alt("all zero", &|a, b| { for x in a.w.iter_mut().chain(a.e.iter_mut()) { *x = Fr::zero() } b.com_w = sy.com(&a.w); b.com_e = sy.com(&a.e); });
        alt("error dropped", &|a, b| { for x in a.e.iter_mut() { *x = Fr::zero() } b.com_e = sy.com(&a.e); });
        alt("error negated", &|a, b| { for x in a.e.iter_mut() { *x = -*x } b.com_e = sy.com(&a.e); });
        for (nm, a, b) in cases {
            let want = sy.sat(&a, &b);
            let got = guard(|| is_r1cs_satisfied(&sy.r, &b, &a, &sy.sch).is_ok());
            match got {
                Ok(g) => { c.check(g == want, format!("{nm}: {} verdict {g}, expected {want}", showp(&a, &b))); }
                Err(m) => { c.check(!want, format!("{nm}: satisfying pair panics: {m}")); }
            }
        }
        // trivial pair of a system with as many constraints as witness entries
        let (nv, io) = (sy.r.num_vars, sy.r.num_io);
        let sq = sys_of(&mut r, nv, nv, io);
        if let Some((tw, ti)) = c.total("create_trivial_pair", || create_trivial_pair(io, nv, &sq.sch)) {
            c.check(sq.sat(&tw, &ti), format!("trivial pair {} does not satisfy {}", showp(&tw, &ti), sq.show()));
            c.check(tw.w.iter().chain(&tw.e).chain(&ti.x).all(|x| x.is_zero()), "trivial pair is not all zero");
            if let Some(x) = c.total("is_r1cs_satisfied", || is_r1cs_satisfied(&sq.r, &ti, &tw, &sq.sch)) { c.check(x.is_ok(), "trivial pair rejected"); }
        }
        // fresh witness: zero error, u = 1
        let v = rvec(&mut r, nv);
        let xs = rvec(&mut r, io);
        if let Some((fw, fi)) = c.total("FWitness::new/commit", || { let f = FWitness::new(&v, sy.rows()); let i = f.commit(&sy.sch, &xs); (f, i) }) {
            c.check(fw.w == v && fw.e == vec![Fr::zero(); sy.rows()], "fresh witness");
            c.check(fi.u.is_one() && fi.x == xs && fi.com_w == sy.com(&v) && fi.com_e == KzgCommitment(G1Affine::zero()), "fresh instance");
        }
        if k % 4 == 0 {
            let t = FWitness::new_trivial_witness(nv);
            c.check(t.w == vec![Fr::zero(); nv] && t.e == vec![Fr::zero(); nv], "trivial witness");
        }
    }
}

fn cross(sy: &Sys, a: &(FWitness, FInstance), b: &(FWitness, FInstance)) -> (Vec<Fr>, Vec<Fr>, Vec<Fr>) {
    let z = |p: &(FWitness, FInstance)| { let mut z = p.0.w.clone(); z.extend(p.1.x.iter()); z.push(p.1.u); z };
    let (z1, z2) = (z(a), z(b));
    let (a1, b1, c1) = (mv(&sy.r.matrix_a, &z1), mv(&sy.r.matrix_b, &z1), mv(&sy.r.matrix_c, &z1));
    let (a2, b2, c2) = (mv(&sy.r.matrix_a, &z2), mv(&sy.r.matrix_b, &z2), mv(&sy.r.matrix_c, &z2));
    let t = (0..a1.len()).map(|i| a1[i] * b2[i] + a2[i] * b1[i] - a.1.u * c2[i] - b.1.u * c1[i]).collect();
    (t, z1, z2)
}
fn folded(r: Fr, a: &(FWitness, FInstance), b: &(FWitness, FInstance), t: &[Fr], ct: &KzgCommitment) -> (FWitness, FInstance) {
    let lin = |x: &[Fr], y: &[Fr]| x.iter().zip(y).map(|(p, q)| *p + r * q).collect::<Vec<_>>();
    let e = (0..t.len()).map(|i| a.0.e[i] + r * t[i] + r * r * b.0.e[i]).collect();
    let ce = (a.1.com_e.0 + ct.0 * r + b.1.com_e.0 * (r * r)).into_affine();
    let cw = (a.1.com_w.0 + b.1.com_w.0 * r).into_affine();
    (FWitness { e, w: lin(&a.0.w, &b.0.w) }, FInstance { com_e: KzgCommitment(ce), com_w: KzgCommitment(cw), u: a.1.u + r * b.1.u, x: lin(&a.1.x, &b.1.x) })
}

fn n03(c: &mut Ctx) {
    c.rule = "random R1CS, pairs of satisfying relaxed assignments (equal, zero, fresh ones included), challenges {0,1,-1,2,random}; cross term, folded vectors and satisfaction against the definition; unsatisfying pairs over five challenges; non-trivial: all".into();
    let mut r = c.rng();
    for k in 0..c.n(80, 1200) + LARGE.len() {
        let sy = sysk(&mut r, k, c.n(80, 1200));
        let a = sy.pair(&mut r);
        let b = match k % 5 { 0 => a.clone(), 1 => sy.pair_of(vec![Fr::zero(); sy.r.num_vars], vec![Fr::zero(); sy.r.num_io], Fr::zero()), _ => sy.pair(&mut r) };
        let (a, b) = if r.gen_range(0..2) == 0 { (a, b) } else { (b, a) };
        let ch = scalar(&mut r);
        if !c.begin(format!("{} first {} second {} r={}", sy.show(), showp(&a.0, &a.1), showp(&b.0, &b.1), short(&ch)), true) { continue; }
        let (t, z1, z2) = cross(&sy, &a, &b);
        let Some(t2) = c.total("compute_t", || NIFS::<Sha256>::compute_t(&sy.r, a.1.u, b.1.u, &z1, &z2)) else { continue };
        if !c.eq(t2, t.clone(), "cross term") { continue; }
        let ct = sy.com(&t);
        let want = folded(ch, &a, &b, &t, &ct);
        let Some(fw) = c.total("fold_witness", || NIFS::<Sha256>::fold_witness(ch, &a.0, &b.0, &t)) else { continue };
        let Some(fi) = c.total("fold_instance", || NIFS::<Sha256>::fold_instance(ch, &a.1, &b.1, &ct)) else { continue };
        c.eq(fw.e.clone(), want.0.e.clone(), "folded error");
        c.eq(fw.w.clone(), want.0.w.clone(), "folded witness");
        if let Some(m) = neq(&fi, &want.1) { c.check(false, format!("folded instance differs in {m}")); }
        c.check(sy.sat(&fw, &fi), "folded pair does not satisfy the system");
        if let Some(x) = c.total("is_r1cs_satisfied", || is_r1cs_satisfied(&sy.r, &fi, &fw, &sy.sch)) { c.check(x.is_ok(), "folded pair rejected by is_r1cs_satisfied"); }
        // an unsatisfying partner
        let (mut x, mut y) = (a.clone(), b.clone());
        let row = r.gen_range(0..sy.rows());
        let bad = if k % 2 == 0 { &mut x } else { &mut y };
        bad.0.e[row] += Fr::one();
        bad.1.com_e = sy.com(&bad.0.e);
        let mut oks = 0;
        for j in 0..5u64 {
            let ch = if j < 3 { Fr::from(j) } else { Fr::rand(&mut r) };
            let f = guard(|| (NIFS::<Sha256>::fold_witness(ch, &x.0, &y.0, &t), NIFS::<Sha256>::fold_instance(ch, &x.1, &y.1, &ct)));
            let Ok(f) = f else { c.check(false, "folding panicked"); break };
            if is_r1cs_satisfied(&sy.r, &f.1, &f.0, &sy.sch).is_ok() { oks += 1; }
        }
        c.check(oks <= 2, format!("folding an unsatisfying pair satisfies the system for {oks} of 5 challenges"));
    }
}

fn n04(c: &mut Ctx) {
    c.rule = "random R1CS and correctly committed pairs, transcripts fresh or with a history; prover's and verifier's folded instances, commitments, challenge and opening point compared; non-trivial: all".into();
    let mut r = c.rng();
    for k in 0..c.n(60, 900) + LARGE.len() {
        let sy = sysk(&mut r, k, c.n(60, 900));
        let a = sy.pair(&mut r);
        let b = if k % 6 == 0 { a.clone() } else { sy.pair(&mut r) };
        let hist: Vec<Fr> = if k % 3 == 0 { rvec(&mut r, k % 4) } else { vec![] };
        if !c.begin(format!("{} first {} second {} history {}", sy.show(), showp(&a.0, &a.1), showp(&b.0, &b.1), showv(&hist)), true) { continue; }
        let start = || { let mut t = Transcript::<Sha256>::default(); for h in &hist { t.feed_scalar_num(*h); } t };
        let mut pt = start();
        let Some((fw, fi, ct, ch)) = c.total("prover", || NIFS::<Sha256>::prover(&sy.r, &a.0, &b.0, &a.1, &b.1, &sy.sch, &mut pt)) else { continue };
        let t = cross(&sy, &a, &b).0;
        c.eq(ct.clone(), sy.com(&t), "cross-term commitment");
        let want = folded(ch, &a, &b, &t, &ct);
        c.check(fw.w == want.0.w && fw.e == want.0.e, "prover's folded witness");
        if let Some(m) = neq(&fi, &want.1) { c.check(false, format!("prover's folded instance differs in {m}")); }
        c.eq(fi.com_e.clone(), sy.com(&fw.e), "commitment of the folded error");
        c.eq(fi.com_w.clone(), sy.com(&fw.w), "commitment of the folded witness");
        if let Some(v) = c.total("verifier", || NIFS::<Sha256>::verifier(ch, &a.1, &b.1, &ct)) { if let Some(m) = neq(&v, &fi) { c.check(false, format!("verifier's folded instance differs in {m}")); } }
        let mut vt = start();
        if let Some(x) = c.total("verify_challenge", || NIFS::<Sha256>::verify_challenge(ch, a.1.u, b.1.u, &ct, &mut vt)) { c.check(x.is_ok(), "the prover's challenge is not the verifier's"); }
        let Some(pf) = c.total("prove", || NIFS::<Sha256>::prove(ch, &fw, &fi, &sy.sch, &mut pt)) else { continue };
        c.eq(pf.r, ch, "challenge in the proof");
        c.eq(pf.opening_e.1, horner(&fw.e, pf.opening_point), "opened value of E");
        c.eq(pf.opening_w.1, horner(&fw.w, pf.opening_point), "opened value of W");
        if let Some(x) = c.total("verify_opening", || NIFS::<Sha256>::verify_opening(&pf, &fi, &sy.sch, &mut vt)) { c.check(x.is_ok(), format!("opening point or openings not accepted by the verifier's transcript: {x:?}")); }
        let mut t2 = start();
        t2.feed_scalar_num(a.1.u);
        t2.feed_scalar_num(b.1.u);
        t2.feed(&ct);
        let [z] = t2.generate_challenges();
        c.eq(ch, z, "challenge of the transcript");
        t2.feed(&fi.com_e);
        t2.feed(&fi.com_w);
        let [z] = t2.generate_challenges();
        c.eq(pf.opening_point, z, "opening point of the transcript");
    }
}

fn n05(c: &mut Ctx) {
    c.rule = "honest NIFS proofs (fresh transcripts or with history) and every single alteration of challenge, opening point, openings, scalars, cross-term and folded commitments, transcript; non-trivial: all".into();
    let mut r = c.rng();
    for k in 0..c.n(22, 300) + LARGE.len() {
        let sy = sysk(&mut r, k, c.n(22, 300));
        let a = sy.pair(&mut r);
        let b = if k % 5 == 0 { sy.pair_of(vec![Fr::zero(); sy.r.num_vars], vec![Fr::zero(); sy.r.num_io], Fr::zero()) } else { sy.pair(&mut r) };
        let hist: Vec<Fr> = if k % 4 == 1 { vec![Fr::from(k as u64)] } else { vec![] };
        if !c.begin(format!("{} first {} second {} history {}", sy.show(), showp(&a.0, &a.1), showp(&b.0, &b.1), showv(&hist)), true) { continue; }
        let start = || { let mut t = Transcript::<Sha256>::default(); for h in &hist { t.feed_scalar_num(*h); } t };
        let mut pt = start();
        let Some((fw, fi, ct, ch)) = c.total("prover", || NIFS::<Sha256>::prover(&sy.r, &a.0, &b.0, &a.1, &b.1, &sy.sch, &mut pt)) else { continue };
        let Some(pf) = c.total("prove", || NIFS::<Sha256>::prove(ch, &fw, &fi, &sy.sch, &mut pt)) else { continue };
        let ver = |p: &NIFSProof, i1: &FInstance, i2: &FInstance, i3: &FInstance, t: &KzgCommitment, mut tr: Transcript<Sha256>| guard(|| NIFS::<Sha256>::verify(p, i1, i2, i3, t, &sy.sch, &mut tr).is_ok());
        c.check(ver(&pf, &a.1, &b.1, &fi, &ct, start()) == Ok(true), "honest proof rejected");
        let one = Fr::one();
        let g = G1Affine::generator();
        let bump = |o: &KzgOpening, w: bool| if w { KzgOpening((o.0 + g).into_affine(), o.1) } else { KzgOpening(o.0, o.1 + one) };
        let mut no = |nm: &str, res: Result<bool, String>| { c.check(res == Ok(false), format!("{nm}: {res:?}, expected an error return")); };
        let with = |f: &dyn Fn(&mut NIFSProof)| { let mut p = pf.clone(); f(&mut p); p };
        let vp = |p: NIFSProof| ver(&p, &a.1, &b.1, &fi, &ct, start());
        no("challenge altered", vp(with(&|p| p.r += one)));
        no("challenge zero", vp(with(&|p| p.r = Fr::zero())));
        no("opening point altered", vp(with(&|p| p.opening_point += one)));
        no("openings made at another point", vp(with(&|p| {
            p.opening_point += one;
            p.opening_e = sy.sch.open_vector(&fw.e, p.opening_point);
            p.opening_w = sy.sch.open_vector(&fw.w, p.opening_point);
        })));
        no("E witness altered", vp(with(&|p| p.opening_e = bump(&p.opening_e, true))));
        no("E value altered", vp(with(&|p| p.opening_e = bump(&p.opening_e, false))));
        no("W witness altered", vp(with(&|p| p.opening_w = bump(&p.opening_w, true))));
        no("W value altered", vp(with(&|p| p.opening_w = bump(&p.opening_w, false))));
        no("opposite errors in both openings", vp(with(&|p| { p.opening_w.1 += one; p.opening_e.1 -= one; })));
        if fi.com_e != fi.com_w { no("openings exchanged", vp(with(&|p| std::mem::swap(&mut p.opening_e, &mut p.opening_w)))); }
        let inst = |i: &FInstance, f: &dyn Fn(&mut FInstance)| { let mut j = i.clone(); f(&mut j); j };
        no("first scalar altered", ver(&pf, &inst(&a.1, &|i| i.u += one), &b.1, &fi, &ct, start()));
        no("second scalar altered", ver(&pf, &a.1, &inst(&b.1, &|i| i.u += one), &fi, &ct, start()));
        if a.1.u != b.1.u { no("scalars exchanged", ver(&pf, &b.1, &a.1, &fi, &ct, start())); }
        no("cross-term commitment altered", ver(&pf, &a.1, &b.1, &fi, &plus(&ct), start()));
        if !ct.0.is_zero() { no("cross-term commitment negated", ver(&pf, &a.1, &b.1, &fi, &KzgCommitment((-ct.0.into_group()).into_affine()), start())); }
        no("folded E commitment altered", ver(&pf, &a.1, &b.1, &inst(&fi, &|i| i.com_e = plus(&i.com_e)), &ct, start()));
        no("folded W commitment altered", ver(&pf, &a.1, &b.1, &inst(&fi, &|i| i.com_w = plus(&i.com_w)), &ct, start()));
        if fi.com_e != fi.com_w {
            no("folded commitments exchanged", ver(&pf, &a.1, &b.1, &inst(&fi, &|i| std::mem::swap(&mut i.com_e, &mut i.com_w)), &ct, start()));
            // openings exchanged along with the commitments: only the transcript's order tells
            no("folded commitments and openings exchanged", ver(&with(&|p| std::mem::swap(&mut p.opening_e, &mut p.opening_w)), &a.1, &b.1, &inst(&fi, &|i| std::mem::swap(&mut i.com_e, &mut i.com_w)), &ct, start()));
        }
        let mut other = start();
        other.feed_scalar_num(Fr::from(99u64));
        no("transcript with another history", ver(&pf, &a.1, &b.1, &fi, &ct, other));
        // one commitment and its opening replaced consistently at the old point: only the opening point is stale
        for e in [true, false] {
            let v = vec![Fr::from(41u64), Fr::from(5u64)];
            let cm = sy.com(&v);
            let op = sy.sch.open_vector(&v, pf.opening_point);
            let p = with(&|p| if e { p.opening_e = op.clone() } else { p.opening_w = op.clone() });
            let i3 = inst(&fi, &|i| if e { i.com_e = cm.clone() } else { i.com_w = cm.clone() });
            no(if e { "E commitment and opening replaced" } else { "W commitment and opening replaced" }, ver(&p, &a.1, &b.1, &i3, &ct, start()));
        }
    }
}

#[derive(Clone)]
pub struct Step(pub u32);
fn to_base(x: Fr) -> Base { Base::from_le_bytes_mod_order(&x.into_bigint().to_bytes_le()) }
fn to_fr(x: Base) -> Fr { Fr::from_le_bytes_mod_order(&x.into_bigint().to_bytes_le()) }
impl FCircuit for Step {
    fn run(&self, z: &State, w: &FWitness) -> State {
        let x = w.w.first().copied().unwrap_or(Fr::from(7u64));
        State { state: match self.0 {
            0 => z.state + to_base(x * x * x + x + Fr::from(5u64)),
            1 => z.state * z.state + Base::from(3u64),
            2 => z.state * Base::from(2u64) + to_base(w.w.iter().sum()) + Base::one(),
            3 => z.state,
            _ => -z.state + to_base(x) - Base::from(1u64 << 40),
        } }
    }
}
type Aug<T> = AugmentedCircuit<T, Step>;
fn st(x: Base) -> State { State { state: x } }
fn bscalar(r: &mut impl Rng) -> Base { match r.gen_range(0..5) { 0 => Base::zero(), 1 => Base::one(), 2 => -Base::one(), _ => Base::rand(r) } }
fn rinst(r: &mut impl Rng, io: usize) -> FInstance { FInstance { com_e: KzgCommitment(g1(scalar(r))), u: scalar(r), com_w: KzgCommitment(g1(scalar(r))), x: (0..io).map(|_| scalar(r)).collect() } }

fn n06(c: &mut Ctx) {
    c.rule = "runs of up to 6 steps of 5 step functions with random instances; every precondition broken before each step (alone), result and untouched state compared with the model; single-component changes of the hashed data; non-trivial: runs beyond step zero".into();
    n06_in::<Sha256>(c, c.n(40, 500));
    n06_in::<Sha512>(c, c.n(6, 60));
}
fn n06_in<T: sha2::Digest + Default + ark_serialize::Write>(c: &mut Ctx, count: usize) {
    let mut r = c.rng();
    for k in 0..count {
        // the hash binds everything
        let io = if k % 10 == 7 { 20 } else { 1 + k % 3 };
        let (i, z0, zi, u) = (bscalar(&mut r), bscalar(&mut r), bscalar(&mut r), rinst(&mut r, io));
        if c.begin(format!("hash of i={i} z0={z0} z={zi} u={} x={}", short(&u.u), showv(&u.x)), true) {
            let h = |i: Base, a: Base, b: Base, u: &FInstance| Aug::<T>::hash_io(i, &st(a), &st(b), u);
            let base = h(i, z0, zi, &u);
            c.eq(h(i, z0, zi, &u.clone()), base, "hash_io of equal data");
            let b1 = Base::one();
            let two200 = Base::from(2u64).pow([200u64]);
            for d in [b1, two200] {
                c.check(h(i + d, z0, zi, &u) != base, "hash_io ignores the counter");
                c.check(h(i, z0 + d, zi, &u) != base, "hash_io ignores the initial state");
                c.check(h(i, z0, zi + d, &u) != base, "hash_io ignores the state");
            }
            if z0 != zi { c.check(h(i, zi, z0, &u) != base, "hash_io does not distinguish initial and current state"); }
            if i != z0 { c.check(h(z0, i, zi, &u) != base, "hash_io does not distinguish counter and state"); }
            let with = |f: &dyn Fn(&mut FInstance)| { let mut v = u.clone(); f(&mut v); h(i, z0, zi, &v) };
            c.check(with(&|v| v.com_e = plus(&v.com_e)) != base, "hash_io ignores the commitment of E");
            c.check(with(&|v| v.com_w = plus(&v.com_w)) != base, "hash_io ignores the commitment of W");
            if !u.com_e.0.is_zero() { c.check(with(&|v| v.com_e = KzgCommitment((-v.com_e.0.into_group()).into_affine())) != base, "hash_io ignores the sign of the commitment of E"); }
            if !u.com_w.0.is_zero() { c.check(with(&|v| v.com_w = KzgCommitment((-v.com_w.0.into_group()).into_affine())) != base, "hash_io ignores the sign of the commitment of W"); }
            c.check(with(&|v| v.u += Fr::one()) != base, "hash_io ignores u");
            for j in 0..io { c.check(with(&|v| v.x[j] += Fr::one()) != base, format!("hash_io ignores public input {j}")); }
            c.check(with(&|v| v.x.push(Fr::zero())) != base, "hash_io ignores the number of public inputs");
            c.check(with(&|v| { v.x.pop(); }) != base, "hash_io ignores the last public input");
            if io > 1 && u.x[0] != u.x[1] { c.check(with(&|v| v.x.swap(0, 1)) != base, "hash_io ignores the order of the public inputs"); }
            if u.com_e != u.com_w { c.check(with(&|v| std::mem::swap(&mut v.com_e, &mut v.com_w)) != base, "hash_io does not distinguish the commitments"); }
        }
        // runs
        let f = Step((k % 5) as u32);
        let z0 = bscalar(&mut r);
        let triv = if k % 4 == 3 { rinst(&mut r, io) } else { FInstance { com_e: KzgCommitment(G1Affine::zero()), u: Fr::zero(), com_w: KzgCommitment(G1Affine::zero()), x: vec![Fr::zero(); io] } };
        let steps = if k == 5 { 40 } else { 1 + k % 6 };
        if !c.begin(format!("run of {steps} steps of step function {} from {z0}, {io} inputs", f.0), steps > 1) { continue; }
        let mut a = Aug::<T>::new(f.clone(), &triv, &st(z0));
        c.check(a.i.is_zero() && a.z_0.state == z0 && a.z_i.state == z0 && a.h_i.is_none(), "new circuit");
        let (mut z, mut h): (Base, Option<Base>) = (z0, None);
        'run: for i in 0..steps {
            let w = FWitness { w: (0..r.gen_range(0..4)).map(|_| scalar(&mut r)).collect(), e: vec![] };
            let big = rinst(&mut r, io);
            let ct = KzgCommitment(g1(scalar(&mut r)));
            let mut u = rinst(&mut r, io);
            let zn = f.run(&st(z), &w).state;
            let ib = Base::from(i as u64);
            let want = if i == 0 {
                Aug::<T>::hash_io(Base::one(), &st(z0), &st(zn), &triv)
            } else {
                u.u = Fr::one();
                u.com_e = triv.com_e.clone();
                u.x[0] = to_fr(h.unwrap());
                let mut t = Transcript::<T>::default();
                t.feed_scalar_num(u.u);
                t.feed_scalar_num(big.u);
                t.feed(&ct);
                let [ch] = t.generate_challenges();
                let e = (u.com_e.0 + ct.0 * ch + big.com_e.0 * (ch * ch)).into_affine();
                let cw = (u.com_w.0 + big.com_w.0 * ch).into_affine();
                let fi = FInstance { com_e: KzgCommitment(e), com_w: KzgCommitment(cw), u: u.u + ch * big.u, x: u.x.iter().zip(&big.x).map(|(p, q)| *p + ch * q).collect() };
                // everything that must be refused
                let mut bad: Vec<(&str, FInstance, Option<&FInstance>, Option<&KzgCommitment>, bool)> = vec![
                    ("running instance missing", u.clone(), None, Some(&ct), false),
                    ("cross-term commitment missing", u.clone(), Some(&big), None, false),
                    ("both missing", u.clone(), None, None, false),
                    ("stored hash missing", u.clone(), Some(&big), Some(&ct), true),
                ];
                let alt = |f: &dyn Fn(&mut FInstance)| { let mut v = u.clone(); f(&mut v); v };
                bad.push(("public input + 1", alt(&|v| v.x[0] += Fr::one()), Some(&big), Some(&ct), false));
                bad.push(("public input 0", alt(&|v| v.x[0] = Fr::zero()), Some(&big), Some(&ct), false));
                bad.push(("public input negated", alt(&|v| v.x[0] = -v.x[0]), Some(&big), Some(&ct), false));
                bad.push(("public input low bits only", alt(&|v| v.x[0] += Fr::from(2u64).pow([200u64])), Some(&big), Some(&ct), false));
                bad.push(("error commitment not trivial", alt(&|v| v.com_e = plus(&v.com_e)), Some(&big), Some(&ct), false));
                if big.com_e != triv.com_e { bad.push(("error commitment of the running instance", alt(&|v| v.com_e = big.com_e.clone()), Some(&big), Some(&ct), false)); }
                bad.push(("u zero", alt(&|v| v.u = Fr::zero()), Some(&big), Some(&ct), false));
                bad.push(("u two", alt(&|v| v.u = Fr::from(2u64)), Some(&big), Some(&ct), false));
                bad.push(("u minus one", alt(&|v| v.u = -Fr::one()), Some(&big), Some(&ct), false));
                for (nm, v, b, t, drop_hash) in bad {
                    let saved = a.h_i;
                    if drop_hash { a.h_i = None; }
                    let before = (a.z_i.state, a.i, a.h_i, a.z_0.state);
                    let res = guard(|| a.run(&v, b, &w, t));
                    match res {
                        Ok(x) => { c.check(x.is_err(), format!("step {i}: {nm}: not refused")); }
                        Err(m) => { c.check(false, format!("step {i}: {nm}: panicked: {m}")); }
                    }
                    c.check((a.z_i.state, a.i, a.h_i, a.z_0.state) == before, format!("step {i}: {nm}: state changed by a refused run"));
                    a.h_i = saved;
                }
                Aug::<T>::hash_io(ib + Base::one(), &st(z0), &st(zn), &fi)
            };
            let before = (a.z_i.state, a.i, a.h_i);
            let (b, t) = if i == 0 && r.gen_range(0..2) == 0 { (None, None) } else { (Some(&big), Some(&ct)) };
            let Some(res) = c.total("run", || a.run(&u, b, &w, t)) else { break 'run };
            match res {
                Ok(x) => { if !c.check(x == want, format!("step {i}: wrong hash")) { break 'run; } }
                Err(m) => { c.check(false, format!("step {i}: consistent step refused: {m}")); break 'run; }
            }
            c.check((a.z_i.state, a.i, a.h_i) == before, format!("step {i}: run advanced the state"));
            if c.total("next_step", || a.next_step()).is_none() { break 'run; }
            c.check(a.z_i.state == zn, format!("step {i}: wrong next state"));
            c.check(a.i == ib + Base::one(), format!("step {i}: wrong counter"));
            c.check(a.h_i == Some(want), format!("step {i}: wrong expected hash"));
            c.check(a.z_0.state == z0, "initial state changed");
            c.check(a.h_i1.is_none() && a.z_i1.is_none(), format!("step {i}: a pending successor is left after advancing"));
            z = zn;
            h = Some(want);
        }
    }
}

fn n07(c: &mut Ctx) {
    c.rule = "honest IVC runs of up to 5 steps (5 step functions, random R1CS); at each step every alteration of proof, instance or circuit state must be rejected, including provers that are honest except for one check; non-trivial: runs beyond step zero".into();
    let mut r = c.rng();
    for k in 0..c.n(14, 150) {
        let nv = r.gen_range(1..5);
        let sy = sys_of(&mut r, nv, nv, 1 + k % 2);
        let f = Step((k % 5) as u32);
        let z0 = bscalar(&mut r);
        let steps = if k == 3 { 14 } else { 2 + k % 4 };
        if !c.begin(format!("run of {steps} steps of step function {} from {z0} over {}", f.0, sy.show()), true) { continue; }
        let sch2 = KzgScheme::new(Srs::new_from_secret(sy.s, sy.rows() + sy.r.num_vars + sy.r.num_io + 1));
        let io = sy.r.num_io;
        let Some((tw, ti)) = c.total("create_trivial_pair", || create_trivial_pair(io, nv, &sy.sch)) else { continue };
        let mut ivc = IVC::<Sha256, Step> { scheme: sch2, augmented_circuit: Aug::<Sha256>::new(f.clone(), &ti, &st(z0)) };
        let (mut z, mut fw, mut fi) = (z0, tw.clone(), ti.clone());
        let mut proof = IVCProof::trivial_ivc_proof(&ti, &tw);
        let mut zk = ZkIVCProof::trivial_zk_ivc_proof(&ti);
        for i in 0..steps {
            // the step's own witness: the R1CS need not hold for the folding to be well defined, the error is zero
            let w = FWitness { w: rvec(&mut r, nv), e: vec![Fr::zero(); sy.rows()] };
            if i > 0 {
                // incoming instance with the expected hash as leading input
                let hash = Aug::<Sha256>::hash_io(Base::from(i as u64), &st(z0), &st(z), &fi);
                let mut x = rvec(&mut r, io);
                x[0] = to_fr(hash);
                let u = FInstance { com_e: sy.com(&w.e), u: Fr::one(), com_w: sy.com(&w.w), x };
                let (pw, pi) = (fw.clone(), fi.clone());
                proof = IVCProof::new(&u, &w, &pi, &pw);
                let mut pt = Transcript::<Sha256>::default();
                let Some((a, b, p)) = c.total("prove", || ivc.prove(&sy.r, &proof, &mut pt)) else { break };
                c.check(p.com_t.is_some() && p.folded_u_proof.is_some(), "proof of a later step lacks its parts");
                c.check(neq(&p.u_i, &u).is_none() && neq(&p.big_u_i, &pi).is_none(), "proof carries other instances");
                c.eq(b.com_w.clone(), sy.com(&a.w), "commitment of the folded witness");
                c.eq(b.com_e.clone(), sy.com(&a.e), "commitment of the folded error");
                // dishonest in exactly one respect, otherwise proved honestly
                for (nm, kind) in [("leading public input not the hash", 0), ("error commitment not trivial", 1), ("u not one", 2), ("u zero", 3), ("hash of another counter", 4), ("hash of another initial state", 5), ("hash of another state", 6), ("hash of another instance", 7)] {
                    let (mut w2, mut u2, mut pi2) = (w.clone(), u.clone(), pi.clone());
                    let h = |i: Base, a: Base, b: Base, v: &FInstance| to_fr(Aug::<Sha256>::hash_io(i, &st(a), &st(b), v));
                    let (ib, one) = (Base::from(i as u64), Base::one());
                    match kind {
                        0 => u2.x[0] += Fr::one(),
                        1 => { w2.e[0] = Fr::one(); u2.com_e = sy.com(&w2.e); }
                        2 => u2.u = Fr::from(2u64),
                        3 => u2.u = Fr::zero(),
                        4 => u2.x[0] = h(ib + one, z0, z, &pi),
                        5 => u2.x[0] = h(ib, z0 + one, z, &pi),
                        6 => u2.x[0] = h(ib, z0, z + one, &pi),
                        _ => pi2.u += Fr::one(),
                    }
                    let mut pt = Transcript::<Sha256>::default();
                    let Ok((_, _, q)) = guard(|| ivc.prove(&sy.r, &IVCProof::new(&u2, &w2, &pi2, &pw), &mut pt)) else { continue };
                    let got = guard(|| ivc.verify(&q, &mut Transcript::<Sha256>::default()).is_ok());
                    c.check(got == Ok(false), format!("step {i}: {nm}: {got:?}, expected an error return"));
                }
                fw = a;
                fi = b;
                zk = p;
            }
            let copy = |p: &ZkIVCProof| ZkIVCProof { u_i: p.u_i.clone(), big_u_i: p.big_u_i.clone(), com_t: p.com_t.clone(), folded_u_proof: p.folded_u_proof.clone() };
            let got = guard(|| ivc.verify(&zk, &mut Transcript::<Sha256>::default()).map_err(|e| e.to_string()));
            if !c.check(got == Ok(Ok(())), format!("step {i}: honest proof: {got:?}")) { break; }
            // altered proofs
            if i > 0 {
                let mut alts: Vec<(&str, ZkIVCProof)> = vec![];
                let mut alt = |nm, f: &dyn Fn(&mut ZkIVCProof)| { let mut p = copy(&zk); f(&mut p); alts.push((nm, p)); };
                alt("cross-term commitment missing", &|p| p.com_t = None);
                alt("folding proof missing", &|p| p.folded_u_proof = None);
                alt("cross-term commitment altered", &|p| p.com_t = Some(plus(p.com_t.as_ref().unwrap())));
                alt("leading public input altered", &|p| p.u_i.x[0] += Fr::one());
                alt("u altered", &|p| p.u_i.u += Fr::one());
                alt("error commitment altered", &|p| p.u_i.com_e = plus(&p.u_i.com_e));
                alt("witness commitment altered", &|p| p.u_i.com_w = plus(&p.u_i.com_w));
                alt("running u altered", &|p| p.big_u_i.u += Fr::one());
                alt("running input altered", &|p| p.big_u_i.x[0] += Fr::one());
                alt("running E commitment altered", &|p| p.big_u_i.com_e = plus(&p.big_u_i.com_e));
                alt("running W commitment altered", &|p| p.big_u_i.com_w = plus(&p.big_u_i.com_w));
                alt("challenge altered", &|p| p.folded_u_proof.as_mut().unwrap().r += Fr::one());
                alt("opening point altered", &|p| p.folded_u_proof.as_mut().unwrap().opening_point += Fr::one());
                alt("E opening altered", &|p| p.folded_u_proof.as_mut().unwrap().opening_e.1 += Fr::one());
                alt("W opening altered", &|p| p.folded_u_proof.as_mut().unwrap().opening_w.1 += Fr::one());
                alt("trivial proof", &|p| *p = ZkIVCProof::trivial_zk_ivc_proof(&ti));
                for (nm, p) in alts {
                    let got = guard(|| ivc.verify(&p, &mut Transcript::<Sha256>::default()).is_ok());
                    c.check(got == Ok(false), format!("step {i}: {nm}: {got:?}, expected an error return"));
                }
            }
            // altered circuit states
            for (nm, kind) in [("current state altered", 0), ("initial state altered", 1), ("counter altered", 2)] {
                if kind == 2 && i == 0 { continue; }
                let b1 = Base::one();
                match kind { 0 => ivc.augmented_circuit.z_i.state += b1, 1 => ivc.augmented_circuit.z_0.state += b1, _ => ivc.augmented_circuit.i += b1 }
                let got = guard(|| ivc.verify(&zk, &mut Transcript::<Sha256>::default()).is_ok());
                c.check(got == Ok(false), format!("step {i}: {nm}: {got:?}, expected an error return"));
                match kind { 0 => ivc.augmented_circuit.z_i.state -= b1, 1 => ivc.augmented_circuit.z_0.state -= b1, _ => ivc.augmented_circuit.i -= b1 }
            }
            // the circuit's step
            let ok = guard(|| if i == 0 { ivc.augmented_circuit.run(&zk.u_i, None, &w, None) } else { ivc.augmented_circuit.run(&proof.u_i, Some(&proof.big_u_i), &w, zk.com_t.as_ref()) });
            if !c.check(matches!(ok, Ok(Ok(_))), format!("step {i}: circuit refused the honest step: {ok:?}")) { break; }
            z = f.run(&st(z), &w).state;
            ivc.augmented_circuit.next_step();
            c.eq(ivc.augmented_circuit.z_i.state, z, "state after the step");
        }
        // step zero accepts exactly equal states, whatever the proof
        let mut a = Aug::<Sha256>::new(f.clone(), &ti, &st(z0));
        let d = bscalar(&mut r);
        a.z_i.state = d;
        let mut ivc0 = IVC::<Sha256, Step> { scheme: KzgScheme::new(Srs::new_from_secret(sy.s, 1)), augmented_circuit: a };
        let got = guard(|| ivc0.verify(&zk, &mut Transcript::<Sha256>::default()).is_ok());
        c.check(got == Ok(d == z0), format!("step zero with states {z0} and {d}: {got:?}"));
        ivc0.augmented_circuit.z_i.state = z0;
        let got = guard(|| ivc0.verify(&zk, &mut Transcript::<Sha256>::default()).is_ok());
        c.check(got == Ok(true), "step zero with equal states rejected");
        let got = guard(|| ivc0.prove(&sy.r, &proof, &mut Transcript::<Sha256>::default()));
        c.check(matches!(&got, Ok((_, u, p)) if neq(u, &proof.big_u_i).is_none() && p.com_t.is_none() && p.folded_u_proof.is_none()), "prove at step zero");
    }
}

#[derive(Clone, PartialEq)]
enum It { S(Fr), C(Fr) }
fn showi(h: &[It]) -> String { h.iter().map(|i| match i { It::S(x) => short(x), It::C(x) => format!("com({})", short(x)) }).collect::<Vec<_>>().join(",") }

fn n08(c: &mut Ctx) {
    c.rule = "all histories up to length 3 over near-miss scalars and commitments compared pairwise, long ones altered in one item, order or count, draws interleaved, bulk against single; two hashes; non-trivial: all".into();
    n08_in::<Sha256>(c);
    n08_in::<Sha512>(c);
}
fn n08_in<T: sha2::Digest + Default + Clone>(c: &mut Ctx) {
    use std::collections::HashMap;
    let mut r = c.rng();
    let f = |x: u64| Fr::from(x);
    let mut memo: HashMap<Fr, KzgCommitment> = HashMap::new();
    let mut com = move |x: Fr| memo.entry(x).or_insert_with(|| KzgCommitment(g1(x))).clone();
    let mut feed = move |t: &mut Transcript<T>, i: &It| match i { It::S(x) => t.feed_scalar_num(*x), It::C(x) => t.feed(&com(*x)) };
    let mut build = move |h: &[It], draws: u64| { let mut t = Transcript::<T>::default(); for (i, x) in h.iter().enumerate() { if i > 0 && draws >> (i % 60) & 1 == 1 { let [_a, _b] = t.generate_challenges(); } feed(&mut t, x); } t };
    let al = [It::S(f(0)), It::S(f(1)), It::S(-f(1)), It::C(f(0)), It::C(f(1)), It::C(-f(1)), It::S(f(2).pow([128u64]))];
    let mut hs: Vec<Vec<It>> = al.iter().map(|a| vec![a.clone()]).collect();
    let mut cur = hs.clone();
    for _ in 0..c.n(2, 3) { cur = cur.iter().flat_map(|h| al.iter().map(move |a| { let mut g = h.clone(); g.push(a.clone()); g })).collect(); hs.extend(cur.clone()); }
    for b in 0..254u64 { let x = f(2).pow([b]) + f(3); hs.push(vec![It::S(x)]); hs.push(vec![It::S(f(3)), It::S(x)]); hs.push(vec![It::S(x), It::S(f(3))]); }
    for b in 2..12u64 { hs.push(vec![It::C(f(b))]); hs.push(vec![It::C(-f(b))]); hs.push(vec![It::C(f(b)), It::C(f(1))]); }
    if c.begin(format!("{} histories pairwise", hs.len()), true) {
        let mut seen: HashMap<[Fr; 1], Vec<It>> = HashMap::new();
        for h in hs {
            let Some(x) = c.total("drawing a challenge", || build(&h, 0).generate_challenges::<1>()) else { break };
            if let Some(o) = seen.insert(x, h.clone()) { if o != h && !c.check(false, format!("histories {} and {} give the same challenge", showi(&o), showi(&h))) { break; } }
        }
    }
    for k in 0..c.n(40, 500) {
        let n = if k % 10 == 9 { 300 } else { r.gen_range(1..10) };
        let h: Vec<It> = (0..n).map(|_| if n < 50 && r.gen_range(0..2) == 0 { It::C(f(r.gen_range(0..9))) } else { It::S(scalar(&mut r)) }).collect();
        if !c.begin(format!("history of {n}: {}", showi(&h[..n.min(8)])), true) { continue; }
        let Some(a) = c.total("drawing challenges", || build(&h, 0).generate_challenges::<3>()) else { continue };
        let d = r.gen::<u64>();
        if let Some(b) = c.total("drawing challenges", || build(&h, d).generate_challenges::<3>()) { c.eq(b, a, "challenges depend on earlier draws"); }
        c.eq(build(&h, 0).generate_challenges::<3>(), a, "challenges of equal histories");
        for kind in 0..6 {
            let mut g = h.clone();
            let i = r.gen_range(0..n);
            match kind {
                0 => g[i] = match &g[i] { It::S(x) => It::S(*x + Fr::one()), It::C(x) => It::C(*x + Fr::one()) },
                1 => { g.remove(i); if g.is_empty() { continue; } }
                2 => g.insert(i, g[i].clone()),
                3 => { let j = r.gen_range(0..n); g.swap(i, j); }
                4 => g[i] = match &g[i] { It::S(x) => It::S(-*x), It::C(x) => It::C(-*x) },
                _ => g.push(It::S(Fr::zero())),
            }
            if g == h { continue; }
            c.check(build(&g, 0).generate_challenges::<3>() != a, format!("altered history (kind {kind} at {i}) gives the same challenges"));
        }
        let mut t = build(&h, 0);
        let [_x] = t.generate_challenges();
        c.refuses("drawing twice without absorbing", || { let [_y] = t.generate_challenges(); });
        let mut t = build(&h, 0);
        let [_x, _z] = t.generate_challenges();
        c.refuses("drawing twice without absorbing", || { let _: [Fr; 3] = t.generate_challenges(); });
        let xs: Vec<Fr> = (0..if k % 10 == 9 { 150 } else { n.min(12) }).map(|_| scalar(&mut r)).collect();
        let single = build(&xs.iter().map(|x| It::S(*x)).collect::<Vec<_>>(), 0).generate_challenges::<2>();
        c.eq(Transcript::<T>::from_scalar_number(&xs).generate_challenges::<2>(), single, "bulk construction from scalars");
        let m = if k % 10 == 9 { 40 } else { 4 };
        let cs: Vec<It> = xs.iter().take(m).map(|x| It::C(*x)).collect();
        let coms: Vec<KzgCommitment> = xs.iter().take(m).map(|x| KzgCommitment(g1(*x))).collect();
        c.eq(Transcript::<T>::from_commitment(&coms).generate_challenges::<2>(), build(&cs, 0).generate_challenges::<2>(), "bulk construction from commitments");
    }
    // the stated recurrence: after absorbing, only the hash state matters
    if c.begin("state recurrence", true) {
        let mut t = Transcript::<T>::default();
        t.feed_scalar_num(f(5));
        let u = t.clone();
        let mut v = t.clone();
        let [_a] = v.generate_challenges();
        let (mut u, mut v) = (u, v);
        u.feed_scalar_num(f(6));
        v.feed_scalar_num(f(6));
        c.eq(u.generate_challenges::<2>(), v.generate_challenges::<2>(), "challenges after a draw");
    }
}
