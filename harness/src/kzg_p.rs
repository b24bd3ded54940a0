use crate::*;
use ark_bls12_381::{Fr, G1Affine, G2Affine};
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::{Field, One, UniformRand, Zero};
use ark_poly::univariate::DensePolynomial;
use ark_poly::DenseUVPolynomial;
use kzg::commitment::KzgCommitment;
use kzg::opening::KzgOpening;
use kzg::scheme::KzgScheme;
use kzg::srs::Srs;
use rand::RngCore;
use std::ops::{Add, Mul, Neg, Sub};

pub type Poly = DensePolynomial<Fr>;

pub fn g1(x: Fr) -> G1Affine { G1Affine::generator().mul(x).into_affine() }
pub fn g2(x: Fr) -> G2Affine { G2Affine::generator().mul(x).into_affine() }
pub fn horner(c: &[Fr], x: Fr) -> Fr {
    let mut a = Fr::zero();
    for k in c.iter().rev() { a = a * x + k; }
    a
}
pub fn trim(mut v: Vec<Fr>) -> Vec<Fr> {
    while v.last().map_or(false, |x| x.is_zero()) { v.pop(); }
    v
}
pub fn short(f: &Fr) -> String {
    let s = f.to_string();
    let s = if s.is_empty() { "0".to_string() } else { s };
    // small negatives are more readable
    let n = (-*f).to_string();
    if s.len() > 40 && n.len() < 12 { format!("-{n}") } else { s }
}
pub fn showv(v: &[Fr]) -> String { format!("[{}]", v.iter().map(short).collect::<Vec<_>>().join(",")) }
pub fn scalar(r: &mut impl Rng) -> Fr {
    match r.gen_range(0..8) {
        0 => Fr::zero(),
        1 => Fr::one(),
        2 => -Fr::one(),
        3 => Fr::from(2u64),
        4 => Fr::from(r.gen_range(0u64..20)),
        _ => Fr::rand(r),
    }
}
pub fn coeffs(r: &mut impl Rng, n: usize) -> Vec<Fr> {
    let style = r.gen_range(0..5);
    (0..n).map(|i| match style {
        0 => Fr::from((i + 1) as u64),
        1 => if r.gen_range(0..3) == 0 { scalar(r) } else { Fr::zero() },
        2 => if i + 1 == n { scalar(r) } else { Fr::zero() },
        _ => scalar(r),
    }).collect()
}
fn poly(c: &[Fr]) -> Poly { Poly::from_coefficients_vec(c.to_vec()) }

/// coefficient lists that exercise the corners, for a string that holds `max` coefficients
fn corner(max: usize) -> Vec<Vec<Fr>> {
    let f = |x: i64| if x < 0 { -Fr::from((-x) as u64) } else { Fr::from(x as u64) };
    let mut v: Vec<Vec<Fr>> = vec![
        vec![], vec![f(0)], vec![f(0), f(0), f(0)], vec![f(5)], vec![f(-1)], vec![f(0), f(1)], vec![f(7), f(1)],
        vec![f(6), f(-5), f(1)], vec![f(1), f(2), f(3), f(0), f(0)], vec![f(0), f(0), f(4)],
    ];
    v.retain(|c| trim(c.clone()).len() <= max);
    v.push((1..=max as u64).map(Fr::from).collect());
    let mut last = vec![f(0); max];
    last[max - 1] = f(9);
    v.push(last.clone());
    last.push(f(0)); // trailing zero beyond the string
    v.push(last);
    v
}

fn secrets(r: &mut impl Rng) -> Vec<Fr> { vec![Fr::from(2u64), Fr::zero(), Fr::one(), -Fr::one(), Fr::rand(r)] }

pub fn run(p: &str, c: &mut Ctx) -> bool {
    match p { "K01" => k01(c), "K02" => k02(c), "K03" => k03(c), "K04" => k04(c), "K05" => k05(c), "K06" => k06(c), _ => return false }
    true
}

fn k01(c: &mut Ctx) {
    c.rule = "secret from {0,1,-1,2,random}, size 0..; every point recomputed from the generator; non-trivial: size>0 and secret not 0 or 1".into();
    let mut r = c.rng();
    let mut list = vec![];
    for s in secrets(&mut r) { for n in [0usize, 1, 2, 3, 4, 7, 8, 16, 33] { list.push((s, n)); } }
    for _ in 0..c.n(25, 300) { let n = r.gen_range(0..40); list.push((scalar(&mut r), n)); }
    for n in [62, 63, 125, 126, 127, 128, 254, 255, 256, 300, c.n(530, 2100)] { list.push((Fr::rand(&mut r), n)); }
    for (s, n) in list {
        if !c.begin(format!("secret={} size={n}", short(&s)), n > 0 && s != Fr::zero() && s != Fr::one()) { continue; }
        let Some(srs) = c.total("Srs::new_from_secret", || Srs::new_from_secret(s, n)) else { continue };
        let pts = srs.g1_points();
        if !c.eq(pts.len(), n + 3, "number of first-group points") { continue; }
        let mut w = Fr::one();
        for (i, q) in pts.iter().enumerate() {
            if !c.check(*q == g1(w), format!("point {i} is not secret^{i} times the generator")) { break; }
            w *= s;
        }
        c.eq(srs.g2(), g2(Fr::one()), "second-group generator");
        c.eq(srs.g2s(), g2(s), "second-group secret point");
    }
    for n in [0usize, 5] {
        if !c.begin(format!("Srs::new({n}) with its own randomness"), true) { continue; }
        let a = Srs::new(n);
        let b = Srs::new(n);
        c.eq(a.g1_points().len(), n + 3, "number of points");
        c.check(a.g1_points()[1] != b.g1_points()[1], "two setups share their secret");
        c.eq(a.g1_points()[0], g1(Fr::one()), "first point");
        // consistency of the two groups: e(g1[i+1], g2) == e(g1[i], g2s)
        use ark_ec::pairing::Pairing;
        for i in 0..n + 2 {
            c.check(ark_bls12_381::Bls12_381::pairing(a.g1_points()[i + 1], a.g2()) == ark_bls12_381::Bls12_381::pairing(a.g1_points()[i], a.g2s()), format!("points {i} and {} are not successive powers", i + 1));
        }
    }
}

fn k02(c: &mut Ctx) {
    c.rule = "secrets {2,0,1,-1,random} x sizes 0..12 x corner and random coefficient lists (zero, sparse, full, trailing zeros, too long); commitment recomputed as p(s)G; non-trivial: non-constant polynomial".into();
    let mut r = c.rng();
    for s in secrets(&mut r) {
        for n in [0usize, 1, 5] {
            let sch = KzgScheme::new(Srs::new_from_secret(s, n));
            let mut lists = corner(n + 3);
            for _ in 0..c.n(6, 60) { let l = r.gen_range(0..n + 4); lists.push(coeffs(&mut r, l)); }
            for v in lists {
                let t = trim(v.clone());
                if t.len() > n + 3 { continue; }
                if !c.begin(format!("secret={} size={n} coefficients={}", short(&s), showv(&v)), t.len() > 1) { continue; }
                let want = KzgCommitment(g1(horner(&t, s)));
                if let Some(x) = c.total("commit", || sch.commit(&poly(&v))) { c.eq(x, want.clone(), "commit"); }
                if let Some(x) = c.total("commit_vector", || sch.commit_vector(&v)) { c.eq(x, want.clone(), "commit_vector"); }
            }
            for _ in 0..3 {
                let k = scalar(&mut r);
                if !c.begin(format!("secret={} size={n} scalar={}", short(&s), short(&k)), true) { continue; }
                if let Some(x) = c.total("commit_para", || sch.commit_para(k)) { c.eq(x, KzgCommitment(g1(k)), "commit_para"); }
            }
            for extra in [1usize, 2, 5] {
                let mut v = coeffs(&mut r, n + 3 + extra);
                *v.last_mut().unwrap() = Fr::from(3u64);
                if !c.begin(format!("secret={} size={n} oversized coefficients={}", short(&s), showv(&v)), true) { continue; }
                c.refuses("commit of an oversized polynomial", || sch.commit(&poly(&v)));
                c.refuses("commit_vector of an oversized polynomial", || sch.commit_vector(&v));
            }
        }
    }
    for n in [14usize, 17, 30, 40, 62, 64, 100, 130, 257, c.n(520, 1100)] {
        let s = Fr::rand(&mut r);
        let sch = KzgScheme::new(Srs::new_from_secret(s, n));
        for v in longs(&mut r, n + 3) {
            if !c.begin(format!("secret={} size={n} {} coefficients={}", short(&s), v.len(), showv(&v)), true) { continue; }
            let want = KzgCommitment(g1(horner(&v, s)));
            if let Some(x) = c.total("commit", || sch.commit(&poly(&v))) { c.eq(x, want.clone(), "commit"); }
            if let Some(x) = c.total("commit_vector", || sch.commit_vector(&v)) { c.eq(x, want, "commit_vector"); }
        }
        let v = rfull(&mut r, n + 4);
        if c.begin(format!("secret={} size={n} oversized by one", short(&s)), true) {
            c.refuses("commit of an oversized polynomial", || sch.commit(&poly(&v)));
            c.refuses("commit_vector of an oversized polynomial", || sch.commit_vector(&v));
        }
    }
}

/// coefficient lists for a setup with m points: full, one short, half, a single high coefficient, trailing zeros, small values
fn longs(r: &mut StdRng, m: usize) -> Vec<Vec<Fr>> {
    let mut l = vec![rfull(r, m), rfull(r, m - 1), rfull(r, m / 2 + 1), vec![Fr::zero(); m], rfull(r, m), (0..m).map(|i| Fr::from(i as u64 % 3)).collect()];
    l[3][m - 1] = Fr::rand(r);
    for x in l[4][m - m / 3..].iter_mut() { *x = Fr::zero(); }
    l
}
fn rfull(r: &mut StdRng, m: usize) -> Vec<Fr> { (0..m).map(|_| Fr::rand(r)).collect() }

fn k03(c: &mut Ctx) {
    c.rule = "secrets x sizes x corner/random polynomials x points {0,1,s,a root,random}; evaluation against Horner, witness against (p(s)-p(z))/(s-z), acceptance; non-trivial: degree >= 1".into();
    let mut r = c.rng();
    for s in secrets(&mut r) {
        for n in [0usize, 2, 6] {
            let sch = KzgScheme::new(Srs::new_from_secret(s, n));
            let mut lists = corner(n + 3);
            for _ in 0..c.n(3, 50) { let l = r.gen_range(0..n + 4); lists.push(coeffs(&mut r, l)); }
            for v in lists {
                let t = trim(v.clone());
                let mut pts = vec![Fr::zero(), s, Fr::from(2u64), scalar(&mut r), Fr::rand(&mut r)];
                if !c.thorough { let k = r.gen_range(0..5); pts = vec![pts[k], pts[(k + 2) % 5]]; }
                for z in pts {
                    if !c.begin(format!("secret={} size={n} coefficients={} z={}", short(&s), showv(&v), short(&z)), t.len() > 1) { continue; }
                    let y = horner(&t, z);
                    let com = KzgCommitment(g1(horner(&t, s)));
                    for (nm, o) in [("open", c.total("open", || sch.open(&poly(&v), z))), ("open_vector", c.total("open_vector", || sch.open_vector(&v, z)))] {
                        let Some(o) = o else { continue };
                        c.eq(o.1, y, &format!("{nm}: evaluation"));
                        c.eq(o.clone().eval(), y, &format!("{nm}: eval()"));
                        if s != z {
                            let w = (horner(&t, s) - y) * (s - z).inverse().unwrap();
                            c.eq(o.0, g1(w), &format!("{nm}: witness"));
                        }
                        if let Some(ok) = c.total("verify", || sch.verify(&com, &o, z)) { c.check(ok, format!("{nm}: honest opening rejected")); }
                        if let Some(k) = c.total("commit", || sch.commit(&poly(&v))) {
                            if let Some(ok) = c.total("verify", || sch.verify(&k, &o, z)) { c.check(ok, format!("{nm}: honest opening rejected against commit()")); }
                        }
                    }
                }
            }
        }
    }
    for n in [14usize, 17, 30, 40, 62, 64, 130, c.n(257, 600)] {
        let s = Fr::rand(&mut r);
        let sch = KzgScheme::new(Srs::new_from_secret(s, n));
        for (i, v) in longs(&mut r, n + 3).into_iter().enumerate() {
            let z = if i % 3 == 0 { scalar(&mut r) } else { Fr::rand(&mut r) };
            if !c.begin(format!("secret={} size={n} {} coefficients={} z={}", short(&s), v.len(), showv(&v), short(&z)), true) { continue; }
            let (y, com) = (horner(&v, z), KzgCommitment(g1(horner(&v, s))));
            for (nm, o) in [("open", c.total("open", || sch.open(&poly(&v), z))), ("open_vector", c.total("open_vector", || sch.open_vector(&v, z)))] {
                let Some(o) = o else { continue };
                c.eq(o.1, y, &format!("{nm}: evaluation"));
                if s != z { c.eq(o.0, g1((horner(&v, s) - y) * (s - z).inverse().unwrap()), &format!("{nm}: witness")); }
                if let Some(ok) = c.total("verify", || sch.verify(&com, &o, z)) { c.check(ok, format!("{nm}: honest opening rejected")); }
            }
        }
    }
}

fn k04(c: &mut Ctx) {
    c.rule = "tuples (c,w,y,z) of known discrete logarithms, random ones, solutions of the equation, and solutions with one component altered; verdict compared with w(s-z)=c-y; non-trivial: w,c,y,z not all zero".into();
    let mut r = c.rng();
    for s in secrets(&mut r) {
        let sch = KzgScheme::new(Srs::new_from_secret(s, 4));
        for k in 0..c.n(10, 150) {
            let (w, y, z) = match k {
                0 => (Fr::zero(), Fr::zero(), Fr::zero()),
                1 => (Fr::zero(), Fr::one(), Fr::one()),
                2 => (Fr::one(), Fr::zero(), s),
                _ => (scalar(&mut r), scalar(&mut r), scalar(&mut r)),
            };
            let good = w * (s - z) + y;
            let d = Fr::from(r.gen_range(1u64..5));
            let dr = Fr::rand(&mut r);
            for (nm, cc, ww, yy, zz) in [
                ("solution", good, w, y, z), ("commitment altered", good + d, w, y, z), ("witness altered", good, w + dr, y, z),
                ("value altered", good, w, y + d, z), ("point altered", good, w, y, z + d), ("negated commitment", -good, w, y, z),
                ("negated witness", good, -w, y, z), ("negated value", good, w, -y, z), ("value and commitment exchanged", y, w, good, z), ("random commitment", dr, w, y, z),
                ("commitment and value both shifted", good + d, w, y + d, z), ("witness and point zero", good, Fr::zero(), y, Fr::zero()),
            ] {
                if !c.thorough && nm != "solution" && r.gen_range(0..2) == 0 && k > 2 { continue; }
                if !c.begin(format!("{nm}: secret={} c={} w={} y={} z={}", short(&s), short(&cc), short(&ww), short(&yy), short(&zz)), !(cc.is_zero() && ww.is_zero())) { continue; }
                let want = ww * (s - zz) == cc - yy;
                if let Some(got) = c.total("verify", || sch.verify(&KzgCommitment(g1(cc)), &KzgOpening(g1(ww), yy), zz)) {
                    c.eq(got, want, "verify");
                }
            }
        }
    }
    // honest openings with one alteration
    for _ in 0..c.n(6, 60) {
        let s = Fr::rand(&mut r);
        let sch = KzgScheme::new(Srs::new_from_secret(s, 6));
        let v = coeffs(&mut r, 7);
        let z = scalar(&mut r);
        if !c.begin(format!("honest opening altered: secret={} coefficients={} z={}", short(&s), showv(&v), short(&z)), true) { continue; }
        let com = sch.commit(&poly(&v));
        let o = sch.open(&poly(&v), z);
        c.check(sch.verify(&com, &o, z), "honest opening rejected");
        let e = g1(Fr::from(1u64));
        c.check(!sch.verify(&com, &KzgOpening(o.0, o.1 + Fr::one()), z), "altered value accepted");
        c.check(!sch.verify(&com, &KzgOpening((o.0 + e).into_affine(), o.1), z), "altered witness accepted");
        c.check(!sch.verify(&KzgCommitment((com.0 + e).into_affine()), &o, z), "altered commitment accepted");
        if !o.0.is_zero() { c.check(!sch.verify(&com, &o, z + Fr::one()), "altered point accepted"); }
    }
}

/// A random source with prescribed 64-bit words, then pseudo-random ones.
struct Fixed(Vec<u64>, StdRng, usize);
impl RngCore for Fixed {
    fn next_u32(&mut self) -> u32 { self.2 += 4; if self.0.is_empty() { self.1.next_u32() } else { self.0.remove(0) as u32 } }
    fn next_u64(&mut self) -> u64 { self.2 += 8; if self.0.is_empty() { self.1.next_u64() } else { self.0.remove(0) } }
    fn fill_bytes(&mut self, d: &mut [u8]) { for b in d.iter_mut() { *b = self.next_u64() as u8; self.2 -= 7; } }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> { self.fill_bytes(d); Ok(()) }
}

fn k05(c: &mut Ctx) {
    c.rule = "0..8 commitments with known logarithms, challenges {0,1,-1,random}; batches of valid openings with arbitrary randomness (all-zero included) and batches with one or two invalid, possibly cancelling, openings, under random draws and under differing draws sharing a 64-bit word; non-trivial: at least two entries".into();
    let mut r = c.rng();
    let many = [12usize, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 130, 257];
    for k in 0..c.n(60, 600) + many.len() {
        let n = if k < 9 { k } else if k < c.n(60, 600) { r.gen_range(0..9) } else { many[k - c.n(60, 600)] };
        let l: Vec<Fr> = (0..n).map(|_| scalar(&mut r)).collect();
        let v = scalar(&mut r);
        if !c.begin(format!("aggregate logs={} challenge={}", showv(&l), short(&v)), n > 1) { continue; }
        let coms: Vec<KzgCommitment> = l.iter().map(|x| KzgCommitment(g1(*x))).collect();
        let refs: Vec<&KzgCommitment> = coms.iter().collect();
        if let Some(x) = c.total("aggregate_commitments", || KzgScheme::aggregate_commitments(&refs, &v)) {
            c.eq(x, KzgCommitment(g1(horner(&l, v))), "aggregate_commitments");
        }
    }
    for k in 0..c.n(24, 240) {
        let n = if k < 5 { k } else { r.gen_range(1..7) };
        let s = if r.gen_range(0..3) == 0 { scalar(&mut r) } else { Fr::rand(&mut r) };
        let mode = r.gen_range(0..3);
        let z: Vec<Fr> = (0..n).map(|_| scalar(&mut r)).collect();
        let polys: Vec<Vec<Fr>> = (0..n).map(|_| { let l = r.gen_range(0..6); coeffs(&mut r, l) }).collect();
        if !c.begin(format!("batch secret={} points={} polynomials={} randomness mode {mode}", short(&s), showv(&z), polys.iter().map(|p| showv(p)).collect::<Vec<_>>().join(" ")), n > 1) { continue; }
        let sch = KzgScheme::new(Srs::new_from_secret(s, 4));
        let coms: Vec<KzgCommitment> = polys.iter().map(|p| KzgCommitment(g1(horner(p, s)))).collect();
        let ops: Vec<KzgOpening> = polys.iter().zip(&z).map(|(p, z)| sch.open(&poly(p), *z)).collect();
        let words = match mode { 0 => vec![], 1 => vec![0; 4], _ => vec![u64::MAX; 40] };
        let mut src = Fixed(words, StdRng::seed_from_u64(c.seed ^ k as u64), 0);
        if let Some(ok) = c.total("batch_verify", || sch.batch_verify(&coms, &z, &ops, &mut src)) { c.check(ok, "valid batch rejected"); }
        if n == 0 { continue; }
        // one invalid entry, at each position, in each component
        for i in 0..n {
            for kind in 0..4 {
                let (mut cc, mut zz, mut oo) = (coms.clone(), z.clone(), ops.clone());
                match kind {
                    0 => cc[i] = KzgCommitment((cc[i].0 + g1(Fr::one())).into_affine()),
                    1 => oo[i].1 += Fr::one(),
                    2 => oo[i].0 = (oo[i].0 + g1(Fr::one())).into_affine(),
                    _ => zz[i] += Fr::one(),
                }
                if (kind == 3 && ops[i].0.is_zero()) || (kind == 2 && s == z[i]) { continue; }
                let mut src = StdRng::seed_from_u64(c.seed.wrapping_add(977 * k as u64 + i as u64));
                if let Some(ok) = c.total("batch_verify", || sch.batch_verify(&cc, &zz, &oo, &mut src)) {
                    c.check(!ok, format!("batch with entry {i} invalid (component {kind}) accepted"));
                }
            }
        }
        // errors that cancel without, or with position-only, randomisation
        for i in 0..n { for j in 0..n { if i == j { continue; }
            let d = Fr::from(3u64);
            for f in [-Fr::one(), Fr::one()] {
                let mut oo = ops.clone();
                oo[i].1 += d;
                oo[j].1 += d * f;
                let mut src = StdRng::seed_from_u64(c.seed.wrapping_add(31 * k as u64 + (7 * i + j) as u64));
                if let Some(ok) = c.total("batch_verify", || sch.batch_verify(&coms, &z, &oo, &mut src)) {
                    c.check(!ok, format!("batch with opposite errors at {i} and {j} accepted"));
                }
                // the 128-bit draws differ, some 64-bit words of them do not
                let w: Vec<u64> = (0..2 * n).map(|_| r.gen()).collect();
                for (x, y) in [(i, j), (2 * i, 2 * j), (2 * i + 1, 2 * j + 1)] {
                    let mut w = w.clone();
                    w[y] = w[x];
                    if w[2 * i] == w[2 * j] && w[2 * i + 1] == w[2 * j + 1] { continue; }
                    let mut src = Fixed(w, StdRng::seed_from_u64(5), 0);
                    if let Some(ok) = c.total("batch_verify", || sch.batch_verify(&coms, &z, &oo, &mut src)) {
                        c.check(!ok, format!("batch with opposite errors at {i} and {j} accepted, randomness words {x} and {y} equal"));
                    }
                }
                if !c.thorough { break; }
            }
        } }
        c.refuses("batch with a missing opening", || sch.batch_verify(&coms, &z, &ops[1..], &mut StdRng::seed_from_u64(1)));
        c.refuses("batch with a missing point", || sch.batch_verify(&coms, &z[1..], &ops, &mut StdRng::seed_from_u64(1)));
        c.refuses("batch with a missing commitment", || sch.batch_verify(&coms[1..], &z, &ops, &mut StdRng::seed_from_u64(1)));
        c.refuses("batch with a surplus commitment", || sch.batch_verify(&coms, &z[1..], &ops[1..], &mut StdRng::seed_from_u64(1)));
    }
    // long batches
    for n in [8usize, 9, 12, 16, 17, 20, 32, 33, 64, 65, c.n(100, 300)] {
        let s = Fr::rand(&mut r);
        if !c.begin(format!("batch of {n} secret={}", short(&s)), true) { continue; }
        let sch = KzgScheme::new(Srs::new_from_secret(s, 4));
        let z: Vec<Fr> = (0..n).map(|_| scalar(&mut r)).collect();
        let polys: Vec<Vec<Fr>> = (0..n).map(|_| { let l = r.gen_range(0..6); coeffs(&mut r, l) }).collect();
        let coms: Vec<KzgCommitment> = polys.iter().map(|p| KzgCommitment(g1(horner(p, s)))).collect();
        let ops: Vec<KzgOpening> = polys.iter().zip(&z).map(|(p, z)| sch.open(&poly(p), *z)).collect();
        let seed = c.seed ^ n as u64;
        let mut ver = |c: &mut Ctx, oo: &[KzgOpening]| c.total("batch_verify", || sch.batch_verify(&coms, &z, oo, &mut StdRng::seed_from_u64(seed)));
        if let Some(ok) = ver(c, &ops) { c.check(ok, "valid batch rejected"); }
        let mut at: Vec<usize> = vec![0, 1, 2, 3, 4, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, n / 2, n - 3, n - 2, n - 1];
        at.retain(|i| *i < n);
        for &i in &at {
            let mut oo = ops.clone();
            oo[i].1 += Fr::one();
            if let Some(ok) = ver(c, &oo) { c.check(!ok, format!("batch of {n} with entry {i} invalid accepted")); }
            for &j in &at {
                if j <= i || (i + j) % 3 != 0 { continue; }
                let mut oo = ops.clone();
                oo[i].1 += Fr::one();
                oo[j].1 -= Fr::one();
                if let Some(ok) = ver(c, &oo) { c.check(!ok, format!("batch of {n} with opposite errors at {i} and {j} accepted")); }
            }
        }
    }
    // two opposite errors, many random sources: narrow randomness would let some through
    for k in 0..c.n(60, 1500) {
        let s = Fr::rand(&mut r);
        if !c.begin(format!("opposite errors in a batch of two #{k}"), true) { continue; }
        let sch = KzgScheme::new(Srs::new_from_secret(s, 1));
        let d = Fr::from(1u64 + (k as u64) / 8);
        let coms = [KzgCommitment(g1(Fr::from(5u64))), KzgCommitment(g1(Fr::from(7u64)))];
        let zero = G1Affine::zero();
        let ops = [KzgOpening(zero, Fr::from(5u64) + d), KzgOpening(zero, Fr::from(7u64) - d)];
        let z = [Fr::from(1u64), Fr::from(2u64)];
        let mut src = Fixed(vec![], StdRng::seed_from_u64(c.seed.wrapping_mul(7919).wrapping_add(k as u64)), 0);
        if let Some(ok) = c.total("batch_verify", || sch.batch_verify(&coms, &z, &ops, &mut src)) {
            c.check(!ok, "a batch of two invalid openings with opposite errors is accepted");
            c.check(src.2 >= 16, format!("only {} bytes of randomness drawn for a batch of two", src.2));
        }
    }
}

fn k06(c: &mut Ctx) {
    c.rule = "pairs of corner/random polynomials, scalars, common points; results compared with the committed sum/difference/negation/multiple and verified; non-trivial: both polynomials non-zero".into();
    let mut r = c.rng();
    for k in 0..c.n(60, 800) + 8 {
        let s = if k % 4 == 0 { scalar(&mut r) } else { Fr::rand(&mut r) };
        let long = k >= c.n(60, 800);
        let la = if long { r.gen_range(9..150) } else { r.gen_range(0..8) };
        let lb = if long { r.gen_range(0..150) } else { r.gen_range(0..8) };
        let (a, b) = (coeffs(&mut r, la), coeffs(&mut r, lb));
        let b = match r.gen_range(0..6) { 0 => a.clone(), 1 => a.iter().map(|x| -*x).collect(), _ => b };
        let f = scalar(&mut r);
        let z = scalar(&mut r);
        if !c.begin(format!("secret={} p={} q={} factor={} z={}", short(&s), showv(&a), showv(&b), short(&f), short(&z)), !trim(a.clone()).is_empty() && !trim(b.clone()).is_empty()) { continue; }
        let sch = KzgScheme::new(Srs::new_from_secret(s, la.max(lb).max(6)));
        let n = a.len().max(b.len());
        let at = |v: &Vec<Fr>, i: usize| v.get(i).copied().unwrap_or(Fr::zero());
        let sum: Vec<Fr> = (0..n).map(|i| at(&a, i) + at(&b, i)).collect();
        let (pa, pb) = (horner(&a, s), horner(&b, s));
        let (ca, cb) = (KzgCommitment(g1(pa)), KzgCommitment(g1(pb)));
        let want = |x: Fr| KzgCommitment(g1(x));
        if let Some(x) = c.total("add", || ca.clone().add(cb.clone())) { c.eq(x, want(pa + pb), "sum of commitments"); }
        if let Some(x) = c.total("sub", || ca.clone().sub(cb.clone())) { c.eq(x, want(pa - pb), "difference of commitments"); }
        if let Some(x) = c.total("neg", || ca.clone().neg()) { c.eq(x, want(-pa), "negated commitment"); }
        if let Some(x) = c.total("mul", || ca.clone().mul(f)) { c.eq(x, want(pa * f), "scaled commitment"); }
        if let Some(x) = c.total("&mul", || (&ca).mul(f)) { c.eq(x, want(pa * f), "scaled commitment reference"); }
        c.eq(*ca.inner(), ca.0, "inner");
        let (oa, ob) = (sch.open(&poly(&a), z), sch.open(&poly(&b), z));
        if let Some(o) = c.total("opening add", || oa.clone().add(ob.clone())) {
            c.eq(o.1, oa.1 + ob.1, "sum of evaluations");
            c.eq(o.1, horner(&sum, z), "evaluation of the sum");
            c.check(sch.verify(&want(pa + pb), &o, z), "sum of openings does not verify against the sum of commitments");
            if s != z { c.eq(o.0, g1((pa + pb - horner(&sum, z)) * (s - z).inverse().unwrap()), "sum of witnesses"); }
        }
    }
}
