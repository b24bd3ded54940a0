use crate::kzg_p::*;
use crate::*;
use ark_bls12_381::{Bls12_381, Fr, G1Affine, G1Projective, G2Affine};
use ark_ec::pairing::Pairing;
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::{Field, One, UniformRand, Zero};
use ark_poly::{DenseUVPolynomial, EvaluationDomain, Evaluations, GeneralEvaluationDomain, Polynomial};
use kzg::commitment::KzgCommitment;
use kzg::scheme::KzgScheme;
use kzg::srs::Srs;
use plonk::circuit::Circuit;
use plonk::common_preprocessed_input::cpi_circuit::CPICircuit;
use plonk::common_preprocessed_input::cpi_parser::CPIGenerator;
use plonk::compiled_circuit::CompiledCircuit;
use plonk::constraint::{CopyConstraints, GateConstraints};
use plonk::parser::Parser;
use plonk::prover::{generate_proof, Proof};
use plonk::verifier::verify;
use sha2::{Sha256, Sha384, Sha512};
use std::collections::{BTreeMap, HashMap};

pub fn run(p: &str, c: &mut Ctx) -> bool {
    match p {
        "P01" => p01(c), "P02" => p02(c), "P03" => p03(c), "P04" => p04(c), "P05" => p05(c),
        "P06" => p06(c), "P07" => p07(c), "P08" => p08(c), "P09" => p09(c), "P10" => p10(c),
        _ => return false,
    }
    true
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kd { Add, Mul, Con }
#[derive(Clone, Debug)]
struct G { k: Kd, pos: [(usize, usize); 3], v: [Fr; 3], cst: Fr, pi: Fr }

fn showg(g: &[G]) -> String {
    g.iter().map(|x| format!("{}{}@{:?} pi={}", match x.k { Kd::Add => "add", Kd::Mul => "mul", Kd::Con => "const" }, showv(&x.v), x.pos, short(&x.pi))).collect::<Vec<_>>().join("; ")
}
fn circ(g: &[G]) -> Circuit {
    let mut c = Circuit::default();
    for x in g {
        let t = |i: usize| (x.pos[i].0, x.pos[i].1, x.v[i]);
        match x.k {
            Kd::Add => c.add_addition_gate(t(0), t(1), t(2), x.pi),
            Kd::Mul => c.add_multiplication_gate(t(0), t(1), t(2), x.pi),
            Kd::Con => c.add_constant_gate(t(0), t(1), t(2), x.pi),
        }
    }
    c
}
fn cpi(g: &[G]) -> CPICircuit {
    let mut c = CPICircuit::default();
    for x in g {
        c = match x.k {
            Kd::Add => c.add_addition_gate(x.pos[0], x.pos[1], x.pos[2], x.pi),
            Kd::Mul => c.add_multiplication_gate(x.pos[0], x.pos[1], x.pos[2], x.pi),
            Kd::Con => c.add_constant_gate(x.pos[0], x.pos[1], x.pos[2], x.cst, x.pi),
        }
    }
    c
}
/// selectors l r o m c pi of a gate, from its meaning
fn sels(g: &G) -> [Fr; 6] {
    let (z, o) = (Fr::zero(), Fr::one());
    match g.k {
        Kd::Add => [o, o, -o, z, z, -g.pi],
        Kd::Mul => [z, z, -o, o, z, -g.pi],
        Kd::Con => [o, z, z, z, -g.cst, -g.pi],
    }
}
fn dom(n: usize) -> GeneralEvaluationDomain<Fr> { GeneralEvaluationDomain::new(n).unwrap() }
fn inter(v: Vec<Fr>, n: usize) -> Poly { Evaluations::from_vec_and_domain(v, dom(n)).interpolate() }

/// a compiled circuit built from the definition, not by the code under test
fn own_compile(g: &[G]) -> CompiledCircuit {
    let n = g.len().next_power_of_two();
    let d = dom(n);
    let mut w = vec![vec![Fr::zero(); n]; 3];
    let mut q = vec![vec![Fr::zero(); n]; 6];
    let ks = [Fr::one(), Fr::from(2u64), Fr::from(3u64)];
    let mut s: Vec<Vec<Fr>> = (0..3).map(|j| (0..n).map(|i| ks[j] * d.element(i)).collect()).collect();
    for (i, x) in g.iter().enumerate() {
        let sl = sels(x);
        for j in 0..3 { w[j][i] = x.v[j]; s[j][i] = ks[x.pos[j].0] * d.element(x.pos[j].1); }
        for j in 0..6 { q[j][i] = sl[j]; }
    }
    let w: Vec<Poly> = w.into_iter().map(|v| inter(v, n)).collect();
    let q: Vec<Poly> = q.into_iter().map(|v| inter(v, n)).collect();
    let s: Vec<Poly> = s.into_iter().map(|v| inter(v, n)).collect();
    CompiledCircuit::new(
        GateConstraints::new(w[0].clone(), w[1].clone(), w[2].clone(), q[0].clone(), q[1].clone(), q[2].clone(), q[3].clone(), q[4].clone(), q[5].clone()),
        CopyConstraints::new(s[0].clone(), s[1].clone(), s[2].clone(), ks[1], ks[2]), n)
}
fn clonecc(c: &CompiledCircuit) -> CompiledCircuit {
    let (g, s) = (c.gate_constraints(), c.copy_constraints());
    CompiledCircuit::new(
        GateConstraints::new(g.f_ax().clone(), g.f_bx().clone(), g.f_cx().clone(), g.q_lx().clone(), g.q_rx().clone(), g.q_ox().clone(), g.q_mx().clone(), g.q_cx().clone(), g.pi_x().clone()),
        CopyConstraints::new(s.s_sigma_1().clone(), s.s_sigma_2().clone(), s.s_sigma_3().clone(), *s.k1(), *s.k2()), c.size)
}

struct Row { w: [Fr; 3], q: [Fr; 6], s: [Fr; 3] }
fn rows(g: &GateConstraints, s: &CopyConstraints, n: usize) -> Vec<Row> {
    (0..n).map(|i| {
        let x = dom(n).element(i);
        Row {
            w: [g.f_ax().evaluate(&x), g.f_bx().evaluate(&x), g.f_cx().evaluate(&x)],
            q: [g.q_lx().evaluate(&x), g.q_rx().evaluate(&x), g.q_ox().evaluate(&x), g.q_mx().evaluate(&x), g.q_cx().evaluate(&x), g.pi_x().evaluate(&x)],
            s: [s.s_sigma_1().evaluate(&x), s.s_sigma_2().evaluate(&x), s.s_sigma_3().evaluate(&x)],
        }
    }).collect()
}
fn resid(q: &[Fr; 6], w: &[Fr; 3]) -> Fr { q[0] * w[0] + q[1] * w[1] + q[2] * w[2] + q[3] * w[0] * w[1] + q[4] + q[5] }

fn rpos(r: &mut impl Rng, n: usize) -> [(usize, usize); 3] { let mut p = || (r.gen_range(0..3), r.gen_range(0..n)); [p(), p(), p()] }
/// arbitrary gates, satisfied or not
fn anyg(r: &mut impl Rng, n: usize) -> Vec<G> {
    (0..n).map(|_| {
        let k = *pick(r, &[Kd::Add, Kd::Mul, Kd::Con]);
        let v = [scalar(r), scalar(r), scalar(r)];
        let pi = if r.gen_range(0..2) == 0 { Fr::zero() } else { scalar(r) };
        G { k, pos: rpos(r, n), v, cst: v[0], pi }
    }).collect()
}

fn p01(c: &mut Ctx) {
    c.rule = "circuits of 1..9 arbitrary gates, some of 17, 40, 70; each row's gate equation read off the compiled polynomials is evaluated on wire values that satisfy, miss by one and miss randomly the gate's meaning; wires and positions compared; preprocessing side the same; non-trivial: non-zero public input or constant".into();
    let mut r = c.rng();
    for k in 0..c.n(150, 3000) {
        let n = if k % 37 == 36 { [17, 40, 70, 33][k / 37 % 4] } else { 1 + k % 9 };
        let mut g = anyg(&mut r, n);
        if k % 4 == 0 { for x in g.iter_mut() { x.cst = x.v[0]; x.pi = Fr::from((k % 7) as u64); } }
        if !c.begin(showg(&g), g.iter().any(|x| !x.pi.is_zero())) { continue; }
        let Some(Ok(cc)) = c.total("compile", || circ(&g).compile()) else { c.check(false, "compile failed"); continue };
        let rw = rows(cc.gate_constraints(), cc.copy_constraints(), cc.size);
        let Some(Ok((pg, ps, pn))) = c.total("preprocessing compile", || cpi(&g).compile()) else { c.check(false, "preprocessing compile failed"); continue };
        let prw = rows(&pg, &ps, pn);
        if !c.check(rw.len() >= n && prw.len() == rw.len(), "number of rows") { continue; }
        let one = Fr::one();
        for (i, x) in g.iter().enumerate() {
            for (side, q) in [("circuit", &rw[i].q), ("preprocessing", &prw[i].q)] {
                for _ in 0..3 {
                    let (a, b) = (scalar(&mut r), scalar(&mut r));
                    let (good, bad): (Vec<[Fr; 3]>, Vec<[Fr; 3]>) = match x.k {
                        Kd::Add => { let s = a + b - x.pi; (vec![[a, b, s]], vec![[a, b, s + one], [a, b, s - one], [a + one, b, s], [a, b + one, s], [a, b, s + x.pi + x.pi + if x.pi.is_zero() { one } else { Fr::zero() }]]) }
                        Kd::Mul => { let s = a * b - x.pi; (vec![[a, b, s]], vec![[a, b, s + one], [a, b, -s + if s.is_zero() { one } else { Fr::zero() }]]) }
                        Kd::Con => { let s = x.cst + x.pi; (vec![[s, a, b], [s, b, a]], vec![[s + one, a, b], [s - one, a, b]]) }
                    };
                    for w in good { c.check(resid(q, &w).is_zero(), format!("{side}: the equation of gate {i} rejects {}", showv(&w))); }
                    for w in bad {
                        let ok = match x.k { Kd::Add => w[2] == w[0] + w[1] - x.pi, Kd::Mul => w[2] == w[0] * w[1] - x.pi, Kd::Con => w[0] == x.cst + x.pi };
                        if !ok { c.check(!resid(q, &w).is_zero(), format!("{side}: the equation of gate {i} accepts {}", showv(&w))); }
                    }
                }
            }
            c.eq(rw[i].w, x.v, &format!("wire values of gate {i}"));
            c.eq(rw[i].q, prw[i].q, &format!("selectors of gate {i} on the two sides"));
            let ks = [one, *cc.copy_constraints().k1(), *cc.copy_constraints().k2()];
            let lab: Vec<Fr> = x.pos.iter().map(|p| ks[p.0] * dom(cc.size).element(p.1)).collect();
            c.eq(rw[i].s.to_vec(), lab.clone(), &format!("positions of gate {i}"));
            c.eq(prw[i].s.to_vec(), lab, &format!("positions of gate {i}, preprocessing side"));
        }
        for i in n..rw.len() {
            c.check(rw[i].q.iter().chain(&prw[i].q).chain(&rw[i].w).all(|x| x.is_zero()), format!("padding row {i} contributes"));
        }
        #[cfg(feature = "hooks")]
        {
            let (gs, vals) = circ(&g).vp_parts();
            c.eq(vals.iter().map(|v| v.len()).collect::<Vec<_>>(), vec![n; 3], "value counts");
            c.check(gs == cpi(&g).get_gates(), "gates inserted on the two sides differ");
            for (i, x) in g.iter().enumerate() {
                let (p, q) = gs[i].vp_parts();
                for j in 0..3 {
                    c.check(p[j] == plonk::gate::Position::Pos(x.pos[j].0, x.pos[j].1), format!("position {j} of gate {i}"));
                    c.eq(vals[j][i], x.v[j], "stored wire value");
                }
                c.check(resid(&q, &x.v).is_zero() == resid(&sels(x), &x.v).is_zero(), format!("equation of gate {i}"));
            }
        }
    }
}

fn p02(c: &mut Ctx) {
    c.rule = "circuits of 1..20 gates and around 32, 64 and 128, with arbitrary in-range positions, against the definition evaluated at every domain point; padding rows, disjoint cosets, both compilers; non-trivial: more than one gate".into();
    let mut r = c.rng();
    let mut sizes: Vec<usize> = (1..=20).collect();
    sizes.extend([31, 32, 33]);
    sizes.extend([63, 64, 65, 100, 129]);
    if c.thorough { sizes.extend([127, 128, 255, 256, 257, 300]); }
    for rep in 0..c.n(4, 12) { for &n in &sizes {
        let mut g = anyg(&mut r, n);
        let size = n.next_power_of_two();
        if rep % 2 == 1 { for x in g.iter_mut() { x.pos = rpos(&mut r, size); } }
        if rep == 0 { for (i, x) in g.iter_mut().enumerate() { x.pos = [(0, i), (1, i), (2, i)]; } }
        if !c.begin(format!("{n} gates: {}", showg(&g)), n > 1) { continue; }
        let Some(x) = c.total("compile", || circ(&g).compile()) else { continue };
        let Ok(cc) = x else { c.check(false, "compile refused"); continue };
        let Some(y) = c.total("preprocessing compile", || cpi(&g).compile()) else { continue };
        let Ok((pg, ps, pn)) = y else { c.check(false, "preprocessing compile refused"); continue };
        if !c.eq(cc.size, size, "size") || !c.eq(pn, size, "size, preprocessing side") { continue; }
        let s = cc.copy_constraints();
        let ks = [Fr::one(), *s.k1(), *s.k2()];
        let d = dom(size);
        let mut lab: Vec<Fr> = (0..3).flat_map(|j| (0..size).map(move |i| (j, i))).map(|(j, i)| ks[j] * d.element(i)).collect();
        lab.sort();
        lab.dedup();
        c.eq(lab.len(), 3 * size, "number of distinct labels in the three cosets");
        let own = own_compile(&g);
        let ow = rows(own.gate_constraints(), own.copy_constraints(), size);
        for (i, x) in rows(cc.gate_constraints(), s, size).iter().enumerate() {
            c.eq(x.w, ow[i].w, &format!("wire polynomials at row {i}"));
            c.eq(x.q, ow[i].q, &format!("selector polynomials at row {i}"));
            let p = if i < n { g[i].pos } else { [(0, i), (1, i), (2, i)] };
            c.eq(x.s, [ks[p[0].0] * d.element(p[0].1), ks[p[1].0] * d.element(p[1].1), ks[p[2].0] * d.element(p[2].1)], &format!("permutation polynomials at row {i}"));
        }
        let gc = cc.gate_constraints();
        for p in [gc.f_ax(), gc.f_bx(), gc.f_cx(), gc.q_lx(), gc.q_rx(), gc.q_ox(), gc.q_mx(), gc.q_cx(), gc.pi_x(), s.s_sigma_1(), s.s_sigma_2(), s.s_sigma_3()] {
            c.check(p.coeffs.len() <= size, "a polynomial has more coefficients than the domain has points");
        }
        for (nm, a, b) in [("q_l", gc.q_lx(), pg.q_lx()), ("q_r", gc.q_rx(), pg.q_rx()), ("q_o", gc.q_ox(), pg.q_ox()), ("q_m", gc.q_mx(), pg.q_mx()), ("q_c", gc.q_cx(), pg.q_cx()), ("pi", gc.pi_x(), pg.pi_x()),
            ("sigma 1", s.s_sigma_1(), ps.s_sigma_1()), ("sigma 2", s.s_sigma_2(), ps.s_sigma_2()), ("sigma 3", s.s_sigma_3(), ps.s_sigma_3())] {
            c.check(a == b, format!("{nm} differs on the preprocessing side"));
        }
        c.eq((s.k1(), s.k2()), (ps.k1(), ps.k2()), "coset shifts on the two sides");
        // two calls must not depend on hidden state
        if n < 8 { if let Some(Ok(c2)) = c.total("compile", || circ(&g).compile()) { c.check(c2.gate_constraints() == gc && c2.copy_constraints() == s, "compiling twice differs"); } }
    } }
}

// ---------------------------------------------------------------- equations

#[derive(Clone, Debug, PartialEq)]
enum At { V(&'static str), C(u32), /** a number with leading zeros */ K(&'static str) }
#[derive(Clone, Debug)]
enum Rhs { C(i64), V(&'static str), K(&'static str) }
fn num(s: &str) -> Fr { let v = Fr::from(s.trim_start_matches('-').parse::<u64>().unwrap()); if s.starts_with('-') { -v } else { v } }
#[derive(Clone, Debug)]
struct Eqn { terms: Vec<Vec<(At, u32)>>, rhs: Rhs }
impl Eqn {
    /// as written, with blanks and capitals, and as it must be normalised
    fn text(&self, r: &mut impl Rng, plain: bool) -> (String, String) {
        let (mut s, mut t) = (String::new(), String::new());
        let sp = |r: &mut dyn rand::RngCore, s: &mut String| if !plain { for _ in 0..[0, 0, 1, 0, 2][r.gen_range(0..5)] { s.push(' '); } };
        for (i, m) in self.terms.iter().enumerate() {
            if i > 0 { s.push('+'); t.push('+'); }
            sp(r, &mut s);
            for (j, (a, k)) in m.iter().enumerate() {
                if j > 0 { s.push('*'); t.push('*'); sp(r, &mut s); }
                let b = match a { At::V(x) => x.to_string(), At::C(x) => x.to_string(), At::K(x) => x.to_string() };
                s.push_str(&if !plain && r.gen_range(0..5) == 0 { b.to_uppercase() } else { b.clone() });
                sp(r, &mut s);
                t.push_str(&b);
                if *k != 1 || (!plain && r.gen_range(0..9) == 0) { s.push('^'); sp(r, &mut s); s.push_str(&k.to_string()); sp(r, &mut s); }
                for _ in 1..*k { t.push('*'); t.push_str(&b); }
            }
        }
        s.push('=');
        sp(r, &mut s);
        t.push('=');
        let b = match self.rhs { Rhs::C(x) => x.to_string(), Rhs::V(x) | Rhs::K(x) => x.to_string() };
        s.push_str(&b);
        sp(r, &mut s);
        t.push_str(&b);
        (s, t)
    }
    fn vars(&self) -> Vec<&'static str> {
        let mut v: Vec<&'static str> = self.terms.iter().flatten().filter_map(|(a, _)| if let At::V(x) = a { Some(*x) } else { None }).collect();
        if let Rhs::V(x) = self.rhs { v.push(x); }
        v.sort();
        v.dedup();
        v
    }
    fn val(&self, w: &BTreeMap<&'static str, Fr>) -> Fr {
        self.terms.iter().map(|m| m.iter().map(|(a, k)| (match a { At::V(x) => w[x], At::C(x) => Fr::from(*x), At::K(x) => num(x) }).pow([*k as u64])).product::<Fr>()).sum()
    }
    fn rval(&self, w: &BTreeMap<&'static str, Fr>) -> Fr {
        match self.rhs { Rhs::V(x) => w[&x], Rhs::K(x) => num(x), Rhs::C(x) => if x < 0 { -Fr::from((-x) as u64) } else { Fr::from(x as u64) } }
    }
}
fn eqn(r: &mut impl Rng, big: bool) -> Eqn {
    let names = ["x", "y", "z", "xy"];
    let nt = r.gen_range(1..=if big { 5 } else { 3 });
    let mut terms: Vec<Vec<(At, u32)>> = vec![];
    for _ in 0..nt {
        if !terms.is_empty() && r.gen_range(0..5) == 0 { let t = pick(r, &terms).clone(); terms.push(t); continue; }
        let nf = r.gen_range(1..=3);
        terms.push((0..nf).map(|_| {
            let a = if r.gen_range(0..4) > 0 { At::V(*pick(r, &names[..if big { 4 } else { 2 }])) } else if r.gen_range(0..9) == 0 { At::K(*pick(r, &["00", "01", "007", "0012"])) } else { At::C(*pick(r, &[0, 1, 2, 3, 7, 12, 100, 999999999])) };
            (a, *pick(r, &[1, 1, 1, 2, 3, 4]))
        }).collect());
    }
    let rhs = match r.gen_range(0..4) { 0 => Rhs::V(*pick(r, &names)), 1 if r.gen_range(0..9) == 0 => Rhs::K(*pick(r, &["-01", "05", "-0011"])), 1 => Rhs::C(-(*pick(r, &[1i64, 2, 3, 11, 999999999]))), _ => Rhs::C(*pick(r, &[0i64, 1, 3, 11, 999999999])) };
    Eqn { terms, rhs }
}
/// equations longer than anything written by hand: many terms, many factors, high powers, many names
fn long_eqns(r: &mut impl Rng, n: usize) -> Vec<Eqn> {
    let names = ["x", "y", "z", "xy", "é", "x1"];
    (0..n).map(|k| {
        let one = |r: &mut dyn rand::RngCore| if r.gen_range(0..4) > 0 { At::V(names[r.gen_range(0..6)]) } else { At::C([0, 1, 2, 3, 12, 100][r.gen_range(0..6)]) };
        let terms = match k % 5 {
            0 => (0..25 + k % 20).map(|_| (0..r.gen_range(1..3)).map(|_| (one(r), 1)).collect()).collect(),
            1 => vec![(0..20 + k % 30).map(|_| (one(r), 1)).collect(), vec![(one(r), 1)]],
            2 => vec![vec![(one(r), 17 + (k % 20) as u32), (one(r), 1)], vec![(one(r), 33)]],
            3 => vec![vec![(At::V("x"), 1)]; 40],
            _ => (0..12).map(|_| (0..4).map(|_| (one(r), r.gen_range(1..6))).collect()).collect(),
        };
        Eqn { terms, rhs: match k % 3 { 0 => Rhs::V("z"), 1 => Rhs::C(-77), _ => Rhs::C(1234567) } }
    }).collect()
}
fn fixed_eqns() -> Vec<Eqn> {
    let v = |c| (At::V(c), 1);
    let k = |n| (At::C(n), 1);
    let e = |terms: Vec<Vec<(At, u32)>>, rhs| Eqn { terms, rhs };
    vec![
        e(vec![vec![v("x")]], Rhs::C(1)),
        e(vec![vec![v("x")]], Rhs::C(0)),
        e(vec![vec![v("x")]], Rhs::V("x")),
        e(vec![vec![v("x")], vec![v("x")]], Rhs::C(4)),
        e(vec![vec![v("x")], vec![v("x")], vec![v("x")], vec![v("x")]], Rhs::C(-4)),
        e(vec![vec![k(3)], vec![k(3)]], Rhs::C(6)),
        e(vec![vec![k(3)]], Rhs::C(3)),
        e(vec![vec![k(0)]], Rhs::C(0)),
        e(vec![vec![k(0)], vec![k(0)]], Rhs::C(0)),
        e(vec![vec![k(5), k(5)]], Rhs::C(25)),
        e(vec![vec![(At::V("x"), 2)]], Rhs::C(4)),
        e(vec![vec![(At::V("x"), 2)], vec![(At::V("x"), 2)]], Rhs::C(8)),
        e(vec![vec![(At::V("x"), 2), (At::V("x"), 2)]], Rhs::C(16)),
        e(vec![vec![(At::V("x"), 2), v("y")], vec![v("y"), (At::V("x"), 3)]], Rhs::V("z")),
        e(vec![vec![(At::V("x"), 10)]], Rhs::C(1024)),
        e(vec![vec![(At::V("x"), 12)], vec![v("y")]], Rhs::C(4096)),
        e(vec![vec![(At::C(12), 2)]], Rhs::C(144)),
        e(vec![vec![(At::C(12), 3), v("x")], vec![k(2)]], Rhs::C(1730)),
        e(vec![vec![v("x"), v("y")], vec![k(3), (At::V("x"), 2)], vec![v("x"), v("y"), v("z")]], Rhs::C(11)),
        e(vec![vec![v("x"), k(0)], vec![v("y")]], Rhs::V("y")),
        e(vec![vec![v("x"), v("y")], vec![v("y"), v("x")]], Rhs::C(-7)),
        e(vec![vec![v("x"), v("y")], vec![v("xy")]], Rhs::C(10)),
        e(vec![vec![v("xy")], vec![v("x"), v("y")], vec![(At::V("xy"), 2)]], Rhs::V("xy")),
        e(vec![vec![(At::V("é"), 2)], vec![v("x1"), v("é")]], Rhs::V("α")),
        e(vec![vec![v("x"), (At::K("007"), 1)], vec![(At::K("007"), 1)]], Rhs::C(21)),
        e(vec![vec![v("x")], vec![(At::K("00"), 1)]], Rhs::K("-05")),
        e(vec![vec![(At::K("03"), 2), v("y")], vec![v("y")]], Rhs::K("090")),
        e(vec![vec![v("α"), k(3)], vec![(At::V("x1"), 3)]], Rhs::C(-5)),
    ]
}
/// witness values; `sat`: adjusted so that the equation holds where a variable allows it
fn wit(e: &Eqn, r: &mut impl Rng) -> BTreeMap<&'static str, Fr> { e.vars().into_iter().map(|x| (x, if r.gen_range(0..6) == 0 { scalar(r) } else { Fr::rand(r) })).collect() }
fn parser(w: &BTreeMap<&'static str, Fr>) -> Parser { let mut p = Parser::default(); for (k, v) in w { p.add_witness(&k.to_string(), *v); } p }
fn showw(w: &BTreeMap<&'static str, Fr>) -> String { w.iter().map(|(k, v)| format!("{k}={}", short(v))).collect::<Vec<_>>().join(",") }

/// (kind, wire values) with the names of the three wires
type NG = (Kd, [String; 3], [Fr; 3]);
/// the gates an equation stands for, by its meaning: each named product, sum and constant once
fn ref_gates(e: &Eqn, w: &BTreeMap<&'static str, Fr>) -> Vec<NG> {
    let mut out: Vec<NG> = vec![];
    let add = |g: NG, out: &mut Vec<NG>| if !out.iter().any(|h| h.0 == g.0 && h.1 == g.1) { out.push(g) };
    let con = |n: &str, v: Fr, out: &mut Vec<NG>| { add((Kd::Con, [n.into(), "0".into(), format!("{n}+0")], [v, Fr::zero(), v]), out); };
    let mut acc: Option<(String, Fr)> = None;
    let mut sums = e.terms.iter().map(|m| m.iter().flat_map(|(a, k)| vec![a.clone(); *k as usize]).collect::<Vec<_>>()).map(|fs| {
        let l: Vec<(String, Fr, bool)> = fs.iter().map(|a| match a { At::V(x) => (x.to_string(), w[x], false), At::C(x) => (x.to_string(), Fr::from(*x), true), At::K(x) => (x.to_string(), num(x), true) }).collect();
        l
    }).collect::<Vec<_>>();
    let rv = -e.rval(w);
    sums.push(vec![match e.rhs { Rhs::V(x) => (format!("-{x}"), rv, false), Rhs::C(x) => (format!("-{x}"), rv, true), Rhs::K(x) => (format!("-{x}"), rv, true) }]);
    for l in sums {
        for (n, v, k) in &l { if *k { con(n, *v, &mut out); } }
        let mut it = l.into_iter();
        let (mut n, mut v, _) = it.next().unwrap();
        for (n2, v2, _) in it {
            let (rn, rv) = (format!("{n}*{n2}"), v * v2);
            add((Kd::Mul, [n, n2, rn.clone()], [v, v2, rv]), &mut out);
            n = rn;
            v = rv;
        }
        acc = Some(match acc {
            None => (n, v),
            Some((pn, pv)) => {
                let (rn, rv) = (format!("{pn}+{n}"), pv + v);
                add((Kd::Add, [pn, n, rn.clone()], [pv, v, rv]), &mut out);
                (rn, rv)
            }
        });
    }
    out.last_mut().unwrap().2[2] = Fr::zero();
    out
}
fn key(k: Kd, v: &[Fr; 3]) -> String { format!("{k:?}{}", showv(v)) }
fn kind(q: &[Fr; 6]) -> Option<Kd> {
    let (z, o) = (Fr::zero(), Fr::one());
    match (q[0] == o, q[1] == o, q[2] == -o, q[3] == o) {
        (true, true, true, false) if q[3] == z => Some(Kd::Add),
        (false, false, true, true) if q[0] == z && q[1] == z => Some(Kd::Mul),
        (true, false, false, false) if q[1] == z && q[2] == z && q[3] == z => Some(Kd::Con),
        _ => None,
    }
}

fn check_parsed(c: &mut Ctx, e: &Eqn, w: &BTreeMap<&'static str, Fr>, cc: &CompiledCircuit) {
    let n = cc.size;
    let rw = rows(cc.gate_constraints(), cc.copy_constraints(), n);
    let rf = ref_gates(e, w);
    let ks = [Fr::one(), *cc.copy_constraints().k1(), *cc.copy_constraints().k2()];
    let mut lab: HashMap<Fr, (usize, usize)> = HashMap::new();
    for j in 0..3 { for i in 0..n { lab.insert(ks[j] * dom(n).element(i), (j, i)); } }
    let live: Vec<usize> = (0..n).filter(|i| rw[*i].q.iter().any(|x| !x.is_zero())).collect();
    // gates
    let mut got: Vec<String> = vec![];
    for &i in &live {
        let Some(k) = kind(&rw[i].q) else { c.check(false, format!("row {i} is no known gate: {}", showv(&rw[i].q))); return };
        if k == Kd::Con { c.check(rw[i].q[4] == -rw[i].w[0], format!("constant gate at row {i} does not fix its wire")); }
        c.check(rw[i].q[5].is_zero(), "public input in a parsed circuit");
        got.push(key(k, &rw[i].w));
    }
    let mut want: Vec<String> = rf.iter().map(|g| key(g.0, &g.2)).collect();
    got.sort();
    want.sort();
    if !c.eq(got, want, "gates (kind and wire values)") { return; }
    let bad = live.iter().filter(|i| !resid(&rw[**i].q, &rw[**i].w).is_zero()).count();
    c.eq(bad, if e.val(w) == e.rval(w) { 0 } else { 1 }, "number of violated gate equations");
    // the permutation: a bijection whose cycles are the names
    let mut next: HashMap<(usize, usize), (usize, usize)> = HashMap::new();
    let mut inv: HashMap<(usize, usize), usize> = HashMap::new();
    for i in 0..n { for j in 0..3 {
        let Some(t) = lab.get(&rw[i].s[j]) else { c.check(false, format!("permutation value at row {i} wire {j} is no label")); return };
        next.insert((j, i), *t);
        *inv.entry(*t).or_default() += 1;
    } }
    if !c.check(inv.len() == 3 * n, "the wire permutation is not a bijection") { return; }
    let sig = |j: usize, i: usize| format!("{}#{j}", key(kind(&rw[i].q).unwrap(), &rw[i].w));
    let mut cyc: Vec<Vec<String>> = vec![];
    let mut seen: std::collections::HashSet<(usize, usize)> = Default::default();
    for i in 0..n { for j in 0..3 {
        if seen.contains(&(j, i)) { continue; }
        let mut cur = (j, i);
        let mut l = vec![];
        while seen.insert(cur) {
            if live.contains(&cur.1) { l.push(sig(cur.0, cur.1)); } else if cur != next[&cur] { c.check(false, format!("padding row {} is linked to another wire", cur.1)); }
            cur = next[&cur];
        }
        if !l.is_empty() { l.sort(); cyc.push(l); }
    } }
    let mut by: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for g in &rf { for j in 0..3 { by.entry(g.1[j].clone()).or_default().push(format!("{}#{j}", key(g.0, &g.2))); } }
    let mut want: Vec<Vec<String>> = by.into_values().map(|mut l| { l.sort(); l }).collect();
    cyc.sort();
    want.sort();
    c.check(cyc == want, format!("cycles of the wire permutation {cyc:?}, by name {want:?}"));
}

fn p03(c: &mut Ctx) {
    c.rule = "fixed and random equations (repeated terms, factors and constants, powers in every place, negative and nine-digit constants; long ones of up to 44 terms, 49 factors, power 36) and witnesses; gates and permutation cycles of the compiled circuit against the equation's meaning; a part proved and verified end to end, satisfied and not; non-trivial: more than one term or factor".into();
    let mut r = c.rng();
    let mut fixed = fixed_eqns();
    let (ns, ne) = (c.n(150, 2500), c.n(36, 300));
    let nl = c.n(10, 60);
    fixed.extend(long_eqns(&mut r, nl));
    for k in 0..ns {
        let e = if k < fixed.len() { fixed[k].clone() } else { eqn(&mut r, k % 2 == 0) };
        let (s, t) = e.text(&mut r, k % 3 != 2);
        let mut w = wit(&e, &mut r);
        // make every other one satisfied where the right-hand side is a variable that does not occur on the left
        let sat = k % 2 == 0;
        if let (true, Rhs::V(x)) = (sat, &e.rhs) { let v = e.val(&w); if e.terms.iter().flatten().all(|(a, _)| *a != At::V(*x)) { w.insert(*x, v); } }
        if !c.begin(format!("{s}  with {}", showw(&w)), t.contains('+') || t.contains('*')) { continue; }
        let Some(Ok(cc)) = c.total("parse and compile", || parser(&w).parse(&s).compile()) else { c.check(false, "compile failed"); continue };
        check_parsed(c, &e, &w, &cc);
    }
    for k in 0..ne {
        let mut e = if k < fixed.len() - nl { fixed[k].clone() } else if k % 12 == 11 { fixed[fixed.len() - nl + k % nl].clone() } else { eqn(&mut r, false) };
        let sat = k % 3 != 2;
        let mut w = wit(&e, &mut r);
        if k % 2 == 1 || k < fixed.len() { for v in w.values_mut() { *v = Fr::from(r.gen_range(0u64..6)); } }
        if sat {
            // a right-hand side that fits: the constant if the value is small, else a fresh variable
            let v = e.val(&w);
            let small = |v: Fr| (0..2000i64).find(|i| Fr::from(*i as u64) == v);
            e.rhs = match (small(v), small(-v)) {
                (Some(i), _) if k % 4 != 3 => Rhs::C(i),
                (_, Some(i)) => Rhs::C(-i),
                _ => Rhs::V("q"),
            };
            if let Rhs::V(q) = e.rhs { w.insert(q, v); }
        }
        let holds = e.val(&w) == e.rval(&w);
        let (s, _) = e.text(&mut r, true);
        if !c.begin(format!("end to end: {s}  with {}", showw(&w)), true) { continue; }
        let Some(Ok(cc)) = c.total("parse and compile", || parser(&w).parse(&s).compile()) else { c.check(false, "compile failed"); continue };
        let srs = Srs::new_from_secret(Fr::rand(&mut r), cc.size);
        let res = guard(|| { let p = generate_proof::<Sha256>(&cc, srs.clone()); verify::<Sha256>(&cc, srs.clone(), p) });
        match (holds, &res) {
            (true, Ok(Ok(()))) => {}
            (true, x) => { c.check(false, format!("satisfied equation not accepted: {x:?}")); }
            (false, Ok(Ok(()))) => { c.check(false, "unsatisfied equation proved and accepted"); }
            _ => {}
        }
    }
}

fn norm_text(r: &mut impl Rng) -> (String, String) { let e = eqn(r, true); e.text(r, false) }
fn p04(c: &mut Ctx) {
    c.rule = "fixed and random equations printed with blanks, capitals and powers (k in 1..13 and up to 260, digit-string bases, powers at the end, before terms and before further powers) with the expected expansion printed alongside; random strings over letters, digits, signs, blanks and non-ASCII characters given to both normalisers; non-trivial: contains a power".into();
    let mut r = c.rng();
    let mut l: Vec<(String, String)> = [("x=1", "x=1"), ("X ^ 2=4", "x*x=4"), ("x^1=4", "x=4"), ("x^2+y=4", "x*x+y=4"), ("x^2*y^3+z=4", "x*x*y*y*y+z=4"), ("12^2=144", "12*12=144"),
        ("3*12^2*x+2=7", "3*12*12*x+2=7"), ("x^10=1", "x*x*x*x*x*x*x*x*x*x=1"), ("x^12+y^11=-3", "x*x*x*x*x*x*x*x*x*x*x*x+y*y*y*y*y*y*y*y*y*y*y=-3"), ("2*x^2+2*y^2=z", "2*x*x+2*y*y=z"),
        ("7+x^3=  - 12", "7+x*x*x=-12"), ("5^3+5^2=150", "5*5*5+5*5=150"), ("x+10^2=z", "x+10*10=z"), ("x^ 2 *x^2 = 16", "x*x*x*x=16")].iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
    for e in fixed_eqns() { l.push(e.text(&mut r, true)); l.push(e.text(&mut r, false)); }
    for _ in 0..c.n(600, 20000) { l.push(norm_text(&mut r)); }
    for e in long_eqns(&mut r, 20) { l.push(e.text(&mut r, true)); l.push(e.text(&mut r, false)); }
    for k in (1..14).chain([16, 17, 31, 33, 64, 100, 101, 127, 128, 130, 255, 256, 260]) { for b in ["x", "z", "9", "10", "123"] { for tail in ["=3", "+y=3", "*y=3", "^"] {
        if tail == "^" { continue; }
        l.push((format!("{b}^{k}{tail}"), format!("{}{tail}", vec![b; k].join("*"))));
    } } }
    for (s, t) in l {
        if !c.begin(s.clone(), s.contains('^')) { continue; }
        #[cfg(feature = "hooks")]
        {
            if let Some(x) = c.total("prover-side normaliser", || Parser::vp_parse_string(&s)) { c.eq(x, t.clone(), "prover-side normaliser"); }
            if let Some(x) = c.total("preprocessing-side normaliser", || CPIGenerator::vp_normalize(&s)) { c.eq(x, t.clone(), "preprocessing-side normaliser"); }
        }
        if cfg!(not(feature = "hooks")) {
            let mut p = Parser::default();
            for x in ["x", "y", "z", "xy"] { p.add_witness(x, Fr::from(x.bytes().fold(0u64, |a, b| a * 1000003 + b as u64))); }
            let (a, b) = (guard(|| p.parse(&s)), guard(|| p.parse(&t)));
            if let Ok(b) = b { match a { Ok(a) => { c.check(a == b, "parsing the equation and parsing its expansion differ"); } Err(m) => { c.check(false, format!("parsing panicked: {m}")); } } }
        }
    }
    // any string at all: both normalisers refuse it, or both write the same
    #[cfg(feature = "hooks")]
    {
        let al: Vec<char> = "xyzabXYZ0123456789^^^+*=- \u{b2}\u{bd}\u{2167}\u{663}\u{e9}\u{c9}\u{df}\u{130}\u{a0}\t_.,()/".chars().collect();
        // few characters, so that powers meet letters, digits and further powers
        let small = ["x", "y", "1", "12", "^2", "^3", "^2", "^1", "*", "+", " ", "^", "^ 2", "x^2", "y^3"];
        for k in 0..c.n(3000, 60000) {
            let n = r.gen_range(0..if k % 3 == 0 { 6 } else { 18 });
            let mut s = String::new();
            let (mut run, mut pow) = (0, false);
            if k % 2 == 1 {
                for _ in 0..n.min(8) { s.push_str(small[r.gen_range(0..small.len())]); }
                // exponents of at most three digits: longer ones fill the memory
                let t: String = s.chars().filter(|c| *c != ' ').collect();
                if t.split('^').skip(1).any(|p| p.chars().take_while(|c| c.is_numeric()).count() > 3) { continue; }
            }
            for _ in 0..if k % 2 == 1 { 0 } else { n } {
                let x = al[r.gen_range(0..al.len())];
                if x.is_numeric() { run += 1; } else if x != ' ' { run = 0; }
                if x == '^' { pow = true; }
                // exponents of at most two digits: longer ones fill the memory
                if pow && run > 2 { continue; }
                s.push(x);
            }
            if !c.begin(format!("{s:?}"), s.contains('^')) { continue; }
            let (a, b) = (guard(|| Parser::vp_parse_string(&s)), guard(|| CPIGenerator::vp_normalize(&s)));
            match (a, b) { (Ok(a), Ok(b)) => { c.eq(a, b, "the two normalisers"); } (Err(_), Err(_)) => {} (a, b) => { c.check(false, format!("one normaliser refuses what the other accepts: {a:?} / {b:?}")); } }
        }
    }
}

fn p05(c: &mut Ctx) {
    c.rule = "fixed, random and long equations and two witnesses each: preprocessing from the string against the polynomials of the parser's compiled circuit; non-trivial: more than one term or factor".into();
    let mut r = c.rng();
    let mut fixed = fixed_eqns();
    let nl = c.n(10, 60);
    fixed.extend(long_eqns(&mut r, nl));
    for k in 0..c.n(110, 1500) {
        let e = if k < fixed.len() { fixed[k].clone() } else { eqn(&mut r, k % 2 == 0) };
        let (s, t) = e.text(&mut r, k % 3 != 2);
        let (w1, w2) = (wit(&e, &mut r), wit(&e, &mut r));
        if !c.begin(format!("{s}  with {} and {}", showw(&w1), showw(&w2)), t.contains('+') || t.contains('*')) { continue; }
        let mut cp = None;
        for w in [w1, w2] {
            let Some(Ok(cc)) = c.total("parse and compile", || parser(&w).parse(&s).compile()) else { c.check(false, "compile failed"); break };
            let srs = Srs::new_from_secret(Fr::from(77u64 + k as u64), cc.size);
            let scheme = KzgScheme::new(srs.clone());
            if cp.is_none() {
                let Some(x) = c.total("preprocessing", || CPIGenerator::default().compute_common_preprocessed_input(&s, KzgScheme::new(srs))) else { break };
                let Ok(x) = x else { c.check(false, "preprocessing refused"); break };
                cp = Some(x);
            }
            let x = cp.as_ref().unwrap();
            let (g, s) = (cc.gate_constraints(), cc.copy_constraints());
            c.eq(x.n, cc.size, "size");
            c.eq((x.k1, x.k2), (*s.k1(), *s.k2()), "coset shifts");
            for (nm, a, b) in [("q_l", &x.com_q_lx, g.q_lx()), ("q_r", &x.com_q_rx, g.q_rx()), ("q_m", &x.com_q_mx, g.q_mx()), ("q_o", &x.com_q_ox, g.q_ox()), ("q_c", &x.com_q_cx, g.q_cx()),
                ("sigma 1", &x.com_s_sigma_1, s.s_sigma_1()), ("sigma 2", &x.com_s_sigma_2, s.s_sigma_2()), ("sigma 3", &x.com_s_sigma_3, s.s_sigma_3())] {
                if let Some(y) = c.total("commit", || scheme.commit(b)) { c.check(*a == y, format!("commitment to {nm} differs from the prover's circuit")); }
            }
            c.check(x.pi_x == *g.pi_x(), "public-input polynomial differs");
        }
    }
}

fn p06(c: &mut Ctx) {
    c.rule = "non-zero polynomials of 1..40 and up to 515 coefficients of every style and points 0, 1, -1, random; recombination, compaction, commitments in order; non-trivial: at least three coefficients".into();
    #[cfg(not(feature = "hooks"))]
    c.skipped.push("the module is private and the hooks are unavailable".into());
    #[cfg(feature = "hooks")]
    {
        let mut r = c.rng();
        for k in 0..c.n(200, 4000) {
            let n = if k % 40 == 39 { *pick(&mut r, &[63, 64, 65, 95, 96, 97, 128, 129, 190, 300, 513, 515]) } else { 1 + k % 40 };
            let mut v = coeffs(&mut r, n);
            if v[n - 1].is_zero() { v[n - 1] = Fr::from(9u64); }
            if k % 7 == 3 && n > 2 { let j = r.gen_range(0..n - 1); for x in v[..n - 1].iter_mut() { *x = Fr::zero(); } v[j] = Fr::one(); }
            let z = *pick(&mut r, &[Fr::zero(), Fr::one(), -Fr::one(), Fr::from(2u64), Fr::from(123456789u64)]) ;
            let z = if k % 3 == 0 { Fr::rand(&mut r) } else { z };
            if !c.begin(format!("{} at {}", showv(&v), short(&z)), n >= 3) { continue; }
            let secret = Fr::from(5u64 + k as u64);
            let scheme = KzgScheme::new(Srs::new_from_secret(secret, n));
            let Some((sl, deg, comp, coms)) = c.total("slicing", || plonk::vp_hooks::vp_slice(Poly::from_coefficients_vec(v.clone()), &z, &scheme)) else { continue };
            if !c.eq((sl.len(), coms.len()), (3, 3), "number of slices and commitments") { continue; }
            let m = deg + 1;
            let mut back = vec![Fr::zero(); 3 * m + n + 3];
            for (i, s) in sl.iter().enumerate() {
                c.check(s.coeffs.len() < m + 1, format!("slice {i} has {} coefficients, m = {m}", s.coeffs.len()));
                for (j, x) in s.coeffs.iter().enumerate() { if i * m + j < back.len() { back[i * m + j] += x; } else { c.check(false, "slice too long"); } }
            }
            c.eq(trim(back), trim(v.clone()), "recombined coefficients");
            let zm = z.pow([m as u64]);
            let l = sl.iter().map(|s| s.coeffs.len()).max().unwrap();
            let want: Vec<Fr> = (0..l).map(|j| { let g = |i: usize| sl[i].coeffs.get(j).copied().unwrap_or_default(); g(0) + zm * g(1) + zm * zm * g(2) }).collect();
            c.eq(trim(comp.coeffs.clone()), trim(want), "compacted polynomial");
            c.eq(comp.evaluate(&z), horner(&v, z), "value of the compacted polynomial");
            for i in 0..3 { c.check(coms[i] == KzgCommitment(g1(horner(&sl[i].coeffs, secret))), format!("commitment {i}")); }
        }
    }
}

// ---------------------------------------------------------------- protocol

/// a satisfied circuit over named wires; positions link equal names in one cycle
fn satg(r: &mut impl Rng, n: usize, with_pi: bool, con_pi: bool) -> Vec<G> {
    let mut vals: Vec<Fr> = vec![scalar(r), Fr::rand(r)];
    let mut names: Vec<[usize; 3]> = vec![];
    let mut gs: Vec<G> = vec![];
    for _ in 0..n {
        let k = *pick(r, &[Kd::Add, Kd::Mul, Kd::Add, Kd::Mul, Kd::Con]);
        let (a, b) = (r.gen_range(0..vals.len()), r.gen_range(0..vals.len()));
        let mut pi = if with_pi && r.gen_range(0..2) == 0 { scalar(r) } else { Fr::zero() };
        if k == Kd::Con && !con_pi { pi = Fr::zero(); }
        let (c, cst) = match k {
            Kd::Add => { vals.push(vals[a] + vals[b] - pi); (vals.len() - 1, Fr::zero()) }
            Kd::Mul => { vals.push(vals[a] * vals[b] - pi); (vals.len() - 1, Fr::zero()) }
            Kd::Con => (r.gen_range(0..vals.len()), vals[a] - pi),
        };
        names.push([a, b, c]);
        gs.push(G { k, pos: [(0, 0); 3], v: [vals[a], vals[b], vals[c]], cst, pi });
        if r.gen_range(0..4) == 0 { vals.push(scalar(r)); }
    }
    let mut by: BTreeMap<usize, Vec<(usize, usize)>> = BTreeMap::new();
    for (i, nm) in names.iter().enumerate() { for j in 0..3 { by.entry(nm[j]).or_default().push((j, i)); } }
    for l in by.values() {
        let step = if l.len() > 1 { 1 + r.gen_range(0..l.len() - 1) } else { 0 };
        // one cycle through all of them: order by a random rotation of a shuffled list
        let mut l = l.clone();
        for i in (1..l.len()).rev() { let j = r.gen_range(0..=i); l.swap(i, j); }
        let _ = step;
        for i in 0..l.len() { let (j, g) = l[i]; gs[g].pos[j] = l[(i + 1) % l.len()]; }
    }
    gs
}
fn pv<T: digest::Digest + Default>(cc: &CompiledCircuit, srs: &Srs) -> Result<Result<(), String>, String> {
    guard(|| { let p = generate_proof::<T>(cc, srs.clone()); verify::<T>(cc, srs.clone(), p) })
}
fn pvt(t: usize, cc: &CompiledCircuit, srs: &Srs) -> Result<Result<(), String>, String> {
    match t { 0 => pv::<Sha256>(cc, srs), 1 => pv::<Sha512>(cc, srs), _ => pv::<Sha384>(cc, srs) }
}
const TN: [&str; 3] = ["SHA-256", "SHA-512", "SHA-384"];

fn p07(c: &mut Ctx) {
    c.rule = "satisfied circuits of 1..17, 33 and 65 gates with shared wires, constants and public inputs, compiled by the code and from the definition, reference string of exactly the compiled size or larger, three digests, repeated blinding; non-trivial: more than one gate".into();
    let mut r = c.rng();
    let ns = [1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17];
    for k in 0..c.n(60, 700) {
        let n = if k % 30 == 17 { 33 } else if k % 60 == 41 { 65 } else { ns[k % 12] };
        let own = k % 4 == 3;
        let g = satg(&mut r, n, k % 2 == 1, own);
        let t = k % 3;
        if !c.begin(format!("{} {}: {}", TN[t], if own { "definition" } else { "compile" }, showg(&g)), n > 1) { continue; }
        let cc = if own { own_compile(&g) } else { match c.total("compile", || circ(&g).compile()) { Some(Ok(x)) => x, _ => { c.check(false, "compile failed"); continue } } };
        let srs = Srs::new_from_secret(Fr::rand(&mut r), cc.size + if k % 5 == 0 { 7 } else { 0 });
        let res = pvt(t, &cc, &srs);
        c.check(matches!(res, Ok(Ok(()))), format!("satisfied circuit: {res:?}"));
    }
    for e in fixed_eqns() {
        let w: BTreeMap<&'static str, Fr> = e.vars().into_iter().map(|x| (x, Fr::from(2u64))).collect();
        let mut e = e;
        let v = e.val(&w);
        let Some(i) = (0..5000i64).find(|i| Fr::from(*i as u64) == v) else { continue };
        e.rhs = Rhs::C(i);
        let (s, _) = e.text(&mut r, true);
        if !c.begin(format!("equation {s} at 2"), true) { continue; }
        let Some(Ok(cc)) = c.total("parse and compile", || parser(&w).parse(&s).compile()) else { continue };
        let srs = Srs::new_from_secret(Fr::rand(&mut r), cc.size);
        let res = pvt(0, &cc, &srs);
        c.check(matches!(res, Ok(Ok(()))), format!("satisfied equation: {res:?}"));
    }
}

/// permutation as a map, by the positions of a gate list
fn copy_ok(g: &[G]) -> bool { g.iter().all(|x| (0..3).all(|j| { let (p, i) = x.pos[j]; i >= g.len() || g[i].v[p] == x.v[j] })) }
fn gates_ok(g: &[G]) -> bool { g.iter().all(|x| resid(&sels(x), &x.v).is_zero()) }

fn p08(c: &mut Ctx) {
    c.rule = "satisfied circuits of 1..9, 17 and 33 gates broken in one way: one wire value (gate and copy), one unused wire value (copy only), a whole cycle (gates only), cancelling errors in two rows, two values exchanged, a constant, a public input, a selector, a re-routed wire, wrong last row, all rows wrong by the same amount; non-trivial: all broken ones".into();
    let mut r = c.rng();
    let mut done = 0;
    for k in 0..c.n(400, 6000) {
        if done >= c.n(90, 1500) { break; }
        let kind = k % 11;
        let n = if kind == 10 { 1usize << r.gen_range(0..4) } else if k % 29 == 7 { [17, 33][k / 29 % 2] } else { 1 + r.gen_range(0..9usize) };
        let mut g = satg(&mut r, n, k % 2 == 1, true);
        let i = if k % 3 == 0 { n - 1 } else { r.gen_range(0..n) };
        let j = r.gen_range(0..3);
        let d = *pick(&mut r, &[Fr::one(), -Fr::one(), Fr::from(5u64)]);
        let class = |g: &[G], s: (usize, usize)| { let mut l = vec![s]; let mut x = g[s.1].pos[s.0]; while x != s { l.push(x); x = g[x.1].pos[x.0]; } l };
        match kind {
            0 => g[i].v[j] += d,
            1 => { let Some(x) = g.iter_mut().find(|x| x.k == Kd::Con && x.pos[1].1 < n) else { continue }; x.v[1] += d; }
            2 => for (p, q) in class(&g, (j, i)) { g[q].v[p] += d; },
            3 => { if n < 2 { continue; } let i2 = (i + 1) % n; for (q, e) in [(i, d), (i2, -d)] { for (p, q) in class(&g, (2, q)) { g[q].v[p] += e; } } }
            4 => { let (i2, j2) = (r.gen_range(0..n), r.gen_range(0..3)); let t = g[i].v[j]; g[i].v[j] = g[i2].v[j2]; g[i2].v[j2] = t; }
            5 => { let Some(x) = g.iter_mut().find(|x| x.k == Kd::Con) else { continue }; x.cst += d; }
            6 => g[i].pi += d,
            7 => g[i].k = match g[i].k { Kd::Add => Kd::Mul, Kd::Mul => Kd::Add, Kd::Con => Kd::Mul },
            8 => { let (i2, j2) = (r.gen_range(0..n), r.gen_range(0..3)); let t = g[i].pos[j]; g[i].pos[j] = g[i2].pos[j2]; g[i2].pos[j2] = t; }
            10 => for x in g.iter_mut() { x.pi += d; },
            _ => { if n < 3 { continue; } let (a, b) = (g[0].v, g[n - 1].v); g[0].v = b; g[n - 1].v = a; }
        }
        if gates_ok(&g) && copy_ok(&g) { continue; }
        done += 1;
        if !c.begin(format!("kind {kind}, gates {}, copies {}: {}", if gates_ok(&g) { "hold" } else { "violated" }, if copy_ok(&g) { "hold" } else { "violated" }, showg(&g)), true) { continue; }
        let cc = own_compile(&g);
        let srs = Srs::new_from_secret(Fr::rand(&mut r), cc.size);
        let res = pvt(k % 3, &cc, &srs);
        c.check(!matches!(res, Ok(Ok(()))), "a proof of an unsatisfied circuit was produced and accepted");
    }
}

/// proofs as plain data
#[derive(Clone)]
struct Pf { com: [G1Affine; 9], bar: [Fr; 6], u: Fr, degree: usize }
const CN: [&str; 9] = ["a", "b", "c", "z", "t_lo", "t_mid", "t_hi", "w_ev_x", "w_ev_wx"];
fn from_proof(p: &Proof) -> Pf {
    Pf { com: [p.a_commit.0, p.b_commit.0, p.c_commit.0, p.z_commit.0, p.t_lo_commit.0, p.t_mid_commit.0, p.t_hi_commit.0, p.w_ev_x_commit.0, p.w_ev_wx_commit.0],
        bar: [p.bar_a, p.bar_b, p.bar_c, p.bar_s_sigma_1, p.bar_s_sigma_2, p.bar_z_w], u: p.u, degree: p.degree }
}
fn to_proof(p: &Pf) -> Proof {
    let k = |i: usize| KzgCommitment(p.com[i]);
    Proof { a_commit: k(0), b_commit: k(1), c_commit: k(2), z_commit: k(3), t_lo_commit: k(4), t_mid_commit: k(5), t_hi_commit: k(6), w_ev_x_commit: k(7), w_ev_wx_commit: k(8),
        bar_a: p.bar[0], bar_b: p.bar[1], bar_c: p.bar[2], bar_s_sigma_1: p.bar[3], bar_s_sigma_2: p.bar[4], bar_z_w: p.bar[5], u: p.u, degree: p.degree }
}
/// beta gamma alpha zeta v u, by the documented transcript
#[cfg(feature = "hooks")]
fn challenges<T: digest::Digest + Default>(p: &Pf) -> [Fr; 6] {
    let mut g = plonk::vp_hooks::ChallengeGenerator::<T>::default();
    let k = |i: usize| KzgCommitment(p.com[i]);
    for i in 0..3 { g.feed(&k(i)); }
    let [beta, gamma] = g.generate_challenges();
    g.feed(&k(3));
    let [alpha] = g.generate_challenges();
    for i in 4..7 { g.feed(&k(i)); }
    let [zeta] = g.generate_challenges();
    for b in p.bar { g.feed(&KzgCommitment(g1(b))); }
    let [v] = g.generate_challenges();
    g.feed(&k(7));
    g.feed(&k(8));
    let [u] = g.generate_challenges();
    [beta, gamma, alpha, zeta, v, u]
}
/// [F] - [E] without its u part, as a point; everything in it is fixed before w_ev_x
#[cfg(feature = "hooks")]
fn f0(cc: &CompiledCircuit, secret: Fr, p: &Pf, ch: &[Fr; 6]) -> G1Projective {
    let [beta, gamma, alpha, zeta, v, _] = *ch;
    let (g, s) = (cc.gate_constraints(), cc.copy_constraints());
    let [a, b, cw, s1, s2, zw] = p.bar;
    let n = cc.size as u64;
    let zh = zeta.pow([n]) - Fr::one();
    let l1 = zh * (Fr::from(n) * (zeta - Fr::one())).inverse().unwrap();
    let at = |q: &Poly| horner(&q.coeffs, secret);
    let pi = horner(&g.pi_x().coeffs, zeta);
    let r0 = pi - l1 * alpha * alpha - alpha * (a + beta * s1 + gamma) * (b + beta * s2 + gamma) * (cw + gamma) * zw;
    let mut e = -r0;
    let mut vv = Fr::one();
    for x in [a, b, cw, s1, s2] { vv *= v; e += vv * x; }
    let scal = at(g.q_mx()) * a * b + at(g.q_lx()) * a + at(g.q_rx()) * b + at(g.q_ox()) * cw + at(g.q_cx())
        - at(s.s_sigma_3()) * (a + beta * s1 + gamma) * (b + beta * s2 + gamma) * alpha * beta * zw
        + v.pow([4u64]) * at(s.s_sigma_1()) + v.pow([5u64]) * at(s.s_sigma_2()) - e;
    let zc = (a + beta * zeta + gamma) * (b + beta * *s.k1() * zeta + gamma) * (cw + beta * *s.k2() * zeta + gamma) * alpha + l1 * alpha * alpha;
    let m = p.degree as u64 + 1;
    let t = p.com[4] + p.com[5] * zeta.pow([m]) + p.com[6] * zeta.pow([2 * m]);
    G1Affine::generator() * scal + p.com[3] * zc - t * zh + p.com[0] * v + p.com[1] * (v * v) + p.com[2] * (v * v * v)
}
#[cfg(feature = "hooks")]
fn ref_verify<T: digest::Digest + Default>(cc: &CompiledCircuit, secret: Fr, p: &Pf) -> bool {
    let ch = challenges::<T>(p);
    let (zeta, u) = (ch[3], ch[5]);
    if u != p.u { return false; }
    let w = dom(cc.size).element(1);
    let left = p.com[7] + p.com[8] * u;
    let right = p.com[7] * zeta + p.com[8] * (u * zeta * w) + f0(cc, secret, p, &ch) + p.com[3] * u - G1Affine::generator() * (u * p.bar[5]);
    Bls12_381::pairing(left.into_affine(), g2(secret)) == Bls12_381::pairing(right.into_affine(), G2Affine::generator())
}
/// a proof of nothing that satisfies the verifier's equation, made with the secret
#[cfg(feature = "hooks")]
fn forge<T: digest::Digest + Default>(cc: &CompiledCircuit, secret: Fr, r: &mut impl Rng) -> Pf {
    let mut p = Pf { com: [g1(Fr::rand(r)); 9], bar: [Fr::zero(); 6], u: Fr::zero(), degree: r.gen_range(0..40) };
    for i in 0..9 { p.com[i] = g1(scalar(r)); }
    for i in 0..6 { p.bar[i] = scalar(r); }
    let ch = challenges::<T>(&p);
    let (zeta, w) = (ch[3], dom(cc.size).element(1));
    p.com[7] = (f0(cc, secret, &p, &ch) * (secret - zeta).inverse().unwrap()).into_affine();
    p.com[8] = ((p.com[3].into_group() - G1Affine::generator() * p.bar[5]) * (secret - zeta * w).inverse().unwrap()).into_affine();
    p.u = challenges::<T>(&p)[5];
    p
}
fn acc<T: digest::Digest + Default>(cc: &CompiledCircuit, srs: &Srs, p: &Pf) -> Result<bool, String> {
    let p = to_proof(p);
    guard(|| verify::<T>(cc, srs.clone(), p).is_ok())
}
fn setpoly(cc: &CompiledCircuit, which: usize, f: impl Fn(&Poly) -> Poly) -> CompiledCircuit {
    let (g, s) = (cc.gate_constraints(), cc.copy_constraints());
    let l = [g.q_lx(), g.q_rx(), g.q_ox(), g.q_mx(), g.q_cx(), g.pi_x(), s.s_sigma_1(), s.s_sigma_2(), s.s_sigma_3()];
    let m: Vec<Poly> = l.iter().enumerate().map(|(i, p)| if i == which { f(p) } else { (*p).clone() }).collect();
    CompiledCircuit::new(
        GateConstraints::new(g.f_ax().clone(), g.f_bx().clone(), g.f_cx().clone(), m[0].clone(), m[1].clone(), m[2].clone(), m[3].clone(), m[4].clone(), m[5].clone()),
        CopyConstraints::new(m[6].clone(), m[7].clone(), m[8].clone(), *s.k1(), *s.k2()), cc.size)
}
const QN: [&str; 9] = ["q_l", "q_r", "q_o", "q_m", "q_c", "pi", "sigma 1", "sigma 2", "sigma 3"];

fn p09(c: &mut Ctx) {
    c.rule = "honest proofs of circuits of 1..8 (one of 17) gates, and proofs forged with the secret that satisfy the equation for arbitrary values and arbitrary circuits, each accepted; each single alteration of a commitment, evaluation, last challenge, slice degree, selector, permutation, public input, coset shift or reference string decided like the reference equation (and the listed ones rejected); non-trivial: all".into();
    let mut r = c.rng();
    p09_in::<Sha256>(c, &mut r, 0);
    p09_in::<Sha512>(c, &mut r, 1);
}
fn p09_in<T: digest::Digest + Default>(c: &mut Ctx, r: &mut rand::rngs::StdRng, tn: usize) {
    for k in 0..c.n(6, 60) {
        let n = if k % 6 == 4 && tn == 0 { 17 } else { [2, 1, 3, 4, 5, 8][k % 6] };
        let forged = cfg!(feature = "hooks") && k % 2 == 1;
        let g = if forged { let mut g = anyg(r, n); for x in g.iter_mut() { x.cst = scalar(r); } g } else { satg(r, n, true, true) };
        let mut cc = own_compile(&g);
        if forged && k % 4 == 3 {
            // arbitrary coset shifts and polynomials
            let s = cc.copy_constraints();
            let (k1, k2) = (scalar(r), scalar(r));
            cc = CompiledCircuit::new(clone_gates(cc.gate_constraints()), CopyConstraints::new(s.s_sigma_1().clone(), s.s_sigma_2().clone(), s.s_sigma_3().clone(), k1, k2), cc.size);
        }
        let secret = Fr::rand(r);
        let srs = Srs::new_from_secret(secret, cc.size);
        if !c.begin(format!("{} {}: {}", TN[tn], if forged { "forged" } else { "honest" }, showg(&g)), true) { continue; }
        #[allow(unused_mut)]
        let mut base = None;
        if !forged {
            let Some(p) = c.total("proving", || generate_proof::<T>(&cc, srs.clone())) else { continue };
            base = Some(from_proof(&p));
        }
        #[cfg(feature = "hooks")]
        if forged { base = Some(forge::<T>(&cc, secret, r)); }
        let base = base.unwrap();
        let Some(Ok(ok)) = Some(acc::<T>(&cc, &srs, &base)) else { c.check(false, "verifying panicked"); continue };
        if !c.check(ok, "a proof that satisfies the verifier's equation is rejected") { continue; }
        #[cfg(feature = "hooks")]
        c.check(ref_verify::<T>(&cc, secret, &base), "reference equation rejects the base proof");
        // alterations of the proof that must be rejected
        let d = *pick(r, &[Fr::one(), -Fr::one(), Fr::from(7u64)]);
        let mut alts: Vec<(String, Pf)> = vec![];
        for i in 0..9 {
            let mut p = base.clone(); p.com[i] = (p.com[i] + g1(d)).into_affine(); alts.push((format!("{} commitment shifted", CN[i]), p));
            let mut p = base.clone(); if !p.com[i].is_zero() { p.com[i] = -p.com[i]; alts.push((format!("{} commitment negated", CN[i]), p)); }
            let j = (i + 1) % 9;
            let mut p = base.clone(); if p.com[i] != p.com[j] { p.com.swap(i, j); alts.push((format!("{} and {} commitments exchanged", CN[i], CN[j]), p)); }
        }
        for i in 0..6 {
            let mut p = base.clone(); p.bar[i] += d; alts.push((format!("evaluation {i} changed"), p));
            let j = (i + 1) % 6;
            let mut p = base.clone(); if p.bar[i] != p.bar[j] { p.bar.swap(i, j); alts.push((format!("evaluations {i} and {j} exchanged"), p)); }
        }
        let mut p = base.clone(); p.u += d; alts.push(("last challenge changed".into(), p));
        let mut p = base.clone(); p.u = Fr::zero(); alts.push(("last challenge zero".into(), p));
        for (nm, p) in &alts {
            match acc::<T>(&cc, &srs, p) { Ok(true) => { c.check(false, format!("accepted with {nm}")); } _ => {} }
            #[cfg(feature = "hooks")]
            {
                // the same alteration, with the last challenge brought up to date: only the equation is left to object
                let mut q = p.clone();
                q.u = challenges::<T>(&q)[5];
                let want = ref_verify::<T>(&cc, secret, &q);
                match acc::<T>(&cc, &srs, &q) { Ok(x) => { c.check(x == want, format!("{nm} and last challenge updated: verifier says {x}, equation says {want}")); } Err(m) => { c.check(!want, format!("{nm}: panicked ({m}) though the equation holds")); } }
            }
        }
        #[cfg(feature = "hooks")]
        for dg in [0usize, 1, base.degree + 1, base.degree.wrapping_sub(1), 2 * base.degree + 1] {
            if dg > 1000 { continue; }
            let mut q = base.clone();
            q.degree = dg;
            let want = ref_verify::<T>(&cc, secret, &q);
            match acc::<T>(&cc, &srs, &q) { Ok(x) => { c.check(x == want, format!("slice degree {dg}: verifier says {x}, equation says {want}")); } Err(m) => { c.check(!want, format!("slice degree {dg}: panicked ({m})")); } }
        }
        // other circuits
        for i in 0..9 {
            let row = r.gen_range(0..cc.size);
            let mut e = vec![Fr::zero(); cc.size];
            e[row] = d;
            let delta = inter(e, cc.size);
            // (a sigma_1/sigma_2 change is seen through the committed polynomials, the others directly)
            let c2 = setpoly(&cc, i, |p| p + &delta);
            // a selector enters the equation multiplied by an evaluation, which may be zero in a forged proof
            let zero_factor = match i { 0 => base.bar[0].is_zero(), 1 => base.bar[1].is_zero(), 2 => base.bar[2].is_zero(), 3 => base.bar[0].is_zero() || base.bar[1].is_zero(), 8 => base.bar[5].is_zero(), _ => false };
            let got = acc::<T>(&c2, &srs, &base);
            #[cfg(feature = "hooks")]
            { let want = ref_verify::<T>(&c2, secret, &base); c.check(got == Ok(want), format!("circuit with {} changed at row {row}: verifier says {got:?}, equation says {want}", QN[i])); }
            if !zero_factor { c.check(got != Ok(true), format!("accepted for a circuit with {} changed at row {row}", QN[i])); }
        }
        // other reference strings: a different secret
        let s2 = Srs::new_from_secret(secret + d, cc.size);
        c.check(acc::<T>(&cc, &s2, &base) != Ok(true), "accepted against another reference string");
        #[cfg(feature = "hooks")]
        for (nm, k1, k2) in [("k1", Fr::one(), Fr::zero()), ("k2", Fr::zero(), Fr::one())] {
            let s = cc.copy_constraints();
            let c2 = CompiledCircuit::new(clone_gates(cc.gate_constraints()), CopyConstraints::new(s.s_sigma_1().clone(), s.s_sigma_2().clone(), s.s_sigma_3().clone(), *s.k1() + k1, *s.k2() + k2), cc.size);
            let want = ref_verify::<T>(&c2, secret, &base);
            let got = acc::<T>(&c2, &srs, &base);
            c.check(got == Ok(want), format!("{nm} changed: verifier says {got:?}, equation says {want}"));
        }
        // wire polynomials are the prover's business: the verifier must not read them
        let c3 = { let x = clonecc(&cc); let (g, s) = (x.gate_constraints(), x.copy_constraints());
            CompiledCircuit::new(GateConstraints::new(g.pi_x().clone(), g.q_cx().clone(), g.q_lx().clone(), g.q_lx().clone(), g.q_rx().clone(), g.q_ox().clone(), g.q_mx().clone(), g.q_cx().clone(), g.pi_x().clone()),
                CopyConstraints::new(s.s_sigma_1().clone(), s.s_sigma_2().clone(), s.s_sigma_3().clone(), *s.k1(), *s.k2()), x.size) };
        c.check(acc::<T>(&c3, &srs, &base) == Ok(true), "rejected when only the prover's wire polynomials differ");
    }
}
fn clone_gates(g: &GateConstraints) -> GateConstraints {
    GateConstraints::new(g.f_ax().clone(), g.f_bx().clone(), g.f_cx().clone(), g.q_lx().clone(), g.q_rx().clone(), g.q_ox().clone(), g.q_mx().clone(), g.q_cx().clone(), g.pi_x().clone())
}

fn p10(c: &mut Ctx) {
    c.rule = "all histories up to length 3 (thorough 4) over a small alphabet of near-miss points compared pairwise, long ones altered in one item, order or count, draws interleaved, bulk against single; three digests; non-trivial: all".into();
    #[cfg(not(feature = "hooks"))]
    c.skipped.push("the module is private and the hooks are unavailable".into());
    #[cfg(feature = "hooks")]
    { p10_in::<Sha256>(c); p10_in::<Sha512>(c); p10_in::<Sha384>(c); }
}
#[cfg(feature = "hooks")]
fn p10_in<T: digest::Digest + Default + Clone>(c: &mut Ctx) {
    use plonk::vp_hooks::ChallengeGenerator as CG;
    let mut r = c.rng();
    let f = |x: i64| if x < 0 { -Fr::from((-x) as u64) } else { Fr::from(x as u64) };
    let mut memo: HashMap<Fr, KzgCommitment> = HashMap::new();
    let mut com = move |x: Fr| memo.entry(x).or_insert_with(|| KzgCommitment(g1(x))).clone();
    let mut build = move |h: &[Fr], draws: u64| { let mut t = CG::<T>::default(); for (i, x) in h.iter().enumerate() { if i > 0 && draws >> (i % 60) & 1 == 1 { let [_a, _b] = t.generate_challenges(); } t.feed(&com(*x)); } t };
    let al: Vec<Fr> = [0, 1, -1, 2, -2, 3].iter().map(|x| f(*x)).collect();
    let mut hs: Vec<Vec<Fr>> = al.iter().map(|a| vec![*a]).collect();
    let mut cur = hs.clone();
    for _ in 0..c.n(2, 3) { cur = cur.iter().flat_map(|h| al.iter().map(move |a| { let mut g = h.clone(); g.push(*a); g })).collect(); hs.extend(cur.clone()); }
    for b in 4..40 { hs.push(vec![f(b)]); hs.push(vec![f(-b)]); hs.push(vec![f(b), f(1)]); }
    if c.begin(format!("{} histories pairwise", hs.len()), true) {
        let mut seen: HashMap<[Fr; 1], Vec<Fr>> = HashMap::new();
        for h in hs {
            let Some(x) = c.total("drawing a challenge", || build(&h, 0).generate_challenges::<1>()) else { break };
            if let Some(o) = seen.insert(x, h.clone()) { if o != h && !c.check(false, format!("histories {} and {} give the same challenge", showv(&o), showv(&h))) { break; } }
        }
    }
    for k in 0..c.n(30, 400) {
        let n = if k % 10 == 9 { 120 } else { r.gen_range(1..10) };
        let h: Vec<Fr> = (0..n).map(|_| f(r.gen_range(-9..9))).collect();
        if !c.begin(format!("history of {n}: {}", showv(&h[..n.min(10)])), true) { continue; }
        let Some(a) = c.total("drawing challenges", || build(&h, 0).generate_challenges::<3>()) else { continue };
        let d = r.gen::<u64>();
        if let Some(b) = c.total("drawing challenges", || build(&h, d).generate_challenges::<3>()) { c.eq(b, a, "challenges depend on earlier draws"); }
        c.eq(build(&h, 0).generate_challenges::<3>(), a, "challenges of equal histories");
        for kind in 0..6 {
            let mut g = h.clone();
            let i = r.gen_range(0..n);
            match kind {
                0 => g[i] += Fr::one(),
                1 => { g.remove(i); if g.is_empty() { continue; } }
                2 => g.insert(i, g[i]),
                3 => { let j = r.gen_range(0..n); g.swap(i, j); }
                4 => g[i] = -g[i],
                _ => g.push(Fr::zero()),
            }
            if g == h { continue; }
            c.check(build(&g, 0).generate_challenges::<3>() != a, format!("altered history (kind {kind} at {i}) gives the same challenges"));
        }
        let mut t = build(&h, 0);
        let [_x] = t.generate_challenges();
        c.refuses("drawing twice without absorbing", || { let [_y] = t.generate_challenges(); });
        let coms: Vec<KzgCommitment> = h.iter().take(if k % 20 == 9 { 120 } else { 8 }).map(|x| KzgCommitment(g1(*x))).collect();
        c.eq(CG::<T>::from_commitments(&coms).generate_challenges::<2>(), build(&h[..coms.len()], 0).generate_challenges::<2>(), "bulk construction");
        // a draw is a function of the state only, whatever number of challenges is drawn
        let mut u = build(&h, 0);
        let [_q] = u.generate_challenges();
        u.feed(&coms[0]);
        let mut h2 = h.clone();
        h2.push(h[0]);
        c.eq(u.generate_challenges::<2>(), build(&h2, 0).generate_challenges::<2>(), "challenges after a draw of another size");
        c.refuses("drawing with nothing absorbed", || { let [_y] = CG::<T>::default().generate_challenges(); });
        let [c1, c2] = build(&h, 0).generate_challenges();
        c.check(c1 != c2, "two challenges of one draw coincide");
    }
    if c.begin("nothing absorbed", true) {
        c.refuses("drawing with nothing absorbed", || { let [_y] = CG::<T>::default().generate_challenges(); });
        c.refuses("drawing from an empty bulk construction", || { let [_y] = CG::<T>::from_commitments(&[]).generate_challenges(); });
    }
}
