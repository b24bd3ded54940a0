//! Layer B: executes the real crates of /repo against executable forms of the contracts.
//! usage: vpb <property> <seed> <tier> <out.json> [only-case]
mod fri_p;
mod kzg_p;
mod nova_p;
mod plonk_p;

use rand::rngs::StdRng;
use rand::{Rng, SeedableRng};
use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

pub struct Fail {
    pub case: u64,
    pub input: String,
    pub what: String,
    pub finding: Option<String>,
}

pub struct Ctx {
    pub seed: u64,
    pub thorough: bool,
    pub case: u64,
    only: Option<u64>,
    pub input: String,
    pub evals: u64,
    distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub fails: Vec<Fail>,
    pub rule: String,
    deadline: Instant,
    pub skipped: Vec<String>,
    progress: Option<String>,
}

impl Ctx {
    /// A case: a description of the input, trivial or not. Returns false when it must be skipped.
    pub fn begin(&mut self, input: impl Into<String>, nontrivial: bool) -> bool {
        self.case += 1;
        if let Some(o) = self.only {
            if o != self.case {
                return false;
            }
        } else if Instant::now() > self.deadline || self.fails.len() >= 5 {
            return false;
        }
        self.input = input.into();
        if let Some(p) = &self.progress { let _ = std::fs::write(p, format!("case {}: {}", self.case, self.input)); }
        self.evals += 1;
        if nontrivial {
            let mut h = DefaultHasher::new();
            self.input.hash(&mut h);
            if self.distinct.insert(h.finish()) && (self.samples.len() < 3 || (self.samples.len() < 8 && self.evals % 37 == 0)) {
                let mut s = self.input.clone();
                s.truncate(600);
                self.samples.push(s);
            }
        }
        true
    }
    pub fn check(&mut self, ok: bool, what: impl Into<String>) -> bool {
        if !ok {
            self.fails.push(Fail { case: self.case, input: self.input.clone(), what: what.into(), finding: None });
        }
        ok
    }
    pub fn eq<T: PartialEq + std::fmt::Debug>(&mut self, got: T, want: T, what: &str) -> bool {
        let ok = got == want;
        if !ok {
            let mut m = format!("{what}: got {got:?}, expected {want:?}");
            m.truncate(1500);
            self.check(false, m);
        }
        ok
    }
    /// runs f, recording a failure when it panics
    pub fn total<T>(&mut self, what: &str, f: impl FnOnce() -> T) -> Option<T> {
        match guard(f) {
            Ok(v) => Some(v),
            Err(m) => {
                self.check(false, format!("{what} panicked: {m}"));
                None
            }
        }
    }
    /// f must panic
    pub fn refuses<T>(&mut self, what: &str, f: impl FnOnce() -> T) {
        if guard(f).is_ok() {
            self.check(false, format!("{what} was not refused"));
        }
    }
    /// a generator that depends on seed and case only
    pub fn rng(&self) -> StdRng {
        StdRng::seed_from_u64(self.seed.wrapping_mul(0x9E3779B97F4A7C15) ^ self.case.wrapping_mul(0xD1B54A32D192ED03) ^ 0x5bd1e995)
    }
    /// rng of the case about to begin
    pub fn rng_next(&self) -> StdRng {
        let c = self.case + 1;
        StdRng::seed_from_u64(self.seed.wrapping_mul(0x9E3779B97F4A7C15) ^ c.wrapping_mul(0xD1B54A32D192ED03) ^ 0x5bd1e995)
    }
    pub fn n(&self, quick: usize, thorough: usize) -> usize {
        if self.thorough { thorough } else { quick }
    }
}

pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() { s.to_string() }
        else if let Some(s) = e.downcast_ref::<String>() { s.clone() }
        else { "panic".to_string() }
    })
}

pub fn pick<'a, T>(r: &mut impl Rng, v: &'a [T]) -> &'a T {
    &v[r.gen_range(0..v.len())]
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (prop, seed, tier, out) = (a[1].clone(), a[2].parse::<u64>().unwrap(), a[3].clone(), a[4].clone());
    let only = a.get(5).map(|x| x.parse::<u64>().unwrap());
    let thorough = tier == "thorough";
    std::panic::set_hook(Box::new(|_| {}));
    let budget = std::env::var("VPB_BUDGET_S").ok().and_then(|x| x.parse().ok()).unwrap_or(if thorough { 600 } else { 60 });
    let mut c = Ctx {
        seed, thorough, case: 0, only, input: String::new(), evals: 0, distinct: HashSet::new(), samples: vec![], fails: vec![],
        rule: String::new(), deadline: Instant::now() + Duration::from_secs(budget), skipped: vec![], progress: Some(format!("{out}.progress")),
    };
    let t0 = Instant::now();
    let body = AssertUnwindSafe(|| match &prop[..1] {
        "K" => kzg_p::run(&prop, &mut c),
        "F" => fri_p::run(&prop, &mut c),
        "N" => nova_p::run(&prop, &mut c),
        "P" => plonk_p::run(&prop, &mut c),
        _ => false,
    });
    let known = match catch_unwind(body) {
        Ok(k) => k,
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            let (case, input) = (c.case, c.input.clone());
            c.fails.push(Fail { case, input, what: format!("unexpected panic in the code under test: {m}"), finding: None });
            true
        }
    };
    if !known {
        eprintln!("unknown property {prop}");
        std::process::exit(2);
    }
    let fails: Vec<String> = c.fails.iter().map(|f| format!("{{\"case\":{},\"input\":{},\"what\":{},\"finding\":{}}}", f.case, js(&f.input), js(&f.what),
        f.finding.as_ref().map(|x| js(x)).unwrap_or("null".into()))).collect();
    let s = format!("{{\"property\":{},\"seed\":{},\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"samples\":[{}],\"skipped\":[{}],\"failures\":[{}],\"wall_s\":{}}}\n",
        js(&prop), seed, c.evals, c.distinct.len(), js(&c.rule),
        c.samples.iter().map(|x| js(x)).collect::<Vec<_>>().join(","),
        c.skipped.iter().map(|x| js(x)).collect::<Vec<_>>().join(","),
        fails.join(","), t0.elapsed().as_secs_f64());
    std::fs::write(&out, s).unwrap();
}
