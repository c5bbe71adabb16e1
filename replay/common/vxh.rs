// Shared driver of the concrete checks: runs the compiled code of the tree on
// generated cases and compares what it observes with the contract.
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.next() % n } }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 { lo + self.below(hi - lo + 1) }
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.below(den) < num }
    pub fn u32(&mut self) -> u32 { self.next() as u32 }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len() as u64) as usize] }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> { (0..n).map(|_| self.next() as u8).collect() }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() { let j = self.below(i as u64 + 1) as usize; v.swap(i, j); }
    }
}

pub struct Violation { pub key: String, pub case: String, pub what: String }

pub struct Ctx {
    pub prop: String,
    pub seed: u64,
    pub rng: Rng,
    pub start: Instant,
    pub budget: Duration,
    pub cases: u64,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub violations: Vec<Violation>,
    pub families: BTreeMap<String, u64>,
}
pub type Outcome = Result<(), String>;

impl Ctx {
    pub fn from_args() -> Ctx {
        let a: Vec<String> = std::env::args().collect();
        let prop = a.get(1).cloned().unwrap_or_default();
        let seed: u64 = a.get(2).and_then(|s| s.parse().ok()).unwrap_or(1);
        let secs: f64 = a.get(3).and_then(|s| s.parse().ok()).unwrap_or(5.0);
        std::panic::set_hook(Box::new(|_| {}));
        Ctx { prop, seed, rng: Rng(seed.wrapping_mul(0x5851F42D4C957F2D) ^ 0xABCDEF), start: Instant::now(),
            budget: Duration::from_secs_f64(secs), cases: 0, distinct: HashSet::new(), samples: vec![], violations: vec![], families: BTreeMap::new() }
    }
    pub fn time_left(&self) -> bool { self.start.elapsed() < self.budget }
    pub fn done(&self) -> bool { !self.time_left() }
    // Runs one case. `key` names the clause of the contract it checks.
    pub fn case(&mut self, key: &str, desc: String, f: impl FnOnce() -> Outcome) {
        self.cases += 1;
        *self.families.entry(key.to_string()).or_insert(0) += 1;
        let mut h = std::collections::hash_map::DefaultHasher::new();
        (key, &desc).hash(&mut h);
        if self.distinct.len() < 2_000_000 { self.distinct.insert(h.finish()); }
        if self.samples.len() < 6 && (self.cases % 97 == 1) {
            let mut d = desc.clone();
            if d.len() > 400 { let mut n = 400; while !d.is_char_boundary(n) { n -= 1; } d.truncate(n); }
            self.samples.push(format!("{}: {}", key, d));
        }
        let r = catch_unwind(AssertUnwindSafe(f));
        let (key, what) = match r {
            Ok(Ok(())) => return,
            Ok(Err(e)) => match e.strip_prefix("@").and_then(|x| x.split_once(' ')) {
                // an outcome may name its own clause: "@clause text"
                Some((k, t)) => (format!("{}/{}", key, k), t.to_string()),
                None => (key.to_string(), e),
            },
            Err(p) => {
                let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("panic".into());
                (format!("{}/panic", key), format!("panic: {}", m))
            }
        };
        if !self.violations.iter().any(|v| v.key == key) && self.violations.len() < 20 {
            self.violations.push(Violation { key, case: desc, what });
        }
    }
    pub fn report(&self) {
        let mut o = String::new();
        o.push_str(&format!("{{\"property\":{},\"seed\":{},\"cases\":{},\"distinct\":{},\"wall\":{:.3},\"families\":{{", js(&self.prop), self.seed, self.cases, self.distinct.len(), self.start.elapsed().as_secs_f64()));
        o.push_str(&self.families.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
        o.push_str("},\"samples\":[");
        o.push_str(&self.samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(","));
        o.push_str("],\"violations\":[");
        o.push_str(&self.violations.iter().map(|v| format!("{{\"key\":{},\"case\":{},\"what\":{}}}", js(&v.key), js(&v.case), js(&v.what))).collect::<Vec<_>>().join(","));
        o.push_str("]}");
        println!("VXRESULT {}", o);
    }
}
pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) }
    }
    o.push('"');
    o
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}
