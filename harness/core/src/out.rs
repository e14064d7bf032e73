//! What a run observed: counts, samples, violations. Written as JSON for the orchestrator.
use std::{
    collections::{BTreeMap, HashSet},
    hash::{Hash, Hasher},
    path::PathBuf,
};

use serde_json::{Value, json};

pub struct Report {
    path: PathBuf,
    pub property: String,
    pub evaluations: u64,
    pub counters: BTreeMap<String, u64>,
    distinct: HashSet<u64>,
    pub samples: Vec<Value>,
    pub violations: Vec<Value>,
    sigs: BTreeMap<String, u64>,
    trace: Option<PathBuf>,
}

pub fn hash(x: &(impl Hash + ?Sized)) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

impl Report {
    pub fn new(path: impl Into<PathBuf>, property: &str) -> Self {
        let trace = std::env::var_os("MV_TRACE").map(PathBuf::from);
        Self { path: path.into(), property: property.into(), evaluations: 0, counters: BTreeMap::new(), distinct: HashSet::new(), samples: Vec::new(), violations: Vec::new(), sigs: BTreeMap::new(), trace }
    }
    /// Announce the case that is about to run, so that a crash of the process can be attributed.
    pub fn case(&self, what: impl FnOnce() -> Value) {
        if let Some(t) = &self.trace { let _ = std::fs::write(t, what().to_string()); }
    }
    pub fn tracing(&self) -> bool { self.trace.is_some() }
    pub fn count(&mut self, key: &str, n: u64) { *self.counters.entry(key.to_string()).or_default() += n; }
    pub fn eval(&mut self) { self.evaluations += 1; }
    /// One evaluated, distinct and non-trivial case.
    pub fn case_seen(&mut self, x: &(impl Hash + ?Sized)) { self.distinct.insert(hash(x)); }
    pub fn sample(&mut self, v: impl FnOnce() -> Value) { if self.samples.len() < 6 { self.samples.push(v()); } }
    pub fn sample_every(&mut self, n: u64, v: impl FnOnce() -> Value) { if self.evaluations % n == 1 && self.samples.len() < 8 { self.samples.push(v()); } }
    /// `sig` identifies the kind of failure (for known findings); only a few of each kind are kept.
    pub fn violation(&mut self, sig: &str, what: impl Into<String>, witness: Value) {
        let n = self.sigs.entry(sig.to_string()).or_default();
        *n += 1;
        if *n <= 3 && self.violations.len() < 60 {
            let mut what: String = what.into();
            if what.len() > 1500 { let mut n = 1500; while !what.is_char_boundary(n) { n -= 1; } what.truncate(n); }
            self.violations.push(json!({"signature": sig, "what": what, "witness": witness}));
        }
    }
    pub fn failed(&self) -> bool { !self.sigs.is_empty() }
    pub fn save(&self) {
        let v = json!({
            "property": self.property, "evaluations": self.evaluations, "distinct": self.distinct.len(),
            "counters": self.counters, "samples": self.samples, "violations": self.violations, "signatures": self.sigs,
        });
        std::fs::write(&self.path, serde_json::to_vec(&v).unwrap()).unwrap();
    }
}

pub fn hex(b: &[u8]) -> String { b.iter().map(|b| format!("{b:02x}")).collect() }
pub fn unhex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }
pub fn clip(s: &str, n: usize) -> String {
    if s.len() <= n { return s.to_string(); }
    let mut k = n;
    while !s.is_char_boundary(k) { k -= 1; }
    format!("{}…", &s[..k])
}
