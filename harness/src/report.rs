//! Case context: what the monitors observed, and what they object to.
use std::collections::{BTreeMap, HashSet};

#[derive(Default)]
pub struct Cx {
    pub counters: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub viol: Vec<(String, String)>,
    pub samples: Vec<String>,
    pub thorough: bool,
    pub replay: bool,
}
impl Cx {
    pub fn count(&mut self, k: &str) { self.add(k, 1); }
    pub fn add(&mut self, k: &str, n: u64) {
        if let Some(v) = self.counters.get_mut(k) { *v += n; } else { self.counters.insert(k.to_string(), n); }
    }
    /// One judged, non-trivial observation identified by `h`.
    pub fn observed(&mut self, h: u64) {
        self.count("judged");
        if self.distinct.len() < 400_000 { self.distinct.insert(h); }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) { if self.samples.len() < 6 { let s = f(); self.samples.push(s); } }
    /// `sig` identifies the kind of violation (stable), `detail` the witness.
    pub fn violation(&mut self, sig: impl Into<String>, detail: impl Into<String>) {
        if self.viol.len() < 50 { self.viol.push((sig.into(), detail.into())); }
    }
}
pub fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\t' => o.push_str("\\t"), '\r' => o.push_str("\\r"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) }
    }
    o
}
