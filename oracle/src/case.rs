//! Cases, registries and the work loop shared by every contract monitor.
use crate::rng::Rng;
use serde_json::{json, Value};
use std::collections::HashSet;
use std::time::{Duration, Instant};

/// One input of one monitor. Everything a replay needs.
#[derive(Clone, Debug)]
pub struct Case { pub prop: String, pub sub: String, pub text: String, pub args: Value }

impl Case {
    pub fn json(&self) -> Value { json!({"property": self.prop, "monitor": self.sub, "input": self.text, "args": self.args}) }
    pub fn from_json(v: &Value) -> Option<Case> {
        Some(Case { prop: v["property"].as_str()?.into(), sub: v["monitor"].as_str()?.into(), text: v["input"].as_str()?.into(), args: v["args"].clone() })
    }
}

/// Ok(true): held, and the input exercised the property. Ok(false): held trivially.
pub type Outcome = Result<bool, String>;

pub struct Sub {
    pub name: &'static str,
    pub weight: usize,
    pub gen: fn(&mut Rng) -> (String, Value),
    pub run: fn(&str, &Value) -> Outcome,
    pub fixed: fn() -> Vec<(String, Value)>,
}

pub fn none() -> Vec<(String, Value)> { vec![] }

pub fn panic_message(p: Box<dyn std::any::Any + Send>) -> String {
    p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "panic".into())
}

pub fn execute(sub: &Sub, text: &str, args: &Value) -> Outcome {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (sub.run)(text, args))) {
        Ok(r) => r,
        Err(p) => Err(format!("panicked: {}", panic_message(p))),
    }
}

pub struct Stats { pub evaluations: u64, pub per: Vec<(String, u64, u64)>, pub distinct: HashSet<u64>, pub samples: Vec<Value> }

fn hash(sub: &str, text: &str, args: &Value) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    (sub, text, args.to_string()).hash(&mut h);
    h.finish()
}

pub struct Worker<'a> { pub prop: &'a str, pub subs: &'a [Sub], pub stream: usize, pub streams: usize, pub seed: u64, pub cur: &'a str }

impl Worker<'_> {
    fn step(&self, sub: &Sub, text: String, args: Value, st: &mut Stats) -> Option<(Case, String)> {
        let case = Case { prop: self.prop.into(), sub: sub.name.into(), text, args };
        std::fs::write(self.cur, case.json().to_string()).ok();
        let r = execute(sub, &case.text, &case.args);
        st.evaluations += 1;
        let p = st.per.iter_mut().find(|p| p.0 == sub.name).unwrap();
        p.1 += 1;
        match r {
            Ok(nontrivial) => {
                if nontrivial && st.distinct.insert(hash(sub.name, &case.text, &case.args)) {
                    p.2 += 1;
                    if p.2 % 997 == 1 && st.samples.len() < 6 && case.text.len() < 400 { st.samples.push(case.json()); }
                }
                None
            }
            Err(e) => Some((case, e)),
        }
    }
    pub fn work(&self, budget: Duration) -> (Stats, Option<(Case, String)>) {
        let mut st = Stats { evaluations: 0, per: self.subs.iter().map(|s| (s.name.to_string(), 0, 0)).collect(), distinct: HashSet::new(), samples: vec![] };
        for sub in self.subs {
            for (i, (text, args)) in (sub.fixed)().into_iter().enumerate() {
                if i % self.streams != self.stream { continue; }
                if let Some(f) = self.step(sub, text, args, &mut st) { return (st, Some(f)); }
            }
        }
        let start = Instant::now();
        let mut rng = Rng::new(self.seed.wrapping_mul(1_000_003).wrapping_add(self.stream as u64 * 7919 + 1));
        let total: usize = self.subs.iter().map(|s| s.weight).sum();
        while total > 0 && start.elapsed() < budget {
            let mut k = rng.below(total);
            let sub = self.subs.iter().find(|s| if k < s.weight { true } else { k -= s.weight; false }).unwrap();
            let (text, args) = (sub.gen)(&mut rng);
            if let Some(f) = self.step(sub, text, args, &mut st) { return (st, Some(f)); }
        }
        (st, None)
    }
}

/// Greedy text shrinking; `fails` is run under the caller's isolation.
pub fn shrink(case: &Case, mut fails: impl FnMut(&Case) -> bool, budget: Duration) -> Case {
    let start = Instant::now();
    let mut best = case.clone();
    let mut size = best.text.chars().count() / 2;
    while size >= 1 && start.elapsed() < budget {
        let chars: Vec<char> = best.text.chars().collect();
        let mut i = 0; let mut progress = false;
        while i < chars.len() && start.elapsed() < budget {
            let j = (i + size).min(chars.len());
            let t: String = chars[..i].iter().chain(&chars[j..]).collect();
            let c = Case { text: t, ..best.clone() };
            if fails(&c) { best = c; progress = true; break; }
            i = j;
        }
        if !progress { size /= 2; } else { size = size.min(best.text.chars().count().max(1)); }
    }
    best
}
