use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

pub struct Violation {
    pub tags: Vec<String>,
    pub what: String,
    pub input: String,
}

pub struct Ctx {
    pub pid: String,
    pub seed: u64,
    pub deadline: Instant,
    pub cli: Option<String>,
    pub scratch: String,
    pub violations: Mutex<Vec<Violation>>,
    pub evaluations: AtomicU64,
    pub distinct: Mutex<BTreeSet<u64>>,
    pub samples: Mutex<Vec<String>>,
    pub counts: Mutex<BTreeMap<String, u64>>,
}

fn hash(text: &str) -> u64 {
    text.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}

impl Ctx {
    pub fn wants(&self, tag: &str) -> bool {
        self.pid == "all" || self.pid == tag
    }
    pub fn stop(&self) -> bool {
        Instant::now() > self.deadline || self.violations.lock().unwrap().len() >= 3
    }
    /// Records one evaluated case
    pub fn case(&self, group: &str, text: impl FnOnce() -> String) {
        self.evaluations.fetch_add(1, Ordering::Relaxed);
        let text = text();
        *self.counts.lock().unwrap().entry(group.to_string()).or_insert(0) += 1;
        let mut distinct = self.distinct.lock().unwrap();
        if distinct.len() < 2_000_000 && distinct.insert(hash(&text)) {
            let mut samples = self.samples.lock().unwrap();
            if samples.len() < 5 || (samples.len() < 12 && distinct.len() % 97 == 0) {
                samples.push(format!("{}: {}", group, text.chars().take(300).collect::<String>()));
            }
        }
    }
    pub fn fail(&self, tags: &[&str], what: String, input: String) {
        let tags: Vec<String> = tags.iter().filter(|t| self.wants(t)).map(|t| t.to_string()).collect();
        if !tags.is_empty() {
            self.violations.lock().unwrap().push(Violation { tags, what, input });
        }
    }
    pub fn check(&self, tags: &[&str], ok: bool, what: impl FnOnce() -> String, input: &dyn Fn() -> String) -> bool {
        if !ok {
            self.fail(tags, what(), input());
        }
        ok
    }
    /// Runs a piece of code under test; Err is the panic message.
    pub fn run<T>(&self, f: impl FnOnce() -> T) -> Result<T, String> {
        catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
            e.downcast_ref::<String>()
                .cloned()
                .or(e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_else(|| "panic".to_string())
        })
    }
}
