//! Bookkeeping of a campaign: cases, time, samples.
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::time::Instant;

pub struct Ctl {
    pub prop: String,
    pub seed: u64,
    pub deadline: Instant,
    /// replay: only this case
    pub only: Option<u64>,
    pub evals: u64,
    pub seen: HashSet<u64>,
    pub samples: Vec<String>,
    pub inflight: Option<std::fs::File>,
    pub thorough: bool,
    /// this process does the cases congruent to shard.0 modulo shard.1
    pub shard: (u64, u64),
}

pub struct Found {
    pub case: u64,
    pub what: String,
}

pub type Res = Result<(), Found>;

impl Ctl {
    pub fn left(&self) -> bool {
        Instant::now() < self.deadline
    }
    /// Whether to do case `n` (a systematic one: done whatever the time left).
    pub fn want(&self, n: u64) -> bool {
        self.only.map(|o| o == n).unwrap_or(n % self.shard.1 == self.shard.0)
    }
    pub fn eval<H: Hash>(&mut self, key: &H) {
        self.evals += 1;
        if self.seen.len() < 2_000_000 {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            key.hash(&mut h);
            self.seen.insert(h.finish());
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        let n = self.evals;
        if self.samples.len() < 3 || (n.is_power_of_two() && self.samples.len() < 12) {
            let mut t = f();
            if t.len() > 600 {
                let mut k = 600;
                while !t.is_char_boundary(k) {
                    k -= 1;
                }
                t.truncate(k);
                t.push_str("..");
            }
            self.samples.push(t);
        }
    }
    /// Case numbers from `base` on, until time is up.
    pub fn next_case(&self, base: u64, i: &mut u64) -> Option<u64> {
        if let Some(o) = self.only {
            if *i == 0 && o >= base {
                *i = 1;
                return Some(o);
            }
            return None;
        }
        if !self.left() {
            return None;
        }
        *i += 1;
        Some((base + *i - 1) * self.shard.1 + self.shard.0)
    }
    /// Say what is being run, for the case that it takes the process down.
    pub fn inflight(&mut self, t: &str) {
        use std::io::{Seek, Write};
        if let Some(f) = &mut self.inflight {
            let _ = f.seek(std::io::SeekFrom::Start(0));
            let mut line = t.to_string();
            line.push_str("\n--end--\n");
            let _ = f.write_all(line.as_bytes());
        }
    }
}

pub fn found(case: u64, what: impl Into<String>) -> Res {
    Err(Found { case, what: what.into() })
}
