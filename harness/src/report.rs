//! Verdicts, evidence files and known findings.
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fmt::Write as _;
use std::time::Instant;

pub struct Ctx {
    pub id: &'static str,
    pub level: &'static str,
    pub thorough: bool,
    pub seed: u64,
    t0: Instant,
    /// executions of the real code that were judged against the oracle
    pub traces: u64,
    /// steps (calls, stream operations, decoded tokens...) in them
    pub transitions: u64,
    /// distinct observed states / outcomes (hashes)
    pub states: HashSet<u64>,
    pub evaluations: u64,
    pub samples: Vec<String>,
    pub spaces: Vec<(String, u64)>,
    pub assumptions: Vec<String>,
    pub exhaustive: bool,
    pub rule: String,
    violations: BTreeMap<String, String>,
    known: BTreeMap<String, String>,
    known_hit: BTreeSet<String>,
    pub extra: BTreeMap<String, u64>,
}

pub fn hash(b: &[u8]) -> u64 {
    // FNV-1a 64 with an avalanche step
    let mut h = 0xcbf29ce484222325u64;
    for c in b.chunks(8) {
        let mut v = [0u8; 8];
        v[..c.len()].copy_from_slice(c);
        h = (h ^ u64::from_le_bytes(v)).wrapping_mul(0x100000001b3);
        h ^= h >> 29;
    }
    h ^= b.len() as u64;
    h = h.wrapping_mul(0x9E3779B97F4A7C15);
    h ^ (h >> 32)
}

fn root() -> std::path::PathBuf {
    std::env::var_os("ORVERIF_ROOT")
        .map(Into::into)
        .unwrap_or_else(|| "/verif".into())
}

impl Ctx {
    pub fn new(id: &'static str, level: &'static str, thorough: bool) -> Ctx {
        let seed = std::env::var("VERIF_SEED")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(1);
        let mut known = BTreeMap::new();
        if let Ok(s) = std::fs::read_to_string(root().join("KNOWN_FINDINGS")) {
            for l in s.lines() {
                if let Some(r) = l.strip_prefix("finding: property=") {
                    let mut it = r.splitn(3, ' ');
                    let p = it.next().unwrap_or("");
                    let k = it.next().unwrap_or("").strip_prefix("key=").unwrap_or("");
                    if p == id && !k.is_empty() {
                        known.insert(k.to_string(), it.next().unwrap_or("").to_string());
                    }
                }
            }
        }
        Ctx {
            id,
            level,
            thorough,
            seed,
            t0: Instant::now(),
            traces: 0,
            transitions: 0,
            states: HashSet::new(),
            evaluations: 0,
            samples: vec![],
            spaces: vec![],
            assumptions: vec![],
            exhaustive: true,
            rule: String::new(),
            violations: BTreeMap::new(),
            known,
            known_hit: BTreeSet::new(),
            extra: BTreeMap::new(),
        }
    }
    pub fn q<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }
    pub fn state(&mut self, b: &[u8]) {
        self.states.insert(hash(b));
    }
    pub fn sample(&mut self, s: impl Into<String>) {
        if self.samples.len() < 12 {
            let mut s: String = s.into();
            if s.len() > 600 {
                let mut n = 600;
                while !s.is_char_boundary(n) {
                    n -= 1;
                }
                s.truncate(n);
            }
            self.samples.push(s);
        }
    }
    pub fn space(&mut self, name: impl Into<String>, n: u64) {
        self.spaces.push((name.into(), n));
    }
    /// Report a violation. `key` identifies the failing input/call/history.
    pub fn violation(&mut self, key: impl Into<String>, detail: impl Into<String>) {
        let key: String = key.into().replace(' ', "_");
        for k in self.known.keys() {
            let m = match k.strip_suffix('*') {
                Some(p) => key.starts_with(p),
                None => *k == key,
            };
            if m {
                self.known_hit.insert(k.clone());
                return;
            }
        }
        if self.violations.len() < 100000 {
            self.violations.entry(key).or_insert(detail.into());
        }
    }
    pub fn n_violations(&self) -> usize {
        self.violations.len()
    }
    pub fn finish(mut self) -> i32 {
        let r = root();
        let _ = std::fs::create_dir_all(r.join("evidence"));
        let wall = self.t0.elapsed().as_secs_f64();
        if self.samples.is_empty() {
            self.samples.push("(none)".into());
        }
        let mut j = String::new();
        let q = |s: &str| -> String {
            let mut o = String::from("\"");
            for c in s.chars() {
                match c {
                    '"' => o.push_str("\\\""),
                    '\\' => o.push_str("\\\\"),
                    c if (c as u32) < 0x20 || c as u32 == 0x7f => {
                        let _ = write!(o, "\\u{:04x}", c as u32);
                    }
                    c => o.push(c),
                }
            }
            o.push('"');
            o
        };
        let _ = write!(j, "{{\n \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": {},\n \"coverage\": {{\n", q(self.id), q(if self.thorough { "thorough" } else { "quick" }), self.seed, q(self.level));
        if self.level == "model_checking" {
            let _ = writeln!(
                j,
                "  \"states\": {}, \"transitions\": {}, \"traces_validated_against_impl\": {},",
                self.states.len(),
                self.transitions,
                self.traces
            );
        } else {
            let _ = writeln!(
                j,
                "  \"evaluations\": {}, \"distinct_nontrivial\": {},",
                self.evaluations.max(self.traces),
                self.states.len()
            );
        }
        let _ = writeln!(
            j,
            "  \"rule\": {},\n  \"exhaustive\": {},",
            q(&self.rule),
            self.exhaustive
        );
        let _ = write!(j, "  \"spaces\": {{");
        for (i, (n, v)) in self.spaces.iter().enumerate() {
            let _ = write!(j, "{}{}: {}", if i > 0 { ", " } else { "" }, q(n), v);
        }
        let _ = writeln!(j, "}},");
        for (k, v) in &self.extra {
            let _ = writeln!(j, "  {}: {},", q(k), v);
        }
        let _ = write!(j, "  \"samples\": [");
        for (i, s) in self.samples.iter().enumerate() {
            let _ = write!(j, "{}{}", if i > 0 { ", " } else { "" }, q(s));
        }
        let _ = write!(j, "]\n }},\n \"assumptions\": [");
        for (i, s) in self.assumptions.iter().enumerate() {
            let _ = write!(j, "{}{}", if i > 0 { ", " } else { "" }, q(s));
        }
        let _ = writeln!(
            j,
            "],\n \"wall_s\": {:.2},\n \"violations\": {},\n \"known_findings_hit\": {}\n}}",
            wall,
            self.violations.len(),
            self.known_hit.len()
        );
        let _ = std::fs::write(r.join("evidence").join(format!("{}.json", self.id)), j);

        for (k, d) in &self.known {
            if self.known_hit.contains(k) {
                println!("KNOWN-FINDING: property={} {} {}", self.id, k, d);
            } else {
                println!(
                    "note: listed finding not reproduced in this tier: property={} {}",
                    self.id, k
                );
            }
        }
        println!(
            "{}: {} traces, {} transitions, {} distinct states, {} spaces, {:.1}s, {} violation(s)",
            self.id,
            self.traces,
            self.transitions,
            self.states.len(),
            self.spaces.len(),
            wall,
            self.violations.len()
        );
        for (n, v) in &self.spaces {
            println!("  space {n}: {v}");
        }
        if self.violations.is_empty() {
            if self.traces == 0 && self.evaluations == 0 {
                println!("ERROR: nothing was explored");
                return 2;
            }
            return 0;
        }
        let _ = std::fs::create_dir_all(r.join("replays"));
        let rp = r.join("replays").join(format!("{}.txt", self.id));
        let mut s = format!("# replay: ORVERIF_ONLY=<key> /verif/run.sh {} \n", self.id);
        for (k, d) in &self.violations {
            let _ = writeln!(s, "{k}\t{d}");
        }
        let _ = std::fs::write(&rp, s);
        for (k, d) in self.violations.iter().take(15) {
            let d: String = d.chars().take(400).collect();
            println!("  violation {k}: {d}");
        }
        println!("VIOLATION property={} replay={}", self.id, rp.display());
        1
    }
}
