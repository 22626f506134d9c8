//! Monitor context: case accounting, breadcrumbs, verdicts.
//!
//! Every monitored execution ("case") goes through [`Ctx::begin`], which shards
//! the workload, leaves a breadcrumb (so that an abort inside the code under
//! test can be attributed) and counts it.  A failed oracle ends the process
//! with exit code 1 after a replay file and a `VIOLATION` line are written.
use std::collections::{BTreeMap, HashSet};
use std::fs::File;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::time::{Duration, Instant};

pub struct Ctx {
    pub prop: String,
    pub tier: String,
    pub seed: u64,
    pub stage: String,
    shard: u64,
    nshards: u64,
    next: u64,
    only: Option<u64>,
    crumb: Option<File>,
    replay: String,
    pub evals: u64,
    pub observations: u64,
    distinct: HashSet<u64>,
    counters: BTreeMap<String, u64>,
    samples: Vec<String>,
    start: Instant,
    budget: Duration,
    current: String,
    truncated: std::cell::Cell<bool>,
}

fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|v| v.parse().ok()).unwrap_or(d)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h ^= u64::from(b);
        h = h.wrapping_mul(0x0000_0100_0000_01b3);
    }
    h ^ (h >> 29)
}

impl Ctx {
    /// Configuration comes from the environment set by the supervisor.
    pub fn from_env(prop: &str) -> Self {
        let crumb = std::env::var("FSMON_CRUMB").ok().map(|p| {
            File::options().create(true).truncate(true).write(true).open(p).expect("crumb file")
        });
        Self {
            prop: prop.to_string(),
            tier: std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into()),
            seed: env_u64("VERIF_SEED", 1),
            stage: std::env::var("FSMON_STAGE").unwrap_or_else(|_| "native".into()),
            shard: env_u64("FSMON_SHARD", 0),
            nshards: env_u64("FSMON_NSHARDS", 1).max(1),
            next: 0,
            only: std::env::var("FSMON_CASE").ok().and_then(|v| v.parse().ok()),
            crumb,
            replay: std::env::var("FSMON_REPLAY").unwrap_or_else(|_| "/tmp/fsmon-replay.txt".into()),
            evals: 0,
            observations: 0,
            distinct: HashSet::new(),
            counters: BTreeMap::new(),
            samples: Vec::new(),
            start: Instant::now(),
            budget: Duration::from_secs(env_u64("FSMON_BUDGET", 60)),
            current: String::new(),
            truncated: std::cell::Cell::new(false),
        }
    }

    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }

    /// Slow interpreters / sanitizers get a reduced workload.
    pub fn tiny(&self) -> bool {
        self.stage == "miri"
    }

    pub fn out_of_time(&self) -> bool {
        let t = self.start.elapsed() > self.budget;
        if t {
            self.truncated.set(true);
        }
        t
    }

    /// Start the next case. Returns `None` if it belongs to another shard,
    /// otherwise a seed for the case.
    pub fn begin(&mut self, desc: &str) -> Option<u64> {
        let id = self.next;
        self.next += 1;
        let mine = match self.only {
            Some(o) => o == id,
            None => id % self.nshards == self.shard,
        };
        if !mine {
            return None;
        }
        self.evals += 1;
        self.current = format!("case={} {}", id, desc);
        if let Some(f) = &self.crumb {
            let mut s = format!("{}\n", self.current);
            s.truncate(1000);
            let pad = 1024 - s.len();
            s.push_str(&" ".repeat(pad));
            let _ = f.write_at(s.as_bytes(), 0);
        }
        Some(hash_str(desc) ^ self.seed.wrapping_mul(0x9E37_79B9_7F4A_7C15))
    }

    /// Record one oracle verdict on a distinct situation.
    pub fn seen(&mut self, sig: &str) {
        self.observations += 1;
        if self.distinct.insert(hash_str(sig)) && self.samples.len() < 12 && self.distinct.len() % 97 == 1 {
            self.samples.push(sig.to_string());
        }
    }

    pub fn count(&mut self, key: &str, n: u64) {
        *self.counters.entry(key.to_string()).or_insert(0) += n;
    }

    pub fn current(&self) -> String {
        self.current.clone()
    }

    /// Report a violation and stop.
    pub fn fail(&self, msg: &str) -> ! {
        let body = format!(
            "property={}\nstage={}\ntier={}\nseed={}\n{}\n{}\n\nre-run: VERIF_SEED={} FSMON_CASE={} /verif/bin/check {} {}\n",
            self.prop, self.stage, self.tier, self.seed, self.current, msg, self.seed,
            self.current.trim_start_matches("case=").split(' ').next().unwrap_or("0"),
            self.prop, self.tier
        );
        let _ = std::fs::write(&self.replay, &body);
        let out = std::io::stdout();
        let mut o = out.lock();
        let _ = writeln!(o, "FSMON-FAIL {} :: {}", self.current, msg.replace('\n', " | "));
        let _ = o.flush();
        std::process::exit(1);
    }

    pub fn check(&self, ok: bool, msg: impl FnOnce() -> String) {
        if !ok {
            self.fail(&msg());
        }
    }

    /// Machine-readable result for the supervisor.
    pub fn finish(&self) {
        if self.only.is_none() {
            if let Ok(p) = std::env::var("FSMON_DISTINCT") {
                let mut v: Vec<u8> = Vec::with_capacity(self.distinct.len() * 8);
                for h in &self.distinct {
                    v.extend_from_slice(&h.to_le_bytes());
                }
                std::fs::write(p, v).expect("distinct file");
            }
        }
        let esc = |s: &str| s.replace('\\', "\\\\").replace('"', "\\\"");
        let c: Vec<String> = self.counters.iter().map(|(k, v)| format!("\"{}\":{}", esc(k), v)).collect();
        let s: Vec<String> = self.samples.iter().map(|v| format!("\"{}\"", esc(v))).collect();
        println!(
            "FSMON-RESULT {{\"evals\":{},\"observations\":{},\"distinct\":{},\"counters\":{{{}}},\"samples\":[{}],\"truncated\":{},\"wall\":{:.2}}}",
            self.evals, self.observations, self.distinct.len(), c.join(","), s.join(","), self.truncated.get(),
            self.start.elapsed().as_secs_f64()
        );
    }
}
