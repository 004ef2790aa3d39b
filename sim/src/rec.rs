//! Recorder: event-log hash, statistics, violations and (in verbose replays) a readable trace.
use crate::rng::mix;
use std::collections::{BTreeMap, HashSet};

#[derive(Clone, Debug)]
pub struct Viol {
    pub prop: &'static str,
    pub class: String,
    pub detail: String,
}

/// Development aid: classes named in LYSIM_IGNORE are dropped (never set by check.sh).
fn ignored(class: &str) -> bool {
    static I: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    I.get_or_init(|| std::env::var("LYSIM_IGNORE").map(|v| v.split(',').map(String::from).collect()).unwrap_or_default()).iter().any(|x| x == class)
}

pub struct Rec {
    pub hash: u64,
    pub events: u64,
    pub stats: BTreeMap<&'static str, u64>,
    pub states: HashSet<u64>,
    pub viols: Vec<Viol>,
    pub want: String,
    pub verbose: bool,
    pub sim_us: u64,
    pub steps: u64,
    pub now: u64,
}

impl Rec {
    pub fn new(want: &str, verbose: bool) -> Self {
        Rec {
            hash: 1,
            events: 0,
            stats: BTreeMap::new(),
            states: HashSet::new(),
            viols: vec![],
            want: want.to_string(),
            verbose,
            sim_us: 0,
            steps: 0,
            now: 0,
        }
    }
    /// One event of the execution's log.
    pub fn log(&mut self, parts: &[u64]) {
        let mut h = self.hash ^ mix(self.now);
        for p in parts {
            h = mix(h ^ *p);
        }
        self.hash = h;
        self.events += 1;
    }
    pub fn stat(&mut self, k: &'static str, n: u64) {
        *self.stats.entry(k).or_insert(0) += n;
    }
    pub fn state(&mut self, parts: &[u64]) {
        let mut h = 7u64;
        for p in parts {
            h = mix(h ^ *p);
        }
        self.states.insert(h);
    }
    pub fn viol(&mut self, prop: &'static str, class: impl Into<String>, detail: impl Into<String>) {
        if self.viols.len() > 200 {
            return;
        }
        let class = class.into();
        if ignored(&class) {
            return;
        }
        let v = Viol { prop, class, detail: format!("t={}us {}", self.now, detail.into()) };
        if self.verbose {
            println!("  !! {} {} {}", v.prop, v.class, v.detail);
        }
        self.viols.push(v);
    }
    pub fn trace(&mut self, f: impl FnOnce() -> String) {
        if self.verbose {
            println!("  [{:>10}us] {}", self.now, f());
        }
    }
    /// true once the property under check is known to be violated: the run can stop.
    pub fn stop(&self) -> bool {
        self.viols.iter().any(|v| v.prop == self.want)
    }
}
