//! A case is the complete, explicit description of one simulated execution: configuration,
//! application operations and fault windows. The seed resolves the per-event choices (network
//! delays, who is hit by a probabilistic fault, frame jitter). Running a case is a pure
//! function of the case and the code under test. The text form is the replay file.
use std::collections::BTreeMap;
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub struct Op {
    pub t: u64,
    pub node: i64,
    pub kind: String,
    pub args: Vec<i64>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Fault {
    pub t0: u64,
    pub t1: u64,
    pub kind: String,
    pub src: i64,
    pub dst: i64,
    pub args: Vec<i64>,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Case {
    pub prop: String,
    pub family: String,
    pub seed: u64,
    pub cfg: BTreeMap<String, i64>,
    pub ops: Vec<Op>,
    pub faults: Vec<Fault>,
}

impl Case {
    pub fn new(prop: &str, family: &str, seed: u64) -> Self {
        Case { prop: prop.into(), family: family.into(), seed, ..Default::default() }
    }
    pub fn set(&mut self, k: &str, v: i64) {
        self.cfg.insert(k.to_string(), v);
    }
    pub fn get(&self, k: &str) -> i64 {
        self.cfg.get(k).copied().unwrap_or(0)
    }
    pub fn op(&mut self, t: u64, node: i64, kind: &str, args: &[i64]) {
        self.ops.push(Op { t, node, kind: kind.into(), args: args.to_vec() });
    }
    pub fn fault(&mut self, t0: u64, t1: u64, kind: &str, src: i64, dst: i64, args: &[i64]) {
        self.faults.push(Fault { t0, t1, kind: kind.into(), src, dst, args: args.to_vec() });
    }
    pub fn sort(&mut self) {
        self.ops.sort_by_key(|o| o.t);
        self.faults.sort_by_key(|f| f.t0);
    }
    pub fn last_t(&self) -> u64 {
        let a = self.ops.iter().map(|o| o.t).max().unwrap_or(0);
        let b = self.faults.iter().map(|f| f.t1).max().unwrap_or(0);
        a.max(b)
    }

    pub fn to_text(&self) -> String {
        let mut s = String::new();
        let _ = writeln!(s, "lysim-case 1");
        let _ = writeln!(s, "prop {}", self.prop);
        let _ = writeln!(s, "family {}", self.family);
        let _ = writeln!(s, "seed {}", self.seed);
        for (k, v) in &self.cfg {
            let _ = writeln!(s, "cfg {k} {v}");
        }
        for f in &self.faults {
            let _ = write!(s, "fault {} {} {} {} {}", f.t0, f.t1, f.kind, f.src, f.dst);
            for a in &f.args {
                let _ = write!(s, " {a}");
            }
            s.push('\n');
        }
        for o in &self.ops {
            let _ = write!(s, "op {} {} {}", o.t, o.node, o.kind);
            for a in &o.args {
                let _ = write!(s, " {a}");
            }
            s.push('\n');
        }
        s.push_str("end\n");
        s
    }

    pub fn from_text(text: &str) -> Result<Case, String> {
        let mut c = Case::default();
        let mut lines = text.lines();
        if lines.next() != Some("lysim-case 1") {
            return Err("not a lysim case file".into());
        }
        for line in lines {
            let w: Vec<&str> = line.split_whitespace().collect();
            if w.is_empty() || w[0].starts_with('#') {
                continue;
            }
            let n = |i: usize| -> Result<i64, String> {
                w.get(i).ok_or("short line")?.parse::<i64>().map_err(|e| format!("{line}: {e}"))
            };
            let rest = |i: usize| -> Result<Vec<i64>, String> {
                w[i..].iter().map(|x| x.parse::<i64>().map_err(|e| format!("{line}: {e}"))).collect()
            };
            match w[0] {
                "prop" => c.prop = w[1].into(),
                "family" => c.family = w[1].into(),
                "seed" => c.seed = w[1].parse().map_err(|e| format!("{e}"))?,
                "cfg" => {
                    c.cfg.insert(w[1].into(), n(2)?);
                }
                "op" => c.ops.push(Op {
                    t: n(1)? as u64,
                    node: n(2)?,
                    kind: w[3].into(),
                    args: rest(4)?,
                }),
                "fault" => c.faults.push(Fault {
                    t0: n(1)? as u64,
                    t1: n(2)? as u64,
                    kind: w[3].into(),
                    src: n(4)?,
                    dst: n(5)?,
                    args: rest(6)?,
                }),
                "end" => return Ok(c),
                other => return Err(format!("unknown line kind {other}")),
            }
        }
        Err("missing end line".into())
    }
}

/// Minimise a failing case: delta debugging over operations and fault windows, then shrinking
/// of arguments. `fails` must return true if the same violation class persists.
pub fn minimise(case: &Case, budget: std::time::Duration, mut fails: impl FnMut(&Case) -> bool) -> Case {
    let start = std::time::Instant::now();
    let mut best = case.clone();
    let mut changed = true;
    while changed && start.elapsed() < budget {
        changed = false;
        // faults, then ops
        for which in 0..2 {
            let len = |c: &Case| if which == 0 { c.faults.len() } else { c.ops.len() };
            let mut chunk = len(&best).max(1);
            while chunk >= 1 {
                let mut i = 0;
                while i < len(&best) {
                    if start.elapsed() > budget {
                        return best;
                    }
                    let mut c = best.clone();
                    let end = (i + chunk).min(len(&c));
                    if which == 0 {
                        c.faults.drain(i..end);
                    } else {
                        c.ops.drain(i..end);
                    }
                    if fails(&c) {
                        best = c;
                        changed = true;
                    } else {
                        i += chunk;
                    }
                }
                if chunk == 1 {
                    break;
                }
                chunk /= 2;
            }
        }
        // shrink op arguments and fault windows
        for i in 0..best.ops.len() {
            for a in 0..best.ops[i].args.len() {
                for cand in [0i64, 1, best.ops[i].args[a] / 2] {
                    if start.elapsed() > budget {
                        return best;
                    }
                    if cand >= best.ops[i].args[a] || best.ops[i].args[a] <= 1 {
                        continue;
                    }
                    let mut c = best.clone();
                    c.ops[i].args[a] = cand;
                    if fails(&c) {
                        best = c;
                        changed = true;
                        break;
                    }
                }
            }
        }
        for i in 0..best.faults.len() {
            if start.elapsed() > budget {
                return best;
            }
            let f = &best.faults[i];
            let mid = f.t0 + (f.t1.saturating_sub(f.t0)) / 2;
            if f.t1 > f.t0 + 2000 {
                let mut c = best.clone();
                c.faults[i].t1 = mid;
                if fails(&c) {
                    best = c;
                    changed = true;
                    continue;
                }
                let mut c = best.clone();
                c.faults[i].t0 = mid;
                if fails(&c) {
                    best = c;
                    changed = true;
                }
            }
        }
    }
    best
}
