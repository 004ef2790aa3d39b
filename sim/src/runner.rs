//! Seeded search over many simulated runs: parent process, worker processes, minimisation,
//! replay files, evidence.
use crate::case::{Case, minimise};
use crate::rec::Rec;
use crate::rng::{hash, hash_str};
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::panic::AssertUnwindSafe;
use std::process::{Command, Stdio};
use std::sync::Mutex;
use std::sync::mpsc;
use std::time::{Duration, Instant};

pub struct Check {
    pub prop: &'static str,
    pub generate: fn(prop: &str, seed: u64, tier: Tier) -> Case,
    /// number of cases of the quick tier
    pub quick: u64,
    pub rule: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub assumptions: &'static [&'static str],
}

#[derive(Clone, Copy, PartialEq)]
pub enum Tier {
    Quick,
    Thorough,
}

static LAST_PANIC: Mutex<Option<String>> = Mutex::new(None);

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let mut g = LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner());
        // keep the first panic of a run: later ones are consequences
        if g.is_none() {
            *g = Some(format!("{loc}: {}", msg.replace('\n', " ")));
        }
    }));
}

/// Run one case; panics of the code under test become violations of the property under check.
pub fn run_case(case: &Case, verbose: bool) -> Rec {
    *LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()) = None;
    let mut rec = Rec::new(&case.prop, verbose);
    let r = std::panic::catch_unwind(AssertUnwindSafe(|| crate::families::run(case, &mut rec)));
    if r.is_err() {
        let p = LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()).take().unwrap_or_default();
        let loc = p.split(": ").next().unwrap_or("").to_string();
        let file = loc.rsplit('/').next().unwrap_or("").split(':').next().unwrap_or("").to_string();
        let prop = crate::checks::static_id(&case.prop);
        rec.viol(prop, format!("panic@{file}"), format!("application panicked at {p}"));
    }
    rec
}

pub fn case_seed(seed: u64, prop: &str, i: u64) -> u64 {
    hash(&[seed, hash_str(prop), i]) >> 1
}

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o
}

/// Worker: runs cases start, start+stride, ... and reports on stdout, one line per case.
pub fn worker(check: &Check, tier: Tier, seed: u64, start: u64, stride: u64, count: u64, deadline: Duration) {
    let t0 = Instant::now();
    let mut i = start;
    let out = std::io::stdout();
    while i < count {
        if t0.elapsed() > deadline {
            break;
        }
        let cs = case_seed(seed, check.prop, i);
        {
            let mut o = out.lock();
            let _ = writeln!(o, "B {i} {cs}");
            let _ = o.flush();
        }
        let case = (check.generate)(check.prop, cs, tier);
        let rec = run_case(&case, false);
        // determinism self-check on a sample of the runs
        let mut redo = 0u64;
        let mut bad = 0u64;
        if i % 97 == start % 97 || i < stride {
            let again = run_case(&case, false);
            redo = 1;
            if again.hash != rec.hash {
                bad = 1;
            }
        }
        if std::env::var_os("LYSIM_OTHERS").is_some() {
            for v in rec.viols.iter().filter(|v| v.prop != check.prop) {
                eprintln!("OTHER {cs} {} {}", v.prop, v.class);
            }
        }
        let mut o = out.lock();
        for v in rec.viols.iter().filter(|v| v.prop == check.prop).take(1) {
            let _ = writeln!(o, "V {i} {cs} {}\t{}", v.class, v.detail.replace('\n', " "));
        }
        let others = rec.viols.iter().filter(|v| v.prop != check.prop).count();
        let _ = write!(
            o,
            "E {i} {cs} {} {} {} {} {} {redo} {bad} {others} {}",
            rec.hash,
            rec.events,
            rec.sim_us,
            rec.steps,
            rec.stats.get("nontrivial").copied().unwrap_or(0),
            rec.stats.len()
        );
        for (k, v) in &rec.stats {
            let _ = write!(o, " {k}={v}");
        }
        let _ = write!(o, " |");
        for s in rec.states.iter().take(400) {
            let _ = write!(o, " {s:x}");
        }
        let _ = writeln!(o);
        let _ = o.flush();
        i += stride;
    }
    println!("D");
}

enum Msg {
    Line(usize, String),
    Eof(usize),
}

const HANG_LIMIT: Duration = Duration::from_secs(120);

struct Found {
    index: u64,
    seed: u64,
    class: String,
    detail: String,
}

/// a listed class is exact, or ends in '*'
pub fn class_matches(listed: &str, class: &str) -> bool {
    listed == class || listed.strip_suffix('*').is_some_and(|p| class.starts_with(p))
}

pub fn known_findings(verif: &str, prop: &str) -> Vec<(String, String)> {
    // lines: "KNOWN-FINDING: property=<id> class=<class> <what fails>"
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string(format!("{verif}/known_findings.txt")) {
        for l in s.lines() {
            if let Some(rest) = l.strip_prefix("KNOWN-FINDING: ") {
                let mut it = rest.splitn(3, ' ');
                let p = it.next().unwrap_or("").strip_prefix("property=").unwrap_or("");
                let c = it.next().unwrap_or("").strip_prefix("class=").unwrap_or("");
                if p == prop {
                    v.push((c.to_string(), format!("property={p} class={c} {}", it.next().unwrap_or(""))));
                }
            }
        }
    }
    v
}

/// Run one case in a child process with a wall-clock limit. Returns the violation class if any.
fn run_isolated(case: &Case, verif: &str, limit: Duration) -> Option<String> {
    let path = format!("{verif}/replays/.tmp-{}-{}.txt", case.prop, std::process::id());
    std::fs::write(&path, case.to_text()).ok()?;
    let exe = std::env::current_exe().ok()?;
    let mut ch = Command::new(exe)
        .args(["replay", &path])
        .stdout(Stdio::piped())
        .stderr(if std::env::var_os("LYSIM_OTHERS").is_some() { Stdio::inherit() } else { Stdio::null() })
        .spawn()
        .ok()?;
    let t0 = Instant::now();
    let mut so = ch.stdout.take().unwrap();
    let h = std::thread::spawn(move || {
        let mut s = String::new();
        let _ = std::io::Read::read_to_string(&mut so, &mut s);
        s
    });
    let status = loop {
        if let Ok(Some(st)) = ch.try_wait() {
            break Some(st);
        }
        if t0.elapsed() > limit {
            let _ = ch.kill();
            let _ = ch.wait();
            break None;
        }
        std::thread::sleep(Duration::from_millis(5));
    };
    let text = h.join().unwrap_or_default();
    let _ = std::fs::remove_file(&path);
    match status {
        None => Some("hang".into()),
        Some(st) => match st.code() {
            Some(0) => None,
            Some(1) => text.lines().find_map(|l| l.strip_prefix("class=").map(|s| s.to_string())),
            _ => Some("abort".into()),
        },
    }
}

pub fn check(check: &Check, tier: Tier, seed: u64, verif: &str) -> i32 {
    let t0 = Instant::now();
    let prop = check.prop;
    println!("lysim check {prop} tier={} seed={seed}", if tier == Tier::Quick { "quick" } else { "thorough" });
    let workers: u64 = std::env::var("LYSIM_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let envn = |k: &str, d: u64| std::env::var(k).ok().and_then(|s| s.parse().ok()).unwrap_or(d);
    let (count, deadline) = match tier {
        Tier::Quick => (envn("LYSIM_CASES", check.quick), Duration::from_secs(envn("LYSIM_SECS", 300))),
        Tier::Thorough => (envn("LYSIM_CASES", u64::MAX), Duration::from_secs(envn("LYSIM_SECS", 600))),
    };
    let _ = std::fs::create_dir_all(format!("{verif}/replays"));
    let _ = std::fs::create_dir_all(format!("{verif}/evidence"));
    let exe = std::env::current_exe().unwrap();
    let (tx, rx) = mpsc::channel::<Msg>();
    let mut kids = vec![];
    for w in 0..workers {
        let mut ch = Command::new(&exe)
            .args([
                "worker",
                prop,
                if tier == Tier::Quick { "quick" } else { "thorough" },
                &seed.to_string(),
                &w.to_string(),
                &workers.to_string(),
                &count.to_string(),
                &deadline.as_secs().to_string(),
            ])
            .stdout(Stdio::piped())
            .stderr(if std::env::var_os("LYSIM_OTHERS").is_some() { Stdio::inherit() } else { Stdio::null() })
            .spawn()
            .expect("spawn worker");
        let so = ch.stdout.take().unwrap();
        let tx = tx.clone();
        std::thread::spawn(move || {
            for l in BufReader::new(so).lines() {
                match l {
                    Ok(l) => {
                        if tx.send(Msg::Line(w as usize, l)).is_err() {
                            return;
                        }
                    }
                    Err(_) => break,
                }
            }
            let _ = tx.send(Msg::Eof(w as usize));
        });
        kids.push(ch);
    }
    let n = workers as usize;
    let mut current: Vec<Option<(u64, u64)>> = vec![None; n];
    let mut since = vec![Instant::now(); n];
    let mut finished = vec![false; n];
    let mut eof = vec![false; n];
    let known = known_findings(verif, prop);
    let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
    let mut found: Vec<Found> = vec![];
    let mut runs = 0u64;
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut distinct_nt: HashSet<u64> = HashSet::new();
    let mut states: HashSet<u64> = HashSet::new();
    let (mut events, mut sim_us, mut steps, mut redo, mut bad, mut others) = (0u64, 0u64, 0u64, 0u64, 0u64, 0u64);
    let mut stats: BTreeMap<String, u64> = BTreeMap::new();
    let mut runs_with: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<(u64, u64, String)> = vec![];
    while !eof.iter().all(|x| *x) {
        match rx.recv_timeout(Duration::from_millis(500)) {
            Ok(Msg::Line(w, l)) => {
                since[w] = Instant::now();
                let mut it = l.splitn(2, ' ');
                match it.next() {
                    Some("B") => {
                        let v: Vec<u64> = it.next().unwrap_or("").split(' ').filter_map(|x| x.parse().ok()).collect();
                        current[w] = Some((v[0], v[1]));
                    }
                    Some("V") => {
                        let rest = it.next().unwrap_or("");
                        let (head, detail) = rest.split_once('\t').unwrap_or((rest, ""));
                        let h: Vec<&str> = head.splitn(3, ' ').collect();
                        let class = h[2].to_string();
                        if let Some(k) = known.iter().find(|k| class_matches(&k.0, &class)) {
                            *known_hits.entry(k.1.clone()).or_insert(0) += 1;
                        } else {
                            found.push(Found {
                                index: h[0].parse().unwrap(),
                                seed: h[1].parse().unwrap(),
                                class,
                                detail: detail.to_string(),
                            });
                        }
                    }
                    Some("E") => {
                        current[w] = None;
                        let rest = it.next().unwrap_or("");
                        let (a, b) = rest.split_once('|').unwrap_or((rest, ""));
                        let f: Vec<&str> = a.split_whitespace().collect();
                        let g = |i: usize| f[i].parse::<u64>().unwrap_or(0);
                        runs += 1;
                        events += g(3);
                        sim_us += g(4);
                        steps += g(5);
                        redo += g(7);
                        bad += g(8);
                        others += g(9);
                        distinct.insert(g(2));
                        if g(6) > 0 {
                            distinct_nt.insert(g(2));
                        }
                        for kv in &f[11..] {
                            if let Some((k, v)) = kv.split_once('=') {
                                let v: u64 = v.parse().unwrap_or(0);
                                *stats.entry(k.to_string()).or_insert(0) += v;
                                if v > 0 {
                                    *runs_with.entry(k.to_string()).or_insert(0) += 1;
                                }
                            }
                        }
                        if states.len() < 2_000_000 {
                            for s in b.split_whitespace() {
                                if let Ok(x) = u64::from_str_radix(s, 16) {
                                    states.insert(x);
                                }
                            }
                        }
                        if samples.len() < 3 && g(6) > 0 {
                            samples.push((g(0), g(1), format!("log_hash={:x} events={} sim_us={}", g(2), g(3), g(4))));
                        }
                    }
                    Some("D") => finished[w] = true,
                    _ => {}
                }
            }
            Ok(Msg::Eof(w)) => {
                eof[w] = true;
                if !finished[w] {
                    if let Some((i, s)) = current[w] {
                        found.push(Found {
                            index: i,
                            seed: s,
                            class: "abort".into(),
                            detail: "the process running the simulated application died".into(),
                        });
                    }
                }
            }
            Err(_) => {}
        }
        for w in 0..n {
            if !eof[w] && !finished[w] && since[w].elapsed() > HANG_LIMIT {
                if let Some((i, s)) = current[w] {
                    found.push(Found {
                        index: i,
                        seed: s,
                        class: "hang".into(),
                        detail: format!("no progress for {} s of real time in one simulated run", HANG_LIMIT.as_secs()),
                    });
                    current[w] = None;
                }
                finished[w] = true;
                let _ = kids[w].kill();
            }
        }
        if !found.is_empty() {
            // stop the search: report what was found
            for k in kids.iter_mut() {
                let _ = k.kill();
            }
            break;
        }
    }
    for k in kids.iter_mut() {
        let _ = k.kill();
        let _ = k.wait();
    }
    for (k, _) in &known_hits {
        println!("KNOWN-FINDING: {k}");
    }
    // Known findings that this run's sample did not hit are still listed, so that the output is stable.
    for (_, text) in &known {
        if !known_hits.contains_key(text) {
            println!("KNOWN-FINDING: {text}");
        }
    }
    let search_wall = t0.elapsed().as_secs_f64();
    let mut rc = 0;
    let mut replay = String::new();
    if !found.is_empty() {
        found.sort_by_key(|f| f.index);
        let f = &found[0];
        println!("violation class={} seed={} case={} : {}", f.class, f.seed, f.index, f.detail);
        let case = (check.generate)(prop, f.seed, tier);
        let path = format!("{verif}/replays/{prop}-{}.txt", f.seed);
        let _ = std::fs::write(&path, case.to_text());
        let budget = Duration::from_secs(envn("LYSIM_MIN_SECS", 60));
        let class = f.class.clone();
        let small = if class == "hang" {
            case.clone()
        } else if class == "abort" {
            minimise(&case, budget, |c| run_isolated(c, verif, Duration::from_secs(30)).as_deref() == Some("abort"))
        } else {
            minimise(&case, budget, |c| {
                let r = run_case(c, false);
                r.viols.iter().any(|v| v.prop == prop && v.class == class)
            })
        };
        let _ = std::fs::write(&path, small.to_text());
        println!(
            "minimised: {} ops, {} faults (from {} ops, {} faults); replay with: lysim replay {path}",
            small.ops.len(),
            small.faults.len(),
            case.ops.len(),
            case.faults.len()
        );
        let again = run_isolated(&small, verif, HANG_LIMIT);
        println!("replay in a fresh process: {}", again.as_deref().unwrap_or("did not fail"));
        println!("VIOLATION property={prop} replay={path}");
        replay = path;
        rc = 1;
    }
    // evidence
    let mut j = String::new();
    let wall = t0.elapsed().as_secs_f64();
    let list = |xs: &[&str]| xs.iter().map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(", ");
    let sample_text: Vec<String> = samples
        .iter()
        .map(|(i, s, h)| {
            let c = (check.generate)(prop, *s, tier);
            let mut t = c.to_text();
            if t.len() > 3000 {
                t.truncate(3000);
                t.push_str("...");
            }
            format!("{{\"case\": {i}, \"seed\": {s}, \"result\": \"{}\", \"text\": \"{}\"}}", esc(h), esc(&t))
        })
        .collect();
    let kvs = |pre: &str, m: &BTreeMap<String, u64>| {
        m.iter()
            .filter(|(k, _)| k.starts_with(pre))
            .map(|(k, v)| format!("\"{}\": {v}", esc(&k[pre.len()..])))
            .collect::<Vec<_>>()
            .join(", ")
    };
    j.push_str("{\n");
    j.push_str(&format!("  \"property\": \"{prop}\",\n  \"tier\": \"{}\",\n  \"seed\": {seed},\n", if tier == Tier::Quick { "quick" } else { "thorough" }));
    j.push_str("  \"level\": \"exploration\",\n  \"coverage\": {\n");
    j.push_str(&format!("    \"evaluations\": {runs},\n    \"distinct_nontrivial\": {},\n", distinct_nt.len()));
    j.push_str(&format!("    \"rule\": \"{}\",\n", esc(check.rule)));
    j.push_str(&format!("    \"samples\": [{}],\n", sample_text.join(",\n      ")));
    j.push_str(&format!("    \"simulated_runs_per_hour\": {},\n", (runs as f64 / search_wall.max(0.001) * 3600.0) as u64));
    j.push_str(&format!("    \"simulated_seconds\": {:.3},\n    \"node_steps\": {steps},\n    \"logged_events\": {events},\n", sim_us as f64 / 1e6));
    j.push_str(&format!("    \"distinct_interleavings\": {},\n    \"distinct_interleavings_measure\": \"distinct hashes of the full event log (every packet fate, delivery, frame and observation with its simulated time)\",\n", distinct.len()));
    j.push_str(&format!("    \"distinct_abstract_states\": {},\n", states.len()));
    j.push_str(&format!("    \"faults_injected\": {{{}}},\n", kvs("fault.", &stats)));
    j.push_str(&format!("    \"runs_with_fault\": {{{}}},\n", kvs("fault.", &runs_with)));
    j.push_str(&format!("    \"probes\": {{{}}},\n", kvs("probe.", &stats)));
    j.push_str(&format!("    \"runs_with_probe\": {{{}}},\n", kvs("probe.", &runs_with)));
    j.push_str(&format!("    \"traffic\": {{{}}},\n", kvs("net.", &stats)));
    j.push_str(&format!("    \"replayed_twice\": {redo},\n    \"replay_mismatches\": {bad},\n    \"alarms_of_other_properties_seen\": {others},\n"));
    j.push_str(&format!("    \"real_components\": [{}],\n    \"stub_components\": [{}]", list(check.real), list(check.stub)));
    if !replay.is_empty() {
        j.push_str(&format!(",\n    \"replay\": \"{}\"", esc(&replay)));
    }
    j.push_str("\n  },\n");
    j.push_str(&format!("  \"assumptions\": [{}],\n", list(check.assumptions)));
    j.push_str(&format!("  \"wall_s\": {wall:.2},\n  \"violations\": {}\n}}\n", found.len()));
    let _ = std::fs::write(format!("{verif}/evidence/{prop}.json"), j);
    println!(
        "{prop}: {runs} runs, {} distinct logs ({} non-trivial), {:.0} simulated s, {} abstract states, {:.1} s wall, determinism {redo}/{bad} bad, {others} other alarms",
        distinct.len(),
        distinct_nt.len(),
        sim_us as f64 / 1e6,
        states.len(),
        wall
    );
    for (k, v) in &stats {
        println!("   {k} = {v} (in {} runs)", runs_with.get(k).unwrap_or(&0));
    }
    if runs == 0 && rc == 0 {
        println!("harness error: no run completed");
        return 2;
    }
    rc
}
