//! Family S: clock synchronisation, on top of family M's full stack. Every frame of every node is
//! watched: how its tick moved (C19), and, in calm periods, whether the client's clock is where it
//! has to be relative to the server's (C18).
use super::*;
use bevy_time::{Fixed, Time, Virtual};
use lightyear_messages::plugin::MessageSystems;
use lightyear_sync::prelude::client::{InputDelayConfig, InputTimelineConfig, LocalTimelineSync};
use lightyear_sync::prelude::{PingManager, SyncConfig};

/// sent by a client once per tick, as an input is: `tick` is the tick the server needs it for
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct TickMsg {
    pub tick: u32,
}

pub struct Snap {
    tick: u32,
    over: f64,
    speed: f64,
}
#[derive(Default)]
pub struct Mon {
    sess: u64,
    up_at: u64,
    was_up: bool,
    synced_at: Option<u64>,
    late_sync: bool,
    first_checked: bool,
    in_time: u64,
    too_late: u64,
    delay: u16,
    shifts_after: u64,
}

pub fn frame(c: &Case, p: u64, h: u64) -> u64 {
    if c.get("sync") == 0 {
        return p / 2 + h % p;
    }
    let v = p * c.get("fj").clamp(0, 90) as u64 / 100;
    p - v + h % (2 * v + 1)
}
pub fn work(c: &Case, node: i64) -> u64 {
    let p = c.get(if node == 0 { "frame0_us" } else { "frame1_us" }).max(1000) as u64;
    let w = c.get(if node == 0 { "work0_us" } else { "work1_us" }).max(0) as u64;
    w.min(p * (100 - c.get("fj").clamp(0, 90) as u64) / 200)
}
pub fn snap(a: &App) -> Snap {
    let w = a.world();
    Snap {
        tick: w.resource::<LocalTimeline>().tick().0,
        over: w.resource::<Time<Fixed>>().overstep_fraction_f64(),
        speed: w.resource::<Time<Virtual>>().relative_speed_f64(),
    }
}
fn diff(a: &Snap, b: &Snap) -> f64 {
    (a.tick.wrapping_sub(b.tick) as i32) as f64 + a.over - b.over
}

fn sync_config(c: &Case) -> SyncConfig {
    if c.get("sync") == 0 {
        return SyncConfig::default();
    }
    SyncConfig {
        jitter_multiple: c.get("s_jm") as u8,
        jitter_margin: c.get("s_jmargin") as f32 / 100.0,
        handshake_pings: c.get("s_pings") as u8,
        error_margin: c.get("s_err") as f32 / 100.0,
        max_error_margin: c.get("s_max") as f32 / 100.0,
        consecutive_errors_threshold: c.get("s_cons") as u8,
        speedup_factor: 1.0 + c.get("s_speed") as f32 / 1000.0,
    }
}
fn delay_config(c: &Case) -> InputDelayConfig {
    match c.get("s_delay") {
        0 => InputDelayConfig::no_input_delay(),
        1 => InputDelayConfig::balanced(),
        2 => InputDelayConfig::no_prediction(),
        n => InputDelayConfig::fixed_input_delay(n as u16 - 2),
    }
}

pub fn harness(app: &mut App, c: &Case, node: i64) {
    if c.get("sync") == 0 {
        return;
    }
    if node > 0 {
        app.insert_resource(InputTimelineConfig::new(sync_config(c), delay_config(c)));
        app.add_systems(
            FixedUpdate,
            |t: Res<LocalTimeline>, s: Res<LocalTimelineSync>, mut q: Query<&mut MessageSender<TickMsg>, With<Connected>>| {
                if s.is_synced() {
                    for mut m in q.iter_mut() {
                        m.send::<Uu>(TickMsg { tick: t.tick().0.wrapping_add(s.input_delay() as u32) });
                    }
                }
            },
        );
    } else {
        app.add_systems(
            PreUpdate,
            (|t: Res<LocalTimeline>, mut l: ResMut<Logs>, mut q: Query<(Entity, &mut MessageReceiver<TickMsg>)>| {
                for (e, mut r) in q.iter_mut() {
                    for m in r.receive() {
                        l.ticks.push((e, m.tick, t.tick().0));
                    }
                }
            })
            .after(MessageSystems::Receive),
        );
    }
    let w = work(c, node);
    if w > 0 {
        // the application's own work takes time within the frame
        app.add_systems(Update, move || {
            mock_instant::global::MockClock::advance(Duration::from_micros(w));
        });
    }
}

impl Sim<'_> {
    /// time from which on nothing has been disturbing the system, if it is calm now
    fn calm_since(&self, now: u64) -> Option<u64> {
        let mut t = 0;
        for f in &self.c.faults {
            if f.t0 <= now {
                if f.t1 + 50_000 > now && f.kind != "delay" {
                    return None;
                }
                // a lasting change of the delay disturbs only while it is new
                t = t.max(if f.t1 > now { f.t0 } else { f.t1 + f.args.get(1).copied().unwrap_or(0) as u64 });
            }
        }
        Some(t)
    }
    /// one-way base delay on the path from a to b now, and its extra jitter
    fn path(&self, now: u64, a: i64, b: i64) -> (f64, f64) {
        let mut d = self.c.get("net_delay_us") as f64;
        for f in &self.c.faults {
            if f.kind == "delay" && crate::net::matches(f, now, a, b) {
                d += f.args.first().copied().unwrap_or(0) as f64;
            }
        }
        (d, self.c.get("net_jitter_us") as f64)
    }

    pub(super) fn monitor(&mut self, node: i64, now: u64, dt: u64, pre: Snap, rec: &mut Rec) {
        let c = self.c;
        let app = if node == 0 { &mut self.srv } else { &mut self.cls[node as usize - 1].app };
        let post = snap(app);
        let (fixed, shifts, ticks) = {
            let mut l = app.world_mut().resource_mut::<Logs>();
            (core::mem::take(&mut l.fixed_ticks), core::mem::take(&mut l.shifts), core::mem::take(&mut l.ticks))
        };
        let tick_us = c.get("tick_us").max(2000) as f64;
        // ---- C19: the tick moves by one per fixed step, at the pace of the clock, and jumps only
        // when a jump is announced
        let n = fixed.len() as u32;
        for (i, t) in fixed.iter().enumerate() {
            if *t != pre.tick.wrapping_add(1 + i as u32) {
                rec.viol("C19", "tick-skipped", format!("node {node} ran fixed step {} of its frame with tick {t}; the frame began at tick {}", i + 1, pre.tick));
                break;
            }
        }
        let jump: i64 = shifts.iter().map(|x| *x as i64).sum();
        if post.tick != pre.tick.wrapping_add(n).wrapping_add(jump as u32) {
            rec.viol(
                "C19",
                "unannounced-jump",
                format!("node {node}: tick {} -> {} in a frame with {n} fixed steps and announced shifts {shifts:?}", pre.tick, post.tick),
            );
        }
        if !shifts.is_empty() {
            rec.stat("probe.timeline_shifts", shifts.len() as u64);
            rec.trace(|| format!("node {node}: timeline shifts {shifts:?}, now at tick {}", post.tick));
            rec.log(&[20, node as u64, jump as u64]);
            if node == 0 {
                rec.viol("C19", "server-shift", format!("the server's timeline was shifted by {shifts:?}"));
            }
        }
        let base = if node == 0 { 0.0 } else if c.get("sync") != 0 { c.get("s_speed") as f64 / 1000.0 } else { 0.05 };
        let hi = 1.0 + 2.0 * base;
        let lo = 1.0 / hi;
        for (what, s) in [("applied", post.speed), ("used", pre.speed)] {
            if !(s >= lo - 1e-5 && s <= hi + 1e-5) {
                rec.viol("C19", "pace", format!("node {node}: {what} pace {s} is outside [{lo}, {hi}]"));
            }
        }
        // a clock that follows nobody keeps normal pace
        let following = app.world().get_resource::<LocalTimelineSync>().is_some_and(|s| s.is_synced());
        if !following && (post.speed - 1.0).abs() > 1e-6 {
            rec.viol("C19", "pace-unsynced", format!("node {node} is not synchronised and its pace is {}", post.speed));
        }
        if dt < 250_000 {
            let moved = diff(&post, &pre) - jump as f64;
            let real = dt as f64 / tick_us;
            if moved < real * lo - 0.01 || moved > real * hi + 0.01 || (moved - real * pre.speed).abs() > 0.01 {
                rec.viol("C19", "elapsed", format!("node {node}: the timeline moved by {moved} ticks in a frame of {real} tick lengths at pace {}", pre.speed));
            }
        }
        rec.stat("probe.timeline_frames", 1);
        if node == 0 {
            self.tick_msgs(ticks, now, rec);
            return;
        }
        // ---- C18
        let i = node as usize - 1;
        let sess = self.cls[i].sess;
        let up = self.cls[i].st == St::Up || state(self.cls[i].app.world(), self.cls[i].ent) == St::Up;
        let w = self.cls[i].app.world();
        let ent = self.cls[i].ent;
        let down = w.get::<Disconnected>(ent).is_some();
        let sy = w.resource::<LocalTimelineSync>();
        let (synced, delay) = (sy.is_synced(), sy.input_delay());
        if down && synced {
            rec.viol("C18", "ready-while-disconnected", format!("client {i} is disconnected but its timeline is said to be synchronised"));
        }
        if !up || c.get("sync") == 0 {
            let m = self.mon.entry(node).or_default();
            m.was_up = false;
            return;
        }
        let pm = w.get::<PingManager>(ent).expect("ping manager");
        let (rtt, jit) = (pm.rtt().as_micros() as f64, pm.jitter().as_micros() as f64);
        let calm = self.calm_since(now);
        let both = self.conns.values().any(|k| *k == (i, sess));
        let m = self.mon.entry(node).or_default();
        if !m.was_up || m.sess != sess {
            *m = Mon { sess, up_at: now, was_up: true, ..Default::default() };
        }
        let delay0 = core::mem::replace(&mut m.delay, delay);
        if synced && m.synced_at.is_none() {
            m.synced_at = Some(now);
            rec.stat("probe.synced", 1);
            rec.log(&[21, node as u64]);
        }
        if !synced && m.synced_at.is_some() {
            rec.viol("C18", "lost-sync", format!("client {i} is connected and was synchronised, and no longer is"));
        }
        if let Some(at) = m.synced_at
            && at < now
        {
            m.shifts_after += shifts.len() as u64;
        }
        let up_at = m.up_at;
        let Some(calm0) = calm else { return };
        if !both {
            return;
        }
        let quiet = now.saturating_sub(calm0.max(up_at)) as f64;
        let cfg = sync_config(c);
        let (d1, j1) = self.path(now, node, 0);
        let (d2, j2) = self.path(now, 0, node);
        let fj = 1.0 + c.get("fj") as f64 / 100.0;
        let (f0, f1) = (c.get("frame0_us") as f64 * fj, c.get("frame1_us") as f64 * fj);
        let (w0, w1) = (work(c, 0) as f64, work(c, node) as f64);
        let m = self.mon.get_mut(&node).unwrap();
        let pings = cfg.handshake_pings.max(3) as f64;
        let bound = (pings + 1.0) * (100_000.0 + f1) + d1 + d2 + j1 + j2 + 2.0 * (f0 + f1) + 300_000.0;
        if m.synced_at.is_none() && quiet > bound && !m.late_sync {
            m.late_sync = true;
            rec.viol("C18", "not-synced", format!("client {i} has been connected in calm for {quiet} us and is not synchronised ({} latency samples)", self.cls[i].app.world().get::<PingManager>(ent).unwrap().latency_samples_recv()));
        }
        let Some(at) = m.synced_at else { return };
        // the server's clock now
        let s0 = snap(&self.srv);
        let s = Snap { tick: s0.tick, over: s0.over + now.saturating_sub(self.srv_last) as f64 / tick_us, speed: 1.0 };
        let lead = diff(&post, &s);
        let margins = cfg.jitter_multiple as f64 * jit / tick_us + cfg.jitter_margin as f64 + 1.0 + cfg.error_margin as f64 - delay as f64;
        let want = rtt / 2.0 / tick_us + margins + bias(c) + (d1 - d2) / 2.0 / tick_us - w0 / tick_us;
        let err = lead - want;
        rec.stat("probe.lead_samples", 1);
        let true_lo = d1 + d2;
        let true_hi = d1 + d2 + j1 + j2 + f0 + f1;
        let _ = w1;
        let settle = settle(c);
        if rec.verbose && (now / 500_000 != (now - dt) / 500_000) {
            rec.trace(|| format!("client {i}: lead {lead:.2} want {want:.2} err {err:.2} rtt {rtt} [{true_lo}, {true_hi}] jitter {jit} delay {delay} pace {:.4} quiet {quiet} of {settle}", post.speed));
        }
        let fresh = now == at && calm0 + 2_000_000 < up_at;
        if fresh {
            rec.stat("probe.first_sync_calm", 1);
            let tol = tolerance(c, j1.max(j2), 1.0, 0.5);
            // the input delay in force when the clock was set
            let (want, err) = (want + delay as f64 - delay0 as f64, err - delay as f64 + delay0 as f64);
            if err.abs() > tol && !m.first_checked {
                rec.viol("C18", "first-sync-off", format!("client {i} just synchronised and is at {lead:.2} ticks from the server's clock instead of {want:.2} (tolerance {tol:.2})"));
            }
            m.first_checked = true;
        }
        if quiet < settle {
            return;
        }
        rec.stat("probe.settled_samples", 1);
        let tol = cfg.error_margin as f64 + tolerance(c, j1.max(j2), 0.9, 0.25);
        if err.abs() > tol {
            rec.viol("C18", "lead", format!("client {i}: after {quiet} us of calm its clock is at {lead:.2} ticks from the server's instead of {want:.2} +- {:.2}", tol));
        }
        let span = f0 / fj + f1 / fj + j1 + j2;
        // irregular frames: the waits for the next frame average out
        let off = (rtt - d1 - d2 - span / 2.0).abs();
        if c.get("fj") >= 20 && off > 0.4 * (span + 1000.0) {
            rec.viol("C18", "rtt", format!("client {i}: after {quiet} us of calm it reports a round trip of {rtt} us; {} is to be expected", d1 + d2 + span / 2.0));
        }
        if rtt < true_lo - 1000.0 || rtt > true_hi + 1000.0 {
            rec.viol("C18", "rtt", format!("client {i}: after {quiet} us of calm it reports a round trip of {rtt} us; it is between {true_lo} and {true_hi}"));
        }
        if !shifts.is_empty() {
            rec.viol("C18", "jump-in-calm", format!("client {i}: its timeline was shifted by {shifts:?} after {quiet} us of calm"));
        }
    }

    fn tick_msgs(&mut self, ticks: Vec<(Entity, u32, u32)>, now: u64, rec: &mut Rec) {
        for (e, t, mine) in ticks {
            let Some((i, sess)) = self.conns.get(&e).copied() else { continue };
            let slack = t.wrapping_sub(mine) as i32 - 1;
            rec.stat("probe.tick_messages", 1);
            let Some(calm) = self.calm_since(now) else { continue };
            let node = i as i64 + 1;
            let Some(m) = self.mon.get_mut(&node) else { continue };
            if m.sess != sess {
                continue;
            }
            let Some(at) = m.synced_at else { continue };
            let quiet = now.saturating_sub(calm.max(at));
            if (quiet as f64) < settle(self.c) {
                continue;
            }
            if slack < 0 {
                m.too_late += 1;
            } else {
                m.in_time += 1;
            }
        }
    }

    pub(super) fn sync_final(&mut self, rec: &mut Rec) {
        let mut late = vec![];
        for (n, m) in &self.mon {
            let all = m.in_time + m.too_late;
            if all > 200 {
                let cfg = sync_config(self.c);
                // the margins a user gets by default, or larger ones, are meant to cover the jitter
                let covered = cfg.jitter_multiple >= 4 && cfg.jitter_margin >= 1.0;
                let smooth = self.c.get("frame1_us") <= self.c.get("tick_us");
                let most = 1;
                if covered && smooth && all > 500 && m.too_late * 100 > all * most {
                    late.push(format!("client {}: {} of {all} per-tick messages reached the server too late for their tick in calm (at most {most}% should)", n - 1, m.too_late));
                }
                rec.stat("probe.late_ticks", m.too_late);
                rec.stat("probe.timely_ticks", m.in_time);
            }
        }
        for l in late {
            rec.viol("C18", "late-ticks", l);
        }
    }
}

/// when the last disturbance is over (a lasting change of the delay counts when it begins)
pub fn last_t(c: &Case) -> u64 {
    let a = c.ops.iter().map(|o| o.t).max().unwrap_or(0);
    let b = c.faults.iter().map(|f| if f.t1 > f.t0 + 100_000_000 { f.t0 } else { f.t1 }).max().unwrap_or(0);
    a.max(b) + 1
}

/// calm needed before a client's clock must be right: the averages of the round trip settle, and the
/// pace (proportional to the error) has taken it from the largest error it does not jump for to the
/// margin
fn settle(c: &Case) -> f64 {
    let cfg = sync_config(c);
    let tick_us = c.get("tick_us").max(2000) as f64;
    let base = (cfg.speedup_factor as f64 - 1.0).max(0.001);
    let tau = cfg.max_error_margin as f64 / (2.0 * base) * tick_us;
    15_000_000.0 + 1.5 * tau * (cfg.max_error_margin as f64 / cfg.error_margin as f64).ln().max(1.0)
}

/// systematic part of the error of the server-clock estimate, in ticks: packets carry whole ticks
/// (half a tick on average), and half of the measured round trip contains a quarter of each side's
/// frame where the true wait is half a client frame
fn bias(c: &Case) -> f64 {
    let t = c.get("tick_us").max(2000) as f64;
    -0.5 + (c.get("frame0_us") as f64 - c.get("frame1_us") as f64) / 4.0 / t
}
/// what frame lengths and network jitter can add to an error of `a` ticks
fn tolerance(c: &Case, j: f64, a: f64, b: f64) -> f64 {
    let t = c.get("tick_us").max(2000) as f64;
    a + b * (j + c.get("frame0_us") as f64 + c.get("frame1_us") as f64) / t
}

pub fn generate(prop: &str, seed: u64, tier: Tier) -> Case {
    let mut r = Rng::new(seed);
    let mut c = Case::new(prop, "M", seed);
    let k = r.range(1, 2);
    c.set("k", k);
    c.set("sync", 1);
    c.set("host", (r.range(0, 5) == 0) as i64);
    c.set("tick_us", *r.pick(&[10_000, 15_625, 16_667, 16_667, 33_333]));
    c.set("frame0_us", *r.pick(&[8_000, 10_000, 16_667, 16_667, 33_000]));
    c.set("frame1_us", *r.pick(&[6_944, 8_000, 16_667, 16_667, 30_000]));
    c.set("fj", *r.pick(&[0, 5, 5, 20, 50]));
    if r.range(0, 2) == 0 {
        c.set("work0_us", *r.pick(&[1000, 5000, 10_000, 14_000]));
        c.set("work1_us", *r.pick(&[0, 1000, 4000]));
    }
    c.set("tick0", *r.pick(&[0, 40, 65_400, 65_530, 1_000_000]));
    c.set("tick1", *r.pick(&[0, 0, 70, 65_400, 900_000, 3_000_000]));
    for n in 0..=k {
        c.set(&format!("ppm{n}"), *r.pick(&[0, 0, 50, -50, 200, -200]));
    }
    c.set("net_delay_us", *r.pick(&[100, 1000, 5000, 20_000, 50_000, 100_000, 180_000]));
    c.set("net_jitter_us", *r.pick(&[0, 0, 500, 2000, 10_000, 30_000]));
    c.set("net_fifo", r.range(0, 1));
    // configuration
    c.set("s_jm", *r.pick(&[4, 4, 4, 1, 2, 6]));
    c.set("s_jmargin", *r.pick(&[100, 100, 100, 0, 250]));
    c.set("s_pings", *r.pick(&[3, 3, 3, 1, 5, 10]));
    c.set("s_err", *r.pick(&[100, 100, 100, 50, 200]));
    c.set("s_max", *r.pick(&[1000, 1000, 1000, 500, 2000]));
    c.set("s_cons", *r.pick(&[3, 3, 1, 6]));
    c.set("s_speed", *r.pick(&[50, 50, 50, 20, 100]));
    c.set("s_delay", *r.pick(&[0, 0, 1, 2, 3, 5, 12]));
    let long = !matches!(tier, Tier::Quick);
    for i in 1..=k {
        c.op(r.range(1, 400) as u64 * 1000, i, "connect", &[8]);
    }
    if c.get("host") != 0 {
        c.op(r.range(1, 2000) as u64 * 1000, HOST as i64, "connect", &[]);
    }
    // disturbances
    let span = if long { 25_000 } else { 9_000 };
    for _ in 0..r.range(0, if long { 8 } else { 4 }) {
        let t = r.range(500, span) as u64 * 1000;
        let i = r.range(1, k);
        match r.range(0, 9) {
            9 => {
                c.op(t, 0, "scrash", &[*r.pick(&[0, 100, 65_000, 2_000_000])]);
                for j in 0..8 {
                    for i in 1..=k {
                        c.op(t + 2_000_000 + j * 1_100_000 + r.range(0, 300) as u64 * 1000, i, "connect", &[8]);
                    }
                }
            }
            0 | 1 => {
                // the delay changes for good, or for a while
                let l = if r.range(0, 1) == 0 { 600_000_000 } else { r.range(200, 6000) as u64 * 1000 };
                let a = *r.pick(&[5_000, 20_000, 60_000, 120_000]);
                let (x, y) = *r.pick(&[(-1, -1), (-1, -1), (0, i), (i, 0)]);
                c.fault(t, t + l, "delay", x, y, &[a]);
            }
            2 => c.fault(t, t + r.range(100, 3000) as u64 * 1000, "loss", -1, -1, &[*r.pick(&[100, 400])]),
            3 => c.fault(t, t + r.range(100, 3000) as u64 * 1000, "reorder", -1, -1, &[*r.pick(&[200, 700]), *r.pick(&[20_000, 150_000])]),
            4 => c.fault(t, t + r.range(100, 3000) as u64 * 1000, "part", *r.pick(&[-1, 0, i]), -1, &[]),
            5 | 6 => c.fault(t, t + r.range(50, 3000) as u64 * 1000, "stall", *r.pick(&[0, i]), -1, &[]),
            7 => {
                c.op(t, i, "disconnect", &[]);
                c.op(t + r.range(100, 3000) as u64 * 1000, i, "connect", &[8]);
            }
            _ => {
                c.op(t, i, "crash", &[]);
                c.op(t + 500_000, i, "connect", &[8]);
                c.op(t + 8_100_000, i, "connect", &[8]);
            }
        }
    }
    let need = settle(&c) as i64 / 1000;
    c.set("tail_ms", (need + 9_000).min(if long { 120_000 } else { 50_000 }));
    if prop == "C18" && r.range(0, 149) == 0 {
        // a long session with a ping in every frame: the ping ids go all the way round, then the
        // delay changes
        let f = *r.pick(&[7_000, 8_000]);
        c.ops.retain(|o| o.kind == "connect" && o.t < 1_000_000 && o.node == 1);
        c.faults.clear();
        c.set("k", 1);
        c.set("host", 0);
        c.set("ping_us", 1);
        c.set("frame0_us", *r.pick(&[8_000, 16_667]));
        c.set("frame1_us", f);
        c.set("net_delay_us", *r.pick(&[100, 5000, 20_000, 50_000]));
        c.set("s_delay", 0);
        c.set("fj", 5);
        c.set("work0_us", 0);
        c.set("work1_us", 0);
        let t = (65_536 + r.range(100, 3000)) as u64 * f as u64;
        c.fault(t, t + 600_000_000, "delay", -1, -1, &[*r.pick(&[20_000, 60_000])]);
        if r.range(0, 1) == 0 {
            let t = t - r.range(10, 3000) as u64 * f as u64;
            c.fault(t, t + r.range(100, 1000) as u64 * 1000, "reorder", -1, -1, &[700, 150_000]);
        }
        c.set("tail_ms", settle(&c) as i64 / 1000 + 9_000);
    }
    c.sort();
    c
}

