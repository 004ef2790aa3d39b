//! Family L: simulated network conditions. One real bevy App with LinkPlugin and ServerLinkPlugin and a
//! few links with different conditions; the harness is the IO backend that hands packets to the links
//! and the reader that drains them. Decides C21 against the configured latency, jitter and loss.
use crate::case::Case;
use crate::rec::Rec;
use crate::rng::{Rng, hash, hash_bytes};
use crate::runner::Tier;
use bevy_app::prelude::*;
use bevy_ecs::prelude::*;
use bytes::BytesMut;
use core::time::Duration;
use lightyear_core::time::Instant;
use lightyear_link::prelude::*;
use lightyear_link::server::ServerLinkPlugin;
use lightyear_link::{LinkPlugin, LinkReceiveSystems, RecvLinkConditioner};
use std::collections::VecDeque;

const T0: u64 = 1_000_000_000;

/// Packets that the IO backend has for the links at this frame.
#[derive(Resource, Default)]
struct Inbox(Vec<(Entity, BytesMut, Instant)>);

fn io(mut inbox: ResMut<Inbox>, mut links: Query<&mut Link>) {
    for (e, b, t) in inbox.0.drain(..) {
        if let Ok(mut l) = links.get_mut(e) {
            l.recv.push(b, t);
        }
    }
}

struct P {
    /// instant of receipt given to the link
    t: u64,
    /// first frame at which the packet was in the link's hands
    at: u64,
    h: u64,
    got: Option<u64>,
    /// position among the packets that the reader took
    ord: u64,
}

/// What the documentation says the condition does.
#[derive(Clone, Debug, Default)]
struct Expect {
    lat: u64,
    jit: u64,
    loss: f64,
    /// variance factor of the number of losses and bias of the first steps
    var: f64,
    bias: f64,
    burst: Option<f64>,
}

struct L {
    e: Option<Entity>,
    cond: Option<Expect>,
    ps: Vec<P>,
    /// packets that the reader took from the link but has not looked at yet (a slow reader)
    raw: VecDeque<(u64, BytesMut)>,
    taken: u64,
}

fn payload(seed: u64, link: u64, n: u64, size: u64) -> BytesMut {
    let mut b = BytesMut::with_capacity(size.max(12) as usize);
    b.extend_from_slice(&(n as u32).to_le_bytes());
    b.extend_from_slice(&hash(&[seed, link, n]).to_le_bytes());
    let mut i = 0u64;
    while (b.len() as u64) < size {
        b.extend_from_slice(&[hash(&[seed, link, n, i]) as u8]);
        i += 1;
    }
    b
}

/// Settings of condition `k`, from the case's cfg.
fn condition(c: &Case, k: i64) -> Option<(LinkConditionerConfig, Expect)> {
    let g = |s: &str| c.get(&format!("{s}{k}"));
    let kind = g("kind");
    if kind == 0 {
        return None;
    }
    let (lat, jit) = (g("lat").max(0) as u64, g("jit").max(0) as u64);
    let ppm = |s: &str| g(s) as f64 / 1e6;
    let cfg = LinkConditionerConfig::default()
        .with_incoming_latency(Duration::from_micros(lat))
        .with_incoming_jitter(Duration::from_micros(jit));
    let mut x = Expect { lat, jit, ..Default::default() };
    let (mean, len) = (ppm("mean"), (g("len") as f64 / 1000.0).max(1.0));
    // probabilities of the two states and the chance to stay
    let ge = |x: &mut Expect, good: f64, bad: f64| {
        let pb = (mean - good) / (bad - good);
        let b2g = 1.0 / len;
        let g2b = pb * b2g / (1.0 - pb);
        let lam = 1.0 - b2g - g2b;
        let d = (bad - good) * (bad - good) * pb * (1.0 - pb);
        x.loss = mean;
        x.var = mean * (1.0 - mean) + if lam < 1.0 { 2.0 * d * lam.max(0.0) / (1.0 - lam) } else { 0.0 };
        x.bias = (bad - good) * pb / (1.0 - lam).max(1e-6);
    };
    let cfg = match kind {
        1 => cfg,
        2 => {
            x.loss = mean;
            x.var = mean * (1.0 - mean);
            cfg.with_fixed_loss(mean as f32)
        }
        3 => {
            ge(&mut x, 0.0, 1.0);
            if mean > 0.0 {
                x.burst = Some(len);
            }
            cfg.with_simple_gilbert_loss(mean as f32, len as f32)
        }
        4 => {
            ge(&mut x, 0.0, ppm("bad"));
            cfg.with_gilbert_loss(mean as f32, len as f32, ppm("bad") as f32)
        }
        _ => {
            ge(&mut x, ppm("min"), ppm("bad"));
            cfg.with_gilbert_elliott_loss(mean as f32, len as f32, ppm("bad") as f32, ppm("min") as f32)
        }
    };
    let cfg = if g("half") != 0 {
        // one direction of a round trip: half of everything
        x.lat /= 2;
        x.jit /= 2;
        x.loss /= 2.0;
        // losses of the whole condition thinned by half
        x.var = x.var / 4.0 + x.loss / 2.0;
        x.bias /= 2.0;
        x.burst = None;
        cfg.half()
    } else {
        cfg
    };
    Some((cfg, x))
}

pub fn run(c: &Case, rec: &mut Rec) {
    let clock = |us: u64| mock_instant::global::MockClock::set_time(Duration::from_micros(T0 + us));
    clock(0);
    lightyear_link::sim_hooks::set_seed(c.seed);
    let inst = |us: u64| -> Instant {
        // the mocked clock hands out instants of the present only
        mock_instant::global::MockClock::set_time(Duration::from_micros(T0 + us));
        Instant::now()
    };
    let mut app = App::new();
    app.add_plugins((LinkPlugin, ServerLinkPlugin));
    app.init_resource::<Inbox>();
    app.add_systems(PreUpdate, io.in_set(LinkReceiveSystems::BufferToLink));
    let tmpl = condition(c, 9);
    let server = app.world_mut().spawn((Server::new(tmpl.as_ref().map(|(c, _)| RecvLinkConditioner::new(c.clone()))), Linked)).id();
    let n = c.get("links").clamp(1, 6);
    let mut ls: Vec<L> = vec![];
    for i in 0..n {
        if c.get(&format!("child{i}")) != 0 {
            // made when its first packet arrives
            ls.push(L { e: None, cond: tmpl.as_ref().map(|(_, x)| x.clone()), ps: vec![], raw: VecDeque::new(), taken: 0 });
            continue;
        }
        let cond = condition(c, i);
        let link = Link::default().with_conditioner(cond.as_ref().map(|(c, _)| RecvLinkConditioner::new(c.clone())));
        let e = app.world_mut().spawn((link, Linked)).id();
        ls.push(L { e: Some(e), cond: cond.map(|(_, x)| x), ps: vec![], raw: VecDeque::new(), taken: 0 });
    }
    app.world_mut().flush();
    // arrivals: (time, link, size)
    let mut arr: Vec<(u64, usize, u64)> = vec![];
    for o in &c.ops {
        let a = |i: usize| o.args.get(i).copied().unwrap_or(0).max(0) as u64;
        if o.kind == "pkts" && o.node >= 0 && (o.node as usize) < ls.len() {
            for j in 0..a(0) {
                arr.push((o.t + j * a(1), o.node as usize, a(2) + hash(&[c.seed, o.t, j]) % 30));
            }
        }
    }
    arr.sort();
    let longest = ls.iter().filter_map(|l| l.cond.as_ref()).map(|x| x.lat + x.jit).max().unwrap_or(0);
    let frame = c.get("frame_us").max(200) as u64;
    let t_end = c.last_t().max(arr.last().map(|a| a.0).unwrap_or(0)) + longest + 4 * frame + 1_000_000;
    let stamp_arrival = c.get("stamp") != 0;
    let (mut now, mut ai, mut k) = (1 + c.seed % frame, 0, 0u64);
    let mut prev = 0u64;
    loop {
        if let Some(f) = c.faults.iter().find(|f| f.kind == "stall" && now >= f.t0 && now < f.t1) {
            rec.stat("fault.stall", 1);
            now = f.t1 + 1;
        }
        rec.now = now;
        rec.steps += 1;
        let mut give: Vec<(Entity, BytesMut, Instant)> = vec![];
        while ai < arr.len() && arr[ai].0 <= now {
            let (t, i, size) = arr[ai];
            ai += 1;
            let l = &mut ls[i];
            let b = payload(c.seed, i as u64, l.ps.len() as u64, size);
            let t = if stamp_arrival { t } else { now };
            rec.log(&[1, i as u64, t]);
            match l.e {
                Some(e) => {
                    l.ps.push(P { t, at: now, h: hash_bytes(&b), got: None, ord: 0 });
                    give.push((e, b, inst(t)));
                }
                None => {
                    // as the UDP server does: the link is made with its first packet in it
                    l.ps.push(P { t: now, at: now, h: hash_bytes(&b), got: None, ord: 0 });
                    clock(now);
                    let mut link = Link::default();
                    link.recv.push(b, Instant::now());
                    l.e = Some(app.world_mut().spawn((LinkOf { server }, link, Linked)).id());
                    app.world_mut().flush();
                    rec.stat("link.child", 1);
                }
            }
        }
        clock(now);
        app.world_mut().resource_mut::<Inbox>().0.extend(give);
        app.update();
        // the reader
        for (i, l) in ls.iter_mut().enumerate() {
            let Some(e) = l.e else { continue };
            if c.faults.iter().any(|f| f.kind == "slow" && f.src == i as i64 && now >= f.t0 && now < f.t1) {
                rec.stat("fault.slow_reader", 1);
                continue;
            }
            let mut link = app.world_mut().get_mut::<Link>(e).unwrap();
            if c.get("pop") != 0 {
                while let Some(b) = link.recv.pop() {
                    l.raw.push_back((now, b));
                }
            } else {
                l.raw.extend(link.recv.drain().map(|b| (now, b)));
            }
            if link.recv.len() != 0 {
                rec.viol("C21", "drain", format!("link {i}: {} packets remain in the queue after it was drained", link.recv.len()));
            }
        }
        for (i, l) in ls.iter_mut().enumerate() {
            while let Some((_, b)) = l.raw.pop_front() {
                let id = if b.len() >= 4 { u32::from_le_bytes([b[0], b[1], b[2], b[3]]) as usize } else { usize::MAX };
                let h = hash_bytes(&b);
                rec.log(&[2, i as u64, id as u64]);
                rec.stat("released", 1);
                let Some(p) = l.ps.get_mut(id) else {
                    rec.viol("C21", "invented", format!("link {i} released a packet that was never received"));
                    continue;
                };
                if p.h != h {
                    rec.viol("C21", "altered", format!("link {i}: packet {id} was altered"));
                }
                if p.got.is_some() {
                    rec.viol("C21", "twice", format!("link {i}: packet {id} was released twice"));
                    continue;
                }
                l.taken += 1;
                p.got = Some(now);
                p.ord = l.taken;
                let (lat, jit) = l.cond.as_ref().map(|x| (x.lat, x.jit)).unwrap_or((0, 0));
                // delays are kept in whole milliseconds
                let lo = (p.t + lat).saturating_sub(jit + 999);
                if l.cond.is_some() && now < lo {
                    rec.viol("C21", "early", format!("link {i}: packet {id}, received at {}us, was released at {now}us with latency {lat}us and jitter {jit}us", p.t));
                }
                let due = (p.t + lat + jit).max(p.at);
                let slow = c.faults.iter().any(|f| f.kind == "slow" && f.src == i as i64 && f.t1 >= due);
                if now > due && prev >= due && prev >= p.at && !slow {
                    rec.viol("C21", "late", format!("link {i}: packet {id}, received at {}us, was released at {now}us (frame before: {prev}us) with latency {lat}us and jitter {jit}us", p.t));
                }
                rec.state(&[i as u64, (now - p.t) / 1000, (lat > 0) as u64]);
            }
        }
        if rec.stop() {
            break;
        }
        if now > t_end && ai == arr.len() {
            break;
        }
        prev = now;
        k += 1;
        now += frame + hash(&[c.seed, 3, k]) % (1 + c.get("frame_jitter_us").max(0) as u64);
    }
    rec.sim_us += now;
    let mut all = 0;
    for (i, l) in ls.iter().enumerate() {
        let n = l.ps.len() as f64;
        all += l.ps.len();
        let lost = l.ps.iter().filter(|p| p.got.is_none()).count() as f64;
        rec.stat("lost", lost as u64);
        let x = l.cond.clone().unwrap_or_default();
        if x.loss <= 0.0 && lost > 0.0 {
            let id = l.ps.iter().position(|p| p.got.is_none()).unwrap();
            rec.viol("C21", "lost", format!("link {i}: packet {id} was never released and no loss is configured ({lost} of {n})"));
        }
        if x.jit == 0 {
            let mut best: Option<(u64, usize)> = None;
            for (id, p) in l.ps.iter().enumerate().filter(|(_, p)| p.got.is_some()) {
                if let Some((o, b)) = best
                    && p.ord < o
                    && (l.ps[b].t < p.t || l.cond.is_none())
                {
                    rec.viol("C21", "order", format!("link {i}: packet {id} was released before packet {b}, which was received earlier, and no jitter is configured"));
                    break;
                }
                if best.is_none_or(|(o, _)| p.ord > o) {
                    best = Some((p.ord, id));
                }
            }
        }
        // the configured loss rate, within eight standard deviations
        if x.loss > 0.0 && n >= 200.0 {
            rec.stat("probe.loss_rate", 1);
            let dev = (lost - n * x.loss).abs();
            let tol = 8.0 * (n * x.var).sqrt() + x.bias + 8.0 * (x.burst.unwrap_or(c.get(&format!("len{i}")) as f64 / 1000.0).max(1.0));
            if dev > tol {
                rec.viol("C21", "loss-rate", format!("link {i}: {lost} of {n} packets were lost, the configured rate is {:.4} (tolerance {tol:.0} packets)", x.loss));
            }
            if let Some(len) = x.burst {
                let mut runs = 0f64;
                let mut in_run = false;
                for p in &l.ps {
                    let lost = p.got.is_none();
                    if lost && !in_run {
                        runs += 1.0;
                    }
                    in_run = lost;
                }
                if runs >= 30.0 {
                    rec.stat("probe.burst_length", 1);
                    let mean = lost / runs;
                    let tol = 8.0 * (len * (len - 1.0) / runs).sqrt() + 0.05;
                    if (mean - len).abs() > tol {
                        rec.viol("C21", "burst", format!("link {i}: losses come in runs of {mean:.2} packets, configured {len:.2} (tolerance {tol:.2})"));
                    }
                }
            }
        }
        // the jitter is used: some packets come early, some late
        let slow = c.faults.iter().any(|f| f.kind == "slow" || f.kind == "stall");
        let got: Vec<&P> = l.ps.iter().filter(|p| p.got.is_some()).collect();
        if x.jit >= 8 * (frame + c.get("frame_jitter_us").max(0) as u64) && x.jit >= 8000 && x.lat >= x.jit && got.len() >= 200 && !slow {
            rec.stat("probe.jitter_spread", 1);
            let early = got.iter().filter(|p| p.got.unwrap() + x.jit / 4 < p.t + x.lat + 1).count();
            let late = got.iter().filter(|p| p.got.unwrap() > p.t + x.lat + x.jit / 4).count();
            if early == 0 || late == 0 {
                rec.viol("C21", "no-jitter", format!("link {i}: of {} packets {early} came early and {late} late, with latency {}us and jitter {}us", got.len(), x.lat, x.jit));
            }
        }
    }
    rec.stat("packets", all as u64);
    if all > 0 && ls.iter().any(|l| l.cond.is_some()) {
        rec.stat("nontrivial", 1);
    }
}

pub fn generate(prop: &str, seed: u64, tier: Tier) -> Case {
    let mut r = Rng::new(seed);
    let mut c = Case::new(prop, "L", seed);
    let n = r.range(1, 4);
    c.set("links", n);
    c.set("frame_us", *r.pick(&[500, 1000, 5000, 10_000, 16_667, 33_333]));
    c.set("frame_jitter_us", *r.pick(&[0, 0, 300, 5000]));
    c.set("stamp", r.range(0, 1));
    c.set("pop", r.range(0, 1));
    let big = r.chance(1, 3);
    for k in (0..n).chain([9]) {
        let kind = *r.pick(&[0, 1, 1, 1, 2, 2, 3, 4, 5]);
        let s = |n: &str| format!("{n}{k}");
        c.set(&s("kind"), kind);
        c.set(&s("lat"), *r.pick(&[0, 0, 900, 1000, 1500, 5000, 20_000, 50_000, 100_000, 250_000, 1_000_000]));
        c.set(&s("jit"), *r.pick(&[0, 0, 0, 100, 999, 1000, 2000, 10_000, 20_000, 100_000]));
        c.set(&s("half"), (r.chance(1, 4)) as i64);
        let mean = match kind {
            2 => *r.pick(&[0, 2000, 20_000, 100_000, 500_000, 1_000_000]),
            3 => *r.pick(&[0, 2000, 20_000, 100_000, 250_000]),
            _ => *r.pick(&[0, 2000, 20_000, 100_000]),
        };
        let min = *r.pick(&[0, 500, 2000]);
        c.set(&s("mean"), if kind == 5 { mean.max(min) } else { mean });
        c.set(&s("min"), min);
        c.set(&s("bad"), *r.pick(&[400_000, 700_000, 1_000_000]));
        c.set(&s("len"), *r.pick(&[1000, 1500, 3000, 6000, 10_000]));
        if k < 9 {
            c.set(&s("child"), r.chance(1, 4) as i64);
        }
    }
    let span = if tier == Tier::Thorough { 6_000_000 } else { 2_000_000 };
    for i in 0..n {
        if big && r.chance(1, 2) {
            let cnt = r.range(1000, 4000);
            c.op(r.range(0, 100_000) as u64, i, "pkts", &[cnt, span / cnt, r.range(0, 40)]);
        }
        for _ in 0..r.range(1, 8) {
            let spacing = *r.pick(&[0, 0, 1, 50, 1000, 7000, 16_667]);
            c.op(r.range(0, span) as u64, i, "pkts", &[r.range(1, 40), spacing, r.range(0, 1200)]);
        }
    }
    for _ in 0..r.range(0, 3) {
        let t = r.range(0, span) as u64;
        let d = r.range(10_000, 400_000) as u64;
        match r.range(0, 1) {
            0 => c.fault(t, t + d, "stall", 0, -1, &[]),
            _ => c.fault(t, t + d, "slow", r.range(0, n - 1), -1, &[]),
        }
    }
    c.sort();
    c
}
