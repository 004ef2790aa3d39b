//! Family P: peer-to-peer sessions. Several peers, each a real bevy App with the real link,
//! raw-connection, transport, message, time-synchronisation and session plugins, joined pairwise by
//! the simulated network. Decides C20 (and watches C19 on the peers).
use crate::case::{Case, Op};
use crate::net::{Net, addr, node_of};
use crate::rec::Rec;
use crate::rng::{Rng, hash};
use crate::runner::Tier;
use aeronet_io::connection::LocalAddr;
use bevy_app::prelude::*;
use bevy_ecs::prelude::*;
use bevy_time::TimeUpdateStrategy;
use bytes::Bytes;
use core::time::Duration;
use lightyear_connection::network_topology::{NetworkTopology, NetworkingMetadata};
use lightyear_connection::p2p::P2P;
use lightyear_connection::prelude::client::{Client, Connected};
use lightyear_core::id::{LocalId, PeerId, RemoteId};
use lightyear_core::plugin::CorePlugins;
use lightyear_core::prelude::{LocalTimeline, LocalTimelineShift};
use lightyear_link::prelude::*;
use lightyear_link::LinkPlugin;
use lightyear_p2p::prelude::*;
use lightyear_raw_connection::client::{RawClient, RawConnectionPlugin};
use lightyear_transport::plugin::TransportPlugin;
use std::collections::{BTreeMap, BTreeSet, HashMap};

#[derive(Debug, Clone)]
enum Ev {
    Fixed(u32),
    Shift(i32),
    Started { at: u32, now: u32, st: P2PSessionState, joined: Vec<u64>, connected: bool, topo: usize, fixed: bool },
    Stopped,
    OpStart { before: P2PSessionState, after: P2PSessionState, cand: Vec<u64>, all: Vec<u64> },
    OpStop { before: P2PSessionState, after: P2PSessionState, idle: bool, unlinked: bool, unlink: bool },
}
#[derive(Resource, Default)]
struct Log {
    ev: Vec<Ev>,
    fixed: bool,
}
#[derive(Resource, Default)]
struct Out(Vec<(Entity, Bytes)>);
type OpFn = Box<dyn FnOnce(&mut World) + Send + Sync>;
#[derive(Resource, Default)]
struct OpQ(Vec<OpFn>);

fn run_ops(w: &mut World) {
    let v = core::mem::take(&mut w.resource_mut::<OpQ>().0);
    for f in v {
        f(w);
        w.flush();
    }
}
fn peer(i: i64) -> PeerId {
    PeerId::Entity(1 + i as u64)
}
fn num(p: PeerId) -> u64 {
    match p {
        PeerId::Entity(x) => x - 1,
        _ => 9999,
    }
}
fn links(w: &mut World) -> Vec<(Entity, P2P, u64, bool)> {
    let mut q = w.query::<(Entity, &P2P, &RemoteId, Has<Connected>)>();
    q.iter(w).map(|(e, p, r, c)| (e, *p, num(r.0), c)).collect()
}

fn app(c: &Case, i: i64) -> App {
    let mut app = App::new();
    app.add_plugins(CorePlugins { tick_duration: Duration::from_micros(c.get("tick_us").max(2000) as u64) });
    app.init_resource::<Out>();
    app.init_resource::<OpQ>();
    app.init_resource::<Log>();
    app.add_plugins(lightyear_sync::client::ClientPlugin);
    app.add_plugins(LinkPlugin);
    app.add_plugins(TransportPlugin);
    app.add_plugins(lightyear_messages::plugin::MessagePlugin);
    app.add_plugins(lightyear_connection::ConnectionPlugin);
    app.add_plugins(RawConnectionPlugin);
    app.add_plugins(P2PSessionPlugin);
    app.insert_resource(
        P2PSession::default()
            .with_start_delay_ticks(c.get(&format!("delay{i}")).clamp(0, 60_000) as u16)
            .with_start_timeout(Duration::from_millis(c.get("timeout_ms").max(1) as u64)),
    );
    app.add_systems(Update, run_ops);
    app.add_systems(PostUpdate, (|mut q: Query<(Entity, &mut Link)>, mut o: ResMut<Out>| {
        for (e, mut l) in q.iter_mut() {
            for b in l.send.drain() {
                o.0.push((e, b));
            }
        }
    }).in_set(LinkSystems::Send));
    app.add_systems(FixedFirst, (|mut l: ResMut<Log>| l.fixed = true).before(lightyear_core::prelude::TimelineSystems::IncrementLocal));
    app.add_systems(FixedUpdate, |t: Res<LocalTimeline>, mut l: ResMut<Log>| {
        let t = t.tick().0;
        l.fixed = false;
        l.ev.push(Ev::Fixed(t));
    });
    app.add_observer(|t: On<LocalTimelineShift>, mut l: ResMut<Log>| l.ev.push(Ev::Shift(t.delta)));
    app.add_observer(|_t: On<P2PStopped>, mut l: ResMut<Log>| l.ev.push(Ev::Stopped));
    app.add_observer(
        |t: On<P2PStarted>, tl: Res<LocalTimeline>, s: Res<P2PSession>, m: Res<NetworkingMetadata>, q: Query<(&P2P, &RemoteId, Has<Connected>)>, mut l: ResMut<Log>| {
            let joined: Vec<u64> = q.iter().filter(|x| *x.0 == P2P::Joined).map(|x| num(x.1.0)).collect();
            let connected = q.iter().filter(|x| *x.0 == P2P::Joined).all(|x| x.2);
            let topo = match &m.mode {
                NetworkTopology::P2P(v) => v.len(),
                _ => usize::MAX,
            };
            let fixed = l.fixed;
            l.ev.push(Ev::Started { at: t.start_tick.0, now: tl.tick().0, st: s.state(), joined, connected, topo, fixed });
        },
    );
    app.finish();
    app.cleanup();
    app.insert_resource(TimeUpdateStrategy::ManualDuration(Duration::ZERO));
    app.update();
    let t0 = c.get(&format!("tick{i}"));
    app.world_mut().resource_mut::<LocalTimeline>().apply_delta(t0 as i32);
    app.world_mut().resource_mut::<Log>().ev.clear();
    app
}

#[derive(Debug, Clone)]
struct Att {
    roster: BTreeSet<u64>,
    t0: u64,
    started: Option<u32>,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum M {
    Stopped,
    Starting,
    Started,
}
struct Peer {
    app: App,
    next: u64,
    last: u64,
    /// other peer -> link entity
    ents: BTreeMap<i64, Entity>,
    m: M,
    r#gen: u64,
    life: u64,
    atts: HashMap<(u64, u64), Att>,
    want: Option<u32>,
    tick: u32,
    shifted: u64,
    expired: Option<u64>,
}
struct Sim<'a> {
    c: &'a Case,
    net: Net,
    ps: Vec<Peer>,
    /// (i, j) -> epoch of the connection as side i sees it (0: down)
    up: HashMap<(i64, i64), u64>,
    epochs: u64,
    pending: BTreeMap<(u64, u64), (i64, i64, u64, bool)>,
    pseq: u64,
}

fn local_us(c: &Case, node: i64, now: u64) -> u64 {
    let ppm = c.get(&format!("ppm{node}"));
    (now as i64 + (now as i64) * ppm / 1_000_000) as u64
}

impl<'a> Sim<'a> {
    fn clocks(&self, node: i64, now: u64) {
        let l = local_us(self.c, node, now);
        mock_instant::global::MockClock::set_time(Duration::from_micros(1_000_000_000 + l));
        lightyear_transport::sim_hooks::set_now_nanos((1_000_000_000 + l) * 1000);
    }
    fn queue(&mut self, i: i64, f: OpFn) {
        self.ps[i as usize].app.world_mut().resource_mut::<OpQ>().0.push(f);
    }
    fn ent(&mut self, i: i64, j: i64) -> Entity {
        if let Some(e) = self.ps[i as usize].ents.get(&j) {
            return *e;
        }
        let sa = core::net::SocketAddr::from(([10, 0, 0, i as u8 + 1], 5000 + j as u16));
        let e = self.ps[i as usize]
            .app
            .world_mut()
            .spawn((Client, RawClient, P2P::Inactive, Link::default(), LocalAddr(sa), LocalId(peer(i)), RemoteId(peer(j))))
            .id();
        self.ps[i as usize].ents.insert(j, e);
        e
    }
    fn epoch(&self, i: i64, j: i64) -> u64 {
        self.up.get(&(i, j)).copied().unwrap_or(0)
    }
    /// at time `t` side i of the connection with j sees it come up (epoch) or go down
    fn plan(&mut self, t: u64, i: i64, j: i64, epoch: u64, up: bool) {
        self.pseq += 1;
        self.pending.insert((t, self.pseq), (i, j, epoch, up));
    }
    fn cut(&mut self, i: i64, j: i64, now: u64, d: u64) {
        for (a, b, t) in [(i, j, now), (j, i, now + d)] {
            if let Some(e) = self.up.get(&(a, b)).copied()
                && e > 0
            {
                self.plan(t, a, b, e, false);
            }
        }
        self.pending.retain(|_, v| !(v.3 && ((v.0, v.1) == (i, j) || (v.0, v.1) == (j, i))));
    }
    fn apply_pending(&mut self, now: u64, rec: &mut Rec) {
        while let Some((&k, &(i, j, epoch, up))) = self.pending.iter().next() {
            if k.0 > now {
                break;
            }
            self.pending.remove(&k);
            let Some(e) = self.ps[i as usize].ents.get(&j).copied() else { continue };
            let cur = self.epoch(i, j);
            if up {
                if cur > 0 {
                    continue;
                }
                self.up.insert((i, j), epoch);
                rec.stat("op.linked", 1);
                rec.trace(|| format!("peer {i}: link to {j} comes up"));
                self.queue(i, Box::new(move |w| {
                    if let Ok(mut x) = w.get_entity_mut(e) {
                        x.insert(Linked);
                    }
                }));
            } else if cur == epoch {
                self.up.insert((i, j), 0);
                rec.stat("op.unlinked", 1);
                rec.trace(|| format!("peer {i}: link to {j} is lost"));
                self.queue(i, Box::new(move |w| {
                    if w.get_entity(e).is_ok() {
                        w.trigger(Unlink { entity: e, reason: UnlinkReason::TransportError("lost".into()) });
                    }
                }));
            }
        }
    }

    fn op(&mut self, o: &Op, now: u64, rec: &mut Rec) {
        let a = |i: usize| o.args.get(i).copied().unwrap_or(0);
        let n = self.ps.len() as i64;
        let (i, j) = (o.node, a(0));
        if i < 0 || i >= n {
            return;
        }
        match o.kind.as_str() {
            "link" => {
                if j < 0 || j >= n || i == j {
                    return;
                }
                let (x, y) = (self.epoch(i, j), self.epoch(j, i));
                if x == y && x > 0 {
                    return;
                }
                // what is left of an earlier connection goes first
                self.cut(i, j, now, 0);
                self.ent(i, j);
                self.ent(j, i);
                self.epochs += 1;
                let e = self.epochs;
                for (x, y, d) in [(i, j, a(1)), (j, i, a(2))] {
                    self.plan(now + 1 + d.max(0) as u64, x, y, e, true);
                }
            }
            "cut" => {
                if j >= 0 && j < n && i != j {
                    self.cut(i, j, now, a(1).max(0) as u64);
                }
            }
            // the application forgets the link altogether
            "drop" => {
                let Some(e) = self.ps[i as usize].ents.remove(&j) else { return };
                rec.stat("op.despawn", 1);
                self.up.insert((i, j), 0);
                self.cut(j, i, now + a(1).max(0) as u64, 0);
                self.queue(i, Box::new(move |w| {
                    w.despawn(e);
                }));
            }
            "start" => {
                rec.stat("op.start", 1);
                rec.trace(|| format!("peer {i}: P2PStart"));
                self.queue(i, Box::new(move |w| {
                    let before = w.resource::<P2PSession>().state();
                    w.trigger(P2PStart);
                    w.flush();
                    let after = w.resource::<P2PSession>().state();
                    let all = links(w).into_iter().map(|l| l.2).collect();
                    let cand = links(w).into_iter().filter(|l| l.1 == P2P::Candidate).map(|l| l.2).collect();
                    w.resource_mut::<Log>().ev.push(Ev::OpStart { before, after, cand, all });
                }));
            }
            "stop" => {
                rec.stat("op.stop", 1);
                rec.trace(|| format!("peer {i}: P2PStop unlink={}", a(0)));
                let unlink = a(0) != 0;
                if unlink {
                    let js: Vec<i64> = self.ps[i as usize].ents.keys().copied().collect();
                    for j in js {
                        self.up.insert((i, j), 0);
                        self.cut(j, i, now + a(1).max(0) as u64, 0);
                    }
                }
                self.queue(i, Box::new(move |w| {
                    let before = w.resource::<P2PSession>().state();
                    w.trigger(P2PStop { unlink });
                    w.flush();
                    let after = w.resource::<P2PSession>().state();
                    let ls = links(w);
                    let idle = ls.iter().all(|l| l.1 == P2P::Inactive);
                    let unlinked = ls.iter().all(|l| w.get::<Linked>(l.0).is_none() && w.get::<Connected>(l.0).is_none());
                    w.resource_mut::<Log>().ev.push(Ev::OpStop { before, after, idle, unlinked, unlink });
                }));
            }
            "crash" => {
                rec.stat("fault.crash", 1);
                rec.trace(|| format!("peer {i} crashes and starts anew"));
                self.clocks(i, now);
                let life = self.ps[i as usize].life + 1;
                let js: Vec<i64> = self.ps[i as usize].ents.keys().copied().collect();
                for j in js {
                    self.up.insert((i, j), 0);
                    self.cut(j, i, now + a(1).max(0) as u64, 0);
                }
                let p = &mut self.ps[i as usize];
                p.app = app(self.c, i);
                p.life = life;
                p.r#gen = 0;
                p.m = M::Stopped;
                p.ents.clear();
                p.want = None;
                p.expired = None;
                p.last = now;
                p.next = now + 1;
                p.tick = p.app.world().resource::<LocalTimeline>().tick().0;
            }
            _ => {}
        }
    }

    fn frame(&mut self, i: i64, rec: &mut Rec) {
        let now = self.ps[i as usize].next;
        let dt = local_us(self.c, i, now) - local_us(self.c, i, self.ps[i as usize].last);
        self.ps[i as usize].last = now;
        self.clocks(i, now);
        rec.steps += 1;
        for p in self.net.take(i, now) {
            // the port names the connection
            let j = node_of(p.src);
            let epoch = (p.src % 1000) as u64;
            let Some(e) = self.ps[i as usize].ents.get(&j).copied() else { continue };
            if self.epoch(i, j) % 1000 != epoch || epoch == 0 {
                continue;
            }
            if let Some(mut l) = self.ps[i as usize].app.world_mut().get_mut::<Link>(e) {
                l.recv.push_raw(bytes::BytesMut::from(&p.bytes[..]));
            }
        }
        self.ps[i as usize].app.insert_resource(TimeUpdateStrategy::ManualDuration(Duration::from_micros(dt)));
        self.ps[i as usize].app.update();
        let out = core::mem::take(&mut self.ps[i as usize].app.world_mut().resource_mut::<Out>().0);
        for (e, b) in out {
            let Some(j) = self.ps[i as usize].ents.iter().find(|x| *x.1 == e).map(|x| *x.0) else { continue };
            let epoch = self.epoch(i, j);
            if epoch > 0 {
                self.net.send(now, addr(i, epoch % 1000), addr(j, epoch % 1000), b.to_vec(), rec);
            }
        }
        self.check(i, now, rec);
    }

    fn check(&mut self, i: i64, now: u64, rec: &mut Rec) {
        let ev = core::mem::take(&mut self.ps[i as usize].app.world_mut().resource_mut::<Log>().ev);
        let (state, start_tick, tick) = {
            let w = self.ps[i as usize].app.world();
            (w.resource::<P2PSession>().state(), w.resource::<P2PSession>().start_tick(), w.resource::<LocalTimeline>().tick().0)
        };
        let tick_us = self.c.get("tick_us").max(2000) as u64;
        let mut started: Option<u32> = None;
        for (k, e) in ev.iter().enumerate() {
            let p = &mut self.ps[i as usize];
            let key = (p.life, p.r#gen);
            match e {
                Ev::Shift(d) => {
                    p.tick = p.tick.wrapping_add(*d as u32);
                    p.shifted += d.unsigned_abs() as u64;
                    rec.stat("probe.shift", 1);
                }
                Ev::Fixed(t) => {
                    if *t != p.tick.wrapping_add(1) {
                        rec.viol("C19", "tick-skipped", format!("peer {i}: a fixed step ran at tick {t}, the previous one at {} (announced shifts applied)", p.tick));
                    }
                    p.tick = *t;
                    if let Some(x) = p.want.take()
                        && x != *t
                    {
                        rec.viol("C20", "not-at-start-tick", format!("peer {i}: session reported started for tick {x}, but the next simulated tick is {t}"));
                    }
                }
                Ev::Started { at, now: t, st, joined, connected, topo, fixed } => {
                    rec.stat("probe.started", 1);
                    rec.log(&[0x30, i as u64, *at as u64]);
                    rec.trace(|| format!("peer {i}: started at {at}"));
                    if p.m != M::Starting {
                        rec.viol("C20", "started-unasked", format!("peer {i}: session reported started (tick {at}) in state {:?} of attempt {}", p.m, p.r#gen));
                    }
                    p.m = M::Started;
                    if t.wrapping_add(1) != *at || !fixed {
                        rec.viol("C20", "started-at-wrong-time", format!("peer {i}: start of tick {at} reported when the tick is {t} (inside a simulation step: {fixed})"));
                    }
                    p.want = Some(*at);
                    if *st != (P2PSessionState::Started { start_tick: lightyear_core::tick::Tick(*at) }) {
                        rec.viol("C20", "state-at-start", format!("peer {i}: start of tick {at} reported in state {st:?}"));
                    }
                    let roster = p.atts.get(&key).map(|a| a.roster.clone()).unwrap_or_default();
                    let mut js: BTreeSet<u64> = joined.iter().copied().collect();
                    js.insert(i as u64);
                    if js != roster || joined.len() + 1 != roster.len() {
                        rec.viol("C20", "joined-roster", format!("peer {i}: started with links {joined:?}, the attempt was for {roster:?}"));
                    }
                    if !connected {
                        rec.viol("C20", "joined-down", format!("peer {i}: started while one of its links is not connected"));
                    }
                    if *topo != joined.len() {
                        rec.viol("C20", "topology", format!("peer {i}: started with {} links, the topology shows {topo}", joined.len()));
                    }
                    if let Some(a) = p.atts.get_mut(&key) {
                        if a.started.is_some() {
                            rec.viol("C20", "started-twice", format!("peer {i}: attempt {} reported started twice", key.1));
                        }
                        a.started = Some(*at);
                    }
                    started = Some(*at);
                }
                Ev::Stopped => {}
                Ev::OpStart { before, after, cand, all } => {
                    // what the session did by itself before the request
                    self.silent(i, *before, now, rec);
                    let p = &mut self.ps[i as usize];
                    if *before != P2PSessionState::Stopped {
                        if before != after {
                            rec.viol("C20", "restart", format!("peer {i}: a start request while {before:?} changed the state to {after:?}"));
                        }
                    } else if *after == (P2PSessionState::Starting { start_tick: None }) {
                        p.r#gen += 1;
                        p.m = M::Starting;
                        p.expired = None;
                        let mut roster: BTreeSet<u64> = cand.iter().copied().collect();
                        roster.insert(i as u64);
                        let want: BTreeSet<u64> = all.iter().copied().chain([i as u64]).collect();
                        if roster != want {
                            rec.viol("C20", "candidates", format!("peer {i}: the links are to {want:?}, the attempt is for {roster:?}"));
                        }
                        p.atts.insert((p.life, p.r#gen), Att { roster, t0: now, started: None });
                        rec.stat("probe.attempts", 1);
                        rec.log(&[0x31, i as u64, p.r#gen]);
                    } else if *after != P2PSessionState::Stopped {
                        rec.viol("C20", "start-state", format!("peer {i}: a start request led to {after:?}"));
                    } else if !all.is_empty() {
                        rec.viol("C20", "start-refused", format!("peer {i}: a start request was ignored although the session is stopped and there are links to {all:?}"));
                    }
                }
                Ev::OpStop { before, after, idle, unlinked, unlink } => {
                    self.silent(i, *before, now, rec);
                    let p = &mut self.ps[i as usize];
                    if *after != P2PSessionState::Stopped || !idle {
                        rec.viol("C20", "stop-ignored", format!("peer {i}: after a stop the state is {after:?} and every link is inactive: {idle}"));
                    }
                    let told = ev[..k].iter().rev().take_while(|e| !matches!(e, Ev::OpStart { .. } | Ev::OpStop { .. })).filter(|e| matches!(e, Ev::Stopped)).count();
                    let want = (*before != P2PSessionState::Stopped) as usize;
                    if told != want {
                        rec.viol("C20", "stop-reported", format!("peer {i}: a stop in state {before:?} was reported {told} times"));
                    }
                    if *unlink && !unlinked {
                        rec.viol("C20", "stop-unlink", format!("peer {i}: links are still up after a stop that closes them"));
                    }
                    p.m = M::Stopped;
                }
            }
        }
        self.silent(i, state, now, rec);
        let p = &mut self.ps[i as usize];
        if p.tick != tick {
            rec.viol("C19", "unannounced-jump", format!("peer {i}: the tick is {tick}; the last step and the announced shifts give {}", p.tick));
            p.tick = tick;
        }
        // other peers of the same attempt
        let (life, g) = (p.life, p.r#gen);
        if let Some(at) = started {
            let roster = p.atts.get(&(life, g)).map(|a| a.roster.clone()).unwrap_or_default();
            for j in roster.iter().copied().filter(|j| *j != i as u64) {
                let Some(o) = self.ps.get(j as usize) else { continue };
                let Some(b) = o.atts.get(&(o.life, g)).or_else(|| (0..o.life).rev().find_map(|l| o.atts.get(&(l, g)))) else {
                    rec.viol("C20", "absent-peer", format!("peer {i} started attempt {g} with peer {j}, which never made that attempt"));
                    continue;
                };
                if b.roster != roster {
                    rec.viol("C20", "different-group", format!("peer {i} started attempt {g} for {roster:?}; peer {j} made it for {:?}", b.roster));
                }
                if let Some(t) = b.started {
                    rec.stat("probe.agreements", 1);
                    if t != at {
                        rec.viol("C20", "different-tick", format!("attempt {g}: peer {i} starts at {at}, peer {j} at {t}"));
                    }
                }
            }
        }
        // an attempt ends in time
        let p = &mut self.ps[i as usize];
        if p.m == M::Starting
            && let Some(a) = p.atts.get(&(life, g))
        {
            let t = (self.c.get("timeout_ms").max(1) as u64) * 1000;
            let age = now - a.t0;
            let waiting = start_tick.is_some_and(|s| (s.0.wrapping_sub(tick) as i32) > 0);
            let slack = 200_000 + 3 * self.c.get("frame_us").max(1000) as u64;
            if age > t + slack {
                let since = *p.expired.get_or_insert(now);
                if !waiting && now - since > 2 * slack {
                    rec.viol("C20", "stuck", format!("peer {i}: attempt {g} began {} ms ago (timeout {} ms) and is still in state {state:?} at tick {tick}", age / 1000, t / 1000));
                }
                let most = (0..self.ps.len()).map(|x| self.c.get(&format!("delay{x}")).max(0) as u64).max().unwrap_or(0);
                if age > t + 4 * slack + (most + self.ps[i as usize].shifted) * tick_us * 3 / 2 + 1_000_000 {
                    rec.viol("C20", "stuck", format!("peer {i}: attempt {g} began {} ms ago (timeout {} ms) and still waits for tick {start_tick:?} at tick {tick}", age / 1000, t / 1000));
                }
            }
        }
        let st = match state {
            P2PSessionState::Stopped => 0,
            P2PSessionState::Starting { start_tick: None } => 1,
            P2PSessionState::Starting { .. } => 2,
            P2PSessionState::Started { .. } => 3,
        };
        let lk = links(self.ps[i as usize].app.world_mut());
        let code = lk.iter().fold(0u64, |h, l| h * 8 + (l.1 as u64) * 2 + l.3 as u64);
        rec.state(&[i as u64, st, code, g.min(5)]);
        rec.log(&[0x32, i as u64, st, code]);
        // an ended attempt leaves every link free
        if st == 0 && lk.iter().any(|l| l.1 != P2P::Inactive) {
            rec.viol("C20", "links-taken", format!("peer {i}: the session is stopped, but links are {:?}", lk.iter().map(|l| (l.2, l.1)).collect::<Vec<_>>()));
        }
        if st == 3 && lk.iter().any(|l| l.1 == P2P::Candidate) {
            rec.viol("C20", "links-taken", format!("peer {i}: the session is started, but links are {:?}", lk.iter().map(|l| (l.2, l.1)).collect::<Vec<_>>()));
        }
    }

    /// transitions the session made without a request or a report
    fn silent(&mut self, i: i64, state: P2PSessionState, now: u64, rec: &mut Rec) {
        let p = &mut self.ps[i as usize];
        let n = match state {
            P2PSessionState::Stopped => M::Stopped,
            P2PSessionState::Starting { .. } => M::Starting,
            P2PSessionState::Started { .. } => M::Started,
        };
        match (p.m, n) {
            (a, b) if a == b => {}
            (M::Starting, M::Stopped) => {
                rec.stat("probe.failed_attempts", 1);
                let g = p.r#gen;
                rec.trace(|| format!("peer {i}: attempt {g} ended"));
            }
            (a, b) => rec.viol("C20", "silent-change", format!("peer {i} at {now}: the session went from {a:?} to {b:?} on its own")),
        }
        p.m = n;
    }

    fn final_checks(&mut self, rec: &mut Rec) {
        if self.c.get("fair") == 0 {
            return;
        }
        let n = self.ps.len();
        // everyone asked as often as everyone else, in fresh processes or not at all restarted
        let gens: BTreeSet<u64> = self.ps.iter().map(|p| p.r#gen).collect();
        if gens.len() > 1 || gens.contains(&0) {
            rec.stat("probe.unequal_attempts", 1);
            return;
        }
        let full = self.ps.iter().all(|p| p.ents.len() == n - 1 && p.atts.get(&(p.life, p.r#gen)).is_some_and(|a| a.roster.len() == n));
        let t0: Vec<u64> = self.ps.iter().filter_map(|p| p.atts.get(&(p.life, p.r#gen)).map(|a| a.t0)).collect();
        let together = t0.iter().max().unwrap_or(&0) - t0.iter().min().unwrap_or(&0) <= self.c.get("timeout_ms").max(0) as u64 * 1000 / 3;
        let n = n as i64;
        let linked = (0..n).all(|i| (0..i).all(|j| self.epoch(i, j) > 0 && self.epoch(i, j) == self.epoch(j, i)));
        if !linked || !full || !together || t0.iter().any(|t| *t < self.c.get("final_us") as u64) {
            return;
        }
        rec.stat("probe.must_start", 1);
        for (i, p) in self.ps.iter().enumerate() {
            if p.m != M::Started {
                rec.viol("C20", "no-start", format!("peer {i}: every peer asked for the session on a steady network and the session is {:?} (attempt {})", p.m, p.r#gen));
            }
        }
    }
}
pub fn run(c: &Case, rec: &mut Rec) {
    let n = c.get("n").clamp(2, 5);
    mock_instant::global::MockClock::set_time(Duration::from_micros(1_000_000_000));
    lightyear_transport::sim_hooks::set_now_nanos(1_000_000_000_000);
    lightyear_link::sim_hooks::set_seed(c.seed);
    let mut s = Sim { c, net: Net::new(c), ps: vec![], up: HashMap::new(), epochs: 0, pending: BTreeMap::new(), pseq: 0 };
    for i in 0..n {
        let a = app(c, i);
        let tick = a.world().resource::<LocalTimeline>().tick().0;
        s.ps.push(Peer {
            app: a,
            next: 1 + hash(&[c.seed, 5, i as u64]) % c.get("frame_us").max(1000) as u64,
            last: 0,
            ents: BTreeMap::new(),
            m: M::Stopped,
            r#gen: 0,
            life: 0,
            atts: HashMap::new(),
            want: None,
            tick,
            shifted: 0,
            expired: None,
        });
    }
    let ops = c.ops.clone();
    let mut oi = 0;
    let t_end = c.last_t() + c.get("tail_ms").max(0) as u64 * 1000;
    loop {
        let (i, now) = s.ps.iter().enumerate().map(|(i, p)| (i as i64, p.next)).min_by_key(|x| x.1).unwrap();
        if let Some(f) = c.faults.iter().find(|f| f.kind == "stall" && f.src == i && now >= f.t0 && now < f.t1) {
            rec.stat("fault.stall", 1);
            s.ps[i as usize].next = f.t1 + 1;
            continue;
        }
        rec.now = now;
        while oi < ops.len() && ops[oi].t <= now {
            let o = ops[oi].clone();
            oi += 1;
            s.op(&o, now, rec);
        }
        s.apply_pending(now, rec);
        if now >= t_end {
            s.final_checks(rec);
            rec.stat("probe.settled", 1);
            break;
        }
        if s.ps[i as usize].next > now {
            continue;
        }
        s.frame(i, rec);
        let p = c.get("frame_us").max(1000) as u64;
        let fj = p * c.get("fj").clamp(0, 90) as u64 / 100;
        s.ps[i as usize].next = now + p - fj + hash(&[c.seed, 21, i as u64, now]) % (2 * fj + 1);
        if rec.stop() || rec.steps > 60_000 {
            break;
        }
    }
    rec.sim_us = rec.now;
    if rec.stats.get("probe.attempts").copied().unwrap_or(0) > 1 {
        rec.stat("nontrivial", 1);
    }
}

pub fn generate(prop: &str, seed: u64, tier: Tier) -> Case {
    let mut r = Rng::new(seed);
    let mut c = Case::new(prop, "P", seed);
    let n = *r.pick(&[2, 2, 3, 3, 4]);
    c.set("n", n);
    c.set("tick_us", *r.pick(&[10_000, 15_625, 16_667, 16_667, 33_333]));
    c.set("frame_us", *r.pick(&[6_944, 10_000, 16_667, 16_667, 33_000]));
    c.set("fj", *r.pick(&[0, 10, 30, 80]));
    c.set("timeout_ms", *r.pick(&[1500, 3000, 5000]));
    let base = *r.pick(&[5, 20, 60, 120, 120, 200]);
    for i in 0..n {
        c.set(&format!("delay{i}"), if r.range(0, 3) == 0 { *r.pick(&[0, 5, 60, 120, 200]) } else { base });
        c.set(&format!("tick{i}"), if r.range(0, 2) == 0 { 0 } else { *r.pick(&[30, 200, 1500, 70_000]) });
        c.set(&format!("ppm{i}"), *r.pick(&[0, 0, 100, -100]));
    }
    let delay = *r.pick(&[0, 2_000, 15_000, 40_000, 90_000]);
    c.set("net_delay_us", delay);
    let jit = *r.pick(&[0, 0, 2_000, 15_000]);
    c.set("net_jitter_us", jit);
    c.set("net_fifo", r.range(0, 1));
    let timeout = c.get("timeout_ms") * 1000;
    let mut t = 20_000u64;
    // connections come up over time
    let mut pairs = vec![];
    for i in 0..n {
        for j in i + 1..n {
            pairs.push((i, j));
        }
    }
    let slow = *r.pick(&[0, 50_000, 600_000]);
    for (i, j) in &pairs {
        if r.range(0, 9) > 0 {
            c.op(t + r.range(0, slow) as u64, *i, "link", &[*j, r.range(0, 60_000), r.range(0, 60_000)]);
        }
    }
    let rounds = r.range(0, if tier == Tier::Thorough { 5 } else { 3 });
    let wild = r.range(0, 3) == 0;
    for k in 0..rounds {
        t += if k == 0 { r.range(0, 1_500_000) as u64 } else { r.range(100_000, 2_500_000) as u64 };
        let skew = *r.pick(&[1, 30_000, 300_000, timeout]);
        for i in 0..n {
            let at = t + r.range(0, skew) as u64;
            if k > 0 || r.range(0, 5) == 0 {
                c.op(at.saturating_sub(r.range(0, 60_000) as u64), i, "stop", &[(r.range(0, 7) == 0) as i64, r.range(0, 100_000)]);
            }
            if !(wild && r.range(0, 3) == 0) {
                c.op(at, i, "start", &[]);
            }
            if r.range(0, 5) == 0 {
                c.op(at + r.range(0, 500_000) as u64, i, "start", &[]);
            }
        }
        let span = r.range(100_000, timeout + 3_000_000) as u64;
        // trouble during the round
        for _ in 0..r.range(0, 4) {
            let x = t + r.range(0, span as i64) as u64;
            let i = r.range(0, n - 1);
            let j = (i + r.range(1, n - 1)) % n;
            let d = r.range(50_000, 1_500_000) as u64;
            match r.range(0, 11) {
                0 | 1 => {
                    c.op(x, i, "cut", &[j, r.range(0, 100_000)]);
                    if r.range(0, 2) > 0 {
                        c.op(x + d, i, "link", &[j, r.range(0, 60_000), r.range(0, 60_000)]);
                    }
                }
                2 if wild => c.op(x, i, "drop", &[j, r.range(0, 100_000)]),
                3 => c.fault(x, x + d, "stall", i, -1, &[]),
                4 => c.fault(x, x + d, "part", i, j, &[]),
                5 => {
                    c.fault(x, x + d, "part", i, j, &[]);
                    c.fault(x, x + d, "part", j, i, &[]);
                }
                6 => c.fault(x, x + d, "loss", -1, -1, &[r.range(100, 700)]),
                7 => c.fault(x, x + d, "dup", -1, -1, &[r.range(100, 700), r.range(0, 300_000)]),
                8 => c.fault(x, x + d, "reorder", -1, -1, &[r.range(100, 700), r.range(1_000, 500_000)]),
                9 => c.fault(x, x + d, "delay", i, -1, &[r.range(20_000, 1_000_000)]),
                10 if wild => c.op(x, i, "crash", &[0, r.range(0, 100_000)]),
                _ => c.fault(x, x + d, "loss", i, j, &[r.range(300, 900)]),
            }
        }
        t += span;
    }
    // afterwards the network is steady and everyone is asked once more
    t = t.max(c.last_t()) + 1_500_000;
    for i in 0..n {
        c.op(t, i, "stop", &[0]);
    }
    let before = r.range(0, 3) > 0;
    let up = if before { t + 200_000 } else { t + 1_500_000 };
    for (i, j) in &pairs {
        c.op(up + r.range(0, 100_000) as u64, *i, "link", &[*j, r.range(0, 60_000), r.range(0, 60_000)]);
    }
    t += 1_400_000;
    // in some runs after several attempts that are given up at once
    if r.range(0, 2) == 0 {
        for _ in 0..r.range(1, 3) {
            let gap = *r.pick(&[40_000, 90_000, 200_000, 500_000]);
            for i in 0..n {
                let at = t + r.range(0, gap / 2) as u64;
                c.op(at, i, "start", &[]);
                c.op(at + gap as u64, i, "stop", &[0]);
            }
            t += (2 * gap) as u64;
        }
    }
    c.set("final_us", t as i64);
    let skew = *r.pick(&[1, 20_000, 200_000, timeout / 4]);
    for i in 0..n {
        c.op(t + r.range(0, skew) as u64, i, "start", &[]);
    }
    // the start tick is far enough away for the agreement to be reached before it
    let tick = c.get("tick_us");
    let need = 2 * (delay + jit) + 8 * c.get("frame_us") + 2 * tick + 150_000;
    let least = (0..n).map(|i| c.get(&format!("delay{i}"))).min().unwrap() * tick;
    c.set("fair", (least > need) as i64);
    let most = (0..n).map(|i| c.get(&format!("delay{i}"))).max().unwrap() * tick;
    c.set("tail_ms", (timeout + 1_500_000 + most * 5 / 4) / 1000);
    c.sort();
    c
}
