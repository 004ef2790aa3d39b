//! Family U: the IO adapters between links and what carries their packets.
//! mode 0: the real UDP plugins (server and clients) over simulated sockets with socket errors;
//! mode 1: pairs of Crossbeam links between two apps; mode 2: the Aeronet bridge, with the harness in
//! the place of the WebSocket or WebTransport session layer. Decides C27; the UDP runs with raw
//! connections (where a link is a connection) decide C13 too.
use crate::case::Case;
use crate::net::{Net, addr, node_of};
use crate::rec::Rec;
use crate::rng::{Rng, hash, hash_bytes};
use crate::runner::Tier;
use aeronet_io::connection::{LocalAddr, PeerAddr};
use bevy_app::prelude::*;
use bevy_ecs::prelude::*;
use bytes::{Bytes, BytesMut};
use core::time::Duration;
use lightyear_link::prelude::*;
use lightyear_link::server::ServerLinkPlugin;
use lightyear_link::LinkState;
use lightyear_udp::UdpIo;
use lightyear_udp::server::ServerUdpIo;
use lightyear_connection::client::{Connect, Connected, Connecting, Disconnect, Disconnected, Disconnecting};
use lightyear_connection::client_of::ClientOf;
use lightyear_connection::network_topology::NetworkingMetadata;
use lightyear_connection::server::{Start, Started, Starting, Stop, Stopped, Stopping};
use lightyear_core::id::{LocalId, PeerId, RemoteId};
use lightyear_raw_connection::{client::RawClient, server::RawServer};
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::io::{Error, ErrorKind, Result as IoResult};
use std::net::{Ipv4Addr, SocketAddr};
use std::sync::{Arc, Mutex};

const P: &str = "C27";

fn sock(a: u64) -> SocketAddr {
    SocketAddr::new(Ipv4Addr::new(10, 0, 0, node_of(a) as u8 + 1).into(), 4000 + (a % 1000) as u16)
}
fn unsock(s: SocketAddr) -> u64 {
    match s {
        SocketAddr::V4(v) => addr(v.ip().octets()[3] as i64 - 1, v.port().saturating_sub(4000) as u64),
        _ => 0,
    }
}
fn payload(seed: u64, uid: u64, size: u64) -> Vec<u8> {
    let mut b: Vec<u8> = uid.to_le_bytes()[..(size.min(8)) as usize].to_vec();
    while (b.len() as u64) < size {
        b.push(hash(&[seed, uid, b.len() as u64]) as u8);
    }
    b
}
fn short(b: &[u8]) -> String {
    format!("{} bytes {:016x}", b.len(), hash_bytes(b))
}
fn clock(us: u64) {
    mock_instant::global::MockClock::set_time(Duration::from_micros(1_000_000_000 + us));
}
fn reason_text(i: i64) -> String {
    format!("reason-{i}")
}

/// Compares what a queue held with what it had to hold.
fn same(rec: &mut Rec, what: &str, got: &[Vec<u8>], want: &[Vec<u8>]) {
    if got == want {
        return;
    }
    let i = got.iter().zip(want).take_while(|(a, b)| a == b).count();
    let class = if got.len() < want.len() && got.iter().all(|g| want.contains(g)) {
        "lost"
    } else if got.len() > want.len() && want.iter().all(|w| got.contains(w)) {
        "extra"
    } else if got.len() == want.len() && got.iter().collect::<BTreeSet<_>>() == want.iter().collect::<BTreeSet<_>>() {
        "order"
    } else {
        "altered"
    };
    let f = |v: &[Vec<u8>]| v.get(i).map(|b| short(b)).unwrap_or("nothing".into());
    rec.viol(P, format!("{class}-{}", what.split(':').next().unwrap()), format!("{what}: {} packets, expected {}; at position {i}: {} instead of {}", got.len(), want.len(), f(got), f(want)));
}

// ------------------------------------------------------------------ simulated sockets

enum In {
    Dg(u64, Vec<u8>),
    Err(ErrorKind),
}
#[derive(Clone, Debug)]
enum Ev {
    Took { sock: u64, from: u64, bytes: Vec<u8> },
    /// true if reading has to go on in the same frame
    Error(bool),
    Sent { sock: u64, to: u64, bytes: Vec<u8>, ok: bool },
    Truncated { len: usize, room: usize },
    Closed(u64),
}
#[derive(Default)]
struct Sockets {
    open: BTreeMap<u64, u64>,
    inq: BTreeMap<u64, VecDeque<In>>,
    next: u64,
    ports: BTreeMap<i64, u64>,
    log: Vec<Ev>,
    seed: u64,
    nsend: u64,
    fail_permille: u64,
}
struct Wire(Arc<Mutex<Sockets>>);
impl lightyear_udp::sim_hooks::SimNet for Wire {
    fn bind(&mut self, a: SocketAddr) -> IoResult<(u64, SocketAddr)> {
        let mut s = self.0.lock().unwrap();
        let SocketAddr::V4(v) = a else { return Err(ErrorKind::Unsupported.into()) };
        let node = v.ip().octets()[3] as i64 - 1;
        let at = if a.port() == 0 {
            let p = s.ports.entry(node).or_insert(100);
            *p += 1;
            addr(node, *p)
        } else {
            unsock(a)
        };
        if s.open.values().any(|x| *x == at) {
            return Err(ErrorKind::AddrInUse.into());
        }
        s.next += 1;
        let id = s.next;
        s.open.insert(id, at);
        s.inq.insert(id, VecDeque::new());
        Ok((id, sock(at)))
    }
    fn close(&mut self, id: u64) {
        let mut s = self.0.lock().unwrap();
        s.open.remove(&id);
        s.inq.remove(&id);
        s.log.push(Ev::Closed(id));
    }
    fn send_to(&mut self, id: u64, b: &[u8], a: SocketAddr) -> IoResult<usize> {
        let mut s = self.0.lock().unwrap();
        s.nsend += 1;
        let ok = hash(&[s.seed, 77, s.nsend]) % 1000 >= s.fail_permille;
        s.log.push(Ev::Sent { sock: id, to: unsock(a), bytes: b.to_vec(), ok });
        if ok { Ok(b.len()) } else { Err(Error::from(ErrorKind::ConnectionRefused)) }
    }
    fn recv_from(&mut self, id: u64, buf: &mut [u8]) -> IoResult<(usize, SocketAddr)> {
        let mut s = self.0.lock().unwrap();
        match s.inq.get_mut(&id).and_then(|q| q.pop_front()) {
            None => Err(ErrorKind::WouldBlock.into()),
            Some(In::Err(k)) => {
                s.log.push(Ev::Error(k == ErrorKind::ConnectionReset));
                Err(k.into())
            }
            Some(In::Dg(from, b)) => {
                let n = b.len().min(buf.len());
                if n < b.len() && b.len() <= 1472 {
                    s.log.push(Ev::Truncated { len: b.len(), room: buf.len() });
                }
                // a real socket leaves what follows the datagram as it was: make that visible
                for x in buf.iter_mut() {
                    *x = 0xEE;
                }
                buf[..n].copy_from_slice(&b[..n]);
                s.log.push(Ev::Took { sock: id, from, bytes: b[..n].to_vec() });
                Ok((n, sock(from)))
            }
        }
    }
}

/// connection state changes, as an observer sees them
#[derive(Resource, Default)]
struct Seen(Vec<(Entity, bool, String)>);

struct Node {
    app: App,
    ent: Entity,
    sock: Option<u64>,
    last: u64,
    next: u64,
    /// what each link's receive queue has to hold
    want: BTreeMap<Entity, Vec<Vec<u8>>>,
    /// pushed to each link and not yet sent
    out: BTreeMap<Entity, Vec<Vec<u8>>>,
    /// frames in which an address had datagrams but no link
    orphan: BTreeMap<u64, u32>,
    linked: bool,
    reason: Option<String>,
    /// connections reported established and not reported ended
    up: BTreeSet<Entity>,
    /// frames since the last stop
    since: u32,
    once: bool,
}

struct Udp<'a> {
    c: &'a Case,
    net: Net,
    sk: Arc<Mutex<Sockets>>,
    nodes: Vec<Node>,
    held: VecDeque<(BytesMut, Vec<u8>, u64)>,
    uid: u64,
    /// the applications use raw connections
    raw: bool,
    /// server connections that the application ends
    leaving: BTreeMap<Entity, u64>,
}

/// forgets the reports about other entities
fn w_seen(app: &mut App, mine: Entity) {
    app.world_mut().resource_mut::<Seen>().0.retain(|x| x.0 == mine);
}

fn reason_of(w: &World, e: Entity) -> Option<String> {
    w.get::<Unlinked>(e).map(|u| u.reason.to_string())
}

impl Udp<'_> {
    fn children(&mut self) -> Vec<(Entity, u64, bool)> {
        let se = self.nodes[0].ent;
        let w = self.nodes[0].app.world_mut();
        let mut q = w.query::<(Entity, &LinkOf, &PeerAddr, &Link, Has<Linked>)>();
        let mut v: Vec<_> = q.iter(w).filter(|x| x.1.server == se).map(|x| (x.0, unsock(x.2.0), x.4)).collect();
        v.sort();
        v
    }
    /// Connection states, ids and lookups against the links (raw connections).
    fn raw_check(&mut self, i: usize, frame: bool, rec: &mut Rec) {
        if !self.raw {
            return;
        }
        const Q: &str = "C13";
        let kids = if i == 0 { self.children() } else { vec![] };
        let n = &mut self.nodes[i];
        let e = n.ent;
        for (x, up, why) in core::mem::take(&mut n.app.world_mut().resource_mut::<Seen>().0) {
            rec.log(&[3, i as u64, x.to_bits(), up as u64, hash_bytes(why.as_bytes())]);
            if up && !n.up.insert(x) {
                rec.viol(Q, "connected-twice", format!("node {i}: connection {x} is reported established twice"));
            }
            if !up && !n.up.remove(&x) && n.once {
                rec.viol(Q, "disconnected-twice", format!("node {i}: connection {x} is reported ended ({why}) though it is not established"));
            }
            if !up && i > 0 && n.once && !why.contains("User requested") && !why.contains("reason-") {
                rec.viol(Q, "disconnect-reason", format!("node {i}: connection {x} ended by its application, reported reason {why:?}"));
            }
            if !up && i == 0 && !why.contains("User requested") && !why.contains("reason-") && !why.contains("topped") {
                rec.viol(Q, "disconnect-reason", format!("node {i}: connection {x} ended by its application, reported reason {why:?}"));
            }
        }
        n.since += frame as u32;
        let w = n.app.world();
        let marks = |x: Entity| {
            let mut v = vec![];
            if w.get::<Connecting>(x).is_some() {
                v.push("Connecting");
            }
            if w.get::<Connected>(x).is_some() {
                v.push("Connected");
            }
            if w.get::<Disconnecting>(x).is_some() {
                v.push("Disconnecting");
            }
            if w.get::<Disconnected>(x).is_some() {
                v.push("Disconnected");
            }
            v
        };
        let mut want: BTreeMap<String, Entity> = BTreeMap::new();
        if i == 0 {
            let mut v = vec![];
            if w.get::<Starting>(e).is_some() {
                v.push("Starting");
            }
            if w.get::<Started>(e).is_some() {
                v.push("Started");
            }
            if w.get::<Stopping>(e).is_some() {
                v.push("Stopping");
            }
            if w.get::<Stopped>(e).is_some() {
                v.push("Stopped");
            }
            let ok: &[&str] = if n.linked {
                &["Started"]
            } else if !n.once {
                &[]
            } else if n.since < 2 && v == ["Stopping"] {
                &["Stopping"]
            } else {
                &["Stopped"]
            };
            if v != ok {
                rec.viol(Q, "server-state", format!("the server is {v:?}, expected {ok:?} ({} frames after the last start or stop)", n.since));
            }
            if n.linked {
                want.insert(format!("{:?}", PeerId::Server), e);
            }
            for (k, a, _) in &kids {
                if self.leaving.contains_key(k) {
                    continue;
                }
                let m = marks(*k);
                if m != ["Connected"] {
                    rec.viol(Q, "client-state", format!("the server's connection with address {a} is {m:?}"));
                }
                let ids = (w.get::<LocalId>(*k).map(|x| x.0), w.get::<RemoteId>(*k).map(|x| x.0));
                let pa = w.get::<PeerAddr>(*k).unwrap().0;
                if ids != (Some(PeerId::Server), Some(PeerId::Raw(pa))) {
                    rec.viol(Q, "peer-ids", format!("the server's connection with {pa} has ids {ids:?}"));
                }
                if w.get::<ClientOf>(*k).is_none() {
                    rec.viol(Q, "not-client-of", format!("the server's connection with {pa} is not marked as a client's"));
                }
                if !n.up.contains(k) {
                    rec.viol(Q, "connected-unreported", format!("the server's connection with {pa} was not reported established"));
                }
                want.insert(format!("{:?}", PeerId::Raw(pa)), *k);
            }
            let gone: Vec<Entity> = n.up.iter().filter(|x| w.get_entity(**x).is_err()).copied().collect();
            for x in gone {
                rec.viol(Q, "end-unreported", format!("connection {x} is gone and was not reported ended"));
                n.up.remove(&x);
            }
        } else {
            let m = marks(e);
            let ok = if n.linked { "Connected" } else { "Disconnected" };
            if m != [ok] {
                rec.viol(Q, "client-state", format!("node {i} is {m:?}, expected {ok}"));
            }
            if n.up.contains(&e) != n.linked {
                rec.viol(Q, "connected-unreported", format!("node {i}: the last report says established: {}, linked: {}", n.up.contains(&e), n.linked));
            }
            if n.linked {
                let ids = (w.get::<LocalId>(e).map(|x| x.0), w.get::<RemoteId>(e).map(|x| x.0));
                let la = w.get::<LocalAddr>(e).unwrap().0;
                if ids != (Some(PeerId::Raw(la)), Some(PeerId::Server)) {
                    rec.viol(Q, "peer-ids", format!("node {i} at {la} has ids {ids:?}"));
                }
                want.insert(format!("{:?}", PeerId::Server), e);
            }
        }
        let mut map: BTreeMap<String, Entity> = w.resource::<NetworkingMetadata>().peer_map.iter().map(|(k, v)| (format!("{k:?}"), *v)).collect();
        map.retain(|_, v| !self.leaving.contains_key(v));
        if map != want {
            rec.viol(Q, "peer-map", format!("node {i}: lookup {map:?}, expected {want:?}"));
        }
        rec.state(&[77, i as u64, n.linked as u64, n.once as u64, kids.len() as u64]);
    }

    fn trigger(&mut self, i: usize, start: bool, why: i64, rec: &mut Rec) {
        // half of the requests of an application with raw connections go to the connection
        let high = self.raw && hash(&[self.c.seed, 40, rec.now, i as u64, start as u64]) % 2 == 0;
        let n = &mut self.nodes[i];
        let e = n.ent;
        let w = n.app.world_mut();
        rec.stat(if start { "op.link_start" } else { "op.unlink" }, 1);
        rec.trace(|| format!("node {i}: {}", if start { "LinkStart" } else { "Unlink" }));
        match (start, high, i) {
            (true, true, 0) => w.trigger(Start { entity: e }),
            (true, true, _) => w.trigger(Connect { entity: e }),
            (true, false, _) => w.trigger(LinkStart { entity: e }),
            (false, true, 0) => w.trigger(Stop { entity: e }),
            (false, true, _) => w.trigger(Disconnect { entity: e }),
            (false, false, _) => w.trigger(Unlink { entity: e, reason: UnlinkReason::UserRequested(Some(reason_text(why))) }),
        }
        w.flush();
        let (linked, unlinked) = (w.get::<Linked>(e).is_some(), reason_of(w, e));
        n.since = 0;
        n.once |= start;
        if start {
            if !linked {
                rec.viol(P, "not-linked", format!("node {i}: LinkStart did not link the UDP endpoint"));
            }
            n.linked = true;
            n.reason = None;
        } else {
            if linked || unlinked.is_none() {
                rec.viol(P, "not-unlinked", format!("node {i}: Unlink left the UDP endpoint linked"));
            }
            n.linked = false;
            let want = match (high, i) {
                (true, 0) => UnlinkReason::ServerStopped,
                (true, _) => UnlinkReason::UserRequested(None),
                _ => UnlinkReason::UserRequested(Some(reason_text(why))),
            };
            let want = want.to_string();
            if unlinked.as_ref().is_some_and(|u| *u != want) {
                rec.viol(P, "reason", format!("node {i}: unlinked with reason {unlinked:?}, asked for {want:?}"));
            }
        }
        self.sk.lock().unwrap().log.clear();
        let mine: Vec<(u64, u64)> = self.sk.lock().unwrap().open.iter().filter(|x| node_of(*x.1) == i as i64).map(|x| (*x.0, *x.1)).collect();
        if mine.len() != start as usize {
            rec.viol(P, if start { "no-socket" } else { "socket-not-closed" }, format!("node {i} has {} open sockets", mine.len()));
        }
        self.nodes[i].sock = mine.last().map(|x| x.0);
        if start && i == 0 {
            let la = self.nodes[0].app.world().get::<LocalAddr>(e).map(|a| unsock(a.0));
            if la != mine.last().map(|x| x.1) {
                rec.viol(P, "local-addr", format!("the server is bound to {:?} but reports {la:?}", mine.last()));
            }
        }
        if !start && i == 0 {
            self.nodes[0].want.clear();
            self.nodes[0].out.clear();
            self.nodes[0].orphan.clear();
            self.leaving.clear();
            let left = self.children();
            if !left.is_empty() {
                rec.viol(P, "children-left", format!("{} links remain after the server was unlinked", left.len()));
            }
        }
        self.raw_check(i, false, rec);
    }

    fn frame(&mut self, i: usize, rec: &mut Rec) {
        let now = self.nodes[i].next;
        self.nodes[i].last = now;
        clock(now);
        rec.steps += 1;
        rec.now = now;
        let err = self.c.faults.iter().find(|f| f.kind == "sockerr" && f.src == i as i64 && now >= f.t0 && now < f.t1).map(|f| f.args.clone());
        let refused = self.c.faults.iter().find(|f| f.kind == "sendfail" && f.src == i as i64 && now >= f.t0 && now < f.t1).map(|f| f.args[0]).unwrap_or(0);
        {
            let mut s = self.sk.lock().unwrap();
            s.fail_permille = refused as u64;
            for p in self.net.take(i as i64, now) {
                let Some(id) = s.open.iter().find(|x| *x.1 == p.dst).map(|x| *x.0) else { continue };
                let q = s.inq.get_mut(&id).unwrap();
                if let Some(a) = &err
                    && hash(&[self.c.seed, 5, p.id, now]) % 1000 < a[0] as u64
                {
                    let k = match a[1] {
                        0 => ErrorKind::ConnectionReset,
                        1 => ErrorKind::Other,
                        _ => ErrorKind::Interrupted,
                    };
                    rec.stat(if a[1] == 0 { "fault.connection_reset" } else { "fault.receive_error" }, 1);
                    q.push_back(In::Err(k));
                }
                q.push_back(In::Dg(p.src, p.bytes));
            }
        }
        let before: BTreeMap<u64, Vec<Entity>> = if i == 0 {
            let mut m: BTreeMap<u64, Vec<Entity>> = BTreeMap::new();
            for (e, a, _) in self.children() {
                m.entry(a).or_default().push(e);
            }
            m
        } else {
            BTreeMap::new()
        };
        self.nodes[i].app.update();
        let log = core::mem::take(&mut self.sk.lock().unwrap().log);
        let mut took: BTreeMap<u64, Vec<Vec<u8>>> = BTreeMap::new();
        let mut all: Vec<Vec<u8>> = vec![];
        let mut sent: BTreeMap<u64, Vec<Vec<u8>>> = BTreeMap::new();
        let mut errors = 0;
        for ev in log {
            match ev {
                Ev::Took { sock: s, from, bytes } => {
                    if Some(s) != self.nodes[i].sock {
                        rec.viol(P, "foreign-socket", format!("node {i} read socket {s}, which is not its own"));
                    }
                    rec.log(&[1, i as u64, from, bytes.len() as u64, hash_bytes(&bytes)]);
                    rec.stat("net.datagrams_read", 1);
                    took.entry(from).or_default().push(bytes.clone());
                    all.push(bytes);
                }
                Ev::Sent { sock: s, to, bytes, ok } => {
                    if Some(s) != self.nodes[i].sock {
                        rec.viol(P, "foreign-socket", format!("node {i} wrote socket {s}, which is not its own"));
                    }
                    rec.log(&[2, i as u64, to, bytes.len() as u64, hash_bytes(&bytes), ok as u64]);
                    let src = self.sk.lock().unwrap().open.get(&s).copied().unwrap_or(0);
                    sent.entry(to).or_default().push(bytes.clone());
                    if ok {
                        self.net.send(now, src, to, bytes, rec);
                    } else {
                        rec.stat("fault.send_error", 1);
                    }
                }
                Ev::Error(goes_on) => errors += !goes_on as u32,
                Ev::Truncated { len, room } => rec.viol(P, "truncated", format!("node {i}: a datagram of {len} bytes was read into {room} bytes")),
                Ev::Closed(s) => rec.viol(P, "socket-lost", format!("node {i}: socket {s} was closed during a frame")),
            }
        }
        let n = &self.nodes[i];
        if n.linked && errors == 0 {
            let left = n.sock.and_then(|s| self.sk.lock().unwrap().inq.get(&s).map(|q| q.len())).unwrap_or(0);
            if left > 0 {
                rec.viol(P, "not-read", format!("node {i} left {left} datagrams in its socket"));
            }
        }
        if !n.linked && !all.is_empty() {
            rec.viol(P, "read-unlinked", format!("node {i} reads though it is unlinked"));
        }
        let linked_now = n.app.world().get::<Linked>(n.ent).is_some();
        if linked_now != n.linked {
            rec.viol(P, "link-state", format!("node {i} is linked: {linked_now}, without an operation"));
        }
        // receiving
        let slow = self.c.faults.iter().any(|f| f.kind == "slow" && f.src == i as i64 && now >= f.t0 && now < f.t1);
        let mut links: Vec<(Entity, u64)> = vec![];
        if i == 0 {
            let after = self.children();
            let mut by: BTreeMap<u64, Vec<Entity>> = BTreeMap::new();
            for (e, a, l) in &after {
                by.entry(*a).or_default().push(*e);
                links.push((*e, *a));
                if !*l {
                    rec.viol(P, "child-not-linked", format!("the link of address {a} is not Linked"));
                }
                if !took.contains_key(a) && !before.contains_key(a) {
                    rec.viol(P, "link-from-nowhere", format!("a link for address {a} appeared though nothing came from it"));
                }
            }
            for (a, v) in &by {
                if v.len() > 1 {
                    rec.viol(P, "two-links", format!("address {a} has {} links", v.len()));
                }
            }
            for (a, v) in &before {
                let left = v.iter().any(|e| self.leaving.contains_key(e));
                if left && by.contains_key(a) {
                    rec.viol("C13", "not-removed", format!("the connection with address {a} is still there a frame after it was ended"));
                }
                if !by.contains_key(a) && !left {
                    rec.viol(P, "link-gone", format!("the link of address {a} disappeared"));
                }
            }
            for (a, t) in &took {
                match (before.get(a).and_then(|v| v.first()), by.get(a).and_then(|v| v.first())) {
                    (Some(e), _) if self.leaving.contains_key(e) => {
                        self.nodes[0].orphan.remove(a);
                    }
                    (Some(e), _) => {
                        self.nodes[0].orphan.remove(a);
                        self.nodes[0].want.entry(*e).or_default().extend(t.iter().cloned());
                    }
                    (None, Some(e)) => {
                        self.nodes[0].orphan.remove(a);
                        rec.stat("probe.server_links", 1);
                        // the packets that come while the link is being made may be dropped
                        let got: Vec<Vec<u8>> = self.nodes[0].app.world_mut().get_mut::<Link>(*e).unwrap().recv.drain().map(|b| b.to_vec()).collect();
                        let mut it = t.iter();
                        if !got.iter().all(|g| it.any(|x| x == g)) {
                            rec.viol(P, "altered-first", format!("the new link of address {a} holds {} packets that are not what the address sent", got.len()));
                        }
                        if t.len() > 1 {
                            rec.stat("probe.first_frame_burst", 1);
                        }
                    }
                    (None, None) => {
                        let k = self.nodes[0].orphan.entry(*a).or_insert(0);
                        *k += 1;
                        if *k >= 2 && errors == 0 {
                            rec.viol(P, "no-link", format!("address {a} has no link after {k} frames with datagrams"));
                        }
                    }
                }
            }
        } else {
            let e = self.nodes[i].ent;
            self.nodes[i].want.entry(e).or_default().extend(all.iter().cloned());
            let pa = self.nodes[i].app.world().get::<PeerAddr>(e).map(|a| unsock(a.0)).unwrap_or(0);
            links.push((e, pa));
        }
        for (e, a) in &links {
            if slow {
                rec.stat("fault.slow_reader", 1);
                break;
            }
            let pop = self.c.get("pop") != 0;
            let n = &mut self.nodes[i];
            let Some(mut l) = n.app.world_mut().get_mut::<Link>(*e) else { continue };
            let mut got: Vec<BytesMut> = vec![];
            if pop {
                while let Some(b) = l.recv.pop() {
                    got.push(b);
                }
            } else {
                got.extend(l.recv.drain());
            }
            let want = n.want.remove(e).unwrap_or_default();
            let bytes: Vec<Vec<u8>> = got.iter().map(|b| b.to_vec()).collect();
            same(rec, &format!("received: node {i}, link with address {a}"), &bytes, &want);
            rec.state(&[i as u64, bytes.len() as u64]);
            for b in got {
                if hash(&[self.c.seed, 8, now, self.held.len() as u64]) % 1000 < self.c.get("hold") as u64 {
                    let v = b.to_vec();
                    let until = now + hash(&[self.c.seed, 9, now]) % 300_000;
                    self.held.push_back((b, v, until));
                }
            }
        }
        // payloads that somebody still holds
        let mut k = 0;
        while k < self.held.len() {
            if self.held[k].0[..] != self.held[k].1[..] {
                rec.viol(P, "held-altered", format!("a received payload of {} bytes changed while it was held", self.held[k].1.len()));
                self.held.remove(k);
            } else if self.held[k].2 < now {
                rec.stat("probe.held_payload", 1);
                self.held.remove(k);
            } else {
                k += 1;
            }
        }
        // sending
        let linked = self.nodes[i].linked;
        for (e, a) in &links {
            let s = sent.remove(a).unwrap_or_default();
            if linked {
                let want = self.nodes[i].out.remove(e).unwrap_or_default();
                same(rec, &format!("sent: node {i}, link with address {a}"), &s, &want);
                rec.stat("net.datagrams_sent", s.len() as u64);
            } else if !s.is_empty() {
                rec.viol(P, "sent-unlinked", format!("node {i} sends though it is unlinked"));
            }
        }
        if i == 0 {
            for (e, a) in core::mem::take(&mut self.leaving) {
                let want = self.nodes[0].out.remove(&e).unwrap_or_default();
                let s = sent.remove(&a).unwrap_or_default();
                if linked {
                    same(rec, &format!("sent: last packets of the link with address {a}"), &s, &want);
                }
                self.nodes[0].want.remove(&e);
            }
        }
        if let Some((a, s)) = sent.into_iter().next() {
            rec.viol(P, "sent-elsewhere", format!("node {i} sent {} packets to {a}, which no link addresses", s.len()));
        }
        let st = self.nodes[i].app.world().get::<Link>(self.nodes[i].ent).map(|l| l.state);
        if i > 0 && st != Some(if linked { LinkState::Linked } else { LinkState::Unlinked }) {
            rec.viol(P, "link-state", format!("node {i}: state {st:?}, linked {linked}"));
        }
        self.raw_check(i, true, rec);
    }

    fn op(&mut self, o: &crate::case::Op, rec: &mut Rec) {
        let i = o.node.max(0) as usize;
        let a = |k: usize| o.args.get(k).copied().unwrap_or(0);
        clock(o.t);
        match o.kind.as_str() {
            // packets from an address that is no client's
            "raw" => {
                for k in 0..a(1) {
                    self.uid += 1;
                    let b = payload(self.c.seed, self.uid, a(2) as u64);
                    let dst = self.nodes[0].sock.and_then(|s| self.sk.lock().unwrap().open.get(&s).copied()).unwrap_or(addr(0, 0));
                    self.net.send(o.t + (k * a(3)) as u64, addr(9, a(0) as u64), dst, b, rec);
                }
            }
            "push" if i < self.nodes.len() => {
                let to: Vec<Entity> = if i == 0 { self.children().iter().map(|x| x.0).collect() } else { vec![self.nodes[i].ent] };
                for k in 0..a(0) {
                    for e in &to {
                        if i == 0 && hash(&[self.c.seed, o.t, k as u64, e.to_bits()]) % 2 == 0 {
                            continue;
                        }
                        self.uid += 1;
                        let b = payload(self.c.seed, self.uid, (a(1) as u64 + 7 * k as u64).min(1472));
                        let n = &mut self.nodes[i];
                        n.app.world_mut().get_mut::<Link>(*e).unwrap().send(Bytes::from(b.clone()));
                        n.out.entry(*e).or_default().push(b);
                    }
                }
            }
            "unlink" if i < self.nodes.len() => {
                if self.nodes[i].linked {
                    self.trigger(i, false, a(0), rec);
                }
            }
            "start" if i < self.nodes.len() => {
                let again = self.nodes[i].linked;
                if again {
                    rec.stat("op.link_start_again", 1);
                }
                if i > 0 && !again {
                    // the server may have moved
                    let at = self.nodes[0].app.world().get::<LocalAddr>(self.nodes[0].ent).unwrap().0;
                    let e = self.nodes[i].ent;
                    self.nodes[i].app.world_mut().entity_mut(e).insert(PeerAddr(at));
                }
                self.trigger(i, true, 0, rec);
            }
            // a second client entity for the same server, which never connects, comes and goes
            "spare" if i > 0 && i < self.nodes.len() && self.raw => {
                rec.stat("op.spare_client", 1);
                let w = self.nodes[i].app.world_mut();
                let e = w.spawn((RawClient, RemoteId(PeerId::Server))).id();
                w.flush();
                if a(0) > 0 {
                    w.trigger(Disconnect { entity: e });
                    w.flush();
                }
                w.entity_mut(e).despawn();
                w.flush();
                let mine = self.nodes[i].ent;
                w_seen(&mut self.nodes[i].app, mine);
                self.raw_check(i, false, rec);
            }
            // the server drops one of its links
            "kick" => {
                let v = self.children();
                if !v.is_empty() {
                    let (e, from, _) = v[a(0) as usize % v.len()];
                    rec.stat("op.kick", 1);
                    if self.raw && hash(&[self.c.seed, 41, o.t]) % 2 == 0 {
                        rec.trace(|| format!("the server ends connection {e}"));
                        let n = &mut self.nodes[0];
                        n.app.world_mut().entity_mut(e).insert(Disconnecting);
                        n.app.world_mut().flush();
                        if hash(&[self.c.seed, 42, o.t]) % 3 == 0 {
                            // and removes it at once
                            let n = &mut self.nodes[0];
                            n.app.world_mut().entity_mut(e).despawn();
                            n.app.world_mut().flush();
                            n.up.remove(&e);
                            n.want.remove(&e);
                            n.out.remove(&e);
                            return;
                        }
                        self.leaving.insert(e, from);
                        return;
                    }
                    self.leaving.remove(&e);
                    self.nodes[0].up.remove(&e);
                    rec.trace(|| format!("the server despawns link {e}"));
                    let n = &mut self.nodes[0];
                    n.app.world_mut().entity_mut(e).despawn();
                    n.app.world_mut().flush();
                    n.want.remove(&e);
                    n.out.remove(&e);
                }
            }
            _ => {}
        }
    }
}

fn run_udp(c: &Case, rec: &mut Rec) {
    let sk = Arc::new(Mutex::new(Sockets { seed: c.seed, ..Default::default() }));
    lightyear_udp::sim_hooks::set_net(Some(Box::new(Wire(sk.clone()))));
    let mut nodes = vec![];
    let n = c.get("clients").clamp(1, 4);
    let raw = c.get("raw") != 0;
    for i in 0..=n {
        let mut app = App::new();
        let port0 = c.get(&format!("port0_{i}")) != 0;
        let mut a = sock(addr(i, 0));
        if port0 {
            a.set_port(0);
        }
        let ent = if i == 0 {
            app.add_plugins((ServerLinkPlugin, lightyear_udp::server::ServerUdpPlugin));
            app.world_mut().spawn((ServerUdpIo::default(), LocalAddr(a))).id()
        } else {
            app.add_plugins(lightyear_udp::UdpPlugin);
            app.world_mut().spawn((UdpIo::default(), LocalAddr(a), PeerAddr(sock(addr(0, 0))))).id()
        };
        if raw {
            app.init_resource::<Seen>();
            app.add_observer(|t: On<Add, Connected>, mut s: ResMut<Seen>| s.0.push((t.entity, true, String::new())));
            app.add_observer(|t: On<Add, Disconnected>, q: Query<&Disconnected>, mut s: ResMut<Seen>| {
                let why = q.get(t.entity).map(|d| d.reason.to_string()).unwrap_or_default();
                s.0.push((t.entity, false, why));
            });
            if i == 0 {
                app.add_plugins(lightyear_raw_connection::server::RawConnectionPlugin);
                app.world_mut().entity_mut(ent).insert(RawServer);
            } else {
                app.add_plugins(lightyear_raw_connection::client::RawConnectionPlugin);
                app.world_mut().entity_mut(ent).insert(RawClient);
            }
            app.world_mut().flush();
            app.world_mut().resource_mut::<Seen>().0.clear();
        }
        app.world_mut().flush();
        nodes.push(Node {
            app,
            ent,
            sock: None,
            last: 0,
            next: 1 + hash(&[c.seed, 1, i as u64]) % c.get("frame_us").max(500) as u64,
            want: BTreeMap::new(),
            out: BTreeMap::new(),
            orphan: BTreeMap::new(),
            linked: false,
            reason: None,
            up: BTreeSet::new(),
            since: 0,
            once: false,
        });
    }
    let mut u = Udp { c, net: Net::new(c), sk, nodes, held: VecDeque::new(), uid: 0, raw, leaving: BTreeMap::new() };
    let t_end = c.last_t() + 600_000;
    let mut oi = 0;
    loop {
        let i = (0..u.nodes.len()).min_by_key(|i| u.nodes[*i].next).unwrap();
        let t = u.nodes[i].next;
        while oi < c.ops.len() && c.ops[oi].t <= t {
            rec.now = c.ops[oi].t;
            u.op(&c.ops[oi], rec);
            oi += 1;
        }
        u.frame(i, rec);
        if rec.stop() || t > t_end {
            break;
        }
        let f = c.get("frame_us").max(500) as u64;
        let mut next = t + f / 2 + hash(&[c.seed, 2, i as u64, t]) % f;
        if let Some(s) = c.faults.iter().find(|s| s.kind == "stall" && s.src == i as i64 && next >= s.t0 && next < s.t1) {
            rec.stat("fault.stall", 1);
            next = s.t1 + 1;
        }
        u.nodes[i].next = next;
    }
    rec.sim_us += t_end;
    if rec.stats.get("net.datagrams_read").copied().unwrap_or(0) > 0 {
        rec.stat("nontrivial", 1);
    }
    drop(u);
    lightyear_udp::sim_hooks::set_net(None);
}

// ------------------------------------------------------------------ crossbeam

#[derive(Default)]
struct Side {
    ent: Option<Entity>,
    /// pushed to the link, in order
    pushed: Vec<Vec<u8>>,
    /// how many of them a frame of the linked side has passed on
    flushed: usize,
    /// received from the link so far
    got: usize,
    linked: bool,
    gone_at: u64,
}

fn run_crossbeam(c: &Case, rec: &mut Rec) {
    use lightyear_crossbeam::{CrossbeamIo, CrossbeamPlugin};
    let mut apps: Vec<App> = vec![];
    for _ in 0..2 {
        let mut a = App::new();
        a.add_plugins(CrossbeamPlugin);
        apps.push(a);
    }
    let n = c.get("clients").clamp(1, 4) as usize;
    let mut sides: Vec<[Side; 2]> = vec![];
    for k in 0..n {
        let cap = c.get(&format!("cap{k}"));
        let ios = if cap > 0 {
            let (s1, r1) = crossbeam_channel::bounded(cap as usize);
            let (s2, r2) = crossbeam_channel::bounded(cap as usize);
            [CrossbeamIo::new(s1, r2), CrossbeamIo::new(s2, r1)]
        } else {
            let (a, b) = CrossbeamIo::new_pair();
            [a, b]
        };
        let mut s = [Side::default(), Side::default()];
        for (j, io) in ios.into_iter().enumerate() {
            s[j].ent = Some(apps[j].world_mut().spawn(io).id());
        }
        sides.push(s);
    }
    let f = c.get("frame_us").max(500) as u64;
    let mut next = [1 + hash(&[c.seed, 1]) % f, 1 + hash(&[c.seed, 2]) % f];
    let last = c.last_t();
    let mut t_end = last + 60 * f;
    let mut oi = 0;
    let mut uid = 0u64;
    let mut woken = false;
    loop {
        let j = if next[0] <= next[1] { 0 } else { 1 };
        let now = next[j];
        if now > last + 10 * f && !woken {
            // faults and operations are over: every link that still has its peer comes up
            woken = true;
            for s in sides.iter_mut() {
                for x in 0..2 {
                    if let Some(e) = s[x].ent {
                        apps[x].world_mut().trigger(LinkStart { entity: e });
                        apps[x].world_mut().flush();
                        s[x].linked = true;
                    }
                }
            }
            // a full channel passes at least one packet at each round of frames
            let pending = sides.iter().flatten().map(|x| x.pushed.len() as u64).max().unwrap_or(0);
            t_end += 4 * f * pending;
        }
        clock(now);
        rec.now = now;
        rec.steps += 1;
        while oi < c.ops.len() && c.ops[oi].t <= now {
            let o = &c.ops[oi];
            oi += 1;
            let a = |k: usize| o.args.get(k).copied().unwrap_or(0);
            let (x, k) = ((o.node & 1) as usize, (a(0) as usize) % n);
            let s = &mut sides[k][x];
            let Some(e) = s.ent else { continue };
            let w = apps[x].world_mut();
            match o.kind.as_str() {
                "push" => {
                    for i in 0..a(1) {
                        uid += 1;
                        let b = payload(c.seed, uid, (a(2) as u64 + 7 * i as u64).min(1472));
                        w.get_mut::<Link>(e).unwrap().send(Bytes::from(b.clone()));
                        s.pushed.push(b);
                    }
                }
                "start" => {
                    rec.stat("op.link_start", 1);
                    w.trigger(LinkStart { entity: e });
                    w.flush();
                    s.linked = true;
                    if w.get::<Linked>(e).is_none() {
                        rec.viol(P, "not-linked", format!("crossbeam link {k}.{x}: LinkStart did not link it"));
                    }
                }
                "unlink" => {
                    rec.stat("op.unlink", 1);
                    let r = UnlinkReason::UserRequested(Some(reason_text(a(1))));
                    w.trigger(Unlink { entity: e, reason: r.clone() });
                    w.flush();
                    s.linked = false;
                    if w.get::<Linked>(e).is_some() || reason_of(w, e) != Some(r.to_string()) {
                        rec.viol(P, "not-unlinked", format!("crossbeam link {k}.{x}: Unlink with {r:?} gave {:?}", reason_of(w, e)));
                    }
                }
                "kick" => {
                    rec.stat("op.peer_dropped", 1);
                    w.entity_mut(e).despawn();
                    s.ent = None;
                    s.gone_at = now;
                }
                _ => {}
            }
        }
        let alive: Vec<bool> = sides.iter().map(|s| s[1 - j].ent.is_some()).collect();
        let was: Vec<bool> = sides.iter().map(|s| s[j].linked).collect();
        apps[j].update();
        for k in 0..n {
            let Some(e) = sides[k][j].ent else { continue };
            let w = apps[j].world_mut();
            let linked = w.get::<Linked>(e).is_some();
            let r = reason_of(w, e);
            let mut l = w.get_mut::<Link>(e).unwrap();
            let slow = c.faults.iter().any(|f| f.kind == "slow" && f.src == j as i64 && now >= f.t0 && now < f.t1);
            let got: Vec<Vec<u8>> = if slow && !woken { vec![] } else { l.recv.drain().map(|b| b.to_vec()).collect() };
            let unsent = l.send.len();
            let at = sides[k][j].got;
            let from = &sides[k][1 - j].pushed;
            let want: Vec<Vec<u8>> = from[at.min(from.len())..(at + got.len()).min(from.len())].to_vec();
            same(rec, &format!("crossbeam: link {k}.{j} after {at} packets"), &got, &want);
            rec.log(&[3, k as u64, j as u64, got.len() as u64, linked as u64]);
            rec.stat("net.datagrams_read", got.len() as u64);
            rec.state(&[k as u64, j as u64, got.len() as u64, linked as u64, alive[k] as u64]);
            sides[k][j].got += got.len();
            let cap = c.get(&format!("cap{k}"));
            if alive[k] {
                if linked != was[k] {
                    rec.viol(P, "link-state", format!("crossbeam link {k}.{j} is linked: {linked}, without an operation ({r:?})"));
                    sides[k][j].linked = linked;
                }
                if was[k] && cap == 0 {
                    if unsent > 0 {
                        rec.viol(P, "not-sent", format!("crossbeam link {k}.{j} kept {unsent} packets"));
                    }
                    sides[k][j].flushed = sides[k][j].pushed.len();
                }
                if was[k] && cap == 0 && !slow {
                    let miss = sides[k][1 - j].flushed - sides[k][j].got.min(sides[k][1 - j].flushed);
                    if miss > 0 {
                        rec.viol(P, "lost-crossbeam", format!("crossbeam link {k}.{j}: {miss} packets were sent and not received"));
                    }
                }
            } else if was[k] {
                rec.stat("probe.peer_gone", 1);
                if linked || !r.as_ref().is_some_and(|r| r.starts_with("Transport error")) {
                    rec.viol(P, "peer-gone", format!("crossbeam link {k}.{j}: its peer is gone but it is linked {linked}, reason {r:?}"));
                }
                let miss = sides[k][1 - j].flushed - sides[k][j].got.min(sides[k][1 - j].flushed);
                if cap == 0 && !slow && miss > 0 {
                    rec.viol(P, "lost-crossbeam", format!("crossbeam link {k}.{j}: {miss} packets of the peer that is gone were not received"));
                }
                sides[k][j].linked = false;
            }
        }
        if rec.stop() || now > t_end {
            break;
        }
        next[j] = now + f / 2 + hash(&[c.seed, 3, j as u64, now]) % f;
        if let Some(s) = c.faults.iter().find(|s| s.kind == "stall" && s.src == j as i64 && next[j] >= s.t0 && next[j] < s.t1) {
            rec.stat("fault.stall", 1);
            next[j] = s.t1 + 1;
        }
    }
    for (k, s) in sides.iter().enumerate() {
        if s[0].ent.is_some() && s[1].ent.is_some() && !rec.stop() {
            for j in 0..2 {
                let sent = s[1 - j].pushed.len();
                if s[j].got < sent {
                    rec.viol(P, "lost-crossbeam", format!("crossbeam link {k}.{j} received {} of {sent} packets by the end", s[j].got));
                }
            }
        }
    }
    rec.sim_us += t_end;
    if uid > 0 {
        rec.stat("nontrivial", 1);
    }
}

// ------------------------------------------------------------------ aeronet

/// What the session layer has for the sessions at this frame, and what it saw leave.
#[derive(Resource, Default)]
struct Layer {
    inbox: Vec<(Entity, Vec<u8>)>,
    out: Vec<(Entity, Vec<u8>)>,
    disconnects: Vec<(Entity, String)>,
    closes: Vec<(Entity, String)>,
}

fn poll(mut layer: ResMut<Layer>, mut q: Query<&mut aeronet_io::Session>) {
    for (e, b) in layer.inbox.drain(..) {
        if let Ok(mut s) = q.get_mut(e) {
            s.recv.push(aeronet_io::packet::RecvPacket { recv_at: bevy_platform::time::Instant::now(), payload: Bytes::from(b) });
        }
    }
}
fn flush(mut layer: ResMut<Layer>, mut q: Query<(Entity, &mut aeronet_io::Session)>) {
    let mut v: Vec<(Entity, Vec<u8>)> = vec![];
    for (e, mut s) in q.iter_mut() {
        v.extend(s.send.drain(..).map(|b| (e, b.to_vec())));
    }
    layer.out.extend(v);
}
fn on_disconnect(t: On<aeronet_io::connection::Disconnect>, mut layer: ResMut<Layer>) {
    layer.disconnects.push((t.entity, t.reason.clone()));
}
fn on_close(t: On<aeronet_io::server::Close>, mut layer: ResMut<Layer>) {
    layer.closes.push((t.entity, t.reason.clone()));
}
/// As the WebSocket and WebTransport servers do when a session is accepted.
fn on_connection(
    t: On<Add, aeronet_io::Session>,
    servers: Query<&lightyear_aeronet::AeronetLinkOf>,
    children: Query<(&ChildOf, &PeerAddr)>,
    mut commands: Commands,
) {
    if let Ok((of, peer)) = children.get(t.entity)
        && let Ok(server) = servers.get(of.parent())
    {
        let link = commands.spawn((LinkOf { server: server.0 }, Link::default(), PeerAddr(peer.0))).id();
        commands.entity(t.entity).insert(lightyear_aeronet::AeronetLinkOf(link));
    }
}

/// One connection of the session layer.
struct Conn {
    /// session entities at the client and at the server
    cs: Entity,
    ss: Option<Entity>,
    up_at: u64,
    /// packets on their way: (time, bytes), to the client and to the server
    way: [VecDeque<(u64, Vec<u8>)>; 2],
    /// close notices on their way
    bye: [Option<(u64, String)>; 2],
    open: [bool; 2],
}

fn run_aeronet(c: &Case, rec: &mut Rec) {
    use aeronet_io::connection::{DisconnectReason, Disconnected};
    use aeronet_io::{IoSystems, Session, SessionEndpoint};
    use lightyear_aeronet::{AeronetLink, AeronetLinkOf, AeronetPlugin, server::ServerAeronetPlugin};
    let n = c.get("clients").clamp(1, 4) as usize;
    let mut apps: Vec<App> = vec![];
    let mut ents: Vec<Entity> = vec![];
    for i in 0..=n {
        let mut a = App::new();
        a.add_plugins((aeronet_io::AeronetIoPlugin, AeronetPlugin));
        a.init_resource::<Layer>();
        a.add_systems(PreUpdate, poll.in_set(IoSystems::Poll));
        a.add_systems(PostUpdate, flush.in_set(IoSystems::Flush));
        a.add_observer(on_disconnect);
        a.add_observer(on_close);
        if i == 0 {
            a.add_plugins(ServerAeronetPlugin);
            a.add_observer(on_connection);
            ents.push(a.world_mut().spawn((Server::default(), LocalAddr(sock(addr(0, 0))))).id());
        } else {
            ents.push(a.world_mut().spawn(Link::default()).id());
        }
        a.world_mut().flush();
        apps.push(a);
    }
    let f = c.get("frame_us").max(500) as u64;
    let d = c.get("net_delay_us").max(1) as u64;
    let mut next: Vec<u64> = (0..=n).map(|i| 1 + hash(&[c.seed, 1, i as u64]) % f).collect();
    let mut conns: Vec<Option<Conn>> = (0..=n).map(|_| None).collect();
    let mut endpoint: Option<(Entity, u64, bool)> = None;
    let mut want: BTreeMap<(usize, Entity), Vec<Vec<u8>>> = BTreeMap::new();
    let mut out: BTreeMap<(usize, Entity), Vec<Vec<u8>>> = BTreeMap::new();
    let mut uid = 0u64;
    let t_end = c.last_t() + 500_000;
    let mut oi = 0;
    // the session layer learns that an end was asked to go
    loop {
        let i = (0..=n).min_by_key(|i| next[*i]).unwrap();
        let now = next[i];
        clock(now);
        rec.now = now;
        rec.steps += 1;
        while oi < c.ops.len() && c.ops[oi].t <= now {
            let o = &c.ops[oi];
            oi += 1;
            let a = |k: usize| o.args.get(k).copied().unwrap_or(0);
            let x = (o.node.max(0) as usize).min(n);
            match o.kind.as_str() {
                "start" if x == 0 => {
                    if endpoint.is_none() {
                        rec.stat("op.server_start", 1);
                        let e = apps[0].world_mut().spawn((AeronetLinkOf(ents[0]), aeronet_io::server::ServerEndpoint)).id();
                        apps[0].world_mut().flush();
                        if apps[0].world().get::<Linking>(ents[0]).is_none() {
                            rec.viol(P, "not-linking", "a server whose endpoint is opening is not Linking");
                        }
                        endpoint = Some((e, o.t + a(0) as u64, false));
                    }
                }
                "start" => {
                    let up = endpoint.is_some_and(|e| e.2);
                    if conns[x].is_none() && up {
                        rec.stat("op.connect", 1);
                        let w = apps[x].world_mut();
                        let cs = w.spawn((AeronetLinkOf(ents[x]), SessionEndpoint, PeerAddr(sock(addr(0, 0))))).id();
                        w.flush();
                        if w.get::<Linking>(ents[x]).is_none() || w.get::<PeerAddr>(ents[x]).map(|p| p.0) != Some(sock(addr(0, 0))) {
                            rec.viol(P, "not-linking", format!("client {x}: its session is connecting but the link is not Linking with the peer's address"));
                        }
                        conns[x] = Some(Conn { cs, ss: None, up_at: o.t + d, way: Default::default(), bye: [None, None], open: [true, false] });
                    }
                }
                "push" => {
                    let links: Vec<Entity> = if x == 0 {
                        let w = apps[0].world_mut();
                        let mut q = w.query_filtered::<Entity, (With<LinkOf>, With<Link>)>();
                        let mut v: Vec<Entity> = q.iter(w).collect();
                        v.sort();
                        v
                    } else {
                        vec![ents[x]]
                    };
                    for k in 0..a(0) {
                        for e in &links {
                            let w = apps[x].world_mut();
                            if w.get::<Linked>(*e).is_none() {
                                continue;
                            }
                            uid += 1;
                            let b = payload(c.seed, uid, (a(1) as u64 + 7 * k as u64).min(1200));
                            w.get_mut::<Link>(*e).unwrap().send(Bytes::from(b.clone()));
                            out.entry((x, *e)).or_default().push(b);
                        }
                    }
                }
                "unlink" => {
                    let e = ents[x];
                    let w = apps[x].world_mut();
                    let has = w.get::<AeronetLink>(e).is_some();
                    if !has {
                        continue;
                    }
                    rec.stat(if x == 0 { "op.server_stop" } else { "op.unlink" }, 1);
                    let kids: Vec<(Entity, Entity)> = if x == 0 {
                        let mut q = w.query::<(Entity, &AeronetLinkOf, &ChildOf)>();
                        q.iter(w).map(|(s, l, _)| (s, l.0)).collect()
                    } else {
                        vec![]
                    };
                    let reason = match a(1) {
                        0 => UnlinkReason::UserRequested(Some(reason_text(a(0)))),
                        1 => UnlinkReason::ServerStopped,
                        2 => UnlinkReason::TransportError(reason_text(a(0))),
                        _ => UnlinkReason::UserRequested(None),
                    };
                    w.trigger(Unlink { entity: e, reason: reason.clone() });
                    w.flush();
                    let text = reason.to_string();
                    let local = reason_of(w, e);
                    if w.get::<Linked>(e).is_some() || w.get::<Linking>(e).is_some() || local.is_none() {
                        rec.viol(P, "not-unlinked", format!("node {x}: Unlink left the link up"));
                    }
                    if local.as_ref().is_some_and(|l| !l.contains(&text)) {
                        rec.viol(P, "reason", format!("node {x}: unlinked with {reason:?}, but the link says {local:?}"));
                    }
                    let mut layer = w.resource_mut::<Layer>();
                    let (dis, clo) = (core::mem::take(&mut layer.disconnects), core::mem::take(&mut layer.closes));
                    // an endpoint that is not open yet is disconnected like a session
                    let told = if x == 0 && endpoint.is_none_or(|e| e.2) { &clo } else { &dis };
                    let sess = if x == 0 { endpoint.map(|e| e.0) } else { conns[x].as_ref().map(|k| k.cs) };
                    if told.len() != 1 || Some(told[0].0) != sess {
                        rec.viol(P, "session-not-closed", format!("node {x}: Unlink asked the session layer to close {told:?}, expected {sess:?}"));
                    } else if !told[0].1.contains(&text) {
                        rec.viol(P, "reason", format!("node {x}: unlinked with {reason:?}, the session is closed with {:?}", told[0].1));
                    }
                    if x == 0 {
                        endpoint = None;
                        for (s, l) in kids {
                            if !dis.iter().any(|t| t.0 == s) {
                                rec.viol(P, "session-not-closed", format!("the server stopped without closing session {s}"));
                            }
                            if w.get_entity(l).is_ok() {
                                rec.viol(P, "children-left", format!("link {l} remains after the server was unlinked"));
                            }
                        }
                        for k in conns.iter_mut().flatten() {
                            if k.open[1] {
                                k.open[1] = false;
                                let r = dis.iter().find(|t| Some(t.0) == k.ss).map(|t| t.1.clone()).unwrap_or_default();
                                k.bye[0] = Some((o.t + d, r));
                            } else if k.ss.is_none() {
                                // a session that was being accepted
                                k.bye[0] = Some((o.t + d, "refused".into()));
                            }
                        }
                    } else if let Some(k) = &mut conns[x] {
                        k.open[0] = false;
                        k.bye[1] = Some((o.t + d, dis.first().map(|t| t.1.clone()).unwrap_or_default()));
                    }
                }
                // the session layer loses the connection at one end
                "error" if x == 0 => {
                    let Some((e, _, true)) = endpoint else { continue };
                    rec.stat("fault.endpoint_error", 1);
                    let w = apps[0].world_mut();
                    let mut q = w.query::<(Entity, &AeronetLinkOf, &ChildOf)>();
                    let kids: Vec<(Entity, Entity)> = q.iter(w).map(|(s, l, _)| (s, l.0)).collect();
                    w.trigger(aeronet_io::server::Closed { entity: e, reason: aeronet_io::server::CloseReason::by_error(Error::from(ErrorKind::AddrNotAvailable)) });
                    w.flush();
                    endpoint = None;
                    let r = reason_of(w, ents[0]);
                    if w.get::<Linked>(ents[0]).is_some() || !r.as_ref().is_some_and(|r| r.starts_with("Transport error")) {
                        rec.viol(P, "session-error", format!("the server's endpoint failed, but the server says {r:?}"));
                    }
                    for (_, l) in kids {
                        if w.get_entity(l).is_ok() {
                            rec.viol(P, "children-left", format!("link {l} remains after the server's endpoint failed"));
                        }
                    }
                    w.resource_mut::<Layer>().disconnects.clear();
                    for k in conns.iter_mut().flatten() {
                        if k.open[1] || k.ss.is_none() {
                            k.open[1] = false;
                            k.bye[0] = Some((o.t + d, "endpoint failed".into()));
                        }
                    }
                }
                "error" => {
                    if let Some(k) = &mut conns[x]
                        && k.open[0]
                    {
                        rec.stat("fault.session_error", 1);
                        let w = apps[x].world_mut();
                        w.trigger(Disconnected { entity: k.cs, reason: DisconnectReason::by_error(Error::from(ErrorKind::ConnectionReset)) });
                        w.flush();
                        k.open[0] = false;
                        k.bye[1] = Some((o.t + d, "gone".into()));
                        let r = reason_of(w, ents[x]);
                        if w.get::<Linked>(ents[x]).is_some() || !r.as_ref().is_some_and(|r| r.starts_with("Transport error")) {
                            rec.viol(P, "session-error", format!("client {x}: its session failed, but the link says {r:?}"));
                        }
                    }
                }
                _ => {}
            }
        }
        // what the session layer does at this frame
        if i == 0 {
            if let Some((e, at, up)) = &mut endpoint
                && !*up
                && *at <= now
            {
                *up = true;
                let w = apps[0].world_mut();
                w.entity_mut(*e).insert(aeronet_io::server::Server::new(bevy_platform::time::Instant::now()));
                w.flush();
                if w.get::<Linked>(ents[0]).is_none() {
                    rec.viol(P, "not-linked", "a server whose endpoint is open is not Linked");
                }
            }
        }
        let mut drop_conn: Vec<usize> = vec![];
        for x in 1..=n {
            let Some(k) = &mut conns[x] else { continue };
            let end = if i == 0 { 1 } else { 0 };
            if i != 0 && i != x {
                continue;
            }
            if i == 0 && k.ss.is_none() && k.up_at <= now && k.bye[1].is_none() && endpoint.is_some_and(|e| e.2) && k.bye[0].is_none() {
                let ep = endpoint.unwrap().0;
                let w = apps[0].world_mut();
                let s = w.spawn((ChildOf(ep), SessionEndpoint, PeerAddr(sock(addr(x as i64, 0))), Session::new(bevy_platform::time::Instant::now(), 1024))).id();
                w.flush();
                k.ss = Some(s);
                k.open[1] = true;
                let l = w.get::<AeronetLinkOf>(s).map(|l| l.0);
                let ok = l.is_some_and(|l| w.get::<Linked>(l).is_some() && w.get::<PeerAddr>(l).map(|p| p.0) == Some(sock(addr(x as i64, 0))));
                if !ok {
                    rec.viol(P, "child-not-linked", format!("the session of client {x} was accepted, but its link is not Linked"));
                }
                rec.stat("probe.server_links", 1);
            }
            if i == x && k.ss.is_some() && k.up_at + d <= now && k.open[0] && apps[x].world().get::<Session>(k.cs).is_none() {
                let w = apps[x].world_mut();
                w.entity_mut(k.cs).insert(Session::new(bevy_platform::time::Instant::now(), 1024));
                w.flush();
                if w.get::<Linked>(ents[x]).is_none() || w.get::<Unlinked>(ents[x]).is_some() {
                    rec.viol(P, "not-linked", format!("client {x}: its session is up but the link is not Linked"));
                }
            }
            if k.bye[end].as_ref().is_some_and(|b| b.0 <= now) {
                let (_, text) = k.bye[end].clone().unwrap();
                k.bye[end] = None;
                if k.open[end] {
                    k.open[end] = false;
                    let s = if end == 0 { Some(k.cs) } else { k.ss };
                    if let Some(s) = s {
                        let w = apps[i].world_mut();
                        let link = w.get::<AeronetLinkOf>(s).map(|l| l.0);
                        rec.stat("probe.closed_by_peer", 1);
                        w.trigger(Disconnected { entity: s, reason: DisconnectReason::by_peer(text.clone()) });
                        w.flush();
                        let r = link.and_then(|l| reason_of(w, l));
                        let gone = link.is_some_and(|l| w.get_entity(l).is_err());
                        if !gone && !r.as_ref().is_some_and(|r| r.contains("peer") && r.contains(&text)) {
                            rec.viol(P, "reason", format!("node {i}: the peer closed the session with {text:?}, but the link says {r:?}"));
                        }
                        if let Some(l) = link {
                            want.remove(&(i, l));
                            out.remove(&(i, l));
                            if i == 0 && !gone {
                                // the connection layer removes links that are over
                                w.entity_mut(l).despawn();
                            }
                        }
                    }
                }
            }
            if !k.open[0] && !k.open[1] && k.bye.iter().all(|b| b.is_none()) {
                drop_conn.push(x);
            }
            // packets
            let s = if end == 0 { Some(k.cs) } else { k.ss };
            let sess = s.filter(|s| k.open[end] && apps[i].world().get::<Session>(*s).is_some());
            while k.way[end].front().is_some_and(|p| p.0 <= now) && sess.is_some() {
                let (_, b) = k.way[end].pop_front().unwrap();
                let w = apps[i].world_mut();
                let link = w.get::<AeronetLinkOf>(s.unwrap()).map(|l| l.0).unwrap();
                w.resource_mut::<Layer>().inbox.push((s.unwrap(), b.clone()));
                want.entry((i, link)).or_default().push(b);
            }
        }
        for x in drop_conn {
            conns[x] = None;
        }
        apps[i].update();
        // what left
        let left = core::mem::take(&mut apps[i].world_mut().resource_mut::<Layer>().out);
        let mut sent: BTreeMap<Entity, Vec<Vec<u8>>> = BTreeMap::new();
        for (s, b) in left {
            let link = apps[i].world().get::<AeronetLinkOf>(s).map(|l| l.0);
            rec.log(&[4, i as u64, b.len() as u64, hash_bytes(&b)]);
            let Some(l) = link else { continue };
            sent.entry(l).or_default().push(b.clone());
            let x = if i == 0 { (1..=n).find(|x| conns[*x].as_ref().is_some_and(|k| k.ss == Some(s))) } else { Some(i) };
            if let Some(k) = x.and_then(|x| conns[x].as_mut()) {
                let h = hash(&[c.seed, 6, uid, b.len() as u64, now]);
                let lossy = c.get("lossy") as u64;
                if h % 1000 < lossy {
                    rec.stat("fault.loss", 1);
                } else {
                    k.way[if i == 0 { 0 } else { 1 }].push_back((now + d, b));
                }
            }
        }
        let links: Vec<Entity> = if i == 0 {
            let w = apps[0].world_mut();
            let mut q = w.query_filtered::<Entity, (With<LinkOf>, With<Link>)>();
            q.iter(w).collect()
        } else {
            vec![ents[i]]
        };
        for e in links {
            let w = apps[i].world_mut();
            let up = w.get::<Linked>(e).is_some();
            let mut l = w.get_mut::<Link>(e).unwrap();
            let got: Vec<Vec<u8>> = l.recv.drain().map(|b| b.to_vec()).collect();
            let wnt = want.remove(&(i, e)).unwrap_or_default();
            if up {
                same(rec, &format!("aeronet-received: node {i}"), &got, &wnt);
                let o = out.remove(&(i, e)).unwrap_or_default();
                same(rec, &format!("aeronet-sent: node {i}"), &sent.remove(&e).unwrap_or_default(), &o);
                rec.stat("net.datagrams_read", got.len() as u64);
            } else {
                // an unlinked link keeps what it has not sent
                out.remove(&(i, e));
                l.send.drain();
            }
            rec.state(&[i as u64, up as u64, got.len() as u64]);
        }
        if i > 0 {
            // the state follows the session
            let w = apps[i].world();
            let up = w.get::<Linked>(ents[i]).is_some();
            let s = conns[i].as_ref().is_some_and(|k| k.open[0] && w.get::<Session>(k.cs).is_some());
            let marks = up as u8 + w.get::<Linking>(ents[i]).is_some() as u8 + w.get::<Unlinked>(ents[i]).is_some() as u8;
            if up != s || marks > 1 {
                rec.viol(P, "link-state", format!("client {i}: session up {s}, link up {up}, {marks} states"));
            }
            rec.log(&[5, i as u64, up as u64]);
        }
        if rec.stop() || now > t_end {
            break;
        }
        next[i] = now + f / 2 + hash(&[c.seed, 3, i as u64, now]) % f;
        if let Some(s) = c.faults.iter().find(|s| s.kind == "stall" && s.src == i as i64 && next[i] >= s.t0 && next[i] < s.t1) {
            rec.stat("fault.stall", 1);
            next[i] = s.t1 + 1;
        }
    }
    rec.sim_us += t_end;
    if rec.stats.get("net.datagrams_read").copied().unwrap_or(0) > 0 {
        rec.stat("nontrivial", 1);
    }
}

pub fn run(c: &Case, rec: &mut Rec) {
    clock(0);
    match c.get("mode") {
        1 => run_crossbeam(c, rec),
        2 => run_aeronet(c, rec),
        _ => run_udp(c, rec),
    }
}

pub fn generate(prop: &str, seed: u64, tier: Tier) -> Case {
    let mut r = Rng::new(seed);
    let mut c = Case::new(prop, "U", seed);
    let mode = if prop == "C13" { 0 } else { *r.pick(&[0, 0, 0, 1, 2]) };
    c.set("mode", mode);
    if mode == 0 && (prop == "C13" || r.chance(1, 4)) {
        c.set("raw", 1);
    }
    let n = r.range(1, 4);
    c.set("clients", n);
    c.set("frame_us", *r.pick(&[2000, 5000, 16_667, 33_333]));
    c.set("net_delay_us", *r.pick(&[100, 2000, 20_000]));
    c.set("net_jitter_us", *r.pick(&[0, 500, 20_000]));
    c.set("pop", r.range(0, 1));
    c.set("hold", *r.pick(&[0, 100, 500, 1000]));
    c.set("lossy", *r.pick(&[0, 0, 200]));
    for k in 0..=n {
        c.set(&format!("port0_{k}"), r.range(0, 1));
        c.set(&format!("cap{k}"), *r.pick(&[0, 0, 0, 1, 3]));
    }
    let span = if tier == Tier::Thorough { 4_000_000 } else { 1_500_000 };
    for i in 0..=n {
        let t = if i == 0 { 1 } else { r.range(1, 100_000) as u64 };
        c.op(t, i, "start", &[r.range(0, 20_000)]);
    }
    if mode == 1 {
        for i in 0..2 {
            for k in 0..n {
                c.op(r.range(1, 60_000) as u64, i, "start", &[k]);
            }
        }
    }
    let sizes = [0, 1, 8, 100, 600, 1200, 1400, 1471, 1472];
    for _ in 0..r.range(10, 80) {
        let t = r.range(20_000, span) as u64;
        let node = r.range(0, n);
        let size = *r.pick(&sizes);
        let cnt = *r.pick(&[1, 1, 2, 5, 20, 100]);
        if mode == 1 {
            c.op(t, r.range(0, 1), "push", &[r.range(0, n - 1), cnt, size]);
        } else if mode == 0 && r.chance(1, 4) {
            c.op(t, 0, "raw", &[r.range(0, 3), cnt, if r.chance(1, 8) { 3000 } else { size }, *r.pick(&[0, 0, 100, 5000])]);
        } else {
            c.op(t, node, "push", &[cnt, size]);
        }
    }
    for _ in 0..r.range(0, 8) {
        let t = r.range(50_000, span) as u64;
        let node = if mode == 1 { r.range(0, 1) } else { r.range(0, n) };
        let k = r.range(0, n - 1);
        match r.range(0, 5) {
            0 | 1 => {
                if mode == 1 {
                    c.op(t, node, "unlink", &[k, r.range(0, 9)]);
                } else {
                    c.op(t, node, "unlink", &[r.range(0, 9), r.range(0, 3)]);
                }
                c.op(t + *r.pick(&[0, 1, 3000, 30_000, 200_000]), node, "start", &[if mode == 1 { k } else { 5000 }]);
                if mode == 2 && node == 0 {
                    // clients come back
                    for i in 1..=n {
                        c.op(t + r.range(60_000, 400_000) as u64, i, "start", &[0]);
                    }
                }
            }
            2 => c.op(t, node, "start", &[k]),
            3 => c.op(t, node, "kick", &[k]),
            4 => {
                c.op(t, node, "error", &[k]);
                c.op(t + r.range(0, 100_000) as u64, node, "start", &[5000]);
                if node == 0 {
                    for i in 1..=n {
                        c.op(t + r.range(60_000, 400_000) as u64, i, "start", &[0]);
                    }
                }
            }
            _ => {
                // traffic on both sides of a change at one instant
                c.op(t, node, "push", &[if mode == 1 { k } else { 3 }, 40, 20]);
                c.op(t, node, "unlink", &[k, r.range(0, 3)]);
                c.op(t, node, "push", &[if mode == 1 { k } else { 3 }, 40, 20]);
                c.op(t + 50_000, node, "start", &[k]);
            }
        }
    }
    if c.get("raw") != 0 {
        for _ in 0..r.range(0, 3) {
            c.op(r.range(50_000, span) as u64, r.range(1, n), "spare", &[r.range(0, 1)]);
        }
    }
    for _ in 0..r.range(0, 4) {
        let t = r.range(0, span) as u64;
        let d = r.range(20_000, 500_000) as u64;
        let node = if mode == 1 { r.range(0, 1) } else { r.range(0, n) };
        match r.range(0, 7) {
            0 | 1 => c.fault(t, t + d, "sockerr", node, -1, &[*r.pick(&[20, 200, 600]), r.range(0, 2)]),
            2 => c.fault(t, t + d, "sendfail", node, -1, &[*r.pick(&[50, 500, 1000])]),
            3 => c.fault(t, t + d, "slow", node, -1, &[]),
            4 => c.fault(t, t + d, "stall", node, -1, &[]),
            5 => c.fault(t, t + d, "loss", -1, -1, &[*r.pick(&[100, 500])]),
            6 => c.fault(t, t + d, "dup", -1, -1, &[300, 5000]),
            _ => c.fault(t, t + d, "reorder", -1, -1, &[300, 50_000]),
        }
    }
    c.sort();
    c
}
