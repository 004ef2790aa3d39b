//! Family N: a server and several clients, each a real bevy App with the real link, connection and
//! netcode plugins, joined by the simulated network; plus an attacker who sees every packet and can
//! replay, alter, redirect and invent packets. Decides C09-C13 and the connection part of C22.
use crate::case::{Case, Op};
use crate::net::{Net, addr, node_of};
use crate::rec::Rec;
use crate::rng::{Rng, hash};
use crate::runner::Tier;
use aeronet_io::connection::{LocalAddr, PeerAddr};
use bevy_app::prelude::*;
use bevy_ecs::prelude::*;
use bevy_ecs::relationship::RelationshipTarget;
use bevy_time::TimeUpdateStrategy;
use bytes::Bytes;
use chacha20poly1305::{AeadInPlace, ChaCha20Poly1305, KeyInit, Nonce, Tag};
use core::net::SocketAddr;
use core::time::Duration;
use lightyear_connection::client::{Connecting, Disconnecting};
use lightyear_connection::prelude::client::{Client, Connect, Connected, Disconnect, Disconnected};
use lightyear_connection::prelude::server::{ClientOf, Start, Started, Starting, Stop, Stopped};
use lightyear_connection::prelude::*;
use lightyear_connection::server::Stopping;
use lightyear_connection::shared::{ConnectionRequestHandler, DeniedReason};
use lightyear_core::id::{LocalId, PeerId, RemoteId};
use lightyear_core::plugin::CorePlugins;
use lightyear_link::prelude::*;
use lightyear_link::LinkPlugin;
use lightyear_link::server::ServerLinkPlugin;
use lightyear_netcode::ConnectToken;
use lightyear_netcode::prelude::Authentication;
use lightyear_netcode::prelude::client::{NetcodeClient, NetcodeClientPlugin};
use lightyear_netcode::prelude::server::{NetcodeServer, NetcodeServerPlugin, TokenUserData};
use lightyear_transport::plugin::TransportSystems;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

const VERSION: &[u8; 13] = b"NETCODE 1.02\0";
pub const KEY: [u8; 32] = [0x5a; 32];
pub const PROTO: u64 = 0x1122_3344_5566_7788;
const WALL0: u64 = 1_700_000_000;
const ATT: i64 = 9;
const REQUEST: u8 = 0;
const CHALLENGE: u8 = 2;
const RESPONSE: u8 = 3;
const KEEP_ALIVE: u8 = 4;
const PAYLOAD: u8 = 5;
const DISCONNECT: u8 = 6;

pub fn server_sock() -> SocketAddr {
    SocketAddr::from(([10, 0, 0, 1], 5000))
}
/// the address the server under test has (and checks tokens for)
fn own_sock(c: &Case) -> SocketAddr {
    match c.get("laddr") {
        1 => SocketAddr::from(([127, 0, 0, 1], 5000)),
        2 => SocketAddr::from(([0, 0, 0, 0], 5000)),
        3 => SocketAddr::from(([0u16, 0, 0, 0, 0, 0, 0, 1], 5000)),
        4 => SocketAddr::from(([0u16; 8], 5000)),
        _ => server_sock(),
    }
}
/// a token that lists `listed` is meant for the server at `own`
fn meant(own: SocketAddr, listed: SocketAddr) -> bool {
    let (a, b) = (own.ip(), listed.ip());
    own.port() == listed.port()
        && a.is_ipv4() == b.is_ipv4()
        && (a == b || (a.is_unspecified() && b.is_loopback()) || (a.is_loopback() && b.is_unspecified()))
}
/// addresses a token may list: exactly the server's, or more or less like it
fn listed(own: SocketAddr) -> Vec<SocketAddr> {
    let mut v = vec![own, SocketAddr::from(([10, 9, 9, 9], 4444))];
    for ip in [[10, 0, 0, 1], [10, 0, 0, 2], [127, 0, 0, 1], [0, 0, 0, 0]] {
        v.push(SocketAddr::from((ip, 5000)));
        v.push(SocketAddr::from((ip, 5001)));
    }
    for ip in [[0u16, 0, 0, 0, 0, 0, 0, 1], [0; 8], [0, 0, 0, 0, 0, 0xffff, 0x0a00, 1]] {
        v.push(SocketAddr::from((ip, 5000)));
    }
    v
}
pub fn sock(a: u64) -> SocketAddr {
    SocketAddr::from(([10, 0, 1, node_of(a) as u8], 2000 + (a % 1000) as u16))
}

// ---------------------------------------------------------------------------------------------
// token and packet layout (the documented netcode format), used to read and to make packets

fn aad(prefix: u8) -> Vec<u8> {
    let mut v = VERSION.to_vec();
    v.extend_from_slice(&PROTO.to_be_bytes());
    v.push(prefix);
    v
}
fn nonce(seq: u64) -> Nonce {
    let mut n = [0u8; 12];
    n[4..].copy_from_slice(&seq.to_be_bytes());
    *Nonce::from_slice(&n)
}
/// decrypts a packet: (kind, sequence, body)
pub fn open(bytes: &[u8], key: &[u8; 32]) -> Option<(u8, u64, Vec<u8>)> {
    let prefix = *bytes.first()?;
    let (sl, kind) = ((prefix >> 4) as usize, prefix & 15);
    if sl == 0 || sl > 8 || bytes.len() < 1 + sl + 16 {
        return None;
    }
    let mut s = [0u8; 8];
    s[..sl].copy_from_slice(&bytes[1..1 + sl]);
    let seq = u64::from_le_bytes(s);
    let mut body = bytes[1 + sl..bytes.len() - 16].to_vec();
    let tag = Tag::clone_from_slice(&bytes[bytes.len() - 16..]);
    ChaCha20Poly1305::new(key.into()).decrypt_in_place_detached(&nonce(seq), &aad(prefix), &mut body, &tag).ok()?;
    Some((kind, seq, body))
}
pub fn seal(kind: u8, seq: u64, slen: usize, body: &[u8], key: &[u8; 32]) -> Vec<u8> {
    let prefix = ((slen as u8) << 4) | (kind & 15);
    let mut b = body.to_vec();
    let tag = ChaCha20Poly1305::new(key.into()).encrypt_in_place_detached(&nonce(seq), &aad(prefix), &mut b).unwrap();
    let mut out = vec![prefix];
    let s = seq.to_le_bytes();
    for i in 0..slen {
        out.push(if i < 8 { s[i] } else { 0 });
    }
    out.extend_from_slice(&b);
    out.extend_from_slice(&tag);
    out
}
pub fn seq_len(seq: u64) -> usize {
    (8 - seq.leading_zeros() as usize / 8).max(1)
}

struct Tok {
    holder: usize,
    client_id: u64,
    user_data: [u8; 256],
    valid: bool,
    expire: u64,
    timeout: i64,
    c2s: [u8; 32],
    s2c: [u8; 32],
    private: Vec<u8>,
    token: ConnectToken,
    sessions: u32,
    /// connections the server opened for this token
    scon: u32,
    /// the runs of the server that sent packets of a session under it
    runs: BTreeSet<u64>,
    /// a packet of another session of this token reached an end of the current one
    stale: bool,
}

/// What the harness knows about a packet put on the wire by an honest node.
#[derive(Clone, Debug)]
struct Meta {
    from: i64,
    kind: u8,
    seq: u64,
    tok: usize,
    /// session of the client, or number of the server connection
    sess: u64,
    uid: Option<u64>,
    inc: u64,
    at: u64,
    /// the challenge it carries, or answers
    chal: u64,
}
fn chal_of(kind: u8, body: &[u8]) -> u64 {
    if (kind == CHALLENGE || kind == RESPONSE) && body.len() > 8 { crate::rng::hash_bytes(&body[8..]) } else { 0 }
}

/// Reference model of replay protection and of "heard from".
#[derive(Clone, Default, Debug)]
struct Recv {
    seen: HashSet<u64>,
    max: u64,
    last: u64,
}
impl Recv {
    fn accept(&mut self, seq: u64, now: u64) -> bool {
        if self.seen.contains(&seq) || seq.saturating_add(256) <= self.max {
            return false;
        }
        self.seen.insert(seq);
        self.max = self.max.max(seq);
        self.last = now;
        true
    }
}

struct SConn {
    n: u64,
    cl: usize,
    tok: usize,
    sess: u64,
    at: u64,
    end: u64,
    rx: Recv,
    addr: u64,
    /// the real connection may also have accepted packets the model calls foreign
    tainted: bool,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum St {
    Down,
    Connecting,
    Up,
    Mixed,
}

struct Cl {
    app: App,
    ent: Entity,
    port: u64,
    tok: Option<usize>,
    sess: u64,
    sess_at: u64,
    st: St,
    rx: Recv,
    next: u64,
    last: u64,
    prev: u64,
    insider: bool,
    notices: u64,
    asked: Option<u64>,
    tainted: bool,
    unlinked: bool,
    ins_seq: u64,
    linked_at: u64,
}

#[derive(Resource, Default)]
struct Outbox(Vec<(Entity, Option<SocketAddr>, Bytes)>);
#[derive(Resource, Default)]
struct Passed(Vec<(Entity, Vec<u8>, bool)>);
type OpFn = Box<dyn FnOnce(&mut World) + Send + Sync>;
#[derive(Resource, Default)]
struct OpQ(Vec<OpFn>);
#[derive(Resource, Default)]
struct Trans(Vec<(Entity, u8)>);

#[derive(Debug)]
struct Deny(Vec<u64>);
impl ConnectionRequestHandler for Deny {
    fn handle_request(&self, id: PeerId) -> Option<DeniedReason> {
        match id {
            PeerId::Netcode(i) if self.0.contains(&i) => Some(DeniedReason::Banned),
            _ => None,
        }
    }
}

fn run_ops(world: &mut World) {
    let v = core::mem::take(&mut world.resource_mut::<OpQ>().0);
    for f in v {
        f(world);
        world.flush();
    }
}
fn collect_recv(mut q: Query<(Entity, &mut Link, Has<Connected>)>, mut p: ResMut<Passed>) {
    for (e, mut l, c) in q.iter_mut() {
        for b in l.recv.drain() {
            p.0.push((e, b.to_vec(), c));
        }
    }
}
fn collect_send(mut q: Query<(Entity, &mut Link, Option<&PeerAddr>)>, mut o: ResMut<Outbox>) {
    for (e, mut l, a) in q.iter_mut() {
        for b in l.send.drain() {
            o.0.push((e, a.map(|x| x.0), b));
        }
    }
}

fn base_app(c: &Case) -> App {
    let mut app = App::new();
    app.add_plugins(CorePlugins { tick_duration: Duration::from_micros(c.get("tick_us").max(1000) as u64) });
    app.init_resource::<Outbox>();
    app.init_resource::<Passed>();
    app.init_resource::<OpQ>();
    app.init_resource::<Trans>();
    app.add_plugins(lightyear_connection::ConnectionPlugin);
    app.add_systems(Update, run_ops);
    app.add_systems(PreUpdate, collect_recv.after(ConnectionSystems::Receive).before(TransportSystems::Receive));
    app.add_systems(PostUpdate, collect_send.in_set(LinkSystems::Send));
    app.add_observer(|t: On<Add, Connected>, mut l: ResMut<Trans>| l.0.push((t.entity, 1)));
    app.add_observer(|t: On<Add, Disconnected>, mut l: ResMut<Trans>| l.0.push((t.entity, 0)));
    app.add_observer(|t: On<Add, Connecting>, mut l: ResMut<Trans>| l.0.push((t.entity, 2)));
    app
}

fn finish(app: &mut App) {
    app.finish();
    app.cleanup();
    app.insert_resource(TimeUpdateStrategy::ManualDuration(Duration::ZERO));
    app.update();
}

fn server_app(c: &Case, denied: Vec<u64>) -> (App, Entity) {
    let mut app = base_app(c);
    app.add_plugins(ServerLinkPlugin);
    app.add_plugins(NetcodeServerPlugin);
    let mut cfg = lightyear_netcode::prelude::server::NetcodeConfig {
        max_clients: c.get("max_clients").max(1) as usize,
        num_disconnect_packets: c.get("ndisc").max(1) as usize,
        keep_alive_send_rate: c.get("ka_ms").max(10) as f64 / 1000.0,
        protocol_id: PROTO,
        private_key: KEY,
        server_addr_check: c.get("addr_check") != 0,
        ..Default::default()
    };
    if c.get("extra_addr") != 0 {
        cfg.additional_expected_addresses = vec![own_sock(c)];
    }
    if !denied.is_empty() {
        cfg.connection_request_handler = Some(std::sync::Arc::new(Deny(denied)));
    }
    let local = if c.get("extra_addr") != 0 { SocketAddr::from(([192, 168, 0, 7], 9999)) } else { own_sock(c) };
    let ent = app.world_mut().spawn((NetcodeServer::new(cfg), LocalAddr(local))).id();
    finish(&mut app);
    (app, ent)
}

fn client_app(c: &Case) -> (App, Entity) {
    let mut app = base_app(c);
    app.add_plugins(LinkPlugin);
    app.add_plugins(NetcodeClientPlugin);
    let ent = app.world_mut().spawn((Client, Link::default(), Disconnected::default())).id();
    finish(&mut app);
    (app, ent)
}

fn client_cfg(c: &Case) -> lightyear_netcode::prelude::client::NetcodeConfig {
    lightyear_netcode::prelude::client::NetcodeConfig {
        num_disconnect_packets: c.get("ndisc").max(1) as usize,
        keepalive_packet_send_rate: c.get("ka_ms").max(10) as f64 / 1000.0,
        ..Default::default()
    }
}

fn state(w: &World, e: Entity) -> (St, usize) {
    let (a, b, c, d) = (w.get::<Connected>(e).is_some(), w.get::<Connecting>(e).is_some(), w.get::<Disconnecting>(e).is_some(), w.get::<Disconnected>(e).is_some());
    let n = [a, b, c, d].iter().filter(|x| **x).count();
    let s = if n > 1 {
        St::Mixed
    } else if a {
        St::Up
    } else if b {
        St::Connecting
    } else {
        St::Down
    };
    (s, n)
}

struct Sim<'a> {
    c: &'a Case,
    net: Net,
    srv: App,
    se: Entity,
    srv_next: u64,
    srv_last: u64,
    inc: u64,
    started_at: u64,
    issued: HashSet<u64>,
    reused: Vec<(usize, String)>,
    used_seq: HashMap<(usize, bool, u64), u64>,
    srv_up: bool,
    links: BTreeMap<u64, Entity>,
    /// links that were connected, with the frames seen since the connection ended
    ended: BTreeMap<Entity, u32>,
    conns: BTreeMap<Entity, SConn>,
    old: Vec<SConn>,
    ncon: u64,
    req_ok: HashSet<usize>,
    cls: Vec<Cl>,
    toks: Vec<Tok>,
    meta: HashMap<u64, Meta>,
    captured: Vec<(u64, u64, Vec<u8>, u64)>,
    /// payload uid -> (from node, to node, token, session or connection number, bytes)
    sent: HashMap<u64, (i64, i64, usize, u64, Vec<u8>)>,
    got: HashMap<u64, u32>,
    next_uid: u64,
    /// server links ended by an operation in this frame
    srv_op: HashSet<Entity>,
    srv_all: u64,
    srv_prev: u64,
    trans: HashMap<(i64, Entity), u8>,
    attacked: bool,
    notice_due: Vec<(u64, i64, u64)>,
    stop_since: u64,
}

fn skew(c: &Case, node: i64) -> u64 {
    (WALL0 as i64 + c.get(&format!("skew{node}"))) as u64
}

impl<'a> Sim<'a> {
    fn wall(&self, node: i64, now: u64) -> u64 {
        let mut w = skew(self.c, node) + now / 1_000_000;
        for f in &self.c.faults {
            if f.kind == "clockjump" && f.src == node && now >= f.t0 {
                w = (w as i64 + f.args.first().copied().unwrap_or(0)) as u64;
            }
        }
        w
    }
    fn clocks(&self, node: i64, now: u64) {
        mock_instant::global::MockClock::set_time(Duration::from_micros(1_000_000_000 + now));
        lightyear_transport::sim_hooks::set_now_nanos((1_000_000_000 + now) * 1000);
        lightyear_netcode::sim_hooks::set_unix_seconds(self.wall(node, now));
    }
    fn client_id(&self, i: usize) -> u64 {
        // two clients may claim the same account
        let same = self.c.get("same_id");
        if same > 0 && (i as i64) <= same { 77 } else { 100 + i as u64 }
    }

    fn new_token(&mut self, i: usize, kind: i64, expire: i64, timeout: i64, now: u64) -> usize {
        let n = self.toks.len();
        let mut ud = [0u8; 256];
        for (k, b) in ud.iter_mut().enumerate() {
            *b = hash(&[n as u64, i as u64, k as u64]) as u8;
        }
        let id = self.client_id(i);
        let (key, proto) = (if kind == 1 { [0xEEu8; 32] } else { KEY }, if kind == 2 { PROTO + 1 } else { PROTO });
        let own = own_sock(self.c);
        let may: Vec<SocketAddr> = if self.c.get("laddr") == 0 && kind != 4 {
            vec![own]
        } else {
            let second = SocketAddr::from(([192, 168, 0, 7], 9999));
            let extra = self.c.get("extra_addr") != 0;
            let mut v = listed(own);
            v.push(second);
            v.into_iter().filter(|a| (meant(own, *a) || extra && *a == second) == (kind != 4)).collect()
        };
        let addr = may[(hash(&[self.c.seed, n as u64, 0x61]) % may.len() as u64) as usize];
        // tokens come from a backend with a true clock
        lightyear_netcode::sim_hooks::set_unix_seconds(WALL0 + now / 1_000_000);
        // a token may list more servers to try (all of them answer on the same link)
        let mut addrs = vec![];
        for k in 1..self.c.get("addrs").clamp(1, 3) {
            addrs.push(SocketAddr::from(([10, 9, 9, 10 + k as u8], 4444)));
        }
        addrs.insert((hash(&[self.c.seed, n as u64, 0x62]) % (addrs.len() as u64 + 1)) as usize, addr);
        let token = ConnectToken::build(&addrs[..], proto, id, key).expire_seconds(expire as i32).timeout_seconds(timeout as i32).user_data(ud).generate().unwrap();
        let b = token.clone().try_into_bytes().unwrap();
        let private = b[61..61 + 1024].to_vec();
        let mut o = 61 + 1024 + 4;
        let na = u32::from_be_bytes(b[o..o + 4].try_into().unwrap()) as usize;
        o += 4;
        for _ in 0..na {
            o += if b[o] == 1 { 1 + 4 + 2 } else { 1 + 16 + 2 };
        }
        let c2s: [u8; 32] = b[o..o + 32].try_into().unwrap();
        let s2c: [u8; 32] = b[o + 32..o + 64].try_into().unwrap();
        let valid = !(kind == 1 || kind == 2 || (kind == 4 && self.c.get("addr_check") != 0));
        self.toks.push(Tok {
            holder: i,
            client_id: id,
            user_data: ud,
            valid,
            expire: token.expire_timestamp(),
            timeout,
            c2s,
            s2c,
            private,
            token,
            sessions: 0,
            scon: 0,
            runs: BTreeSet::new(),
            stale: false,
        });
        n
    }

    fn class_of(tok: &Tok, class: &str) -> String {
        if tok.stale && (tok.sessions > 1 || tok.scon > 1 || tok.runs.len() > 1) { format!("stale-session-same-token:{class}") } else { class.to_string() }
    }
    fn class_same(&self, tok: usize, class: &str) -> String {
        Self::class_of(&self.toks[tok], class)
    }

    // ------------------------------------------------------------------ operations

    fn connect(&mut self, i: usize, kind: i64, expire: i64, timeout: i64, flags: i64, now: u64, rec: &mut Rec) -> bool {
        let (st, _) = state(self.cls[i].app.world(), self.cls[i].ent);
        if st != St::Down {
            return false;
        }
        let reuse = flags & 1 != 0 && self.cls[i].tok.is_some();
        if flags & 2 != 0 {
            self.cls[i].port += 1;
        }
        let t = if reuse { self.cls[i].tok.unwrap() } else { self.new_token(i, kind, expire, timeout, now) };
        self.clocks(i as i64 + 1, now);
        self.toks[t].sessions += 1;
        let fresh = !reuse;
        let cfg = client_cfg(self.c);
        let token = self.toks[t].token.clone();
        let cl = &mut self.cls[i];
        cl.tok = Some(t);
        cl.sess += 1;
        cl.sess_at = now;
        cl.tainted = false;
        cl.unlinked = false;
        cl.linked_at = now;
        cl.asked = None;
        let e = cl.ent;
        rec.stat("op.connect", 1);
        if kind != 0 {
            rec.stat("op.bad_token", 1);
        }
        if reuse {
            rec.stat("op.token_reuse", 1);
        }
        rec.log(&[3, i as u64, t as u64, kind as u64, reuse as u64]);
        rec.trace(|| format!("client {i} connects with token {t} (kind {kind} expire {expire}s timeout {timeout}s reuse {reuse}) session {}", cl.sess));
        cl.app.world_mut().resource_mut::<OpQ>().0.push(Box::new(move |w| {
            if fresh {
                let nc = NetcodeClient::new(Authentication::Token(token), cfg).expect("client from a generated token");
                w.entity_mut(e).insert(nc);
            }
            w.entity_mut(e).insert(Linked);
            w.trigger(Connect { entity: e });
        }));
        true
    }

    fn push_payload(&mut self, from: i64, to: i64, size: usize, rec: &mut Rec) {
        let uid = self.next_uid;
        self.next_uid += 1;
        let size = size.clamp(12, 1180);
        let mut b = uid.to_le_bytes().to_vec();
        while b.len() < size {
            b.push(hash(&[uid, b.len() as u64]) as u8);
        }
        let (tok, sess) = if from == 0 {
            let a = addr(to, self.cls[to as usize - 1].port);
            let Some(e) = self.links.get(&a) else { return };
            let Some(cn) = self.conns.get(e) else { return };
            let e = *e;
            if self.srv.world().get_entity(e).is_err() {
                return;
            }
            let (tok, n) = (cn.tok, cn.n);
            self.srv.world_mut().get_mut::<Link>(e).unwrap().send(Bytes::from(b.clone()));
            (tok, n)
        } else {
            let cl = &mut self.cls[from as usize - 1];
            let Some(tok) = cl.tok else { return };
            cl.app.world_mut().get_mut::<Link>(cl.ent).unwrap().send(Bytes::from(b.clone()));
            (tok, cl.sess)
        };
        rec.log(&[4, from as u64, to as u64, uid]);
        rec.stat("op.payload", 1);
        self.sent.insert(uid, (from, to, tok, sess, b));
    }

    fn op(&mut self, op: &Op, now: u64, rec: &mut Rec) {
        let a = |i: usize| op.args.get(i).copied().unwrap_or(0);
        let k = self.cls.len();
        let ci = |x: i64| (x.max(0) as usize) % k;
        match op.kind.as_str() {
            "connect" => {
                self.connect(ci(op.node - 1), a(0), a(1).max(0), a(2), a(3), now, rec);
            }
            "disc" => {
                let i = ci(op.node - 1);
                let cl = &mut self.cls[i];
                let e = cl.ent;
                let (st, _) = state(cl.app.world(), e);
                if st == St::Up {
                    cl.asked = Some(now);
                    let to = addr(0, 0);
                    let _ = to;
                    if !cl.unlinked {
                        self.notice_due.push((now, i as i64 + 1, 0));
                    }
                }
                rec.stat("op.disconnect", 1);
                rec.trace(|| format!("client {i} disconnects"));
                cl.app.world_mut().resource_mut::<OpQ>().0.push(Box::new(move |w| w.trigger(Disconnect { entity: e })));
            }
            "unlink" => {
                let i = ci(op.node - 1);
                let cl = &mut self.cls[i];
                let e = cl.ent;
                cl.unlinked = true;
                rec.stat("fault.client_link_failure", 1);
                rec.trace(|| format!("client {i} link fails"));
                self.notice_due.retain(|x| x.1 != i as i64 + 1);
                cl.app.world_mut().resource_mut::<OpQ>().0.push(Box::new(move |w| {
                    w.trigger(Unlink { entity: e, reason: UnlinkReason::TransportError("simulated".into()) });
                }));
            }
            "crash" => {
                let i = ci(op.node - 1);
                rec.stat("fault.client_crash", 1);
                rec.trace(|| format!("client {i} crashes"));
                self.notice_due.retain(|x| x.1 != i as i64 + 1);
                let (app, ent) = client_app(self.c);
                let cl = &mut self.cls[i];
                self.trans.retain(|k, _| k.0 != i as i64 + 1);
                cl.app = app;
                cl.ent = ent;
                cl.st = St::Down;
                cl.tok = None;
                cl.sess += 1;
                cl.port += 1;
                cl.asked = None;
                cl.last = now;
            }
            "rebind" => {
                let i = ci(op.node - 1);
                rec.stat("fault.rebind_address", 1);
                self.cls[i].port += 1;
            }
            "burst" => {
                for j in 0..a(0).clamp(1, 400) {
                    let size = 12 + (hash(&[self.c.seed, op.t, j as u64]) % a(2).max(1) as u64) as usize;
                    if op.node == 0 {
                        self.push_payload(0, ci(a(1)) as i64 + 1, size, rec);
                    } else {
                        self.push_payload(ci(op.node - 1) as i64 + 1, 0, size, rec);
                    }
                }
            }
            "stop" => {
                let e = self.se;
                rec.stat("op.server_stop", 1);
                rec.trace(|| "server stops".into());
                if self.srv_up {
                    let ups: Vec<u64> = self.conns.iter().filter(|(e, c)| !self.cls[c.cl].insider && !self.srv_op.contains(*e)).map(|(_, c)| c.addr).collect();
                    for ad in ups {
                        self.notice_due.push((now, 0, ad));
                    }
                    self.stop_since = now;
                }
                self.srv_all = now;
                self.srv_up = false;
                self.srv.world_mut().resource_mut::<OpQ>().0.push(Box::new(move |w| w.trigger(Stop { entity: e })));
            }
            "start" => {
                let e = self.se;
                let w = self.srv.world();
                if w.get::<Started>(e).is_some() || w.get::<Stopping>(e).is_some() {
                    return;
                }
                rec.stat("op.server_start", 1);
                rec.trace(|| "server starts".into());
                self.srv_up = true;
                self.req_ok.clear();
                self.inc += 1;
                self.started_at = now;
                self.issued.clear();
                self.srv.world_mut().resource_mut::<OpQ>().0.push(Box::new(move |w| {
                    w.entity_mut(e).insert(Linked);
                    w.trigger(Start { entity: e });
                }));
            }
            "unlink_server" => {
                let e = self.se;
                rec.stat("fault.server_link_failure", 1);
                rec.trace(|| "server link fails".into());
                self.notice_due.retain(|x| x.1 != 0);
                if self.srv_up {
                    self.stop_since = now;
                }
                self.srv_all = now;
                self.srv_up = false;
                self.srv.world_mut().resource_mut::<OpQ>().0.push(Box::new(move |w| {
                    w.trigger(Unlink { entity: e, reason: UnlinkReason::TransportError("simulated".into()) });
                }));
            }
            "unlink_link" | "despawn_link" | "despawn_only" => {
                let ad = addr(ci(a(0)) as i64 + 1, self.cls[ci(a(0))].port);
                let Some(e) = self.links.get(&ad).copied() else { return };
                rec.stat("fault.server_side_link_failure", 1);
                rec.trace(|| format!("server side {} of link {ad} ({e})", op.kind));
                self.srv_op.insert(e);
                self.links.remove(&ad);
                self.notice_due.retain(|x| !(x.1 == 0 && x.2 == ad));
                let (desp, unl) = (op.kind != "unlink_link", op.kind != "despawn_only");
                self.srv.world_mut().resource_mut::<OpQ>().0.push(Box::new(move |w| {
                    if w.get_entity(e).is_ok() {
                        if unl {
                            w.trigger(Unlink { entity: e, reason: UnlinkReason::TransportError("simulated".into()) });
                            w.flush();
                        }
                        if desp && w.get_entity(e).is_ok() {
                            w.despawn(e);
                        }
                    }
                }));
            }
            "crash_server" => {
                rec.stat("fault.server_crash", 1);
                rec.trace(|| "server crashes and restarts".into());
                self.notice_due.retain(|x| x.1 != 0);
                let (app, e) = server_app(self.c, self.denied());
                self.srv = app;
                self.se = e;
                self.links.clear();
                for (_, mut c) in core::mem::take(&mut self.conns) {
                    c.end = now;
                    self.old.push(c);
                }
                self.trans.retain(|k, _| k.0 != 0);
                self.req_ok.clear();
                self.inc += 1;
                self.started_at = now;
                self.issued.clear();
                self.srv_up = true;
                self.srv_last = now;
                self.srv.world_mut().resource_mut::<OpQ>().0.push(Box::new(move |w| {
                    w.entity_mut(e).insert(Linked);
                    w.trigger(Start { entity: e });
                }));
            }
            "atk" => self.attack(op, now, rec),
            _ => {}
        }
    }

    fn denied(&self) -> Vec<u64> {
        let m = self.c.get("deny_mask");
        (0..self.c.get("k") as usize).filter(|i| m & (1 << i) != 0).map(|i| self.client_id(i)).collect()
    }

    /// everything the attacker does; which captured packet and which bits follow from the arguments
    fn attack(&mut self, op: &Op, now: u64, rec: &mut Rec) {
        let a = |i: usize| op.args.get(i).copied().unwrap_or(0);
        let k = self.cls.len() as i64;
        let h = |s: u64| hash(&[a(1) as u64, a(2) as u64, s]);
        let port = |s: &Self, n: i64| if n >= 1 && n <= k { s.cls[n as usize - 1].port } else { 0 };
        // destination: the server or a client; source: spoofed genuine peer or the attacker itself
        let dst = if a(3) <= 0 { 0 } else { 1 + (a(3) - 1) % k };
        let spoof = if dst == 0 { 1 + (h(50) % k as u64) as i64 } else { 0 };
        let src_n = if h(51) % 2 == 0 { spoof } else { ATT };
        let (src, dsta) = (addr(src_n, port(self, src_n)), addr(dst, port(self, dst)));
        self.attacked = true;
        let count = a(4).clamp(1, 12) as u64;
        match a(0) {
            0 => {
                for n in 0..count {
                    let len = match h(n + 1) % 4 {
                        0 => h(n + 100) % 4,
                        1 => h(n + 100) % 40,
                        2 => 1078,
                        _ => h(n + 100) % 1400,
                    } as usize;
                    let mut b: Vec<u8> = (0..len).map(|i| h(n * 5000 + i as u64) as u8).collect();
                    if !b.is_empty() && h(n + 200) % 2 == 0 {
                        b[0] = (h(n + 300) % 8) as u8 | ((h(n + 301) % 16) << 4) as u8;
                    }
                    if b.len() > 40 && h(n + 400) % 3 == 0 {
                        b[0] = 0;
                        b[1..14].copy_from_slice(VERSION);
                        b[14..22].copy_from_slice(&PROTO.to_be_bytes());
                    }
                    rec.stat("attack.random", 1);
                    self.net.inject(now, src, dsta, b, rec);
                }
            }
            6 => {
                // the whole handshake of an earlier run of the server once more
                let cand: Vec<usize> = (0..self.captured.len())
                    .filter(|i| self.meta.get(&self.captured[*i].3).is_some_and(|m| m.kind == RESPONSE && m.at < self.started_at))
                    .collect();
                if cand.is_empty() {
                    return;
                }
                let (ps, pd, b, id) = self.captured[cand[(h(1) % cand.len() as u64) as usize]].clone();
                let m = self.meta[&id].clone();
                let Some((_, _, rb, rid)) = self.captured.iter().find(|x| self.meta.get(&x.3).is_some_and(|y| y.kind == REQUEST && y.tok == m.tok)).cloned() else { return };
                let from = if h(2) % 2 == 0 { ps } else { addr(ATT, 0) };
                rec.stat("attack.handshake_replay", 1);
                let nid = self.net.inject(now, from, pd, rb, rec);
                let rm = self.meta[&rid].clone();
                self.meta.insert(nid, rm);
                for n in 0..3 {
                    let nid = self.net.inject(now + 50_000 + n * 120_000 + h(n + 3) % 50_000, from, pd, b.clone(), rec);
                    self.meta.insert(nid, m.clone());
                }
            }
            1..=4 => {
                if self.captured.is_empty() {
                    return;
                }
                for n in 0..count {
                    // prefer some kinds of packets
                    let want = h(n + 600) % 9;
                    let cand: Vec<usize> = (0..self.captured.len())
                        .filter(|i| {
                            let b = &self.captured[*i].2;
                            want > 6 || b.first().is_some_and(|p| (*p & 15) as u64 == want)
                        })
                        .collect();
                    if cand.is_empty() {
                        continue;
                    }
                    let pick = if h(n + 601) % 2 == 0 { cand.len() - 1 - (h(n + 602) % cand.len().min(12) as u64) as usize } else { (h(n + 602) % cand.len() as u64) as usize };
                    let (ps, pd, mut b, id) = self.captured[cand[pick]].clone();
                    let kind = b.first().copied().unwrap_or(0) & 15;
                    match a(0) {
                        1 => {
                            // exact replay, source address spoofed, to the destination's present address
                            let pd2 = addr(node_of(pd), port(self, node_of(pd)));
                            let ps2 = if h(n + 603) % 2 == 0 { addr(node_of(ps), port(self, node_of(ps))) } else { ps };
                            rec.stat("attack.replay", 1);
                            let nid = self.net.inject(now + h(n + 604) % 40_000, ps2, pd2, b, rec);
                            if let Some(m) = self.meta.get(&id).cloned() {
                                self.meta.insert(nid, m);
                            }
                        }
                        2 => {
                            let pd2 = addr(node_of(pd), port(self, node_of(pd)));
                            let ps2 = addr(node_of(ps), port(self, node_of(ps)));
                            match h(n + 610) % 5 {
                                0 if !b.is_empty() => {
                                    let p = (h(n + 611) % b.len() as u64) as usize;
                                    b[p] ^= 1 << (h(n + 612) % 8);
                                }
                                1 => b.truncate((h(n + 611) % (b.len() as u64 + 1)) as usize),
                                2 => b.extend((0..1 + h(n + 611) % 30).map(|i| h(i + 700) as u8)),
                                3 if !b.is_empty() => b[0] = (b[0] & 0xf0) | (h(n + 611) % 16) as u8,
                                _ if !b.is_empty() => b[0] = (b[0] & 0x0f) | ((h(n + 611) % 16) << 4) as u8,
                                _ => {}
                            }
                            let same = self.captured.iter().any(|x| x.2 == b);
                            if !same {
                                rec.stat("attack.alter", 1);
                                let longer_request = kind == REQUEST && h(n + 610) % 5 == 2;
                                let nid = self.net.inject(now + h(n + 604) % 40_000, ps2, pd2, b, rec);
                                // bytes after a complete request are not part of it
                                if let Some(m) = self.meta.get(&id).cloned().filter(|m| longer_request && m.kind == REQUEST) {
                                    self.meta.insert(nid, m);
                                }
                            }
                        }
                        3 => {
                            // another sender's packet (a full relay of the handshake by a third party is
                            // outside the protocol's protection, so responses are not relayed)
                            if kind == RESPONSE || node_of(pd) != 0 && node_of(ps) == 0 && k == 1 {
                                continue;
                            }
                            let (s2, d2) = if node_of(pd) == 0 {
                                let mut o = 1 + (h(n + 620) % k as u64) as i64;
                                if o == node_of(ps) {
                                    o = ATT;
                                }
                                (addr(o, port(self, o)), pd)
                            } else {
                                let mut o = 1 + (h(n + 620) % k as u64) as i64;
                                if o == node_of(pd) {
                                    o = 1 + o % k;
                                }
                                if o == node_of(pd) {
                                    continue;
                                }
                                (ps, addr(o, port(self, o)))
                            };
                            rec.stat("attack.crosswire", 1);
                            let nid = self.net.inject(now + h(n + 604) % 40_000, s2, d2, b, rec);
                            if kind == REQUEST
                                && let Some(m) = self.meta.get(&id).cloned()
                            {
                                self.meta.insert(nid, m);
                            } else if let Some(m) = self.meta.get(&id) {
                                self.toks[m.tok].stale = true;
                            }
                        }
                        _ => {
                            // reflection to the sender
                            let s2 = addr(node_of(pd), port(self, node_of(pd)));
                            let d2 = addr(node_of(ps), port(self, node_of(ps)));
                            rec.stat("attack.reflect", 1);
                            self.net.inject(now + h(n + 604) % 40_000, s2, d2, b, rec);
                        }
                    }
                }
            }
            _ => {
                // an authenticated peer that does not follow the protocol
                let Some(i) = (0..self.cls.len()).find(|i| self.cls[*i].insider) else { return };
                let Some(t) = self.cls[i].tok else { return };
                for n in 0..count {
                    let to_server = h(n + 700) % 4 != 0;
                    let kind = match h(n + 701) % 3 {
                        0 => (h(n + 702) % 16) as u8,
                        1 => *[RESPONSE, PAYLOAD, KEEP_ALIVE].get((h(n + 702) % 3) as usize).unwrap(),
                        _ => (h(n + 702) % 8) as u8,
                    };
                    let seq = match h(n + 703) % 6 {
                        0 => u64::MAX - h(n + 704) % 300,
                        1 => h(n + 704) % 1000,
                        2 => (1 << 62) + h(n + 704) % 600,
                        3 => 1 << (h(n + 704) % 64),
                        _ => {
                            self.cls[i].ins_seq += 1;
                            5000 + self.cls[i].ins_seq
                        }
                    };
                    let len = match h(n + 705) % 5 {
                        0 => 0,
                        1 => 308,
                        2 => 8,
                        3 => h(n + 706) % 40,
                        _ => h(n + 706) % 1200,
                    } as usize;
                    let mut body: Vec<u8> = (0..len).map(|x| h(n * 3000 + x as u64) as u8).collect();
                    if kind == RESPONSE && h(n + 707) % 2 == 0 {
                        // one of the challenges this peer really received
                        let mine: Vec<Vec<u8>> = self
                            .captured
                            .iter()
                            .filter(|x| node_of(x.1) == i as i64 + 1 && x.2.first().is_some_and(|p| p & 15 == CHALLENGE))
                            .filter_map(|x| self.toks.iter().filter(|t| t.holder == i).find_map(|t| open(&x.2, &t.s2c)).map(|o| o.2))
                            .collect();
                        if !mine.is_empty() {
                            body = mine[(h(n + 708) % mine.len() as u64) as usize].clone();
                        }
                    }
                    let sl = if h(n + 709) % 8 == 0 { (h(n + 710) % 16) as usize } else { seq_len(seq) };
                    let key = if to_server { self.toks[t].c2s } else { self.toks[t].s2c };
                    let mut b = seal(kind, seq, sl.min(15), &body, &key);
                    if h(n + 711) % 10 == 0 {
                        b[0] = h(n + 712) as u8;
                    }
                    let me = addr(i as i64 + 1, self.cls[i].port);
                    rec.stat("attack.insider", 1);
                    if to_server {
                        self.net.inject(now + h(n + 604) % 20_000, me, addr(0, 0), b, rec);
                    } else {
                        self.net.inject(now + h(n + 604) % 20_000, addr(0, 0), me, b, rec);
                    }
                }
            }
        }
    }

    // ------------------------------------------------------------------ frames

    fn drain_out(&mut self, node: i64, now: u64, rec: &mut Rec) {
        if node == 0 {
            let out = core::mem::take(&mut self.srv.world_mut().resource_mut::<Outbox>().0);
            let by_sock: HashMap<SocketAddr, u64> = (0..self.cls.len())
                .flat_map(|i| (0..=self.cls[i].port).map(move |p| addr(i as i64 + 1, p)))
                .chain(core::iter::once(addr(ATT, 0)))
                .map(|a| (sock(a), a))
                .collect();
            for (_, s, b) in out {
                let Some(dst) = s.and_then(|s| by_sock.get(&s).copied()) else { continue };
                let cl = node_of(dst);
                let mut m = None;
                if cl >= 1 && cl <= self.cls.len() as i64 {
                    let holder = cl as usize - 1;
                    for t in (0..self.toks.len()).rev().filter(|t| self.toks[*t].holder == holder).take(60) {
                        if let Some((kind, seq, body)) = open(&b, &self.toks[t].s2c) {
                            let n = self.conns.values().chain(self.old.iter()).filter(|c| c.tok == t && c.addr == dst).map(|c| c.n).max().unwrap_or(0);
                            m = Some(Meta { from: 0, kind, seq, tok: t, sess: n, uid: (kind == PAYLOAD && body.len() >= 12).then(|| u64::from_le_bytes(body[..8].try_into().unwrap())), inc: self.inc, at: now, chal: chal_of(kind, &body) });
                            break;
                        }
                    }
                }
                let kind = m.as_ref().map(|m| m.kind);
                if b.first().is_some_and(|p| p & 15 == CHALLENGE) {
                    // (also those that go to somebody else's address)
                    for t in &self.toks {
                        if let Some((kind, _, body)) = open(&b, &t.s2c) {
                            self.issued.insert(chal_of(kind, &body));
                            break;
                        }
                    }
                }
                if let Some(m) = m.as_ref().filter(|m| m.kind >= KEEP_ALIVE) {
                    self.toks[m.tok].runs.insert(m.inc);
                }
                self.check_seq(&m, &b);
                let id = self.net.send(now, addr(0, 0), dst, b.to_vec(), rec);
                if let Some(m) = m {
                    self.meta.insert(id, m);
                }
                if self.captured.len() < 4000 {
                    self.captured.push((addr(0, 0), dst, b.to_vec(), id));
                }
                if kind == Some(DISCONNECT) {
                    self.notice_due.retain(|x| !(x.1 == 0 && x.2 == dst));
                }
                // the server refuses on behalf of its token only
                let _ = kind;
            }
        } else {
            let i = node as usize - 1;
            let out = core::mem::take(&mut self.cls[i].app.world_mut().resource_mut::<Outbox>().0);
            for (_, _, b) in out {
                let src = addr(node, self.cls[i].port);
                let mut m = None;
                if let Some(t) = self.cls[i].tok {
                    if b.first() == Some(&0) {
                        m = Some(Meta { from: node, kind: REQUEST, seq: 0, tok: t, sess: self.cls[i].sess, uid: None, inc: 0, at: now, chal: 0 });
                    } else if let Some((kind, seq, body)) = open(&b, &self.toks[t].c2s) {
                        m = Some(Meta { from: node, kind, seq, tok: t, sess: self.cls[i].sess, uid: (kind == PAYLOAD && body.len() >= 12).then(|| u64::from_le_bytes(body[..8].try_into().unwrap())), inc: 0, at: now, chal: chal_of(kind, &body) });
                    }
                }
                if m.as_ref().is_some_and(|m| m.kind == DISCONNECT) {
                    self.notice_due.retain(|x| x.1 != node);
                }
                self.check_seq(&m, &b);
                let id = self.net.send(now, src, addr(0, 0), b.to_vec(), rec);
                if let Some(m) = m {
                    self.meta.insert(id, m);
                }
                if self.captured.len() < 4000 {
                    self.captured.push((src, addr(0, 0), b.to_vec(), id));
                }
            }
        }
    }

    /// two packets of one session never carry the same sequence number (it is the nonce)
    fn check_seq(&mut self, m: &Option<Meta>, b: &[u8]) {
        let Some(m) = m else { return };
        let t = &self.toks[m.tok];
        if m.kind < KEEP_ALIVE || t.sessions > 1 || t.scon > 1 || self.c.get("addrs") > 1 || self.cls[t.holder].insider {
            return;
        }
        let key = (m.tok, m.from == 0, m.seq);
        let h = crate::rng::hash_bytes(b);
        if self.used_seq.insert(key, h).is_some() {
            // (judged at the end: the token may turn out to be used for two sessions)
            self.reused.push((m.tok, format!("{} sent two packets with sequence number {} under the same key", if m.from == 0 { "the server" } else { "a client" }, m.seq)));
        }
    }

    fn also_c22(&self, rec: &mut Rec, class: &str, d: &str) {
        if self.attacked {
            rec.viol("C22", class.to_string(), d.to_string());
        }
    }

    fn server_frame(&mut self, rec: &mut Rec) {
        let now = self.srv_next;
        let dt = now - self.srv_last;
        self.srv_prev = self.srv_last;
        self.srv_last = now;
        self.clocks(0, now);
        rec.steps += 1;
        // forget links that are gone
        let w = self.srv.world();
        let gone: Vec<u64> = self.links.iter().filter(|(_, e)| w.get_entity(**e).is_err()).map(|(a, _)| *a).collect();
        for a in gone {
            self.links.remove(&a);
        }
        let linked = w.get::<Linked>(self.se).is_some();
        let wall = self.wall(0, now);
        // arrivals, per link
        let mut arr: BTreeMap<u64, Vec<(Meta, bool)>> = BTreeMap::new();
        for p in self.net.take(0, now) {
            if !linked {
                continue;
            }
            let m = self.meta.get(&p.id).cloned().filter(|_| p.genuine || self.captured.iter().any(|c| c.2 == p.bytes || c.2.len() == 1078 && p.bytes.starts_with(&c.2)));
            let e = match self.links.get(&p.src) {
                Some(e) => *e,
                None => {
                    let e = self.srv.world_mut().spawn((LinkOf { server: self.se }, Link::default(), PeerAddr(sock(p.src)), Linked)).id();
                    self.srv.world_mut().flush();
                    self.links.insert(p.src, e);
                    e
                }
            };
            if let Some(m) = m {
                if m.from >= 1 {
                    let newer = self.cls[m.from as usize - 1].sess != m.sess;
                    let other = self.conns.values().any(|c| c.tok == m.tok && c.sess != m.sess);
                    self.toks[m.tok].stale |= newer || other;
                }
                if m.kind == REQUEST && m.from >= 1 && self.srv_up && wall <= self.toks[m.tok].expire {
                    self.req_ok.insert(m.tok);
                }
                arr.entry(p.src).or_default().push((m, p.genuine));
            }
            if let Some(mut l) = self.srv.world_mut().get_mut::<Link>(e) {
                l.recv.push_raw(bytes::BytesMut::from(&p.bytes[..]));
            }
        }
        let before: BTreeMap<Entity, u64> = self.conns.iter().map(|(e, c)| (*e, c.n)).collect();
        self.srv.insert_resource(TimeUpdateStrategy::ManualDuration(Duration::from_micros(dt)));
        self.srv.update();
        self.drain_out(0, now, rec);
        self.after_server(now, dt, &arr, &before, rec);
    }

    fn after_server(&mut self, now: u64, dt: u64, arr: &BTreeMap<u64, Vec<(Meta, bool)>>, before: &BTreeMap<Entity, u64>, rec: &mut Rec) {
        // who is connected now
        let mut up: BTreeMap<Entity, (u64, PeerId, [u8; 256])> = BTreeMap::new();
        {
            let w = self.srv.world_mut();
            let mut q = w.query::<(Entity, &PeerAddr, &RemoteId, Option<&TokenUserData>, Has<ClientOf>, &Connected)>();
            let socks: HashMap<SocketAddr, u64> = (0..self.cls.len())
                .flat_map(|i| (0..=self.cls[i].port).map(move |p| addr(i as i64 + 1, p)))
                .chain(core::iter::once(addr(ATT, 0)))
                .map(|a| (sock(a), a))
                .collect();
            let rows: Vec<_> = q.iter(w).map(|(e, a, r, u, co, _)| (e, a.0, r.0, u.map(|u| u.0), co)).collect();
            for (e, s, r, u, co) in rows {
                let ad = socks.get(&s).copied().unwrap_or(addr(ATT, 0));
                match u {
                    Some(u) if co => {
                        up.insert(e, (ad, r, u));
                    }
                    _ => rec.viol("C13", "incomplete-connection", format!("server link {e} is Connected without client id data")),
                }
            }
        }
        // ended connections
        let ended: Vec<Entity> = self.conns.keys().filter(|e| !up.contains_key(*e)).copied().collect();
        for e in ended {
            let mut c = self.conns.remove(&e).unwrap();
            c.end = now;
            let a = arr.get(&c.addr).map(|v| v.as_slice()).unwrap_or(&[]);
            let timeout = self.toks[c.tok].timeout;
            let notice = a.iter().any(|(m, _)| m.kind == DISCONNECT && m.tok == c.tok && m.sess == c.sess);
            let stale_notice = a.iter().any(|(m, _)| m.kind == DISCONNECT && m.tok == c.tok && m.sess != c.sess);
            let op = self.srv_op.contains(&e) || self.srv_all + 200_000 > self.srv_prev && self.srv_all > 0;
            let silent = now.saturating_sub(c.rx.last);
            let timed = timeout > 0 && silent + 1000 >= timeout as u64 * 1_000_000;
            if notice || timed || stale_notice {
                self.notice_due.retain(|x| !(x.1 == 0 && x.2 == c.addr));
            }
            rec.log(&[6, c.n, notice as u64, op as u64, timed as u64]);
            rec.trace(|| format!("server: connection {} of client {} ended (notice {notice} op {op} silent {silent}us)", c.n, c.cl));
            rec.stat(if notice { "probe.server_heard_notice" } else if timed { "probe.server_timed_out" } else { "probe.server_ended_by_operation" }, 1);
            if !notice && !op && !timed && !self.cls[c.cl].insider && !c.tainted {
                let d = format!("server dropped the connection of client {} after {silent}us of silence (timeout {timeout}s) without notice or operation", c.cl);
                if stale_notice {
                    rec.viol("C09", self.class_same(c.tok, "ended-by-stale-notice"), d.clone());
                    rec.viol("C11", self.class_same(c.tok, "ended-by-stale-notice"), d.clone());
                } else {
                    rec.viol("C11", self.class_same(c.tok, "healthy-dropped"), d.clone());
                    if self.attacked {
                        rec.viol("C09", self.class_same(c.tok, "ended-by-forgery"), d.clone());
                    }
                }
                self.also_c22(rec, &self.class_same(c.tok, "healthy-dropped"), &d);
            }
            self.old.push(c);
        }
        self.srv_op.clear();
        // new connections
        for (e, (ad, rid, ud)) in &up {
            if let Some(c) = self.conns.get(e) {
                if self.toks[c.tok].user_data != *ud {
                    rec.viol("C09", "identity-changed", format!("connection {} changed its user data", c.n));
                }
                if *rid != PeerId::Netcode(self.toks[c.tok].client_id) {
                    rec.viol("C09", "identity-changed", format!("connection {} changed its client id to {rid:?}", c.n));
                }
                continue;
            }
            self.ncon += 1;
            rec.stat("probe.server_connections", 1);
            if self.old.iter().any(|c| c.end == now && PeerId::Netcode(self.toks[c.tok].client_id) == *rid) {
                rec.stat("probe.id_taken_over_in_one_frame", 1);
            }
            let Some(t) = self.toks.iter().position(|t| t.user_data == *ud) else {
                rec.viol("C09", "unknown-user-data", format!("server reports {rid:?} connected with user data of no issued token"));
                continue;
            };
            self.toks[t].scon += 1;
            let tk = &self.toks[t];
            let cl = tk.holder;
            let resp: Vec<u64> = arr.get(ad).map(|v| v.iter().filter(|(m, _)| m.kind == RESPONSE && m.tok == t).map(|(m, _)| m.sess).collect()).unwrap_or_default();
            let ins = self.cls[cl].insider;
            let sess = resp.iter().max().copied().unwrap_or(if ins { self.cls[cl].sess } else { 0 });
            rec.log(&[5, self.ncon, cl as u64, t as u64]);
            rec.trace(|| format!("server: connection {} of client {cl} (token {t}, address {ad}, {e})", self.ncon));
            if *rid != PeerId::Netcode(tk.client_id) {
                rec.viol("C09", "wrong-client-id", format!("server reports {rid:?} for the token of client id {}", tk.client_id));
            }
            if !tk.valid {
                rec.viol("C09", "invalid-token-accepted", format!("server connected client {cl} whose token is not for this server, protocol or key"));
            }
            if !self.req_ok.contains(&t) {
                rec.viol("C09", "no-valid-request", format!("server connected client {cl} though no unexpired request with its token arrived"));
            }
            if node_of(*ad) != cl as i64 + 1 {
                rec.viol("C09", "wrong-address", format!("server attributes the connection of client {cl} to address {ad}"));
            }
            if resp.is_empty() && !ins {
                rec.viol("C09", "no-challenge-response", format!("server connected client {cl} in a frame without a challenge response from it"));
            }
            let answers: Vec<u64> = arr.get(ad).map(|v| v.iter().filter(|(m, _)| m.kind == RESPONSE && m.tok == t).map(|(m, _)| m.chal).collect()).unwrap_or_default();
            if !ins && !answers.is_empty() && !answers.iter().any(|x| self.issued.contains(x)) {
                rec.viol("C09", "old-challenge", format!("server connected client {cl} for the answer to a challenge it did not give since it started"));
            }
            if self.denied().contains(&tk.client_id) {
                rec.viol("C12", "rejected-client-connected", format!("client id {} is rejected by the admission handler but connected", tk.client_id));
            }
            let mut rx = Recv { last: now, ..Default::default() };
            let _ = &mut rx;
            let n = self.ncon;
            if sess != self.cls[cl].sess || self.conns.values().chain(self.old.iter()).any(|c| c.tok == t && c.sess == sess) {
                self.toks[t].stale = true;
            }
            self.conns.insert(*e, SConn { n, cl, tok: t, sess, at: now, end: u64::MAX, rx, addr: *ad, tainted: false });
        }
        // limits
        let max = self.c.get("max_clients").max(1) as usize;
        if up.len() > max {
            rec.viol("C12", "over-limit", format!("{} clients connected, the limit is {max}", up.len()));
        }
        let ids: BTreeSet<u64> = up.values().map(|x| x.1.to_bits()).collect();
        if ids.len() != up.len() {
            rec.viol("C12", "duplicate-client-id", format!("{} connections but {} client ids", up.len(), ids.len()));
        }
        // what arrived
        let passed = core::mem::take(&mut self.srv.world_mut().resource_mut::<Passed>().0);
        let mut del: HashMap<u64, u32> = HashMap::new();
        for (e, b, was_up) in passed {
            let uid = if b.len() >= 12 { u64::from_le_bytes(b[..8].try_into().unwrap()) } else { 0 };
            let conn = self.conns.get(&e).or_else(|| self.old.iter().rev().find(|c| before.get(&e) == Some(&c.n)));
            let prev = before.contains_key(&e);
            let ad = self.links.iter().find(|(_, x)| **x == e).map(|x| *x.0);
            rec.log(&[7, 0, uid]);
            if conn.is_none() || (!was_up && !prev) {
                rec.viol("C10", "payload-without-connection", format!("the server passed up a payload of {} bytes from address {ad:?}, which is not connected", b.len()));
                continue;
            }
            let conn = conn.unwrap();
            if self.cls[conn.cl].insider {
                continue;
            }
            match self.sent.get(&uid) {
                None => {
                    rec.viol("C10", "payload-never-sent", format!("the server passed up a payload nobody sent on connection {}", conn.n));
                    self.also_c22(rec, "payload-never-sent", "forged payload passed up");
                }
                Some((from, _, tok, sess, bytes)) => {
                    if *bytes != b {
                        rec.viol("C10", "payload-altered", format!("payload {uid} of client {} was altered", from - 1));
                    }
                    if *from != conn.cl as i64 + 1 {
                        rec.viol("C10", "payload-misattributed", format!("payload {uid} of node {from} passed up as from client {}", conn.cl));
                    } else if *tok != conn.tok || *sess != conn.sess {
                        rec.viol("C10", self.class_same(*tok, "payload-of-another-session"), format!("payload {uid} of an earlier session of client {} passed up", conn.cl));
                    }
                    let g = self.got.entry(uid).or_insert(0);
                    *g += 1;
                    let g = *g;
                    if g > 1 {
                        let c = self.class_same(*tok, "payload-twice");
                        rec.viol("C10", c, format!("payload {uid} of client {} passed up {g} times", conn.cl));
                    }
                    rec.stat("net.messages_delivered", 1);
                    *del.entry(uid).or_insert(0) += 1;
                }
            }
        }
        // reference model of what had to be accepted
        for c in self.conns.values_mut() {
            let Some(v) = arr.get(&c.addr) else { continue };
            let was = c.at != now;
            for (m, _) in v {
                if m.kind < KEEP_ALIVE || m.tok != c.tok {
                    continue;
                }
                if m.sess != c.sess {
                    // sealed with the same keys: the real server cannot tell
                    c.tainted = true;
                    c.rx.last = now;
                    continue;
                }
                let max = c.rx.max;
                let fresh = c.rx.accept(m.seq, now);
                if m.kind == PAYLOAD && was && fresh && m.seq + 200 > max && !c.tainted && !self.cls[c.cl].insider {
                    if let Some(u) = m.uid {
                        if self.sent.contains_key(&u) && !del.contains_key(&u) && self.got.get(&u).copied().unwrap_or(0) == 0 {
                            rec.viol("C10", Self::class_of(&self.toks[c.tok], "genuine-payload-dropped"), format!("payload {u} (sequence {}, newest before it {max}) of client {} arrived while connected but was not passed up", m.seq, c.cl));
                            if self.attacked {
                                rec.viol("C22", Self::class_of(&self.toks[c.tok], "genuine-payload-dropped"), format!("payload {u} of client {}", c.cl));
                            }
                        }
                    }
                }
                if m.kind == DISCONNECT && fresh && was && !self.cls[c.cl].insider && !c.tainted {
                    rec.viol("C11", Self::class_of(&self.toks[c.tok], "notice-ignored"), format!("a disconnect notice of client {} arrived but its connection goes on", c.cl));
                }
            }
        }
        // dead connections
        for c in self.conns.values() {
            let t = self.toks[c.tok].timeout;
            let silent = now - c.rx.last;
            if t > 0 && silent > t as u64 * 1_000_000 + 2000 && !self.cls[c.cl].insider {
                rec.viol("C11", "dead-not-noticed", format!("server keeps client {} {silent}us after its last packet (timeout {t}s, frame {dt}us)", c.cl));
            }
            let any = arr.contains_key(&c.addr);
            let _ = any;
        }
        self.server_consistency(now, &up, rec);
        rec.state(&[10, up.len() as u64, self.links.len() as u64, self.cls.iter().filter(|c| c.st == St::Up).count() as u64, self.srv_up as u64]);
    }

    fn server_consistency(&mut self, _now: u64, up: &BTreeMap<Entity, (u64, PeerId, [u8; 256])>, rec: &mut Rec) {
        let se = self.se;
        let w = self.srv.world_mut();
        let mut q = w.query_filtered::<Entity, With<LinkOf>>();
        let links: Vec<Entity> = q.iter(w).collect();
        for e in &links {
            let (st, n) = state(w, *e);
            if st == St::Mixed {
                rec.viol("C13", "two-states", format!("server link {e} carries {n} connection states at once"));
            }
            let m = [w.get::<Linked>(*e).is_some(), w.get::<Unlinked>(*e).is_some(), w.get::<Linking>(*e).is_some()].iter().filter(|x| **x).count();
            if m != 1 {
                rec.viol("C13", "link-states", format!("server link {e} carries {m} link states"));
            }
            if st == St::Up && w.get::<Linked>(*e).is_none() {
                rec.viol("C13", "connected-on-dead-link", format!("server link {e} is Connected but not Linked"));
            }
        }
        self.ended.retain(|e, _| links.contains(e));
        for e in &links {
            if w.get::<Connected>(*e).is_some() {
                self.ended.insert(*e, 0);
            } else if let Some(n) = self.ended.get_mut(e) {
                *n += (w.get::<Disconnected>(*e).is_some() && w.get::<Linked>(*e).is_some()) as u32;
                if *n > 2 {
                    rec.viol("C13", "ended-not-removed", format!("server link {e} is still there {n} frames after its connection ended"));
                }
            }
        }
        let coll: BTreeSet<Entity> = w.get::<Server>(se).map(|s| s.collection().iter().copied().collect()).unwrap_or_default();
        if coll != links.iter().copied().collect() {
            rec.viol("C13", "collection", format!("the server's collection has {} links, {} exist", coll.len(), links.len()));
        }
        let states = [w.get::<Started>(se).is_some(), w.get::<Starting>(se).is_some(), w.get::<Stopping>(se).is_some(), w.get::<Stopped>(se).is_some()];
        if states.iter().filter(|x| **x).count() > 1 {
            rec.viol("C13", "two-server-states", format!("server states {states:?}"));
        }
        let map: BTreeMap<u64, Entity> = w.resource::<NetworkingMetadata>().peer_map.iter().filter(|(p, _)| **p != PeerId::Server).map(|(p, e)| (p.to_bits(), *e)).collect();
        let want: BTreeMap<u64, Entity> = up.iter().map(|(e, x)| (x.1.to_bits(), *e)).collect();
        if map != want {
            rec.viol("C13", "peer-lookup", format!("peer lookup has {map:?}, connected are {want:?}"));
        }
        let sm = w.resource::<NetworkingMetadata>().peer_map.get(&PeerId::Server).copied();
        if states[0] && sm != Some(se) || states[3] && sm.is_some() {
            rec.viol("C13", "server-lookup", format!("server lookup {sm:?} in states {states:?}"));
        }
        if states[3] && !(up.is_empty() && links.is_empty()) {
            rec.viol("C13", "left-behind", format!("stopped server still has {} links, {} connected", links.len(), up.len()));
        }
        if !self.srv_up && self.stop_since > 0 && !states[3] && self.srv_prev > self.stop_since + 2_000_000 {
            rec.viol("C13", "never-stopped", format!("server asked to stop at {} is in {states:?}", self.stop_since));
        }
        self.transitions(0, rec);
    }

    fn transitions(&mut self, node: i64, rec: &mut Rec) {
        let w = if node == 0 { self.srv.world_mut() } else { self.cls[node as usize - 1].app.world_mut() };
        let t = core::mem::take(&mut w.resource_mut::<Trans>().0);
        for (e, s) in t {
            let prev = self.trans.insert((node, e), s);
            rec.log(&[8, node as u64, s as u64]);
            if prev == Some(s) {
                rec.viol("C13", "repeated-state-change", format!("node {node} entity {e} reported {} twice in a row", ["Disconnected", "Connected", "Connecting"][s as usize]));
            }
        }
    }

    fn client_frame(&mut self, i: usize, rec: &mut Rec) {
        let node = i as i64 + 1;
        let now = self.cls[i].next;
        let dt = now - self.cls[i].last;
        self.cls[i].prev = self.cls[i].last;
        self.cls[i].last = now;
        self.clocks(node, now);
        rec.steps += 1;
        let mine = addr(node, self.cls[i].port);
        let e = self.cls[i].ent;
        let (st0, _) = state(self.cls[i].app.world(), e);
        let linked = self.cls[i].app.world().get::<Linked>(e).is_some();
        let mut arr: Vec<Meta> = vec![];
        for p in self.net.take(node, now) {
            // an old address no longer reaches this client; packets not from the server do, a
            // connected socket does not filter in every IO
            if p.dst != mine || !linked {
                continue;
            }
            let m = self.meta.get(&p.id).cloned().filter(|_| p.genuine || self.captured.iter().any(|c| c.2 == p.bytes));
            if let Some(m) = m
                && m.from == 0
            {
                let conn = self.conns.values().chain(self.old.iter()).find(|c| c.n == m.sess && c.tok == m.tok);
                self.toks[m.tok].stale |= m.at < self.cls[i].sess_at || self.toks[m.tok].runs.last().is_some_and(|r| m.inc < *r) || conn.is_some_and(|c| c.sess != self.cls[i].sess && m.at <= c.end);
                arr.push(m);
            }
            self.cls[i].app.world_mut().get_mut::<Link>(e).unwrap().recv.push_raw(bytes::BytesMut::from(&p.bytes[..]));
        }
        let cl = &mut self.cls[i];
        cl.app.insert_resource(TimeUpdateStrategy::ManualDuration(Duration::from_micros(dt)));
        cl.app.update();
        self.drain_out(node, now, rec);

        let (st1, n) = state(self.cls[i].app.world(), e);
        if n != 1 {
            rec.viol("C13", "client-states", format!("client {i} carries {n} connection states"));
        }
        let was = self.cls[i].st;
        self.cls[i].st = st1;
        let tok = self.cls[i].tok;
        let (sess, sess_at) = (self.cls[i].sess, self.cls[i].sess_at);
        let ins = self.cls[i].insider;
        // my server connection(s) of this session
        let mine_n: Vec<u64> = self.conns.values().chain(self.old.iter()).filter(|c| Some(c.tok) == tok && c.sess == sess && c.cl == i).map(|c| c.n).collect();
        if was != St::Up && st1 == St::Up {
            rec.stat("probe.client_connections", 1);
            rec.log(&[9, i as u64, sess]);
            rec.trace(|| format!("client {i} connected (session {sess})"));
            let t = tok.unwrap();
            if mine_n.is_empty() && !ins {
                rec.viol("C09", self.class_same(t, "client-connected-alone"), format!("client {i} reports itself connected, but the server never accepted it in this session"));
            }
            let lid = self.cls[i].app.world().get::<LocalId>(e).map(|x| x.0);
            if lid != Some(PeerId::Netcode(self.toks[t].client_id)) && !ins {
                rec.viol("C09", self.class_same(t, "client-wrong-id"), format!("client {i} is connected as {lid:?}, its token is for {}", self.toks[t].client_id));
            }
            let mut rx = Recv { last: now, ..Default::default() };
            let mut started = false;
            for m in &arr {
                if started && m.kind >= KEEP_ALIVE && Some(m.tok) == tok {
                    rx.accept(m.seq, now);
                }
                if m.kind == KEEP_ALIVE && Some(m.tok) == tok {
                    started = true;
                }
            }
            rx.last = now;
            self.cls[i].rx = rx;
        } else if was == St::Up && st1 == St::Up {
            let passed: HashSet<u64> = self.cls[i].app.world().resource::<Passed>().0.iter().filter(|x| x.1.len() >= 12).map(|x| u64::from_le_bytes(x.1[..8].try_into().unwrap())).collect();
            for m in &arr {
                if m.kind < KEEP_ALIVE || Some(m.tok) != tok {
                    continue;
                }
                if !mine_n.contains(&m.sess) {
                    self.cls[i].tainted = true;
                    self.cls[i].rx.last = now;
                    continue;
                }
                let max = self.cls[i].rx.max;
                let fresh = self.cls[i].rx.accept(m.seq, now);
                let taint = self.cls[i].tainted;
                if m.kind == PAYLOAD && fresh && m.seq + 200 > max && !taint && !ins {
                    if let Some(u) = m.uid
                        && self.sent.contains_key(&u)
                        && !passed.contains(&u)
                        && self.got.get(&u).copied().unwrap_or(0) == 0
                    {
                        rec.viol("C10", self.class_same(m.tok, "genuine-payload-dropped"), format!("payload {u} (sequence {:x}, newest before it {max:x}) for client {i} arrived while connected but was not passed up", m.seq));
                        self.also_c22(rec, &self.class_same(m.tok, "genuine-payload-dropped"), &format!("payload {u} for client {i}"));
                    }
                }
                if m.kind == DISCONNECT && fresh && !taint && !ins {
                    rec.viol("C11", self.class_same(m.tok, "notice-ignored"), format!("the server's disconnect notice reached client {i} but it stays connected"));
                }
            }
        }
        // passed up
        let passed = core::mem::take(&mut self.cls[i].app.world_mut().resource_mut::<Passed>().0);
        for (_, b, up) in passed {
            let uid = if b.len() >= 12 { u64::from_le_bytes(b[..8].try_into().unwrap()) } else { 0 };
            rec.log(&[7, node as u64, uid]);
            // connected and ended again by packets of one frame
            let brief = tok.is_some() && arr.iter().any(|m| m.kind == KEEP_ALIVE && Some(m.tok) == tok) && arr.iter().any(|m| m.kind == DISCONNECT && Some(m.tok) == tok);
            if !up && st0 != St::Up && was != St::Up && !brief {
                rec.viol("C10", "payload-without-connection", format!("client {i} passed up a payload of {} bytes while not connected", b.len()));
                continue;
            }
            if ins {
                continue;
            }
            match self.sent.get(&uid) {
                None => {
                    rec.viol("C10", "payload-never-sent", format!("client {i} passed up a payload the server never sent"));
                    self.also_c22(rec, "payload-never-sent", "forged payload passed up");
                }
                Some((from, to, tok2, n, bytes)) => {
                    if *bytes != b {
                        rec.viol("C10", "payload-altered", format!("payload {uid} to client {i} was altered"));
                    }
                    if *from != 0 || *to != node {
                        rec.viol("C10", "payload-misattributed", format!("payload {uid} from node {from} to node {to} passed up at client {i}"));
                    } else if !mine_n.contains(n) {
                        rec.viol("C10", self.class_same(*tok2, "payload-of-another-session"), format!("payload {uid} of an earlier session passed up at client {i}"));
                    }
                    let g = self.got.entry(uid).or_insert(0);
                    *g += 1;
                    let g = *g;
                    if g > 1 {
                        let c = self.class_same(*tok2, "payload-twice");
                        rec.viol("C10", c, format!("payload {uid} passed up {g} times at client {i}"));
                    }
                    rec.stat("net.messages_delivered", 1);
                }
            }
        }
        // the end of a connection
        if was == St::Up && st1 != St::Up {
            let t = tok.unwrap();
            let timeout = self.toks[t].timeout;
            let notice = arr.iter().any(|m| m.kind == DISCONNECT && m.tok == t && mine_n.contains(&m.sess));
            let stale = arr.iter().any(|m| m.kind == DISCONNECT && m.tok == t && !mine_n.contains(&m.sess));
            let silent = now - self.cls[i].rx.last;
            let timed = timeout > 0 && silent + 1000 >= timeout as u64 * 1_000_000;
            if notice || timed || stale {
                self.notice_due.retain(|x| x.1 != node);
            }
            let op = self.cls[i].asked.is_some() || self.cls[i].unlinked;
            rec.log(&[11, i as u64, notice as u64, timed as u64, op as u64]);
            rec.trace(|| format!("client {i} disconnected (notice {notice} op {op} silent {silent}us)"));
            rec.stat(if op { "probe.client_ended_by_operation" } else if notice { "probe.client_heard_notice" } else { "probe.client_timed_out" }, 1);
            if !notice && !timed && !op && !ins && !self.cls[i].tainted {
                let d = format!("client {i} ended its connection after {silent}us of silence (timeout {timeout}s) without notice or request");
                if stale {
                    rec.viol("C09", self.class_same(t, "ended-by-stale-notice"), d.clone());
                    rec.viol("C11", self.class_same(t, "ended-by-stale-notice"), d.clone());
                } else {
                    rec.viol("C11", self.class_same(t, "healthy-dropped"), d.clone());
                    if self.attacked {
                        rec.viol("C09", self.class_same(t, "ended-by-forgery"), d.clone());
                    }
                }
                self.also_c22(rec, &self.class_same(t, "healthy-dropped"), &d);
            }
        }
        if st1 == St::Up {
            let t = self.toks[tok.unwrap()].timeout;
            let silent = now - self.cls[i].rx.last;
            if t > 0 && silent > t as u64 * 1_000_000 + 2000 && !ins {
                rec.viol("C11", "dead-not-noticed", format!("client {i} keeps its connection {silent}us after the server's last packet (timeout {t}s)"));
            }
        }
        // a connection attempt must come to an end
        if st1 == St::Connecting && !ins {
            let tk = &self.toks[tok.unwrap()];
            let n_addr = self.c.get("addrs").max(1) as u64;
            let budget = n_addr * if tk.timeout > 0 { 2 * tk.timeout as u64 * 1_000_000 } else { 40_000_000 } + 4 * dt + 1_000_000;
            // every answer of the server restarts the timer, so the bound holds only for a quiet server
            if now > sess_at + budget + 2_000_000 && !self.attacked && tk.timeout > 0 && now > sess_at + n_addr * 3 * tk.timeout as u64 * 1_000_000 + 2_000_000 {
                rec.viol("C11", "attempt-never-ends", format!("client {i} has been connecting for {}us", now - sess_at));
                rec.viol("C12", "refused-without-failure", format!("client {i} has been connecting for {}us", now - sess_at));
            }
        }
        // lookup on the client
        let w = self.cls[i].app.world();
        let pm = w.resource::<NetworkingMetadata>().peer_map.get(&PeerId::Server).copied();
        if (st1 == St::Up) != (pm == Some(e)) || (pm.is_some() && pm != Some(e)) {
            rec.viol("C13", "client-peer-lookup", format!("client {i} is {st1:?}, its lookup of the server gives {pm:?}"));
        }
        self.transitions(node, rec);
        // orderly disconnects must put at least one notice on the wire
        if st1 != St::Up && was != St::Up {
            self.cls[i].asked = None;
            if self.cls[i].unlinked && linked {
                self.cls[i].unlinked = false;
            }
        }
    }

    fn check_notices(&mut self, now: u64, rec: &mut Rec) {
        let cls: Vec<bool> = self.cls.iter().map(|c| c.insider || c.unlinked).collect();
        let (srv_last, lasts): (u64, Vec<u64>) = (self.srv_prev, self.cls.iter().map(|c| c.prev).collect());
        let late: Vec<(u64, i64, u64)> = self
            .notice_due
            .iter()
            .filter(|x| {
                let l = if x.1 == 0 { srv_last } else { lasts[x.1 as usize - 1] };
                now > x.0 + 100_000 && l > x.0 + 60_000
            })
            .copied()
            .collect();
        for x in late {
            self.notice_due.retain(|y| *y != x);
            if x.1 == 0 || !cls[x.1 as usize - 1] {
                let tok = if x.1 == 0 { self.conns.values().chain(self.old.iter().rev()).find(|c| c.addr == x.2).map(|c| c.tok) } else { self.cls[x.1 as usize - 1].tok };
                let class = tok.map_or("no-notice-sent".to_string(), |t| self.class_same(t, "no-notice-sent"));
                rec.viol("C11", class, format!("node {} was asked to disconnect at {} and sent no notice (address {})", x.1, x.0, x.2));
            }
        }
    }
}

pub fn run(c: &Case, rec: &mut Rec) {
    let k = c.get("k").clamp(1, 4) as usize;
    mock_instant::global::MockClock::set_time(Duration::from_micros(1_000_000_000));
    lightyear_transport::sim_hooks::set_now_nanos(1_000_000_000_000);
    lightyear_netcode::sim_hooks::set_unix_seconds(WALL0);
    lightyear_link::sim_hooks::set_seed(c.seed);
    let mut net = Net::new(c);
    net.opaque = true;
    let denied: Vec<u64> = {
        let m = c.get("deny_mask");
        let same = c.get("same_id");
        (0..k).filter(|i| m & (1 << i) != 0).map(|i| if same > 0 && (i as i64) <= same { 77 } else { 100 + i as u64 }).collect()
    };
    let (srv, se) = server_app(c, denied);
    let cls = (0..k)
        .map(|i| {
            let (app, ent) = client_app(c);
            Cl {
                app,
                ent,
                port: 0,
                tok: None,
                sess: 0,
                sess_at: 0,
                st: St::Down,
                rx: Recv::default(),
                next: 1 + hash(&[c.seed, 5, i as u64]) % c.get("frame1_us").max(1000) as u64,
                last: 0,
                prev: 0,
                insider: c.get("insider") == i as i64 + 1,
                notices: 0,
                asked: None,
                tainted: false,
                unlinked: false,
                ins_seq: 0,
                linked_at: 0,
            }
        })
        .collect();
    let mut s = Sim {
        c,
        net,
        srv,
        se,
        srv_next: 1,
        srv_last: 0,
        inc: 0,
        started_at: 0,
        issued: HashSet::new(),
        reused: vec![],
        used_seq: HashMap::new(),
        srv_up: false,
        links: BTreeMap::new(),
        ended: BTreeMap::new(),
        conns: BTreeMap::new(),
        old: vec![],
        ncon: 0,
        req_ok: HashSet::new(),
        cls,
        toks: vec![],
        meta: HashMap::new(),
        captured: vec![],
        sent: HashMap::new(),
        got: HashMap::new(),
        next_uid: 1_000_000,
        srv_op: HashSet::new(),
        srv_all: 0,
        srv_prev: 0,
        trans: HashMap::new(),
        attacked: false,
        notice_due: vec![],
        stop_since: 0,
    };
    s.op(&Op { t: 0, node: 0, kind: "start".into(), args: vec![] }, 0, rec);
    let ops = c.ops.clone();
    let mut oi = 0;
    let t_stop = c.last_t() + 1;
    let mut max_to = 1u64;
    for o in &c.ops {
        if o.kind == "connect" {
            max_to = max_to.max(o.args.get(2).copied().unwrap_or(1).max(1) as u64);
        }
    }
    // after the last fault: wait until every old connection is gone, then everyone reconnects
    let t_final = t_stop + (max_to + 2) * 1_000_000;
    let t_check = t_final + 2_500_000;
    let t_end = t_check + (max_to * 1_000_000 + 800_000).min(2_000_000);
    let mut fin = 0;
    let mut chosen: Vec<usize> = vec![];
    loop {
        // who runs next
        let mut node = 0i64;
        let mut now = s.srv_next;
        for i in 0..k {
            if s.cls[i].next < now {
                now = s.cls[i].next;
                node = i as i64 + 1;
            }
        }
        let mut stalled = false;
        for f in &c.faults {
            if f.kind == "stall" && f.src == node && now >= f.t0 && now < f.t1 {
                rec.stat("fault.stall", 1);
                if node == 0 {
                    s.srv_next = f.t1 + 1;
                } else {
                    s.cls[node as usize - 1].next = f.t1 + 1;
                }
                stalled = true;
                break;
            }
        }
        if stalled {
            continue;
        }
        rec.now = now;
        while oi < ops.len() && ops[oi].t <= now {
            let o = ops[oi].clone();
            oi += 1;
            s.op(&o, now, rec);
        }
        if fin == 0 && now >= t_stop && oi >= ops.len() {
            fin = 1;
            if !s.srv_up {
                // an application restarts its server
                s.op(&Op { t: now, node: 0, kind: "start".into(), args: vec![] }, now, rec);
                if !s.srv_up {
                    fin = 0;
                }
            }
        }
        if fin == 1 && now >= t_final {
            fin = 2;
            let max = c.get("max_clients").max(1) as usize;
            let mut free = max.saturating_sub(s.conns.len());
            let denied = s.denied();
            let up_ids: HashSet<u64> = s.conns.values().map(|x| s.toks[x.tok].client_id).collect();
            let mut ids: HashSet<u64> = HashSet::new();
            for i in 0..k {
                let id = s.client_id(i);
                if s.cls[i].insider || denied.contains(&id) || up_ids.contains(&id) || ids.contains(&id) || s.cls[i].st != St::Down || free == 0 {
                    continue;
                }
                if c.get("insider") > 0 && s.client_id(c.get("insider") as usize - 1) == id {
                    continue;
                }
                let flags = if hash(&[c.seed, 900, i as u64]) % 2 == 0 { 2 } else { 0 };
                let to = if hash(&[c.seed, 901, i as u64]) % 4 == 0 { -1 } else { max_to as i64 };
                if s.connect(i, 0, 60, to, flags, now, rec) {
                    chosen.push(i);
                    ids.insert(id);
                    free -= 1;
                }
            }
            rec.stat("probe.final_connects", chosen.len() as u64);
        }
        if fin == 2 && now >= t_check {
            fin = 3;
            for i in chosen.clone() {
                let sv = s.conns.values().any(|x| x.cl == i && Some(x.tok) == s.cls[i].tok);
                if s.cls[i].st != St::Up || !sv {
                    let d = format!("client {i} with a valid token cannot connect to the healthy server with free slots within 2.5 s (client {:?}, server connected {sv})", s.cls[i].st);
                    rec.viol("C11", "cannot-connect", d.clone());
                    rec.viol("C12", "slot-not-freed", d.clone());
                    s.also_c22(rec, "cannot-connect", &d);
                }
            }
        }
        if now >= t_end && fin == 3 {
            for i in chosen.clone() {
                if s.cls[i].st != St::Up {
                    rec.viol("C11", "healthy-dropped", format!("client {i} lost its connection on a healthy network"));
                }
            }
            for (t, d) in core::mem::take(&mut s.reused) {
                if s.toks[t].sessions <= 1 && s.toks[t].scon <= 1 && s.toks[t].runs.len() <= 1 && !s.toks[t].stale {
                    rec.viol("C10", "sequence-reused", d);
                }
            }
            rec.stat("probe.settled", 1);
            break;
        }
        if node == 0 {
            s.server_frame(rec);
            let p = c.get("frame0_us").max(1000) as u64;
            s.srv_next = now + p / 2 + hash(&[c.seed, 21, now]) % p;
        } else {
            let i = node as usize - 1;
            s.client_frame(i, rec);
            let p = c.get("frame1_us").max(1000) as u64;
            s.cls[i].next = now + p / 2 + hash(&[c.seed, 22, node as u64, now]) % p;
        }
        s.check_notices(now, rec);
        if rec.stop() || rec.steps > 40_000 {
            break;
        }
    }
    rec.sim_us = rec.now;
    let fired: u64 = rec.stats.iter().filter(|(k, _)| k.starts_with("fault.") || k.starts_with("attack.")).map(|(_, v)| *v).sum();
    if rec.stats.get("probe.server_connections").copied().unwrap_or(0) > 0 && fired > 0 {
        rec.stat("nontrivial", 1);
    }
    let _ = (s.cls.iter().map(|c| c.notices + c.linked_at).sum::<u64>(), s.toks.iter().map(|t| t.private.len()).sum::<usize>());
    let _ = s.meta.values().map(|m| m.inc).max();
}

pub fn generate(prop: &str, seed: u64, tier: Tier) -> Case {
    let mut r = Rng::new(seed);
    let mut c = Case::new(prop, "N", seed);
    let k = r.range(1, if prop == "C12" { 4 } else { 3 });
    c.set("k", k);
    c.set("tick_us", 16_000);
    c.set("frame0_us", *r.pick(&[10_000, 16_000, 33_000]));
    c.set("frame1_us", *r.pick(&[10_000, 16_000, 40_000]));
    c.set("net_delay_us", *r.pick(&[1_000, 10_000, 40_000, 120_000]));
    c.set("net_jitter_us", *r.pick(&[0, 3_000, 20_000]));
    c.set("max_clients", if prop == "C12" || r.chance(1, 4) { r.range(1, k) } else { 8 });
    c.set("ndisc", *r.pick(&[1, 3, 10]));
    c.set("ka_ms", *r.pick(&[50, 100, 100, 250]));
    c.set("addr_check", r.range(0, 1));
    if hash(&[seed, 0x61646472]) % 7 == 0 {
        c.set("addrs", 2 + (seed % 2) as i64);
    }
    if r.chance(1, 5) {
        c.set("extra_addr", 1);
    }
    if hash(&[seed, 0x6c61]) % 3 == 0 {
        c.set("laddr", 1 + (hash(&[seed, 0x6c62]) % 4) as i64);
        c.set("addr_check", (hash(&[seed, 0x6c63]) % 4 != 0) as i64);
    }
    if r.chance(1, if prop == "C12" { 3 } else { 8 }) {
        c.set("deny_mask", 1 << r.range(0, k - 1));
    }
    if k > 1 && r.chance(1, if prop == "C12" { 3 } else { 8 }) {
        c.set("same_id", r.range(1, k - 1));
    }
    let attack = match prop {
        "C09" | "C22" => !r.chance(1, 5),
        "C10" => r.chance(2, 3),
        _ => r.chance(1, 4),
    };
    if attack && k > 1 && r.chance(if prop == "C22" { 2 } else { 1 }, 3) {
        c.set("insider", r.range(1, k));
    }
    for n in 0..=k {
        if r.chance(1, 6) {
            c.set(&format!("skew{n}"), r.range(-3, 3));
        }
    }
    let t_end: i64 = r.range(2_000_000, if tier == Tier::Thorough { 12_000_000 } else { 7_000_000 });
    let reuse_ok = r.chance(1, 12);
    let to = |r: &mut Rng| *r.pick(&[1, 1, 2, 3, -1]);
    // first connects
    for i in 1..=k {
        let t = r.range(0, 300_000) as u64;
        let kind = if prop == "C09" && r.chance(1, 4) { r.range(1, 4) } else { 0 };
        let x = to(&mut r);
        c.op(t, i, "connect", &[kind, if r.chance(1, 8) { r.range(0, 2) } else { 30 }, x, 0]);
    }
    let n_ops = r.range(2, if prop == "C10" { 6 } else { 14 });
    for _ in 0..n_ops {
        let t = r.range(50_000, t_end) as u64;
        let i = r.range(1, k);
        match r.range(0, 19) {
            0..=7 => {
                let kind = if r.chance(1, if prop == "C09" { 3 } else { 10 }) { r.range(1, 4) } else { 0 };
                let mut fl = if r.chance(1, 3) { 2 } else { 0 };
                if reuse_ok && r.chance(1, 2) {
                    fl |= 1;
                }
                let x = to(&mut r);
                c.op(t, i, "connect", &[kind, if r.chance(1, 8) { r.range(0, 2) } else { 30 }, x, fl]);
            }
            8..=11 => {
                c.op(t, i, "disc", &[]);
                if r.chance(2, 3) {
                    let x = to(&mut r);
                    let d = r.range(1_000, 1_500_000) as u64;
                    let fl = if r.chance(1, 3) { 2 } else { 0 } | if reuse_ok && r.chance(1, 2) { 1 } else { 0 };
                    c.op(t + d, i, "connect", &[0, 30, x, fl]);
                }
            }
            12 => c.op(t, i, "unlink", &[]),
            13 => c.op(t, i, "crash", &[]),
            14 => c.op(t, i, "rebind", &[]),
            15 => {
                c.op(t, 0, "stop", &[]);
                let d = r.range(30_000, 1_500_000) as u64;
                c.op(t + d, 0, "start", &[]);
                let x = to(&mut r);
                c.op(t + d + 100_000, i, "connect", &[0, 30, x, 0]);
            }
            16 => {
                c.op(t, 0, "unlink_server", &[]);
                let d = r.range(30_000, 1_500_000) as u64;
                c.op(t + d, 0, "start", &[]);
            }
            17 => c.op(t, 0, *r.pick(&["unlink_link", "despawn_link", "despawn_only"]), &[i - 1]),
            18 => c.op(t, 0, "crash_server", &[]),
            _ => {
                c.op(t, i, "connect", &[0, 30, 1, 2]);
                c.op(t + r.range(1000, 200_000) as u64, i, "disc", &[]);
            }
        }
    }
    let n_b = r.range(1, if prop == "C10" { 25 } else { 6 });
    for _ in 0..n_b {
        let t = r.range(300_000, t_end) as u64;
        let node = r.range(0, k);
        let n = if prop == "C10" && r.chance(1, 5) { r.range(50, 300) } else { r.range(1, 20) };
        c.op(t, node, "burst", &[n, r.range(0, k - 1), *r.pick(&[20, 200, 1150])]);
    }
    if attack {
        let n = r.range(2, 20);
        for _ in 0..n {
            let t = r.range(30_000, t_end) as u64;
            let kind = match r.range(0, 11) {
                0 | 1 => 0,
                2..=4 => 1,
                5 | 6 => 2,
                7 | 8 => 3,
                9 => 4,
                _ => 5,
            };
            c.op(t, ATT, "atk", &[kind, r.range(0, 1 << 30), r.range(0, 1 << 30), r.range(0, k), r.range(1, 8)]);
        }
    }
    if attack {
        let starts: Vec<u64> = c.ops.iter().filter(|o| o.kind == "start").map(|o| o.t).collect();
        for (n, t) in starts.into_iter().enumerate() {
            let h = |s: u64| hash(&[seed, 0x6873, n as u64, s]);
            if h(0) % 2 == 0 {
                c.op(t + 20_000 + h(1) % 300_000, ATT, "atk", &[6, (h(2) % (1 << 30)) as i64, (h(3) % (1 << 30)) as i64, 0, 1]);
            }
        }
    }
    if !r.chance(1, 6) {
        super::transport::net_faults(&mut r, &mut c, t_end as u64, 2, k + 1);
    }
    // long outages, one way or both, around the timeouts
    if r.chance(1, 2) {
        let t0 = r.range(200_000, t_end) as u64;
        let len = *r.pick(&[700_000, 950_000, 1_100_000, 2_500_000, 3_300_000]);
        let i = r.range(1, k);
        let (a, b) = *r.pick(&[(0, i), (i, 0), (-1, i), (i, -1), (0, -1), (-1, -1)]);
        c.fault(t0, t0 + len, "part", a, b, &[]);
    }
    if r.chance(1, 8) {
        c.fault(r.range(100_000, t_end) as u64, t_end as u64, "clockjump", r.range(0, k), -1, &[r.range(-20, 40)]);
    }
    // one token for two quiet sessions with a lot of traffic in each
    if (prop == "C10" || prop == "C11") && r.chance(1, 12) {
        c.ops.retain(|o| o.kind == "burst" && r.chance(1, 3));
        c.faults.clear();
        c.set("insider", 0);
        c.set("same_id", 0);
        c.set("max_clients", 8);
        c.set("deny_mask", 0);
        let i = r.range(1, k);
        let mut t = r.range(0, 300_000) as u64;
        for s in 0..r.range(2, 3) {
            c.op(t, i, "connect", &[0, 600, *r.pick(&[2, 3, -1]), if s > 0 { 1 } else { 0 }]);
            t += 1_000_000;
            for _ in 0..r.range(1, 4) {
                let (node, n) = if r.chance(1, 2) { (0, r.range(50, 400)) } else { (i, r.range(50, 400)) };
                c.op(t, node, "burst", &[n, i - 1, *r.pick(&[20, 200])]);
                t += r.range(50_000, 300_000) as u64;
            }
            t += 500_000;
            c.op(t, i, "disc", &[]);
            t += r.range(800_000, 2_000_000) as u64;
        }
    }
    // one account from two addresses, both waiting: the second takes over in the very frame in
    // which the server learns that the first has gone
    if matches!(prop, "C09" | "C11" | "C12" | "C13") && k > 1 && r.chance(1, 12) {
        c.ops.clear();
        c.faults.clear();
        c.set("insider", 0);
        c.set("same_id", 1);
        c.set("max_clients", r.range(1, 4));
        c.set("deny_mask", 0);
        c.set("net_jitter_us", *r.pick(&[0, 3_000]));
        let mut t = r.range(0, 300_000) as u64;
        for _ in 0..r.range(1, 4) {
            let first = r.range(1, 2);
            for i in [first, 3 - first] {
                c.op(t, i, "connect", &[0, 600, *r.pick(&[2, 3, -1]), 2 * r.range(0, 1)]);
                t += *r.pick(&[0u64, 0, 1_000, 30_000]);
            }
            t += r.range(400_000, 900_000) as u64;
            let long = r.range(100_000, 600_000) as u64;
            c.fault(t, t + long, "stall", 0, -1, &[]);
            for i in [first, 3 - first] {
                let at = t + r.range(0, long as i64 + 100_000) as u64;
                if r.chance(2, 3) {
                    c.op(at, i, *r.pick(&["disc", "disc", "disc", "unlink", "crash"]), &[]);
                }
                c.op(t + long + 900_000, i, "disc", &[]);
            }
            t += long + 1_500_000 + r.range(0, 4_000_000) as u64;
        }
    }
    c.sort();
    c
}
