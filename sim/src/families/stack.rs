//! Family M: the full stack. A server and several clients (and, in some runs, a client inside the
//! server process), each a real bevy App with the real link, netcode, connection, transport, message
//! and time-synchronisation plugins, joined by the simulated network. Decides C14-C17 and C23, and
//! the full-stack part of C07 and C22.
use crate::case::{Case, Op};
use crate::families::netcode::{KEY, PROTO, server_sock, sock};
use crate::net::{Net, addr, node_of};
use crate::rec::Rec;
use crate::rng::{Rng, hash};
use crate::runner::Tier;
use aeronet_io::connection::{LocalAddr, PeerAddr};
use bevy_app::prelude::*;
use bevy_ecs::entity::MapEntities;
use bevy_ecs::prelude::*;
use bevy_ecs::system::SystemState;
use bevy_time::TimeUpdateStrategy;
use bytes::Bytes;
use core::net::SocketAddr;
use core::time::Duration;
use lightyear_connection::client::{Connecting, Disconnecting};
use lightyear_connection::host::{HostClient, HostPlugin};
use lightyear_connection::network_target::NetworkTarget;
use lightyear_connection::prelude::NetworkDirection;
use lightyear_connection::prelude::client::{Client, Connect, Connected, Disconnect, Disconnected};
use lightyear_connection::prelude::server::{ClientOf, Start, Stop};
use lightyear_connection::prelude::*;
use lightyear_core::id::{PeerId, RemoteId};
use lightyear_core::plugin::CorePlugins;
use lightyear_core::prelude::{LocalTimeline, NetworkTimeline, Tick};
use lightyear_core::time::TickInstant;
use lightyear_core::timeline::{Timeline, TimelineConfig};
use lightyear_link::prelude::*;
use lightyear_messages::{Message, MessageManager};
use lightyear_messages::prelude::*;
use lightyear_sync::prelude::{PingConfig, PingManager};
use lightyear_messages::server::ServerMultiMessageSender;
use lightyear_netcode::ConnectToken;
use lightyear_netcode::prelude::Authentication;
use lightyear_netcode::prelude::client::{NetcodeClient, NetcodeClientPlugin};
use lightyear_netcode::prelude::server::{NetcodeServer, NetcodeServerPlugin, TokenUserData};
use lightyear_transport::channel::ChannelKind;
use lightyear_transport::plugin::{PacketReceived, TransportPlugin, TransportSystems};
use lightyear_link::server::ServerLinkPlugin;
use lightyear_transport::prelude::*;
use lightyear_serde::reader::{ReadInteger, Reader};
use lightyear_serde::writer::WriteInteger;
use lightyear_serde::{SerializationError, ToBytes};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashMap, HashSet};

#[path = "sync.rs"]
pub mod sync;

const WALL0: u64 = 1_700_000_000;

// ---------------------------------------------------------------------------------------------
// protocol

macro_rules! chans { ($($n:ident),*) => { $(#[derive(Debug)] pub struct $n;)* } }
chans!(Ro, Ru, Sr, Uu, Su, To, Tr, Tu);
pub const RO: i64 = 0;
pub const RU: i64 = 1;
pub const SR: i64 = 2;
pub const UU: i64 = 3;
pub const SU: i64 = 4;
pub const TO: i64 = 5;
pub const TR: i64 = 6;
pub const TU: i64 = 7;

fn reliable(ch: i64) -> bool {
    matches!(ch, RO | RU | TO | TR)
}
/// tick order with wrap-around
fn before(a: u32, b: u32) -> bool {
    (b.wrapping_sub(a) as i32) > 0
}

fn ordered(ch: i64) -> bool {
    matches!(ch, RO | TO)
}
fn on_lag(ch: i64) -> bool {
    matches!(ch, TO | TR | TU)
}
fn ch_of(k: ChannelKind) -> i64 {
    let all = [
        ChannelKind::of::<Ro>(),
        ChannelKind::of::<Ru>(),
        ChannelKind::of::<Sr>(),
        ChannelKind::of::<Uu>(),
        ChannelKind::of::<Su>(),
        ChannelKind::of::<To>(),
        ChannelKind::of::<Tr>(),
        ChannelKind::of::<Tu>(),
    ];
    all.iter().position(|x| *x == k).map(|x| x as i64).unwrap_or(-1)
}

/// A timeline owned by the harness: what a user's interpolation-like timeline is to the library.
#[derive(Component, Default)]
pub struct LagCfg;
#[derive(Component, Default)]
pub struct LagTimeline(Timeline<LagCfg>);
impl TimelineConfig for LagCfg {
    type Context = ();
    type Timeline = LagTimeline;
}
impl core::ops::Deref for LagTimeline {
    type Target = Timeline<LagCfg>;
    fn deref(&self) -> &Self::Target {
        &self.0
    }
}
impl core::ops::DerefMut for LagTimeline {
    fn deref_mut(&mut self) -> &mut Self::Target {
        &mut self.0
    }
}

/// content that cannot be serialized: part of it is written before that turns out
const POISON: [u8; 5] = [0xde, 0xad, 0, 0xde, 0xad];
const BAD_ID: u64 = u64::MAX - 7;
/// a channel that no connection has
#[derive(Debug)]
pub struct Xx;
fn ser_data<S: serde::Serializer>(d: &Vec<u8>, s: S) -> Result<S::Ok, S::Error> {
    if d[..] == POISON {
        return Err(serde::ser::Error::custom("this content cannot be serialized"));
    }
    d.serialize(s)
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct MsgA {
    pub id: u64,
    #[serde(serialize_with = "ser_data")]
    pub data: Vec<u8>,
}
/// serialised by the repository's own encoding instead of serde
#[derive(Clone, Debug, PartialEq)]
pub struct MsgB {
    pub id: u64,
    pub data: Vec<u8>,
}
impl ToBytes for MsgB {
    fn bytes_len(&self) -> usize {
        8 + self.data.bytes_len()
    }
    fn to_bytes(&self, buffer: &mut impl WriteInteger) -> Result<(), SerializationError> {
        buffer.write_u64(self.id)?;
        if self.data[..] == POISON {
            return Err(SerializationError::InvalidValue);
        }
        self.data.to_bytes(buffer)
    }
    fn from_bytes(buffer: &mut Reader) -> Result<Self, SerializationError> {
        Ok(MsgB { id: buffer.read_u64()?, data: Vec::from_bytes(buffer)? })
    }
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct MsgE {
    pub id: u64,
    #[serde(serialize_with = "ser_data")]
    pub data: Vec<u8>,
    pub ents: Vec<Entity>,
}
#[derive(Event, Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct EvA {
    pub id: u64,
    #[serde(serialize_with = "ser_data")]
    pub data: Vec<u8>,
}
#[derive(Event, Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct EvE {
    pub id: u64,
    #[serde(serialize_with = "ser_data")]
    pub data: Vec<u8>,
    pub ents: Vec<Entity>,
}
impl MapEntities for MsgE {
    fn map_entities<M: EntityMapper>(&mut self, m: &mut M) {
        for e in self.ents.iter_mut() {
            *e = m.get_mapped(*e);
        }
    }
}
impl MapEntities for EvE {
    fn map_entities<M: EntityMapper>(&mut self, m: &mut M) {
        for e in self.ents.iter_mut() {
            *e = m.get_mapped(*e);
        }
    }
}
pub const TY_A: i64 = 0;
pub const TY_B: i64 = 1;
pub const TY_E: i64 = 2;
pub const TY_EVA: i64 = 3;
pub const TY_EVE: i64 = 4;
fn has_ents(ty: i64) -> bool {
    ty == TY_E || ty == TY_EVE
}
fn is_event(ty: i64) -> bool {
    ty >= TY_EVA
}

fn content(id: u64, ty: i64, size: usize) -> Vec<u8> {
    (0..size).map(|k| hash(&[id, ty as u64, k as u64 / 8]).to_le_bytes()[k % 8]).collect()
}

// ---------------------------------------------------------------------------------------------
// harness resources living in the apps

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Wire {
    Mapped(Entity),
    Raw(Entity),
}
#[derive(Debug)]
pub struct SendRec {
    id: u64,
    /// how many connection events the frame had seen
    at: usize,
    /// connection entity, and how each entity of the message goes on its wire
    dests: Vec<(Entity, Vec<(Entity, Wire)>)>,
}
#[derive(Debug, Clone)]
pub struct Got {
    ent: Option<Entity>,
    from: Option<PeerId>,
    ty: i64,
    id: u64,
    data: Vec<u8>,
    ents: Vec<Entity>,
    tick: Option<u32>,
    ch: i64,
    peek: bool,
}
#[derive(Resource, Default)]
pub struct Logs {
    sends: Vec<SendRec>,
    got: Vec<Got>,
    packets: Vec<(Entity, u32)>,
    noread: bool,
    /// harness model: connection entity -> (remote, local) pairs it associated
    assoc: HashMap<Entity, Vec<(Entity, Entity)>>,
    /// entities the application created to talk about
    own: Vec<Entity>,
    pub trans: Vec<(Entity, u8)>,
    // time
    pub fixed_ticks: Vec<u32>,
    pub shifts: Vec<i32>,
    /// per-tick messages received: connection, tick they are for, own tick when they came in
    pub ticks: Vec<(Entity, u32, u32)>,
}
impl Logs {
    fn sent(&mut self, id: u64, dests: Vec<(Entity, Vec<(Entity, Wire)>)>) {
        let at = self.trans.len();
        self.sends.push(SendRec { id, at, dests });
    }
}
#[derive(Resource, Default)]
pub struct Outbox(pub Vec<(Entity, Option<SocketAddr>, Bytes)>);
pub type OpFn = Box<dyn FnOnce(&mut World) + Send + Sync>;
#[derive(Resource, Default)]
pub struct OpQ(pub Vec<OpFn>);
/// this peer's application layer is compromised: what it puts on the wire is altered
#[derive(Resource)]
pub struct Hostile {
    rng: Rng,
    rate: u64,
    pub on: bool,
    pub n: u64,
}

fn run_ops(world: &mut World) {
    let v = core::mem::take(&mut world.resource_mut::<OpQ>().0);
    for f in v {
        f(world);
        world.flush();
    }
}
fn collect_send(mut q: Query<(Entity, &mut Link, Option<&PeerAddr>)>, mut o: ResMut<Outbox>) {
    for (e, mut l, a) in q.iter_mut() {
        for b in l.send.drain() {
            o.0.push((e, a.map(|x| x.0), b));
        }
    }
}
fn hostile(mut q: Query<&mut Link>, h: Option<ResMut<Hostile>>) {
    let Some(mut h) = h else { return };
    if !h.on {
        return;
    }
    let h = &mut *h;
    for mut l in q.iter_mut() {
        let pkts: Vec<Bytes> = l.send.drain().collect();
        for b in pkts {
            if h.rng.range(0, 999) as u64 >= h.rate {
                l.send.push(b);
                continue;
            }
            h.n += 1;
            match crate::hostile::alter(&mut h.rng, &b) {
                Some(v) => l.send.push(Bytes::from(v)),
                None => {
                    // send it twice
                    l.send.push(b.clone());
                    l.send.push(b);
                }
            }
        }
    }
}

fn read_typed<M: Message>(
    world: &mut World,
    ty: i64,
    out: &mut Vec<Got>,
    noread: bool,
    f: impl Fn(&M) -> (u64, Vec<u8>, Vec<Entity>),
) {
    let mut q = world.query::<(Entity, &mut MessageReceiver<M>)>();
    for (e, mut r) in q.iter_mut(world) {
        if noread {
            r.retain_received_messages(|md, m| {
                let (id, data, ents) = f(m);
                out.push(Got { ent: Some(e), from: None, ty, id, data, ents, tick: Some(md.remote_tick.0), ch: ch_of(md.channel_kind), peek: true });
                true
            });
        } else {
            for m in r.receive_with_tick() {
                let (id, data, ents) = f(&m.data);
                out.push(Got { ent: Some(e), from: None, ty, id, data, ents, tick: Some(m.remote_tick.0), ch: ch_of(m.channel_kind), peek: false });
            }
        }
    }
}
fn read_all(world: &mut World) {
    let noread = world.resource::<Logs>().noread;
    let mut out = vec![];
    read_typed::<MsgA>(world, TY_A, &mut out, noread, |m| (m.id, m.data.clone(), vec![]));
    read_typed::<MsgB>(world, TY_B, &mut out, noread, |m| (m.id, m.data.clone(), vec![]));
    read_typed::<MsgE>(world, TY_E, &mut out, noread, |m| (m.id, m.data.clone(), m.ents.clone()));
    world.resource_mut::<Logs>().got.extend(out);
}

fn settings(mode: ChannelMode) -> ChannelSettings {
    ChannelSettings { mode, ..Default::default() }
}

/// The protocol both sides register, in the same order.
fn protocol(app: &mut App, sync: bool) {
    use ChannelMode::*;
    let rs = ReliableSettings::default;
    let b = NetworkDirection::Bidirectional;
    app.add_channel::<Ro>(settings(OrderedReliable(rs()))).add_direction(b);
    app.add_channel::<Ru>(settings(UnorderedReliable(rs()))).add_direction(b);
    app.add_channel::<Sr>(settings(SequencedReliable(rs()))).add_direction(b);
    app.add_channel::<Uu>(settings(UnorderedUnreliable)).add_direction(b);
    app.add_channel::<Su>(settings(SequencedUnreliable)).add_direction(b);
    app.add_channel::<To>(settings(OrderedReliable(rs())).on_timeline::<LagTimeline>()).add_direction(b);
    app.add_channel::<Tr>(settings(UnorderedReliable(rs())).on_timeline::<LagTimeline>()).add_direction(b);
    app.add_channel::<Tu>(settings(UnorderedUnreliable).on_timeline::<LagTimeline>()).add_direction(b);
    app.register_message::<MsgA>().add_direction(b);
    app.register_message_to_bytes::<MsgB>().add_direction(b);
    app.register_message::<MsgE>().add_map_entities().add_direction(b);
    app.register_event::<EvA>().add_direction(b);
    app.register_event::<EvE>().add_map_entities().add_direction(b);
    if sync {
        app.register_message::<sync::TickMsg>().add_direction(b);
    }
}

fn core_app(c: &Case) -> App {
    let mut app = App::new();
    app.add_plugins(CorePlugins { tick_duration: Duration::from_micros(c.get("tick_us").max(2000) as u64) });
    app.init_resource::<Outbox>();
    app.init_resource::<OpQ>();
    app.init_resource::<Logs>();
    app
}
fn shared(app: &mut App) {
    app.add_plugins(TransportPlugin);
    app.add_plugins(lightyear_messages::plugin::MessagePlugin);
    app.add_plugins(lightyear_connection::ConnectionPlugin);
}
fn harness(app: &mut App) {
    app.add_systems(Update, (run_ops, read_all).chain());
    app.add_systems(PostUpdate, collect_send.in_set(LinkSystems::Send));
    app.add_systems(PostUpdate, hostile.after(TransportSystems::Send).before(ConnectionSystems::Send));
    app.add_observer(|t: On<Add, Connected>, mut l: ResMut<Logs>| l.trans.push((t.entity, 1)));
    app.add_observer(|t: On<Add, Disconnected>, mut l: ResMut<Logs>| {
        l.trans.push((t.entity, 0));
        l.assoc.remove(&t.entity);
    });
    app.add_observer(|t: On<PacketReceived>, mut l: ResMut<Logs>| l.packets.push((t.entity, t.remote_tick.0)));
    app.add_observer(|t: On<RemoteEvent<EvA>>, mut l: ResMut<Logs>| {
        l.got.push(Got { ent: None, from: Some(t.from), ty: TY_EVA, id: t.trigger.id, data: t.trigger.data.clone(), ents: vec![], tick: None, ch: -1, peek: false })
    });
    app.add_observer(|t: On<RemoteEvent<EvE>>, mut l: ResMut<Logs>| {
        l.got.push(Got {
            ent: None,
            from: Some(t.from),
            ty: TY_EVE,
            id: t.trigger.id,
            data: t.trigger.data.clone(),
            ents: t.trigger.ents.clone(),
            tick: None,
            ch: -1,
            peek: false,
        })
    });
    app.add_observer(|t: On<lightyear_core::prelude::LocalTimelineShift>, mut l: ResMut<Logs>| l.shifts.push(t.delta));
    app.add_systems(FixedUpdate, |t: Res<LocalTimeline>, mut l: ResMut<Logs>| l.fixed_ticks.push(t.tick().0));
}
fn finish(app: &mut App) {
    app.finish();
    app.cleanup();
    app.insert_resource(TimeUpdateStrategy::ManualDuration(Duration::ZERO));
    app.update();
}

/// address of the second server of the process
fn server_sock2() -> SocketAddr {
    SocketAddr::from(([10, 0, 0, 2], 5000))
}
fn spawn_host(w: &mut World, se: Entity) -> Entity {
    w.spawn((Client, LinkOf { server: se }, Link::default(), Linked, LagTimeline::default())).id()
}
#[derive(Resource)]
struct Second(Entity);

pub fn server_app(c: &Case) -> (App, Entity, Option<Entity>) {
    let mut app = core_app(c);
    let host = c.get("host") != 0;
    if host {
        app.add_plugins(lightyear_sync::client::ClientPlugin);
    }
    app.add_plugins(lightyear_sync::server::ServerPlugin);
    app.add_plugins(ServerLinkPlugin);
    shared(&mut app);
    app.add_plugins(HostPlugin);
    if host {
        app.add_plugins(NetcodeClientPlugin);
    }
    app.add_plugins(NetcodeServerPlugin);
    protocol(&mut app, c.get("sync") != 0);
    sync::harness(&mut app, c, 0);
    harness(&mut app);
    let cfg = lightyear_netcode::prelude::server::NetcodeConfig { max_clients: 8, protocol_id: PROTO, private_key: KEY, ..Default::default() };
    let se = app.world_mut().spawn((NetcodeServer::new(cfg), LocalAddr(server_sock()))).id();
    let he = host.then(|| spawn_host(app.world_mut(), se));
    if c.get("two") != 0 {
        let cfg = lightyear_netcode::prelude::server::NetcodeConfig { max_clients: 8, protocol_id: PROTO, private_key: KEY, ..Default::default() };
        let e = app.world_mut().spawn((NetcodeServer::new(cfg), LocalAddr(server_sock2()))).id();
        app.insert_resource(Second(e));
    }
    if c.get("hostile") == 0 && c.get("hostile_on") != 0 {
        app.insert_resource(Hostile { rng: Rng::new(c.seed ^ 0x51), rate: c.get("hostile_rate") as u64, on: false, n: 0 });
    }
    finish(&mut app);
    (app, se, he)
}

pub fn client_app(c: &Case, node: i64, life: u64) -> (App, Entity) {
    let mut app = core_app(c);
    app.add_plugins(lightyear_sync::client::ClientPlugin);
    shared(&mut app);
    app.add_plugins(NetcodeClientPlugin);
    protocol(&mut app, c.get("sync") != 0);
    sync::harness(&mut app, c, node);
    harness(&mut app);
    let e = app.world_mut().spawn((Client, Link::default(), Disconnected::default(), LagTimeline::default())).id();
    if c.get("hostile") == node && c.get("hostile_on") != 0 {
        app.insert_resource(Hostile { rng: Rng::new(c.seed ^ 0x52 ^ life), rate: c.get("hostile_rate") as u64, on: false, n: 0 });
    }
    finish(&mut app);
    (app, e)
}

// ---------------------------------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum St {
    Down,
    Connecting,
    Up,
}
pub fn state(w: &World, e: Entity) -> St {
    if w.get::<Connected>(e).is_some() {
        St::Up
    } else if w.get::<Connecting>(e).is_some() || w.get::<Disconnecting>(e).is_some() {
        St::Connecting
    } else {
        St::Down
    }
}

/// connection key: (client index, session); the host client has index HOST
type Key = (usize, u64);
const HOST: usize = 99;

struct Cl {
    app: App,
    ent: Entity,
    port: u64,
    sess: u64,
    st: St,
    next: u64,
    last: u64,
    life: u64,
    lag: i64,
    lag_prev: u32,
    /// highest tick this client ever had
    top: u32,
    /// its tick when the frame began
    tick_pre: u32,
}

#[derive(Default, Clone, Debug)]
struct Dest {
    got: u32,
    late: bool,
    wires: Vec<(Entity, Wire)>,
}

#[derive(Debug)]
struct Sent {
    from: i64,
    ty: i64,
    ch: i64,
    via: i64,
    size: usize,
    t: u64,
    tick: u32,
    order: u64,
    dests: BTreeMap<Key, Dest>,
    done: bool,
}

pub struct Sim<'a> {
    c: &'a Case,
    net: Net,
    srv: App,
    se: Entity,
    he: Option<Entity>,
    se2: Option<Entity>,
    hsess: u64,
    /// server frames so far
    frames: u64,
    /// the local client was told to connect (and the server to start): frame of the later of the two
    h_want: Option<u64>,
    /// the local client was told to disconnect and not to connect since
    h_off: Option<u64>,
    h_stop: u64,
    h_up: bool,
    srv_next: u64,
    srv_last: u64,
    srv_up: bool,
    links: BTreeMap<u64, Entity>,
    conns: BTreeMap<Entity, Key>,
    cls: Vec<Cl>,
    sent: BTreeMap<u64, Sent>,
    next_id: u64,
    next_order: u64,
    /// (receiving node, conn key, type, channel, via) -> last order value delivered
    last: HashMap<(i64, Key, i64, i64, i64), (u64, Option<u32>)>,
    peeked: HashSet<(i64, u64)>,
    srv_lag: BTreeMap<Entity, (i64, u32)>,
    calm: bool,
    mon: BTreeMap<i64, sync::Mon>,
}

fn local_us(c: &Case, node: i64, now: u64) -> u64 {
    let ppm = c.get(&format!("ppm{node}"));
    (now as i64 + (now as i64) * ppm / 1_000_000) as u64
}

fn target_of(kind: i64, ids: &[PeerId]) -> NetworkTarget {
    match kind {
        0 => NetworkTarget::All,
        1 => NetworkTarget::None,
        2 => ids.first().map(|i| NetworkTarget::Single(*i)).unwrap_or(NetworkTarget::None),
        3 => NetworkTarget::Only(ids.iter().copied().collect()),
        4 => NetworkTarget::AllExcept(ids.iter().copied().collect()),
        5 => ids.first().map(|i| NetworkTarget::AllExceptSingle(*i)).unwrap_or(NetworkTarget::All),
        6 => NetworkTarget::from_exclude(ids.iter().copied()),
        7 => ids.to_vec().into(),
        8 => {
            let mut t = NetworkTarget::None;
            t.extend(ids.iter().copied());
            t
        }
        _ => ids.iter().copied().collect(),
    }
}
/// what the target means, written independently of the library
fn selects(kind: i64, ids: &[PeerId], p: PeerId) -> bool {
    match kind {
        0 => true,
        1 => false,
        2 => ids.first() == Some(&p),
        3 | 7 => ids.contains(&p),
        4 | 6 => !ids.contains(&p),
        5 => ids.first() != Some(&p),
        _ => ids.contains(&p),
    }
}

fn wires(w: &World, e: Entity, ents: &[Entity]) -> Vec<(Entity, Wire)> {
    let l = w.resource::<Logs>();
    let a = l.assoc.get(&e);
    ents.iter()
        .map(|x| (*x, a.and_then(|v| v.iter().find(|(_, lo)| lo == x)).map(|(r, _)| Wire::Mapped(*r)).unwrap_or(Wire::Raw(*x))))
        .collect()
}

macro_rules! with_ch {
    ($ch:expr, $C:ident, $e:expr) => {
        match $ch {
            RO => { type $C = Ro; $e }
            RU => { type $C = Ru; $e }
            SR => { type $C = Sr; $e }
            UU => { type $C = Uu; $e }
            SU => { type $C = Su; $e }
            TO => { type $C = To; $e }
            TR => { type $C = Tr; $e }
            _ => { type $C = Tu; $e }
        }
    };
}

fn direct(w: &mut World, e: Entity, id: u64, ty: i64, ch: i64, size: usize, ents: Vec<Entity>) {
    let data = content(id, ty, size);
    with_ch!(ch, C, match ty {
        TY_A => w.get_mut::<MessageSender<MsgA>>(e).map(|mut s| if id % 3 == 0 { s.send_with_priority::<C>(MsgA { id, data }, 2.0) } else { s.send::<C>(MsgA { id, data }) }),
        TY_B => w.get_mut::<MessageSender<MsgB>>(e).map(|mut s| s.send::<C>(MsgB { id, data })),
        TY_E => w.get_mut::<MessageSender<MsgE>>(e).map(|mut s| s.send::<C>(MsgE { id, data, ents })),
        TY_EVA => w.get_mut::<EventSender<EvA>>(e).map(|mut s| if id % 3 == 0 { s.trigger_with_priority::<C>(EvA { id, data }, 2.0) } else { s.trigger::<C>(EvA { id, data }) }),
        _ => w.get_mut::<EventSender<EvE>>(e).map(|mut s| s.trigger::<C>(EvE { id, data, ents })),
    })
    .expect("sender component present");
}

/// send something that cannot be sent: it does not serialize, or its channel does not exist
fn direct_bad(w: &mut World, e: Entity, ty: i64, how: i64) {
    let (id, data, ents) = (BAD_ID, if how == 0 { POISON.to_vec() } else { vec![1, 2, 3] }, vec![]);
    macro_rules! go {
        ($C:ty) => {
            match ty {
                TY_A => w.get_mut::<MessageSender<MsgA>>(e).map(|mut s| s.send::<$C>(MsgA { id, data })),
                TY_B => w.get_mut::<MessageSender<MsgB>>(e).map(|mut s| s.send::<$C>(MsgB { id, data })),
                TY_E => w.get_mut::<MessageSender<MsgE>>(e).map(|mut s| s.send::<$C>(MsgE { id, data, ents })),
                TY_EVA => w.get_mut::<EventSender<EvA>>(e).map(|mut s| s.trigger::<$C>(EvA { id, data })),
                _ => w.get_mut::<EventSender<EvE>>(e).map(|mut s| s.trigger::<$C>(EvE { id, data, ents })),
            }
        };
    }
    if how == 0 { go!(Ru) } else { go!(Xx) }.expect("sender component present");
}

/// the sender's system state lives as long as the application, like in a user's system
#[derive(Resource, Default)]
struct MultiState(Option<SystemState<(ServerMultiMessageSender<'static, 'static>, Query<'static, 'static, &'static Server>)>>);

enum To2 {
    Target(NetworkTarget),
    Entities(bevy_ecs::entity::EntityHashSet),
}

fn multi(w: &mut World, se: Entity, id: u64, ty: i64, ch: i64, size: usize, ents: Vec<Entity>, target: To2) {
    let data = content(id, ty, size);
    let pri = [0.5, 1.0, 3.0][(id % 3) as usize];
    let mut st = w.get_resource_or_init::<MultiState>().0.take().unwrap_or_else(|| SystemState::new(w));
    {
        let (mut s, q) = st.get_mut(w).expect("system params");
        let server = q.get(se).expect("server");
        macro_rules! go {
            ($m:ty, $v:expr) => {{
                let v: $m = $v;
                match &target {
                    To2::Target(t) => with_ch!(ch, C, if id % 2 == 0 { s.send::<$m, C>(&v, server, t) } else { s.send_with_priority::<$m, C>(&v, server, t, pri) }),
                    To2::Entities(t) => with_ch!(ch, C, if id % 2 == 0 { s.send_to_entities::<$m, C>(&v, t) } else { s.send_to_entities_with_priority::<$m, C>(&v, t, pri) }),
                }
            }};
        }
        let data = if id == BAD_ID { POISON.to_vec() } else { data };
        let r = match ty {
            TY_A => go!(MsgA, MsgA { id, data }),
            TY_B => go!(MsgB, MsgB { id, data }),
            _ => go!(MsgE, MsgE { id, data, ents }),
        };
        if id != BAD_ID {
            r.expect("send to target");
        }
    }
    st.apply(w);
    w.resource_mut::<MultiState>().0 = Some(st);
}

impl<'a> Sim<'a> {
    fn clocks(&self, node: i64, now: u64) {
        let l = local_us(self.c, node, now);
        mock_instant::global::MockClock::set_time(Duration::from_micros(1_000_000_000 + l));
        lightyear_transport::sim_hooks::set_now_nanos((1_000_000_000 + l) * 1000);
        lightyear_netcode::sim_hooks::set_unix_seconds(WALL0 + now / 1_000_000);
    }
    fn peer_of(&self, k: usize) -> PeerId {
        if k == HOST { PeerId::Local(0) } else { PeerId::Netcode(100 + k as u64) }
    }
    fn world_of(&mut self, node: i64) -> &mut World {
        if node == 0 { self.srv.world_mut() } else { self.cls[node as usize - 1].app.world_mut() }
    }
    fn queue(&mut self, node: i64, first: bool, f: OpFn) {
        let mut q = self.world_of(node).resource_mut::<OpQ>();
        if first {
            q.0.insert(0, f);
        } else {
            q.0.push(f);
        }
    }
    /// whether client `i` belongs to the second server
    fn second(&self, i: usize) -> bool {
        (self.c.get("two") >> i) & 1 != 0
    }
    fn tick_of(&self, node: i64) -> u32 {
        let w = if node == 0 { self.srv.world() } else { self.cls[node as usize - 1].app.world() };
        w.resource::<LocalTimeline>().tick().0
    }

    fn connect(&mut self, i: usize, timeout: i64, now: u64, rec: &mut Rec) {
        if state(self.cls[i].app.world(), self.cls[i].ent) != St::Down {
            return;
        }
        self.clocks(i as i64 + 1, now);
        let cl = &mut self.cls[i];
        cl.sess += 1;
        cl.port += 1;
        let mut ud = [0u8; 256];
        ud[0] = i as u8;
        ud[8..16].copy_from_slice(&cl.sess.to_le_bytes());
        lightyear_netcode::sim_hooks::set_unix_seconds(WALL0 + now / 1_000_000);
        let ss = if (self.c.get("two") >> i) & 1 != 0 { server_sock2() } else { server_sock() };
        let token = ConnectToken::build(ss, PROTO, 100 + i as u64, KEY).expire_seconds(60).timeout_seconds(timeout as i32).user_data(ud).generate().unwrap();
        let cfg = lightyear_netcode::prelude::client::NetcodeConfig { ..Default::default() };
        let e = cl.ent;
        rec.stat("op.connect", 1);
        rec.log(&[3, i as u64, cl.sess]);
        rec.trace(|| format!("client {i} connects, session {}", cl.sess));
        let ping = self.c.get("ping_us").max(0) as u64;
        self.queue(i as i64 + 1, false, Box::new(move |w| {
            if ping > 0 {
                w.entity_mut(e).insert(PingManager::new(PingConfig { ping_interval: Duration::from_micros(ping) }));
            }
            let nc = NetcodeClient::new(Authentication::Token(token), cfg).expect("client");
            w.entity_mut(e).insert(nc);
            w.entity_mut(e).insert(Linked);
            w.trigger(Connect { entity: e });
        }));
    }

    fn send_op(&mut self, o: &Op, now: u64, rec: &mut Rec) {
        let a = |i: usize| o.args.get(i).copied().unwrap_or(0);
        let (ty, ch, size, via, n) = (a(0), a(1), a(2).clamp(0, 6000) as usize, a(3), a(4).clamp(1, 20));
        let node = o.node;
        if node != 0 && node as usize > self.cls.len() && node != HOST as i64 {
            return;
        }
        for b in 0..n {
            let id = self.next_id;
            self.next_id += 1;
            let size = if b == 0 { size } else { (size + 7 * b as usize).min(6000) };
            let h = hash(&[self.c.seed, id, 77]);
            let pick = move |pool: &[Entity]| -> Vec<Entity> {
                if !has_ents(ty) || pool.is_empty() {
                    return vec![];
                }
                (0..1 + h % 3).map(|k| if (h >> (8 + k)) % 29 == 0 { Entity::PLACEHOLDER } else { pool[(hash(&[h, k]) % pool.len() as u64) as usize] }).collect()
            };
            self.sent.insert(id, Sent { from: if node == HOST as i64 { HOST as i64 } else { node }, ty, ch, via, size, t: now, tick: 0, order: id, dests: BTreeMap::new(), done: false });
            rec.log(&[5, node as u64, id, ty as u64, ch as u64, size as u64, via as u64]);
            if node == HOST as i64 {
                let Some(he) = self.he else { return };
                self.queue(0, false, Box::new(move |w| {
                    if w.get::<Connected>(he).is_none() || w.get::<HostClient>(he).is_none() {
                        return;
                    }
                    let ents = pick(&w.resource::<Logs>().own);
                    let ws = ents.iter().map(|e| (*e, Wire::Mapped(*e))).collect();
                    w.resource_mut::<Logs>().sent(id, vec![(he, ws)]);
                    direct(w, he, id, ty, ch, size, ents);
                }));
            } else if node > 0 {
                let e = self.cls[node as usize - 1].ent;
                self.queue(node, false, Box::new(move |w| {
                    if w.get::<Connected>(e).is_none() {
                        return;
                    }
                    let ents = pick(&w.resource::<Logs>().own);
                    let ws = wires(w, e, &ents);
                    w.resource_mut::<Logs>().sent(id, vec![(e, ws)]);
                    direct(w, e, id, ty, ch, size, ents);
                }));
            } else if via == 0 {
                // to one connection
                let k = a(5) as usize;
                let want = if self.he.is_some() && k >= self.cls.len() { HOST } else { k.min(self.cls.len() - 1) };
                let p = self.peer_of(want);
                self.queue(0, false, Box::new(move |w| {
                    let mut q = w.query_filtered::<(Entity, &RemoteId), (With<Connected>, With<ClientOf>)>();
                    let Some(e) = q.iter(w).find(|(_, r)| r.0 == p).map(|x| x.0) else { return };
                    let ents = pick(&w.resource::<Logs>().own);
                    let ws = if w.get::<HostClient>(e).is_some() { ents.iter().map(|e| (*e, Wire::Mapped(*e))).collect() } else { wires(w, e, &ents) };
                    w.resource_mut::<Logs>().sent(id, vec![(e, ws)]);
                    direct(w, e, id, ty, ch, size, ents);
                }));
            } else {
                let kind = a(5);
                let mut ids: Vec<PeerId> = vec![];
                for x in o.args.iter().skip(6) {
                    ids.push(match *x {
                        50 => PeerId::Netcode(424242),
                        51 => PeerId::Local(0),
                        52 => PeerId::Server,
                        x => PeerId::Netcode(100 + x as u64),
                    });
                }
                let ty = if is_event(ty) { ty - 3 } else { ty };
                let se = if via == 2 { self.se2.unwrap_or(self.se) } else { self.se };
                self.sent.get_mut(&id).unwrap().ty = ty;
                self.queue(0, false, Box::new(move |w| {
                    // kind 9: a set of link entities, whatever their state
                    let set: bevy_ecs::entity::EntityHashSet = w.query::<(Entity, &RemoteId)>().iter(w).filter(|(_, r)| ids.contains(&r.0)).map(|x| x.0).collect();
                    let mut q = w.query_filtered::<(Entity, &RemoteId, &LinkOf), (With<Connected>, With<ClientOf>)>();
                    let sel: Vec<Entity> = q.iter(w).filter(|(e, r, l)| if kind == 9 { set.contains(e) } else { l.server == se && selects(kind, &ids, r.0) }).map(|x| x.0).collect();
                    let ents = if has_ents(ty) { pick(&w.resource::<Logs>().own) } else { vec![] };
                    let dests = sel
                        .iter()
                        .map(|e| (*e, if w.get::<HostClient>(*e).is_some() { ents.iter().map(|e| (*e, Wire::Mapped(*e))).collect() } else { wires(w, *e, &ents) }))
                        .collect();
                    w.resource_mut::<Logs>().sent(id, dests);
                    multi(w, se, id, ty, ch, size, ents, if kind == 9 { To2::Entities(set) } else { To2::Target(target_of(kind, &ids)) });
                }));
            }
        }
    }

    fn op(&mut self, o: &Op, now: u64, rec: &mut Rec) {
        let a = |i: usize| o.args.get(i).copied().unwrap_or(0);
        let ncl = self.cls.len();
        let client = (o.node >= 1 && o.node as usize <= ncl).then(|| o.node as usize - 1);
        match o.kind.as_str() {
            "msg" => self.send_op(o, now, rec),
            "badmsg" => {
                let (ty, how, via, k) = (a(0), a(1), a(2), a(3));
                rec.stat("op.unsendable_message", 1);
                rec.log(&[9, o.node as u64, ty as u64, how as u64, via as u64]);
                rec.trace(|| format!("node {} tries to send something of type {ty} that cannot be sent ({})", o.node, if how == 0 { "it does not serialize" } else { "no such channel" }));
                if let Some(i) = client {
                    let e = self.cls[i].ent;
                    self.queue(o.node, false, Box::new(move |w| {
                        if w.get::<Connected>(e).is_some() {
                            direct_bad(w, e, ty, how);
                        }
                    }));
                } else if o.node == 0 && via == 0 {
                    let p = self.peer_of((k.max(0) as usize).min(self.cls.len() - 1));
                    self.queue(0, false, Box::new(move |w| {
                        let mut q = w.query_filtered::<(Entity, &RemoteId), (With<Connected>, With<ClientOf>)>();
                        if let Some(e) = q.iter(w).find(|(_, r)| r.0 == p).map(|x| x.0) {
                            direct_bad(w, e, ty, how);
                        }
                    }));
                } else if o.node == 0 {
                    let se = self.se;
                    self.queue(0, false, Box::new(move |w| multi(w, se, BAD_ID, ty % 3, RU, 0, vec![], To2::Target(NetworkTarget::All))));
                }
            }
            "connect" => {
                if o.node == HOST as i64 {
                    let Some(mut he) = self.he else { return };
                    if self.h_want.is_some() || self.srv.world().get::<Connected>(he).is_some() || self.frames < self.h_stop + 8 {
                        return;
                    }
                    if self.srv.world().get_entity(he).is_err() {
                        // it went away with the server that was stopped
                        he = spawn_host(self.srv.world_mut(), self.se);
                        self.srv.world_mut().flush();
                        self.he = Some(he);
                    }
                    self.hsess += 1;
                    self.h_want = Some(self.frames);
                    self.h_off = None;
                    rec.stat("op.host_connect", 1);
                    rec.trace(|| "the local client connects".to_string());
                    self.queue(0, false, Box::new(move |w| {
                        w.trigger(Connect { entity: he });
                    }));
                } else if let Some(i) = client {
                    self.connect(i, a(0).clamp(2, 20), now, rec);
                }
            }
            "disconnect" => {
                let (node, e) = if o.node == HOST as i64 {
                    let Some(he) = self.he else { return };
                    self.h_want = None;
                    self.h_off = Some(self.frames);
                    (0, he)
                } else if let Some(i) = client {
                    (o.node, self.cls[i].ent)
                } else {
                    return;
                };
                rec.stat("op.disconnect", 1);
                rec.log(&[4, o.node as u64]);
                rec.trace(|| format!("node {} disconnects", o.node));
                self.queue(node, false, Box::new(move |w| {
                    if w.get_entity(e).is_ok() {
                        w.trigger(Disconnect { entity: e });
                    }
                }));
            }
            "sdisc" => {
                let k = a(0) as usize;
                let Some(e) = self.conns.iter().find(|(_, x)| x.0 == k && k != HOST).map(|x| *x.0) else { return };
                rec.stat("op.server_disconnects", 1);
                self.queue(0, false, Box::new(move |w| {
                    if w.get_entity(e).is_ok() {
                        w.trigger(Disconnect { entity: e });
                    }
                }));
            }
            "crash" => {
                let Some(i) = client else { return };
                rec.stat("fault.crash", 1);
                rec.trace(|| format!("client {i} crashes and restarts"));
                let life = self.cls[i].life + 1;
                self.clocks(o.node, now);
                let (mut app, ent) = client_app(self.c, o.node, life);
                self.setup(o.node, &mut app);
                let cl = &mut self.cls[i];
                cl.app = app;
                cl.ent = ent;
                cl.life = life;
                cl.st = St::Down;
                cl.sess += 1;
                cl.port += 1;
                self.mon.remove(&o.node);
            }
            "scrash" => {
                rec.stat("fault.server_crash", 1);
                rec.trace(|| format!("the server crashes and restarts at tick {}", a(0)));
                self.clocks(0, now);
                let (mut app, se, he) = server_app(self.c);
                self.setup(0, &mut app);
                let t = app.world().resource::<LocalTimeline>().tick().0;
                app.world_mut().resource_mut::<LocalTimeline>().apply_delta(a(0) as i32 - t as i32);
                self.srv = app;
                self.se = se;
                self.se2 = self.srv.world().get_resource::<Second>().map(|s| s.0);
                self.he = he;
                self.h_want = None;
                self.h_off = None;
                self.hsess += 1;
                self.h_up = false;
                self.links.clear();
                self.conns.clear();
                self.srv_lag.clear();
                self.mon.remove(&0);
                self.op(&Op { t: now, node: 0, kind: "start".into(), args: vec![] }, now, rec);
            }
            "stop" | "start" => {
                let se = if a(0) == 2 { self.se2.unwrap_or(self.se) } else { self.se };
                let start = o.kind == "start";
                if a(0) != 2 {
                    if start {
                        self.h_want = self.h_want.map(|_| self.frames);
                        if self.se2.is_some() && a(0) == 0 {
                            self.op(&Op { t: now, node: 0, kind: "start".into(), args: vec![2] }, now, rec);
                        }
                    } else {
                        self.h_want = None;
                        self.h_off = None;
                        self.h_stop = self.frames;
                    }
                }
                rec.stat(if start { "op.start" } else { "op.stop" }, 1);
                rec.trace(|| format!("server {}", o.kind));
                if a(0) != 2 {
                    self.srv_up = start;
                }
                self.queue(0, false, Box::new(move |w| {
                    if start {
                        w.entity_mut(se).insert(Linked);
                        w.trigger(Start { entity: se });
                    } else {
                        w.trigger(Stop { entity: se });
                    }
                }));
            }
            "map" => {
                let Some(i) = client else { return };
                let j = a(1) as usize;
                if a(0) == 0 {
                    let pool = self.srv.world().resource::<Logs>().own.clone();
                    let s = pool[j % pool.len()];
                    let e = self.cls[i].ent;
                    self.queue(o.node, true, Box::new(move |w| associate(w, e, s)));
                } else {
                    let pool = self.cls[i].app.world().resource::<Logs>().own.clone();
                    let s = pool[j % pool.len()];
                    let Some(e) = self.conns.iter().find(|(_, k)| k.0 == i).map(|x| *x.0) else { return };
                    self.queue(0, true, Box::new(move |w| associate(w, e, s)));
                }
                rec.stat("op.associate", 1);
            }
            "unmap" => {
                let Some(i) = client else { return };
                let (node, e) = if a(0) == 0 {
                    (o.node, self.cls[i].ent)
                } else {
                    let Some(e) = self.conns.iter().find(|(_, k)| k.0 == i).map(|x| *x.0) else { return };
                    (0, e)
                };
                let (j, how) = (a(1) as usize, a(2));
                self.queue(node, true, Box::new(move |w| dissociate(w, e, j, how)));
                rec.stat("op.dissociate", 1);
            }
            "lag" => {
                if let Some(i) = client {
                    self.cls[i].lag = a(0).clamp(-200, 60);
                } else {
                    for (_, l) in self.srv_lag.iter_mut() {
                        l.0 = a(0).clamp(-200, 60);
                    }
                }
                rec.stat("op.timeline_change", 1);
            }
            "noread" => {
                self.world_of(if client.is_some() { o.node } else { 0 }).resource_mut::<Logs>().noread = a(0) != 0;
                rec.stat("op.reader_pause", 1);
            }
            "hostile" => {
                if let Some(mut h) = self.world_of(if client.is_some() { o.node } else { 0 }).get_resource_mut::<Hostile>() {
                    h.on = a(0) != 0;
                }
            }
            _ => {}
        }
    }

    fn setup(&self, node: i64, app: &mut App) {
        let w = app.world_mut();
        let own: Vec<Entity> = (0..6).map(|_| w.spawn_empty().id()).collect();
        w.resource_mut::<Logs>().own = own;
        let t0 = self.c.get(if node == 0 { "tick0" } else { "tick1" });
        w.resource_mut::<LocalTimeline>().apply_delta(t0 as i32);
    }

    fn set_lag(w: &mut World, e: Entity, true_tick: u32, lag: i64, prev: u32) -> u32 {
        let want = Tick((true_tick as i64 - lag).max(0) as u32);
        let v = if (want - Tick(prev)) > 0 { want } else { Tick(prev) };
        if let Some(mut t) = w.get_mut::<LagTimeline>(e) {
            t.set_now(TickInstant::from(v));
        }
        v.0
    }

    fn drain_out(&mut self, node: i64, now: u64, rec: &mut Rec) {
        let out = core::mem::take(&mut self.world_of(node).resource_mut::<Outbox>().0);
        for (_, s, b) in out {
            if node == 0 {
                let Some(s) = s else { continue };
                let dst = (0..self.cls.len()).flat_map(|i| (0..=self.cls[i].port).map(move |p| addr(i as i64 + 1, p))).find(|x| sock(*x) == s);
                if let Some(dst) = dst {
                    let two = self.second(node_of(dst) as usize - 1);
                    self.net.send(now, addr(0, two as u64), dst, b.to_vec(), rec);
                }
            } else {
                let src = addr(node, self.cls[node as usize - 1].port);
                let two = self.second(node as usize - 1);
                self.net.send(now, src, addr(0, two as u64), b.to_vec(), rec);
            }
        }
    }

    fn server_frame(&mut self, rec: &mut Rec) {
        let now = self.srv_next;
        let dt = local_us(self.c, 0, now) - local_us(self.c, 0, self.srv_last);
        self.srv_last = now;
        self.clocks(0, now);
        rec.steps += 1;
        let w = self.srv.world();
        self.links.retain(|_, e| w.get_entity(*e).is_ok());
        for p in self.net.take(0, now) {
            let se = if p.dst == addr(0, 1) { self.se2.unwrap_or(self.se) } else { self.se };
            if self.srv.world().get::<Linked>(se).is_none() {
                continue;
            }
            let e = match self.links.get(&p.src) {
                Some(e) => *e,
                None => {
                    let e = self.srv.world_mut().spawn((LinkOf { server: se }, Link::default(), PeerAddr(sock(p.src)), Linked, LagTimeline::default())).id();
                    self.srv.world_mut().flush();
                    self.links.insert(p.src, e);
                    self.srv_lag.insert(e, (self.c.get("lag0"), 0));
                    e
                }
            };
            if let Some(mut l) = self.srv.world_mut().get_mut::<Link>(e) {
                l.recv.push_raw(bytes::BytesMut::from(&p.bytes[..]));
            }
        }
        // timelines
        let mut prev: HashMap<Entity, u32> = HashMap::new();
        let srv_tick = self.tick_of(0);
        for (a, e) in &self.links {
            let i = node_of(*a) as usize - 1;
            let t = self.cls[i].top;
            let l = self.srv_lag.get_mut(e).unwrap();
            prev.insert(*e, l.1);
            l.1 = Self::set_lag(self.srv.world_mut(), *e, t, l.0, l.1);
        }
        if let Some(he) = self.he {
            let l = self.srv_lag.entry(he).or_insert((self.c.get("lag0"), 0));
            prev.insert(he, l.1);
            l.1 = Self::set_lag(self.srv.world_mut(), he, srv_tick, l.0, l.1);
        }
        let assoc = self.srv.world().resource::<Logs>().assoc.clone();
        self.srv.insert_resource(TimeUpdateStrategy::ManualDuration(Duration::from_micros(dt)));
        let pre = sync::snap(&self.srv);
        self.srv.update();
        self.drain_out(0, now + sync::work(self.c, 0), rec);
        let before = self.conns.clone();
        let mut q = self.srv.world_mut().query_filtered::<(Entity, &RemoteId, Option<&TokenUserData>, Has<HostClient>), (With<Connected>, With<ClientOf>)>();
        let cur: Vec<(Entity, PeerId, Option<[u8; 256]>, bool)> = q.iter(self.srv.world()).map(|(e, r, u, h)| (e, r.0, u.map(|u| u.0), h)).collect();
        self.conns.clear();
        for (e, _, u, h) in cur {
            if h {
                self.conns.insert(e, (HOST, self.hsess));
            } else if let Some(u) = u {
                self.conns.insert(e, (u[0] as usize, u64::from_le_bytes(u[8..16].try_into().unwrap())));
            }
        }
        for (e, k) in &self.conns {
            if !before.contains_key(e) {
                rec.stat("probe.server_connections", 1);
                rec.log(&[7, k.0 as u64, k.1]);
                rec.trace(|| format!("server: connection {e:?} of client {} session {}", k.0, k.1));
            }
        }
        self.h_up = self.he.is_some_and(|h| self.conns.contains_key(&h));
        self.frames += 1;
        if let Some(t) = self.h_want
            && self.srv_up
            && self.frames >= t + 5
            && !self.h_up
        {
            rec.viol("C23", "not-connected", "the local client was told to connect, the server is started, and it is still not connected 4 frames later".to_string());
        }
        if let Some(t) = self.h_off
            && self.frames >= t + 5
            && let Some(h) = self.he
            && let Ok(x) = self.srv.world().get_entity(h)
            && (x.contains::<HostClient>() || x.contains::<Connected>() || x.contains::<Connecting>())
        {
            rec.viol("C23", "not-disconnected", "the local client was told to disconnect and is still connected (or connecting) 4 frames later".to_string());
        }
        let mut all = before;
        all.extend(self.conns.iter().map(|(e, k)| (*e, *k)));
        self.monitor(0, now, dt, pre, rec);
        self.collect(0, &all, &prev, &assoc, rec);
        self.host_prompt(now, rec);
    }

    fn client_frame(&mut self, i: usize, rec: &mut Rec) {
        let node = i as i64 + 1;
        let now = self.cls[i].next;
        let dt = local_us(self.c, node, now) - local_us(self.c, node, self.cls[i].last);
        self.cls[i].last = now;
        self.clocks(node, now);
        rec.steps += 1;
        let e = self.cls[i].ent;
        let mine = addr(node, self.cls[i].port);
        let linked = self.cls[i].app.world().get::<Linked>(e).is_some();
        for p in self.net.take(node, now) {
            if p.dst != mine || !linked {
                continue;
            }
            if let Some(mut l) = self.cls[i].app.world_mut().get_mut::<Link>(e) {
                l.recv.push_raw(bytes::BytesMut::from(&p.bytes[..]));
            }
        }
        let t = self.tick_of(0);
        let lp = self.cls[i].lag_prev;
        let lag = self.cls[i].lag;
        self.cls[i].lag_prev = Self::set_lag(self.cls[i].app.world_mut(), e, t, lag, lp);
        let prev = HashMap::from([(e, lp)]);
        let assoc = self.cls[i].app.world().resource::<Logs>().assoc.clone();
        self.cls[i].app.insert_resource(TimeUpdateStrategy::ManualDuration(Duration::from_micros(dt)));
        self.cls[i].tick_pre = self.tick_of(node);
        let pre = sync::snap(&self.cls[i].app);
        self.cls[i].app.update();
        self.drain_out(node, now + sync::work(self.c, node), rec);
        let t = self.tick_of(node);
        self.cls[i].top = self.cls[i].top.max(t);
        let st = state(self.cls[i].app.world(), e);
        if st == St::Up && self.cls[i].st != St::Up {
            rec.stat("probe.client_connections", 1);
            rec.log(&[8, i as u64, self.cls[i].sess]);
            rec.trace(|| format!("client {i} is connected"));
        }
        self.cls[i].st = st;
        let conns = BTreeMap::from([(e, (i, self.cls[i].sess))]);
        self.monitor(node, now, dt, pre, rec);
        self.collect(node, &conns, &prev, &assoc, rec);
    }

    fn bad(&self, rec: &mut Rec, id: u64, class: &str, d: String) {
        let Some(s) = self.sent.get(&id) else {
            rec.viol("C16", class.to_string(), d);
            return;
        };
        rec.viol("C16", class.to_string(), d.clone());
        if s.from == 0 && s.via >= 1 {
            rec.viol("C14", class.to_string(), d.clone());
        }
        if on_lag(s.ch) {
            rec.viol("C17", class.to_string(), d.clone());
        }
        if s.from == HOST as i64 || (s.from == 0 && s.dests.keys().any(|k| k.0 == HOST) && class.starts_with("host")) {
            rec.viol("C23", class.to_string(), d.clone());
        }
        // what goes wrong without a hostile peer too is not a matter of C22
        if self.c.get("hostile_on") != 0 && class != "order-timeline-resent" {
            rec.viol("C22", class.to_string(), d);
        }
    }
    /// clients whose guarantees are void: their own application misbehaves on purpose
    fn void(&self, k: usize) -> bool {
        self.c.get("hostile_on") != 0 && (self.c.get("hostile") == 0 || self.c.get("hostile") == k as i64 + 1)
    }

    /// the messages sent and received by `node` in the frame that just ran
    fn collect(&mut self, node: i64, conns: &BTreeMap<Entity, Key>, prev: &HashMap<Entity, u32>, assoc: &HashMap<Entity, Vec<(Entity, Entity)>>, rec: &mut Rec) {
        let tick_now = self.tick_of(node);
        let tick_pre = self.cls.get((node - 1).max(0) as usize).map(|c| c.tick_pre).unwrap_or(0);
        let (sends, got, packets, trans) = {
            let mut l = self.world_of(node).resource_mut::<Logs>();
            (core::mem::take(&mut l.sends), core::mem::take(&mut l.got), core::mem::take(&mut l.packets), core::mem::take(&mut l.trans))
        };
        for r in sends {
            let s = self.sent.get_mut(&r.id).unwrap();
            // (a client's clock may be set back after the packets of the frame left)
            s.tick = if node > 0 && before(tick_now, tick_pre) { tick_pre } else { tick_now };
            s.done = true;
            for (e, w) in r.dests {
                let Some(k) = conns.get(&e) else { continue };
                // the connection it was meant for ended later in the same frame
                let over = trans.iter().skip(r.at).any(|t| *t == (e, 0));
                s.dests.insert(if over { (k.0, 0) } else { *k }, Dest { got: 0, late: false, wires: w });
            }
            rec.stat("probe.sent", 1);
            rec.trace(|| format!("node {node} sends message {} type {} channel {} size {} to {:?}", r.id, s.ty, s.ch, s.size, s.dests.keys().collect::<Vec<_>>()));
        }
        let mut last_tick: HashMap<(Option<Entity>, i64), u32> = HashMap::new();
        for g in got {
            rec.stat("probe.received", 1);
            rec.log(&[6, node as u64, g.id, g.ty as u64, g.peek as u64]);
            rec.trace(|| format!("node {node} receives message {} type {} channel {} tick {:?} from {:?}{}", g.id, g.ty, g.ch, g.tick, g.from, if g.peek { " (left unread)" } else { "" }));
            // which connection did it come on
            let conn = match (g.ent, g.from) {
                (Some(e), _) => Some(e),
                (None, Some(f)) => {
                    if node == 0 {
                        conns.iter().find(|(_, k)| self.peer_of(k.0) == f).map(|x| *x.0)
                    } else {
                        Some(self.cls[node as usize - 1].ent)
                    }
                }
                _ => None,
            };
            if let (Some(f), true) = (g.from, node > 0)
                && f != PeerId::Server
            {
                rec.viol("C16", "event-sender", format!("client {} got event {} said to come from {f:?}", node - 1, g.id));
            }
            let Some(key) = conn.and_then(|e| conns.get(&e)).copied() else {
                self.bad(rec, g.id, "no-connection", format!("node {node} received message {} that belongs to no connection (entity {:?}, from {:?})", g.id, g.ent, g.from));
                continue;
            };
            let void = self.void(key.0);
            let Some(s) = self.sent.get(&g.id) else {
                if !void {
                    self.bad(rec, g.id, "invented", format!("node {node} received message {} of type {} that nobody sent", g.id, g.ty));
                }
                continue;
            };
            if void {
                continue;
            }
            let (ty, ch, from, via) = (s.ty, s.ch, s.from, s.via);
            let what = format!("message {} (type {ty}, channel {ch}, size {}, from node {from})", g.id, s.size);
            if g.ty != ty {
                self.bad(rec, g.id, "wrong-type", format!("{what} was received as type {}", g.ty));
                continue;
            }
            if g.data != content(g.id, ty, s.size) {
                self.bad(rec, g.id, "altered", format!("{what} arrived altered"));
            }
            if g.ch >= 0 && g.ch != ch {
                self.bad(rec, g.id, "wrong-channel", format!("{what} arrived on channel {}", g.ch));
            }
            // addressed to this connection?
            let host = key.0 == HOST;
            let right_way = if host { from == 0 || from == HOST as i64 } else if node == 0 { from == key.0 as i64 + 1 } else { from == 0 };
            if !right_way {
                self.bad(rec, g.id, "wrong-sender", format!("{what} was received by node {node} on the connection of client {}", key.0));
                continue;
            }
            if !s.dests.contains_key(&key) {
                let d = format!("{what}, sent at {} us to {:?}, was received by node {node} on connection {key:?}", s.t, s.dests.keys().collect::<Vec<_>>());
                if s.dests.keys().any(|k| k.0 == key.0) {
                    rec.viol("C07", "old-session", d.clone());
                    if from == 0 {
                        self.bad(rec, g.id, "old-session", d);
                    }
                } else {
                    self.bad(rec, g.id, if host { "host-not-targeted" } else { "not-targeted" }, d);
                }
                if host {
                    rec.viol("C23", "not-targeted", format!("{what} reached the local client, which was not addressed"));
                }
                continue;
            }
            let n = {
                let d = self.sent.get_mut(&g.id).unwrap().dests.get_mut(&key).unwrap();
                d.got += 1;
                d.got
            };
            if n > 1 {
                let later = self.peeked.contains(&(node, g.id));
                self.bad(rec, g.id, if later { "unread-later" } else { "duplicate" }, format!("{what} was received {n} times on connection {key:?}"));
                if host {
                    rec.viol("C23", "duplicate", format!("{what} reached the local client {n} times"));
                }
            }
            if g.peek {
                self.peeked.insert((node, g.id));
            }
            let s = &self.sent[&g.id];
            // order
            if ordered(ch) || ch == SR || ch == SU || host {
                let l = self.last.entry((node, key, ty, ch, via + 10 * from.min(1))).or_insert((0, None));
                let older = s.order < l.0;
                let l1 = l.1;
                // a resent message carries the tick of the later packet that delivered it
                // (an event does not tell its tick)
                let resent = on_lag(ch) && !host && !self.calm && l.1.zip(g.tick).is_none_or(|(l, g)| before(l, g));
                if !older {
                    *l = (s.order, g.tick);
                }
                let (l, l1) = (l.0, l1);
                // a client's own clock may be set back, which reorders its ticks
                let clock = on_lag(ch) && from > 0 && !host && (self.sent.get(&l).is_none_or(|x| before(x.tick, s.tick)) || l1.zip(g.tick).is_some_and(|(l, g)| before(l, g)));
                if older && !clock {
                    let d = format!("{what} was received after message {l} of the same channel");
                    let d2 = d.clone();
                    self.bad(rec, g.id, if resent { "order-timeline-resent" } else { "order" }, d);
                    if host {
                        rec.viol("C23", "order", d2);
                    }
                }
            }
            // entities
            if has_ents(ty) {
                let w = &s.dests[&key].wires;
                let none = vec![];
                let a = conn.and_then(|e| assoc.get(&e)).unwrap_or(&none);
                let want: Vec<Entity> = w
                    .iter()
                    .map(|(_, w)| match w {
                        Wire::Mapped(r) => *r,
                        Wire::Raw(x) => a.iter().find(|(r, _)| r == x).map(|x| x.1).unwrap_or(Entity::PLACEHOLDER),
                    })
                    .collect();
                rec.stat("probe.entities", want.len() as u64);
                if !on_lag(ch) && want != g.ents {
                    let d = format!("{what} on connection {key:?}: entities {:?} sent as {w:?}, expected {want:?}, received {:?}", w.iter().map(|x| x.0).collect::<Vec<_>>(), g.ents);
                    rec.viol("C15", if host { "host-entities" } else { "entities" }, d.clone());
                    if host {
                        rec.viol("C23", "entities", d);
                    }
                }
            }
            // timeline
            if on_lag(ch) {
                let e = conn.unwrap();
                let lag_now = if node == 0 { self.srv_lag.get(&e).map(|x| x.1).unwrap_or(0) } else { self.cls[node as usize - 1].lag_prev };
                rec.stat("probe.timeline_released", 1);
                if from == 0 && (Tick(s.tick) - Tick(lag_now)) > 0 {
                    rec.viol("C17", "early", format!("{what} sent at tick {} was handed over when the timeline was at {lag_now}", s.tick));
                }
                // an event does not tell its tick: without loss it is the one it was sent at
                if let Some(t) = g.tick.or((self.calm && !host && from == 0).then_some(s.tick)) {
                    if (Tick(t) - Tick(lag_now)) > 0 {
                        rec.viol("C17", "early", format!("{what} that left at tick {t} was handed over when the timeline was at {lag_now}"));
                    }
                    if host && t != s.tick {
                        rec.viol("C23", "tick", format!("{what} sent at tick {} is reported to the other end of the local connection with tick {t}", s.tick));
                    }
                    if from == 0 && !host && (Tick(s.tick) - Tick(t)) > 0 {
                        rec.viol("C17", "tick", format!("{what} sent at tick {} is reported with tick {t}", s.tick));
                    }
                    let lp = prev.get(&e).copied().unwrap_or(0);
                    let fresh = packets.iter().any(|(x, p)| *x == e && *p == t);
                    if !host && s.size < 900 && (ch != TO || self.calm) && !fresh && (Tick(t) - Tick(lp)) <= 0 && lp != 0 {
                        rec.viol("C17", "late", format!("{what} of tick {t} was not handed over in an earlier frame, although the timeline was at {lp} there already"));
                    }
                    let l = last_tick.entry((Some(e), ty * 10)).or_insert(t);
                    if (Tick(*l) - Tick(t)) > 0 {
                        rec.viol("C17", "tick-order", format!("{what} of tick {t} was handed over after one of tick {l} in the same frame"));
                    }
                    *l = t;
                }
            }
        }
        if self.conns.len() < 6 {
            let up = self.conns.values().fold(0u64, |a, k| a | 1 << (k.0 % 8));
            let cs = self.cls.iter().fold(0u64, |a, c| a * 4 + c.st as u64);
            rec.state(&[up, cs, self.h_up as u64, self.srv_up as u64, (self.net.in_flight() as u64).min(3)]);
        }
    }

    /// messages to and from the local client arrive in the next frame
    fn host_prompt(&mut self, now: u64, rec: &mut Rec) {
        if !self.h_up {
            return;
        }
        let frame = self.c.get("frame0_us").max(1000) as u64 * 4;
        let key = (HOST, self.hsess);
        let mut late = vec![];
        for (id, s) in self.sent.iter_mut().rev().take(120) {
            if on_lag(s.ch) || !s.done {
                continue;
            }
            if let Some(d) = s.dests.get_mut(&key)
                && d.got == 0
                && !d.late
                && now > s.t + frame
            {
                d.late = true;
                late.push((*id, s.ch, s.ty));
            }
        }
        for (id, ch, ty) in late {
            let stalled = self.c.faults.iter().any(|f| f.kind == "stall" && f.src == 0 && f.t1 + 400_000 > self.sent[&id].t && f.t0 < now);
            if !stalled {
                rec.viol("C23", "late", format!("message {id} (type {ty}, channel {ch}) between server and local client not delivered within 4 frames"));
            }
        }
    }

    fn final_checks(&mut self, rec: &mut Rec) {
        self.sync_final(rec);
        let mut viols: Vec<(u64, &'static str, String)> = vec![];
        let host_live = self.h_up;
        for (id, s) in &self.sent {
            for (k, d) in &s.dests {
                if d.got > 0 || self.void(k.0) {
                    continue;
                }
                let live = if k.0 == HOST {
                    host_live && k.1 == self.hsess
                } else {
                    let c = &self.cls[k.0];
                    c.st == St::Up && c.sess == k.1 && self.conns.values().any(|x| x == k)
                };
                if !live {
                    continue;
                }
                let what = format!("message {id} (type {}, channel {}, size {}) sent at {} us by node {} to connection {k:?} was never received", s.ty, s.ch, s.size, s.t, s.from);
                if k.0 == HOST {
                    viols.push((*id, "host-lost", what));
                } else if reliable(s.ch) {
                    // a client that set its clock back far may exceed the documented lag bound
                    if on_lag(s.ch) && s.from > 0 {
                        continue;
                    }
                    viols.push((*id, "lost", what));
                } else if self.calm && s.ch == UU {
                    viols.push((*id, "lost-without-loss", what));
                }
            }
        }
        for (id, class, d) in viols {
            if class == "host-lost" {
                rec.viol("C23", "lost", d.clone());
            }
            self.bad(rec, id, class, d);
        }
        // nothing may be pending once the timelines are far ahead
        for n in 0..=self.cls.len() as i64 {
            let void = if n == 0 { self.c.get("hostile_on") != 0 } else { self.void(n as usize - 1) };
            if void {
                continue;
            }
            let w = self.world_of(n);
            let mut p = 0;
            for r in w.query_filtered::<&MessageReceiver<MsgA>, With<Connected>>().iter(w) {
                p += r.num_pending_timeline_messages();
            }
            for r in w.query_filtered::<&MessageReceiver<MsgE>, With<Connected>>().iter(w) {
                p += r.num_pending_timeline_messages();
            }
            if p > 0 {
                rec.viol("C17", "stuck", format!("node {n} still holds {p} messages although its timelines are ahead of every sender"));
            }
        }
    }
}

fn associate(w: &mut World, e: Entity, remote: Entity) {
    if w.get_entity(e).is_err() || w.get::<Connected>(e).is_none() {
        return;
    }
    let l = w.resource::<Logs>();
    if l.assoc.get(&e).is_some_and(|v| v.iter().any(|(r, _)| *r == remote)) {
        return;
    }
    let local = w.spawn_empty().id();
    if let Some(mut m) = w.get_mut::<MessageManager>(e) {
        m.entity_mapper.insert(remote, local);
        let mut l = w.resource_mut::<Logs>();
        l.assoc.entry(e).or_default().push((remote, local));
        l.own.push(local);
    }
}

/// the association number `j` of this connection ends, as when the entity is despawned
fn dissociate(w: &mut World, e: Entity, j: usize, how: i64) {
    let Some(v) = w.resource::<Logs>().assoc.get(&e).cloned() else { return };
    if v.is_empty() || w.get_entity(e).is_err() || w.get::<Connected>(e).is_none() {
        return;
    }
    let (remote, local) = v[j % v.len()];
    if let Some(mut m) = w.get_mut::<MessageManager>(e) {
        let name = if how == 0 {
            remote
        } else {
            // how the peer names an entity it knows to be ours
            let mut x = lightyear_serde::entity_map::RemoteEntityMap::default();
            x.insert(local, remote);
            x.to_remote(remote)
        };
        assert_eq!(m.entity_mapper.remove_by_remote(name), Some(local), "the local entity of an association that ends");
        w.resource_mut::<Logs>().assoc.get_mut(&e).unwrap().retain(|x| x.0 != remote);
    }
}

pub fn run(c: &Case, rec: &mut Rec) {
    let k = c.get("k").clamp(1, 4) as usize;
    mock_instant::global::MockClock::set_time(Duration::from_micros(1_000_000_000));
    lightyear_transport::sim_hooks::set_now_nanos(1_000_000_000_000);
    lightyear_netcode::sim_hooks::set_unix_seconds(WALL0);
    lightyear_link::sim_hooks::set_seed(c.seed);
    let mut net = Net::new(c);
    net.opaque = true;
    let (srv, se, he) = server_app(c);
    let se2 = srv.world().get_resource::<Second>().map(|s| s.0);
    let cls = (0..k)
        .map(|i| {
            let (app, ent) = client_app(c, i as i64 + 1, 0);
            Cl { app, ent, port: 0, sess: 0, st: St::Down, next: 1 + hash(&[c.seed, 5, i as u64]) % c.get("frame1_us").max(1000) as u64, last: 0, life: 0, lag: c.get("lag1"), lag_prev: 0, top: 0, tick_pre: 0 }
        })
        .collect();
    let calm = c.faults.is_empty() && c.get("net_fifo") != 0;
    let mut s = Sim {
        c,
        net,
        srv,
        se,
        he,
        se2,
        frames: 0,
        h_want: None,
        h_off: None,
        h_stop: 0,
        hsess: 0,
        h_up: false,
        srv_next: 1,
        srv_last: 0,
        srv_up: false,
        links: BTreeMap::new(),
        conns: BTreeMap::new(),
        cls,
        sent: BTreeMap::new(),
        next_id: 1,
        next_order: 1,
        last: HashMap::new(),
        peeked: HashSet::new(),
        srv_lag: BTreeMap::new(),
        calm,
        mon: BTreeMap::new(),
    };
    for n in 0..=k as i64 {
        let mut app = core::mem::replace(if n == 0 { &mut s.srv } else { &mut s.cls[n as usize - 1].app }, App::empty());
        s.setup(n, &mut app);
        if n == 0 {
            s.srv = app;
        } else {
            s.cls[n as usize - 1].app = app;
        }
    }
    if c.get("late_start") == 0 {
        s.op(&Op { t: 0, node: 0, kind: "start".into(), args: vec![] }, 0, rec);
    }
    let ops = c.ops.clone();
    let mut oi = 0;
    let t_stop = if c.get("sync") != 0 { sync::last_t(c) } else { c.last_t() + 1 };
    let t_ahead = if c.get("sync") != 0 { t_stop + c.get("tail_ms").max(0) as u64 * 1000 } else { t_stop + 4_500_000 };
    let t_end = t_ahead + 300_000;
    let mut fin = false;
    loop {
        let mut node = 0i64;
        let mut now = s.srv_next;
        for i in 0..k {
            if s.cls[i].next < now {
                now = s.cls[i].next;
                node = i as i64 + 1;
            }
        }
        if let Some(f) = c.faults.iter().find(|f| f.kind == "stall" && f.src == node && now >= f.t0 && now < f.t1) {
            rec.stat("fault.stall", 1);
            if node == 0 {
                s.srv_next = f.t1 + 1;
            } else {
                s.cls[node as usize - 1].next = f.t1 + 1;
            }
            continue;
        }
        rec.now = now;
        while oi < ops.len() && ops[oi].t <= now {
            let o = ops[oi].clone();
            oi += 1;
            s.op(&o, now, rec);
        }
        if !fin && now >= t_ahead {
            fin = true;
            for n in 0..=k as i64 {
                s.op(&Op { t: now, node: n, kind: "lag".into(), args: vec![-200] }, now, rec);
            }
        }
        if now >= t_end {
            s.final_checks(rec);
            rec.stat("probe.settled", 1);
            break;
        }
        if node == 0 {
            s.server_frame(rec);
            let p = c.get("frame0_us").max(1000) as u64;
            s.srv_next = now + sync::frame(c, p, hash(&[c.seed, 21, now]));
        } else {
            let i = node as usize - 1;
            s.client_frame(i, rec);
            let p = c.get("frame1_us").max(1000) as u64;
            s.cls[i].next = now + sync::frame(c, p, hash(&[c.seed, 22, node as u64, now]));
        }
        if rec.stop() || rec.steps > if c.get("ping_us") > 0 { 400_000 } else if c.get("sync") != 0 { 90_000 } else { 30_000 } {
            break;
        }
    }
    for n in 0..=k as i64 {
        if let Some(h) = s.world_of(n).get_resource::<Hostile>() {
            let x = h.n;
            rec.stat("attack.hostile_packets", x);
        }
    }
    rec.sim_us = rec.now;
    let fired: u64 = rec.stats.iter().filter(|(k, _)| k.starts_with("fault.") || k.starts_with("attack.")).map(|(_, v)| *v).sum();
    if c.get("sync") != 0 {
        if rec.stats.get("probe.settled_samples").copied().unwrap_or(0) > 0 {
            rec.stat("nontrivial", 1);
        }
    } else if rec.stats.get("probe.received").copied().unwrap_or(0) > 0 && (fired > 0 || calm) {
        rec.stat("nontrivial", 1);
    }
    let _ = s.next_order;
}

pub fn generate(prop: &str, seed: u64, tier: Tier) -> Case {
    let mut r = Rng::new(seed);
    let mut c = Case::new(prop, "M", seed);
    let k = if prop == "C14" && r.range(0, 4) == 0 { r.range(5, 6) } else { r.range(1, if prop == "C14" { 4 } else { 3 }) };
    c.set("k", k);
    let host = match prop {
        "C23" => true,
        "C22" => false,
        _ => r.range(0, 2) == 0,
    };
    c.set("host", host as i64);
    c.set("tick_us", *r.pick(&[10_000, 15_625, 16_667, 33_333]));
    c.set("frame0_us", *r.pick(&[8_000, 16_667, 16_667, 33_000]));
    c.set("frame1_us", *r.pick(&[6_944, 16_667, 16_667, 30_000]));
    c.set("tick0", *r.pick(&[0, 0, 40, 65_500, 1_000_000]));
    c.set("tick1", *r.pick(&[0, 0, 70, 65_500, 900_000]));
    for n in 0..=k {
        c.set(&format!("ppm{n}"), *r.pick(&[0, 0, 100, -100, 2000, -2000]));
    }
    c.set("net_delay_us", r.range(1, 80) * 1000);
    c.set("net_jitter_us", r.range(0, 30) * 1000);
    c.set("net_fifo", r.range(0, 1));
    c.set("lag0", r.range(-3, 30));
    c.set("lag1", r.range(-3, 30));
    let len = r.range(1_500, if matches!(tier, Tier::Quick) { 4_000 } else { 9_000 }) as u64 * 1000;
    let hostile = prop == "C22";
    if hostile {
        c.set("hostile_on", 1);
        c.set("hostile", r.range(0, k));
        c.set("hostile_rate", *r.pick(&[30, 150, 600]));
        for _ in 0..r.range(1, 3) {
            let t = r.range(200, (len / 1000) as i64) as u64 * 1000;
            c.op(t, c.get("hostile"), "hostile", &[1]);
            c.op(t + r.range(100, 1500) as u64 * 1000, c.get("hostile"), "hostile", &[0]);
        }
    }
    // connections
    for i in 1..=k {
        c.op(r.range(1, 400) as u64 * 1000, i, "connect", &[r.range(3, 8)]);
    }
    if host {
        c.op(if r.range(0, 3) == 0 { 1 } else { r.range(1, 500) as u64 * 1000 }, HOST as i64, "connect", &[]);
    }
    if host && prop == "C23" && r.range(0, 3) == 0 {
        c.set("late_start", 1);
        c.op(r.range(1, 500) as u64 * 1000, 0, "start", &[]);
    }
    if prop == "C14" && k > 1 && r.range(0, 3) == 0 {
        c.set("two", r.range(1, (1 << k) - 1));
    }
    let churn = match prop {
        "C14" | "C15" | "C07" => r.range(0, 5),
        "C23" => r.range(0, 3),
        _ => r.range(0, 2),
    };
    for _ in 0..churn {
        let t = r.range(600, (len / 1000) as i64) as u64 * 1000;
        let i = r.range(1, k);
        match r.range(0, 9) {
            0..=3 => {
                c.op(t, i, "disconnect", &[]);
                c.op(t + r.range(1, 900) as u64 * 1000, i, "connect", &[r.range(3, 8)]);
            }
            4 | 5 => {
                c.op(t, 0, "sdisc", &[i - 1]);
                c.op(t + r.range(1, 900) as u64 * 1000, i, "connect", &[r.range(3, 8)]);
            }
            6 => {
                c.op(t, i, "crash", &[]);
                for j in 0..4 {
                    c.op(t + r.range(1, 300) as u64 * 1000 + j * 1_500_000, i, "connect", &[r.range(3, 8)]);
                }
            }
            7 if r.range(0, 2) == 0 => {
                c.op(t, 0, "stop", &[]);
                c.op(t + r.range(100, 900) as u64 * 1000, 0, "start", &[]);
                for j in 1..=k {
                    c.op(t + 1_000_000 + r.range(1, 300) as u64 * 1000, j, "connect", &[r.range(3, 8)]);
                }
                if host {
                    c.op(t + r.range(1, 1400) as u64 * 1000, HOST as i64, "connect", &[]);
                }
            }
            _ => {
                if host {
                    c.op(t, HOST as i64, "disconnect", &[]);
                    c.op(t + r.range(1, 700) as u64 * 1000, HOST as i64, "connect", &[]);
                }
            }
        }
    }
    // faults
    let calm = prop == "C17" && r.range(0, 2) == 0;
    if calm {
        c.set("net_fifo", 1);
    }
    if r.range(0, 4) != 0 && !calm {
        let inten = r.range(1, 3);
        crate::families::transport::net_faults(&mut r, &mut c, len, inten, k + 1);
        if r.range(0, 2) == 0 {
            let t = r.range(300, (len / 1000) as i64) as u64 * 1000;
            let n = r.range(0, k);
            c.fault(t, t + r.range(50, 700) as u64 * 1000, "stall", n, -1, &[]);
        }
    }
    // associations
    let nmap = if prop == "C15" { r.range(4, 14) } else { r.range(0, 4) };
    for _ in 0..nmap {
        let t = r.range(500, (len / 1000) as i64) as u64 * 1000;
        c.op(t, r.range(1, k), "map", &[r.range(0, 1), r.range(0, 11)]);
    }
    for _ in 0..if prop == "C15" { r.range(0, 8) } else { r.range(0, 1) } {
        let t = r.range(600, (len / 1000) as i64) as u64 * 1000;
        c.op(t, r.range(1, k), "unmap", &[r.range(0, 1), r.range(0, 11), r.range(0, 1)]);
    }
    // timelines and readers
    for _ in 0..r.range(0, if prop == "C17" { 6 } else { 2 }) {
        let t = r.range(300, (len / 1000) as i64) as u64 * 1000;
        c.op(t, r.range(0, k), "lag", &[*r.pick(&[-20, -2, 0, 1, 3, 10, 30, 60])]);
    }
    for _ in 0..r.range(0, if prop == "C16" { 4 } else { 1 }) {
        let t = r.range(300, (len / 1000) as i64) as u64 * 1000;
        let n = r.range(0, k);
        c.op(t, n, "noread", &[1]);
        c.op(t + r.range(5, 200) as u64 * 1000, n, "noread", &[0]);
    }
    // messages
    let n = r.range(20, 90);
    for _ in 0..n {
        let t = r.range(50, (len / 1000) as i64) as u64 * 1000;
        let mut ty = r.range(0, 4);
        let mut ch = r.range(0, 7);
        match prop {
            "C15" => ty = *r.pick(&[TY_E, TY_EVE]),
            "C17" => ch = r.range(TO, TU),
            "C14" => ch = *r.pick(&[RO, RU, RU, RO, TR, SR]),
            _ => {}
        }
        if prop == "C15" {
            ch = r.range(0, 4);
        }
        let size = *r.pick(&[0, 3, 20, 20, 100, 700, 1300, 2600, 5000]);
        let burst = *r.pick(&[1, 1, 1, 2, 5, if prop == "C17" { 12 } else { 7 }]);
        let mut node = r.range(0, k);
        if host && r.range(0, if prop == "C23" { 1 } else { 5 }) == 0 {
            node = HOST as i64;
        }
        if prop == "C14" {
            node = 0;
        }
        if node != 0 {
            c.op(t, node, "msg", &[ty, ch, size, 0, burst]);
        } else if r.range(0, 2) == 0 && prop != "C14" {
            c.op(t, 0, "msg", &[ty, ch, size, 0, burst, if host && prop == "C23" && r.range(0, 1) == 0 { 9 } else { r.range(0, k) }]);
        } else {
            let kind = r.range(0, 10);
            let via = if c.get("two") != 0 { r.range(1, 2) } else { 1 };
            let mut args = vec![ty % 3, ch, size, via, burst, kind];
            for _ in 0..r.range(0, 7) {
                args.push(if k > 4 && r.range(0, 2) == 0 { r.range(2, k - 1) } else { *r.pick(&[0, 1, 2, 3, 0, 1, 50, 51, 52]) });
            }
            c.op(t, 0, "msg", &args);
        }
    }
    // things that cannot be sent, next to those that can
    if r.range(0, if prop == "C16" { 2 } else { 11 }) == 0 && !hostile {
        let msgs: Vec<(u64, i64, Vec<i64>)> = c.ops.iter().filter(|o| o.kind == "msg" && o.node != HOST as i64).map(|o| (o.t, o.node, o.args.clone())).collect();
        for _ in 0..r.range(1, 12) {
            if msgs.is_empty() {
                break;
            }
            let (t, node, a) = r.pick(&msgs).clone();
            let via = (node == 0 && a[3] != 0) as i64;
            let ty = if r.range(0, 2) == 0 { r.range(0, 4) } else { a[0] };
            let dt = r.range(-20, 5) * 1000;
            c.op((t as i64 + dt).max(1) as u64, node, "badmsg", &[ty, if via == 1 { 0 } else { r.range(0, 1) }, via, if node == 0 && via == 0 { a[5].min(k - 1) } else { 0 }]);
        }
    }
    c.sort();
    c
}
