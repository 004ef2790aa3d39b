//! A server and its clients with the real link, transport, message and connection plugins, joined by
//! hand: the demonstration decides which packet arrives when. The handshake is left out: the
//! connections are made as they are after it.
#![allow(dead_code)]
use bevy_app::prelude::*;
use bevy_ecs::entity::MapEntities;
use bevy_ecs::prelude::*;
use bevy_ecs::system::SystemState;
use bevy_time::TimeUpdateStrategy;
use bytes::{Bytes, BytesMut};
use core::time::Duration;
use lightyear_connection::client::{Client, Connected, Disconnected};
use lightyear_connection::client_of::ClientOf;
use lightyear_connection::host::HostPlugin;
use lightyear_connection::network_target::NetworkTarget;
use lightyear_connection::prelude::*;
use lightyear_connection::server::Started;
use lightyear_core::id::{LocalId, PeerId, RemoteId};
use lightyear_core::plugin::CorePlugins;
use lightyear_core::prelude::{NetworkTimeline, Tick};
use lightyear_core::time::TickInstant;
use lightyear_core::timeline::{Timeline, TimelineConfig};
use lightyear_link::prelude::*;
use lightyear_link::server::ServerLinkPlugin;
use lightyear_messages::{Message, MessageManager};
use lightyear_messages::prelude::*;
use lightyear_messages::server::ServerMultiMessageSender;
use lightyear_transport::plugin::TransportPlugin;
use lightyear_transport::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Debug)]
pub struct Ro;
#[derive(Debug)]
pub struct To;

#[derive(Component, Default)]
pub struct LagCfg;
#[derive(Component, Default)]
pub struct Lag(Timeline<LagCfg>);
impl TimelineConfig for LagCfg {
    type Context = ();
    type Timeline = Lag;
}
impl core::ops::Deref for Lag {
    type Target = Timeline<LagCfg>;
    fn deref(&self) -> &Self::Target {
        &self.0
    }
}
impl core::ops::DerefMut for Lag {
    fn deref_mut(&mut self) -> &mut Self::Target {
        &mut self.0
    }
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct A(pub u64);
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct E(pub Vec<Entity>);
#[derive(Event, Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Ev(pub u64);
impl MapEntities for E {
    fn map_entities<M: EntityMapper>(&mut self, m: &mut M) {
        for e in self.0.iter_mut() {
            *e = m.get_mapped(*e);
        }
    }
}

#[derive(Resource, Default)]
pub struct Got {
    pub a: Vec<(Entity, u64, u32)>,
    pub e: Vec<(Entity, Vec<Entity>)>,
    pub ev: Vec<u64>,
}

fn read(world: &mut World) {
    let mut a = vec![];
    let mut q = world.query::<(Entity, &mut MessageReceiver<A>)>();
    for (e, mut r) in q.iter_mut(world) {
        a.extend(r.receive_with_tick().map(|m| (e, m.data.0, m.remote_tick.0)));
    }
    let mut es = vec![];
    let mut q = world.query::<(Entity, &mut MessageReceiver<E>)>();
    for (e, mut r) in q.iter_mut(world) {
        es.extend(r.receive().map(|m| (e, m.0)));
    }
    let mut g = world.resource_mut::<Got>();
    g.a.extend(a);
    g.e.extend(es);
}

pub struct Node {
    pub app: App,
    /// server entities
    pub servers: Vec<Entity>,
    /// connections, in the order they were made
    pub conns: Vec<Entity>,
}

pub fn node(servers: usize) -> Node {
    let mut app = App::new();
    app.add_plugins(CorePlugins { tick_duration: Duration::from_millis(10) });
    app.add_plugins((TransportPlugin, lightyear_messages::plugin::MessagePlugin, lightyear_connection::ConnectionPlugin));
    app.add_plugins(lightyear_connection::client::ConnectionPlugin);
    if servers > 0 {
        app.add_plugins((ServerLinkPlugin, lightyear_connection::server::ConnectionPlugin, HostPlugin));
    }
    let b = NetworkDirection::Bidirectional;
    let rel = ChannelSettings { mode: ChannelMode::OrderedReliable(ReliableSettings::default()), ..Default::default() };
    app.add_channel::<Ro>(rel).add_direction(b);
    let rel = ChannelSettings { mode: ChannelMode::UnorderedReliable(ReliableSettings::default()), ..Default::default() };
    app.add_channel::<To>(rel.on_timeline::<Lag>()).add_direction(b);
    app.register_message::<A>().add_direction(b);
    app.register_message::<E>().add_map_entities().add_direction(b);
    app.register_event::<Ev>().add_direction(b);
    app.init_resource::<Got>();
    app.add_systems(Update, read);
    app.add_observer(|t: On<RemoteEvent<Ev>>, mut g: ResMut<Got>| g.ev.push(t.trigger.0));
    let servers = (0..servers).map(|_| app.world_mut().spawn((Server::default(), Linked, Started)).id()).collect();
    app.finish();
    app.cleanup();
    app.insert_resource(TimeUpdateStrategy::ManualDuration(Duration::from_millis(10)));
    app.update();
    Node { app, servers, conns: vec![] }
}

impl Node {
    /// server side of a connection
    pub fn accept(&mut self, server: usize, id: u64) -> Entity {
        let s = self.servers[server];
        let w = self.app.world_mut();
        let e = w.spawn((LinkOf { server: s }, Link::default(), Linked, Lag::default())).id();
        w.flush();
        w.entity_mut(e).insert((LocalId(PeerId::Server), RemoteId(PeerId::Netcode(id)), ClientOf, Connected));
        w.flush();
        self.conns.push(e);
        e
    }
    /// client side of a connection
    pub fn connect(&mut self, id: u64) -> Entity {
        let w = self.app.world_mut();
        let e = match self.conns.first() {
            Some(e) => *e,
            None => {
                let e = w.spawn((Client, Link::default(), Linked, Lag::default())).id();
                self.conns.push(e);
                e
            }
        };
        w.flush();
        w.entity_mut(e).insert((LocalId(PeerId::Netcode(id)), RemoteId(PeerId::Server), Connected));
        w.flush();
        e
    }
    pub fn end(&mut self, e: Entity) {
        let w = self.app.world_mut();
        w.entity_mut(e).insert(Disconnected::default());
        w.flush();
    }
    pub fn lag(&mut self, e: Entity, tick: u32) {
        self.app.world_mut().get_mut::<Lag>(e).unwrap().set_now(TickInstant::from(Tick(tick)));
    }
    pub fn arrive(&mut self, e: Entity, pkts: &[Bytes]) {
        let mut l = self.app.world_mut().get_mut::<Link>(e).unwrap();
        for p in pkts {
            l.recv.push_raw(BytesMut::from(&p[..]));
        }
    }
    pub fn frame(&mut self) {
        self.app.update();
    }
    pub fn sent(&mut self, e: Entity) -> Vec<Bytes> {
        self.app.world_mut().get_mut::<Link>(e).unwrap().send.drain().collect()
    }
    pub fn got(&mut self) -> Got {
        core::mem::take(&mut *self.app.world_mut().resource_mut::<Got>())
    }
    pub fn send<M: Message, C: Channel>(&mut self, e: Entity, m: M) {
        self.app.world_mut().get_mut::<MessageSender<M>>(e).expect("sender").send::<C>(m);
    }
    pub fn trigger<C: Channel>(&mut self, e: Entity, m: Ev) {
        self.app.world_mut().get_mut::<EventSender<Ev>>(e).expect("sender").trigger::<C>(m);
    }
    pub fn to<M: Message>(&mut self, server: usize, m: &M, target: &NetworkTarget) {
        let s = self.servers[server];
        let w = self.app.world_mut();
        let mut st: SystemState<(ServerMultiMessageSender, Query<&Server>)> = SystemState::new(w);
        {
            let (mut tx, q) = st.get_mut(w).expect("params");
            tx.send::<M, Ro>(m, q.get(s).unwrap(), target).expect("send");
        }
        st.apply(w);
    }
    pub fn map(&mut self, e: Entity, remote: Entity, local: Entity) {
        self.app.world_mut().get_mut::<MessageManager>(e).unwrap().entity_mapper.insert(remote, local);
    }
    pub fn spawn(&mut self) -> Entity {
        self.app.world_mut().spawn_empty().id()
    }
}

/// a frame of both, with every packet of the frame before arriving
pub fn exchange(a: &mut Node, ea: Entity, b: &mut Node, eb: Entity, frames: usize) {
    for _ in 0..frames {
        let (x, y) = (a.sent(ea), b.sent(eb));
        a.arrive(ea, &y);
        b.arrive(eb, &x);
        a.frame();
        b.frame();
    }
}

pub fn fail(msg: &str) -> ! {
    println!("DEMO FAILED: {msg}");
    std::process::exit(1)
}
