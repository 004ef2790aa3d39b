//! A real netcode server and clients joined by hand: the demonstration decides which packet arrives when.
#![allow(dead_code)]
use aeronet_io::connection::{LocalAddr, PeerAddr};
use bevy_app::prelude::*;
use bevy_ecs::prelude::*;
use bevy_time::TimeUpdateStrategy;
use bytes::{Bytes, BytesMut};
use core::net::SocketAddr;
use core::time::Duration;
use lightyear_connection::network_topology::NetworkingMetadata;
pub use lightyear_connection::prelude::client::{Client, Connect, Connected, Disconnect, Disconnected};
pub use lightyear_connection::prelude::server::{ClientOf, Start, Stop, Stopped};
use lightyear_connection::prelude::*;
use lightyear_core::id::{PeerId, RemoteId};
use lightyear_core::plugin::CorePlugins;
use lightyear_link::LinkPlugin;
pub use lightyear_link::prelude::*;
use lightyear_link::server::ServerLinkPlugin;
pub use lightyear_netcode::ConnectToken;
use lightyear_netcode::prelude::Authentication;
use lightyear_netcode::prelude::client::{NetcodeClient, NetcodeClientPlugin};
use lightyear_netcode::prelude::server::{NetcodeServer, NetcodeServerPlugin};
use lightyear_transport::plugin::TransportSystems;
use std::collections::BTreeMap;

pub const KEY: [u8; 32] = [7; 32];
pub const PROTO: u64 = 5;

#[derive(Resource, Default)]
struct Up(Vec<(Entity, Vec<u8>)>);
#[derive(Resource, Default)]
struct Out(Vec<(Entity, Bytes)>);
#[derive(Resource, Default)]
struct Todo(Vec<Box<dyn FnOnce(&mut World) + Send + Sync>>);

fn todo(w: &mut World) {
    for f in core::mem::take(&mut w.resource_mut::<Todo>().0) {
        f(w);
        w.flush();
    }
}
fn base() -> App {
    let mut app = App::new();
    app.add_plugins(CorePlugins { tick_duration: Duration::from_millis(10) });
    app.init_resource::<Up>();
    app.init_resource::<Out>();
    app.init_resource::<Todo>();
    app.add_plugins(lightyear_connection::ConnectionPlugin);
    app.add_systems(Update, todo);
    app.add_systems(
        PreUpdate,
        (|mut q: Query<(Entity, &mut Link)>, mut u: ResMut<Up>| {
            for (e, mut l) in q.iter_mut() {
                for b in l.recv.drain() {
                    u.0.push((e, b.to_vec()));
                }
            }
        })
        .after(ConnectionSystems::Receive)
        .before(TransportSystems::Receive),
    );
    app.add_systems(
        PostUpdate,
        (|mut q: Query<(Entity, &mut Link)>, mut o: ResMut<Out>| {
            for (e, mut l) in q.iter_mut() {
                for b in l.send.drain() {
                    o.0.push((e, b));
                }
            }
        })
        .in_set(LinkSystems::Send),
    );
    app
}
fn ready(app: &mut App) {
    app.finish();
    app.cleanup();
    app.insert_resource(TimeUpdateStrategy::ManualDuration(Duration::ZERO));
    app.update();
    app.insert_resource(TimeUpdateStrategy::ManualDuration(Duration::from_millis(10)));
}

#[derive(Clone, Debug)]
pub struct Pkt {
    pub to_server: bool,
    pub addr: u16,
    pub data: Vec<u8>,
}
pub struct Cli {
    pub app: App,
    pub ent: Entity,
    pub addr: u16,
}
pub struct World2 {
    pub srv: App,
    pub se: Entity,
    pub links: BTreeMap<u16, Entity>,
    pub cls: Vec<Cli>,
    /// packets sent in the last step, delivered in the next one
    pub wire: Vec<Pkt>,
    /// everything ever sent
    pub log: Vec<Pkt>,
}
pub fn sock(a: u16) -> SocketAddr {
    SocketAddr::from(([10, 0, 0, 1], a))
}
pub fn server_addr() -> SocketAddr {
    SocketAddr::from(([10, 0, 0, 100], 7777))
}
pub fn token(client_id: u64, expire: i32, timeout: i32) -> ConnectToken {
    ConnectToken::build(server_addr(), PROTO, client_id, KEY).expire_seconds(expire).timeout_seconds(timeout).generate().unwrap()
}
pub fn world(max_clients: usize, clients: usize) -> World2 {
    let mut srv = base();
    srv.add_plugins(ServerLinkPlugin);
    srv.add_plugins(NetcodeServerPlugin);
    let cfg = lightyear_netcode::prelude::server::NetcodeConfig { max_clients, protocol_id: PROTO, private_key: KEY, ..Default::default() };
    let se = srv.world_mut().spawn((NetcodeServer::new(cfg), LocalAddr(server_addr()))).id();
    ready(&mut srv);
    srv.world_mut().resource_mut::<Todo>().0.push(Box::new(move |w| {
        w.entity_mut(se).insert(Linked);
        w.trigger(Start { entity: se });
    }));
    let cls = (0..clients)
        .map(|i| {
            let mut app = base();
            app.add_plugins(LinkPlugin);
            app.add_plugins(NetcodeClientPlugin);
            let ent = app.world_mut().spawn((Client, Link::default(), Disconnected::default())).id();
            ready(&mut app);
            Cli { app, ent, addr: 1000 + i as u16 }
        })
        .collect();
    let mut w = World2 { srv, se, links: BTreeMap::new(), cls, wire: vec![], log: vec![] };
    w.step();
    w
}
impl World2 {
    pub fn connect(&mut self, i: usize, t: Option<ConnectToken>) {
        let e = self.cls[i].ent;
        self.on_client(i, move |w| {
            if let Some(t) = t {
                let nc = NetcodeClient::new(Authentication::Token(t), Default::default()).unwrap();
                w.entity_mut(e).insert(nc);
            }
            w.entity_mut(e).insert(Linked);
            w.trigger(Connect { entity: e });
        });
    }
    pub fn disconnect(&mut self, i: usize) {
        let e = self.cls[i].ent;
        self.on_client(i, move |w| w.trigger(Disconnect { entity: e }));
    }
    /// runs inside the next frame
    pub fn on_client(&mut self, i: usize, f: impl FnOnce(&mut World) + Send + Sync + 'static) {
        self.cls[i].app.world_mut().resource_mut::<Todo>().0.push(Box::new(f));
    }
    pub fn on_server(&mut self, f: impl FnOnce(&mut World) + Send + Sync + 'static) {
        self.srv.world_mut().resource_mut::<Todo>().0.push(Box::new(f));
    }
    /// 10 ms: everything on the wire arrives, in order
    pub fn step(&mut self) {
        let wire = core::mem::take(&mut self.wire);
        let mut up = vec![];
        for p in &wire {
            if p.to_server {
                let e = match self.links.get(&p.addr).copied().filter(|e| self.srv.world().get_entity(*e).is_ok()) {
                    Some(e) => e,
                    None => {
                        let e = self.srv.world_mut().spawn((LinkOf { server: self.se }, Link::default(), PeerAddr(sock(p.addr)), Linked)).id();
                        self.srv.world_mut().flush();
                        self.links.insert(p.addr, e);
                        e
                    }
                };
                self.srv.world_mut().get_mut::<Link>(e).unwrap().recv.push_raw(BytesMut::from(&p.data[..]));
            } else if let Some(c) = self.cls.iter_mut().find(|c| c.addr == p.addr) {
                let e = c.ent;
                c.app.world_mut().get_mut::<Link>(e).unwrap().recv.push_raw(BytesMut::from(&p.data[..]));
            }
        }
        self.srv.update();
        for (e, b) in core::mem::take(&mut self.srv.world_mut().resource_mut::<Out>().0) {
            if let Some((a, _)) = self.links.iter().find(|x| *x.1 == e) {
                up.push(Pkt { to_server: false, addr: *a, data: b.to_vec() });
            }
        }
        for c in &mut self.cls {
            c.app.update();
            for (_, b) in core::mem::take(&mut c.app.world_mut().resource_mut::<Out>().0) {
                up.push(Pkt { to_server: true, addr: c.addr, data: b.to_vec() });
            }
        }
        self.log.extend(up.iter().cloned());
        self.wire = up;
    }
    pub fn run(&mut self, steps: usize) {
        for _ in 0..steps {
            self.step();
        }
    }
    pub fn client_up(&self, i: usize) -> bool {
        self.cls[i].app.world().get::<Connected>(self.cls[i].ent).is_some()
    }
    pub fn server_ids(&mut self) -> Vec<u64> {
        let w = self.srv.world_mut();
        let mut q = w.query_filtered::<&RemoteId, (With<Connected>, With<ClientOf>)>();
        let mut v: Vec<u64> = q.iter(w).filter_map(|r| if let PeerId::Netcode(i) = r.0 { Some(i) } else { None }).collect();
        v.sort();
        v
    }
    pub fn peer_map(&self) -> Vec<(PeerId, Entity)> {
        self.srv.world().resource::<NetworkingMetadata>().peer_map.iter().map(|(a, b)| (*a, *b)).collect()
    }
    /// payloads the server passed up since the last call
    pub fn server_got(&mut self) -> Vec<Vec<u8>> {
        core::mem::take(&mut self.srv.world_mut().resource_mut::<Up>().0).into_iter().map(|x| x.1).collect()
    }
    pub fn client_got(&mut self, i: usize) -> Vec<Vec<u8>> {
        core::mem::take(&mut self.cls[i].app.world_mut().resource_mut::<Up>().0).into_iter().map(|x| x.1).collect()
    }
    pub fn client_send(&mut self, i: usize, data: Vec<u8>) {
        let e = self.cls[i].ent;
        self.on_client(i, move |w| {
            w.get_mut::<Link>(e).unwrap().send.push(Bytes::from(data));
        });
    }
    pub fn server_send(&mut self, addr: u16, data: Vec<u8>) {
        let e = self.links[&addr];
        self.on_server(move |w| {
            w.get_mut::<Link>(e).unwrap().send.push(Bytes::from(data));
        });
    }
}
pub fn fail(s: &str) -> ! {
    println!("DEMO FAILED: {s}");
    std::process::exit(1)
}
