//! Two real transport stacks joined by hand: the demonstration decides which packet arrives when.
#![allow(dead_code)]
use bevy_app::prelude::*;
use bevy_ecs::prelude::*;
use bevy_time::TimeUpdateStrategy;
use bytes::{Bytes, BytesMut};
use core::time::Duration;
use lightyear_core::plugin::CorePlugins;
use lightyear_link::prelude::*;
use lightyear_transport::channel::registry::ChannelKind;
use lightyear_transport::plugin::TransportPlugin;
use lightyear_transport::prelude::*;

pub struct C0;
pub struct C1;

pub struct Peer {
    pub app: App,
    pub ent: Entity,
}

pub fn peer(s0: ChannelSettings, s1: ChannelSettings, min_mtu: Option<usize>, pc: PriorityConfig) -> Peer {
    let mut app = App::new();
    app.add_plugins(CorePlugins { tick_duration: Duration::from_millis(10) });
    app.init_resource::<ChannelRegistry>();
    app.add_plugins(TransportPlugin);
    app.add_channel::<C0>(s0);
    app.add_channel::<C1>(s1);
    app.finish();
    app.cleanup();
    let mut t = Transport::new(pc);
    let reg = app.world().resource::<ChannelRegistry>().clone();
    t.add_channel_send_from_registry::<C0>(&reg);
    t.add_channel_receive_from_registry::<C0>(&reg);
    t.add_channel_send_from_registry::<C1>(&reg);
    t.add_channel_receive_from_registry::<C1>(&reg);
    let mut link = Link::default();
    if let Some(m) = min_mtu {
        link = link.with_mtu(LinkMtu::new(m));
    }
    let ent = app.world_mut().spawn((link, t, Linked)).id();
    app.insert_resource(TimeUpdateStrategy::ManualDuration(Duration::from_millis(10)));
    let mut p = Peer { app, ent };
    p.stats(40);
    p.frame(&[]);
    p
}

impl Peer {
    pub fn stats(&mut self, rtt_ms: u64) {
        let mut l = self.app.world_mut().get_mut::<Link>(self.ent).unwrap();
        l.stats.rtt = Duration::from_millis(rtt_ms);
    }
    pub fn send<C: Channel>(&mut self, bytes: Vec<u8>, prio: f32) -> Option<u16> {
        let mut t = self.app.world_mut().get_mut::<Transport>(self.ent).unwrap();
        t.send_mut_erased(ChannelKind::of::<C>(), Bytes::from(bytes), prio).unwrap().map(|i| i.0)
    }
    /// one frame of 10 ms: the given packets arrive, the packets sent are returned
    pub fn frame(&mut self, arrived: &[Bytes]) -> Vec<Bytes> {
        {
            let mut l = self.app.world_mut().get_mut::<Link>(self.ent).unwrap();
            for p in arrived {
                l.recv.push_raw(BytesMut::from(&p[..]));
            }
        }
        self.app.update();
        let mut l = self.app.world_mut().get_mut::<Link>(self.ent).unwrap();
        l.send.drain().collect()
    }
    pub fn read<C: Channel>(&mut self) -> Vec<Vec<u8>> {
        let reg = self.app.world().resource::<ChannelRegistry>().clone();
        let id = *reg.get_net_from_kind(&ChannelKind::of::<C>()).unwrap();
        let mut t = self.app.world_mut().get_mut::<Transport>(self.ent).unwrap();
        let r = t.channel_receive_mut(id).unwrap();
        let mut v = vec![];
        while let Some((_, b, _)) = r.read_message() {
            v.push(b.to_vec());
        }
        v
    }
    pub fn acks<C: Channel>(&mut self) -> Vec<u16> {
        let t = self.app.world().get::<Transport>(self.ent).unwrap();
        t.channel_send(ChannelKind::of::<C>()).unwrap().message_acks().iter().map(|m| m.0).collect()
    }
}

pub fn settings(mode: ChannelMode) -> ChannelSettings {
    ChannelSettings { mode, ..Default::default() }
}

pub fn fail(msg: &str) -> ! {
    println!("DEMO FAILED: {msg}");
    std::process::exit(1)
}
