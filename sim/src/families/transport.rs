//! Family T: two peers, each a real bevy App with the real transport stack (channels, reliability,
//! fragmentation, acks, priorities, packet building) on the real link, joined by the simulated
//! network. Decides C01-C06 and C08 at the level of the transport API.
use crate::case::{Case, Op};
use crate::net::{Net, addr, matches, node_of};
use crate::rec::Rec;
use crate::rng::{Rng, hash, hash_bytes};
use crate::runner::Tier;
use bevy_app::prelude::*;
use bevy_ecs::prelude::*;
use bevy_time::TimeUpdateStrategy;
use bytes::{Bytes, BytesMut};
use core::time::Duration;
use lightyear_connection::prelude::{Connected, Disconnected};
use lightyear_core::plugin::CorePlugins;
use lightyear_link::prelude::*;
use lightyear_transport::channel::builder::DEFAULT_MESSAGE_PRIORITY;
use lightyear_transport::channel::registry::{ChannelId, ChannelKind};
use lightyear_transport::plugin::{PacketAcked, PacketLost, TransportPlugin};
use lightyear_transport::prelude::*;
use std::collections::{BTreeMap, HashMap, HashSet};

pub const MAX_CH: usize = 6;
pub struct Ch<const I: usize>;

pub const M_UU_ACK: i64 = 0;
pub const M_UU: i64 = 1;
pub const M_SU: i64 = 2;
pub const M_UR: i64 = 3;
pub const M_SR: i64 = 4;
pub const M_OR: i64 = 5;

fn is_reliable(m: i64) -> bool {
    m >= M_UR
}

macro_rules! with_ch {
    ($i:expr, $C:ident, $e:expr) => {
        match $i {
            0 => { type $C = Ch<0>; $e }
            1 => { type $C = Ch<1>; $e }
            2 => { type $C = Ch<2>; $e }
            3 => { type $C = Ch<3>; $e }
            4 => { type $C = Ch<4>; $e }
            _ => { type $C = Ch<5>; $e }
        }
    };
}

// ---------------------------------------------------------------------------------------------
// payloads: a message is a sequence of 8-byte words [0xE7, uid (3 bytes), word index (4 bytes)]
// plus a tail, so that any piece of it can be recognised inside any packet.

const UID0: u32 = 0x10_0000;

/// word index of the last 8 bytes of a message of 16 bytes or more
const END: u32 = 0x00FF_FFFF;

/// number of recognisable words of a message of `size` bytes (the last one is the END word)
fn n_words(size: usize) -> usize {
    if size < 8 {
        0
    } else if size < 16 {
        1
    } else {
        (size - 8) / 8 + 1
    }
}

/// header of a packet, which is never compressed; its first byte is the type of the packet
const HEADER: usize = 13;

/// The packet as it was before compression, if it was compressed (types 2 and 3: the body is a
/// 4-byte length and an LZ4 block).
fn expand(b: &[u8]) -> Option<Vec<u8>> {
    if b.len() < HEADER + 4 || !(b[0] == 2 || b[0] == 3) {
        return None;
    }
    let want = u32::from_le_bytes(b[HEADER..HEADER + 4].try_into().unwrap()) as usize;
    let mut out = b[..HEADER].to_vec();
    let src = &b[HEADER + 4..];
    let mut i = 0;
    let len = |i: &mut usize, n: u8| -> Option<usize> {
        let mut n = n as usize;
        if n == 15 {
            loop {
                let x = *src.get(*i)?;
                *i += 1;
                n += x as usize;
                if x != 255 {
                    break;
                }
            }
        }
        Some(n)
    };
    while i < src.len() {
        let token = src[i];
        i += 1;
        let lit = len(&mut i, token >> 4)?;
        out.extend_from_slice(src.get(i..i + lit)?);
        i += lit;
        if i >= src.len() {
            break;
        }
        let back = u16::from_le_bytes([*src.get(i)?, *src.get(i + 1)?]) as usize;
        i += 2;
        let n = len(&mut i, token & 15)? + 4;
        if back == 0 || back > out.len() - HEADER {
            return None;
        }
        for _ in 0..n {
            let x = out[out.len() - back];
            out.push(x);
        }
    }
    (out.len() == HEADER + want).then_some(out)
}

pub fn payload(uid: u32, size: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(size);
    let word = |v: &mut Vec<u8>, i: u32| {
        v.push(0xE7);
        v.extend_from_slice(&uid.to_le_bytes()[..3]);
        v.extend_from_slice(&i.to_le_bytes());
    };
    let body = if size >= 16 { size - 8 } else { size };
    for i in 0..(body / 8) as u32 {
        word(&mut v, i);
    }
    let mut k = 0u64;
    while v.len() < body {
        v.push((hash(&[if size < 4 { 7 } else { uid as u64 }, k]) & 0x7F) as u8);
        k += 1;
    }
    if size >= 16 {
        word(&mut v, END);
    }
    if (4..8).contains(&size) {
        v[0] = 0xE6;
        v[1..4].copy_from_slice(&uid.to_le_bytes()[..3]);
    }
    v
}

/// uid of a received payload, if it carries one
fn uid_of(b: &[u8]) -> Option<u32> {
    if b.len() < 4 || (b[0] != 0xE7 && b[0] != 0xE6) {
        return None;
    }
    Some(u32::from_le_bytes([b[1], b[2], b[3], 0]))
}

#[derive(Clone, Debug, Default)]
struct Msg {
    uid: u32,
    size: usize,
    epoch: u32,
    sent: u64,
    sent_frame: u64,
    prio: f32,
    msg_id: Option<u16>,
    acked: u32,
    nacked: u32,
    delivered: u32,
    /// per word: how often a packet containing it was delivered to (and processed by) the peer
    words: Vec<u16>,
    first_tx: Option<u64>,
    last_tx: u64,
    tx_words: u32,
    first_rx: u64,
    last_rx: u64,
}

impl Msg {
    /// Could every packet needed for the message have reached the peer? (A word split by a
    /// fragment boundary cannot be seen, but two adjacent words are never both split.)
    fn arrived(&self) -> bool {
        let n = self.words.len();
        if n == 0 || self.words[0] == 0 {
            return false;
        }
        if n == 1 {
            return true;
        }
        // body words 0..n-1, END word at n-1
        !(1..n - 1).any(|i| self.words[i] == 0 && self.words[i - 1] == 0)
    }
    /// Every packet needed for the message has certainly reached the peer.
    fn arrived_strict(&self) -> bool {
        let n = self.words.len();
        self.arrived() && self.words[n - 1] > 0
    }
    fn max_copies(&self) -> u32 {
        // least number of deliveries over the seen words bounds how often the whole can appear
        self.words.iter().filter(|w| **w > 0).map(|w| *w as u32).min().unwrap_or(0)
    }
}

#[derive(Default)]
struct ChModel {
    mode: i64,
    retry: bool,
    freq: u64,
    prio: f32,
    msgs: Vec<Msg>,
    by_uid: HashMap<u32, usize>,
    by_id: HashMap<u16, usize>,
    anon_sent: HashMap<usize, u64>,
    anon_recv: HashMap<usize, u64>,
    next_ordered: usize,
    last_seq: Option<usize>,
    epoch_start: usize,
}

#[derive(Resource, Default)]
struct EvLog {
    acked: Vec<(u16, u64)>,
    lost: Vec<(u16, u64)>,
}

struct Peer {
    app: App,
    ent: Entity,
    next: u64,
    period: u64,
    last: u64,
    frames: u64,
}

#[derive(Default, Clone, Copy)]
struct PktInst {
    delivered: bool,
    outcome: u8, // 0 none 1 acked 2 lost
    ack_only: bool,
    sent: u64,
}

struct World2<'a> {
    c: &'a Case,
    peers: Vec<Peer>,
    ch: Vec<Vec<ChModel>>, // [sender node][channel]
    ids: Vec<ChannelId>,
    net: Net,
    epoch: u32,
    next_uid: u32,
    pk: Vec<HashMap<u16, PktInst>>,          // current instance of each packet id, per sender
    net_to_pid: HashMap<(usize, u64), u16>,  // (sender, net id) -> packet id
    keep: Vec<(u64, Bytes, u64)>,            // handed-over packets: (time, handle, content hash)
    sent_log: Vec<Vec<(u64, u64)>>,          // bytes handed to the link (time, len)
    rate: u64,
    burst: u64,
    via: i64,
    mtu: Vec<usize>,
    faulty: bool,
}

/// a channel nobody uses: an application may have many, and the ids of the others grow
struct Pad<const N: usize>;
fn pad(app: &mut App, n: usize) {
    macro_rules! p {
        ($($i:literal)*) => { $(if $i < n {
            app.add_channel::<Pad<$i>>(ChannelSettings { mode: ChannelMode::UnorderedUnreliable, ..Default::default() });
        })* };
    }
    p!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39 40 41 42 43 44 45 46 47 48 49 50 51 52 53 54 55 56 57 58 59 60 61 62 63 64 65);
}

fn build_app(c: &Case, node: usize) -> (App, Entity, Vec<ChannelId>) {
    let mut app = App::new();
    app.add_plugins(CorePlugins { tick_duration: Duration::from_micros(c.get("tick_us").max(1000) as u64) });
    app.init_resource::<ChannelRegistry>();
    app.init_resource::<EvLog>();
    app.add_plugins(TransportPlugin);
    let n = c.get("n_ch") as usize;
    pad(&mut app, c.get("pad_ch") as usize);
    for i in 0..n {
        let g = |k: &str| c.get(&format!("ch{i}_{k}"));
        let rel = ReliableSettings {
            rtt_resend_factor: if g("rf") > 0 { g("rf") as f32 / 100.0 } else { 1.5 },
            rtt_resend_min_delay: Duration::from_micros(g("minre") as u64),
        };
        let mode = match g("mode") {
            M_UU_ACK => ChannelMode::UnorderedUnreliableWithAcks,
            M_UU => ChannelMode::UnorderedUnreliable,
            M_SU => ChannelMode::SequencedUnreliable,
            M_UR => ChannelMode::UnorderedReliable(rel),
            M_SR => ChannelMode::SequencedReliable(rel),
            _ => ChannelMode::OrderedReliable(rel),
        };
        let s = ChannelSettings {
            mode,
            send_frequency: Duration::from_micros(g("freq") as u64),
            priority: if g("prio") > 0 { g("prio") as f32 / 100.0 } else { 1.0 },
            retry_unsent_messages: g("noretry") == 0,
            timeline: None,
        };
        with_ch!(i, C, {
            app.add_channel::<C>(s);
        });
    }
    app.add_observer(|t: On<PacketAcked>, mut l: ResMut<EvLog>| l.acked.push((t.packet_id.0, t.rtt_sample.as_micros() as u64)));
    app.add_observer(|t: On<PacketLost>, mut l: ResMut<EvLog>| l.lost.push((t.packet_id.0, 0)));
    app.finish();
    app.cleanup();
    let (ent, ids) = spawn(&mut app, c, node, c.get("mtu"));
    (app, ent, ids)
}

/// an end of a connection: its link and its transport with all channels
fn spawn(app: &mut App, c: &Case, node: usize, mtu: i64) -> (Entity, Vec<ChannelId>) {
    let n = c.get("n_ch") as usize;
    let pc = if c.get("bw_rate") > 0 {
        PriorityConfig::new(c.get("bw_rate") as u32).with_burst_size(c.get("bw_burst") as u32)
    } else {
        PriorityConfig::default()
    };
    let mut t = Transport::new(pc);
    if c.get("nack_jm") > 0 {
        t.set_packet_nack_settings(PacketNackSettings { jitter_multiplier: c.get("nack_jm") as f32 / 10.0, ..Default::default() });
    }
    if c.get("lz4") > 0 {
        t.set_compression(CompressionConfig {
            algorithm: Some(CompressionAlgorithm::Lz4),
            min_payload_size: c.get(&format!("lz4_min{node}")).max(0) as usize,
            max_decompressed_payload_size: c.get("lz4_max").max(1) as usize,
        });
    }
    let mut ids = vec![];
    let ent = {
        let reg = app.world().resource::<ChannelRegistry>().clone();
        for i in 0..n {
            with_ch!(i, C, {
                t.add_channel_send_from_registry::<C>(&reg);
                t.add_channel_receive_from_registry::<C>(&reg);
                ids.push(*reg.get_net_from_kind(&ChannelKind::of::<C>()).unwrap());
            });
        }
        let mut link = Link::default();
        if mtu > 0 {
            link = link.with_mtu(LinkMtu::new(mtu as usize));
        }
        app.world_mut().spawn((link, t, Linked)).id()
    };
    (ent, ids)
}

fn set_clock(us: u64) {
    mock_instant::global::MockClock::set_time(Duration::from_micros(1_000_000_000 + us));
    lightyear_transport::sim_hooks::set_now_nanos((1_000_000_000 + us) * 1000);
}

impl<'a> World2<'a> {
    fn new(c: &'a Case) -> Self {
        set_clock(0);
        let n = c.get("n_ch") as usize;
        let mut peers = vec![];
        let mut ids = vec![];
        for node in 0..2usize {
            let (app, ent, i) = build_app(c, node);
            ids = i;
            let period = c.get(&format!("frame{node}_us")).max(500) as u64;
            let mut app = app;
            // the first frame of an application, at its time zero, precedes any traffic
            app.insert_resource(TimeUpdateStrategy::ManualDuration(Duration::ZERO));
            app.update();
            peers.push(Peer { app, ent, next: 1 + hash(&[c.seed, 77, node as u64]) % period, period, last: 0, frames: 0 });
        }
        let mk = || {
            (0..n)
                .map(|i| {
                    let g = |k: &str| c.get(&format!("ch{i}_{k}"));
                    ChModel {
                        mode: g("mode"),
                        retry: g("noretry") == 0,
                        freq: g("freq") as u64,
                        prio: if g("prio") > 0 { g("prio") as f32 / 100.0 } else { 1.0 },
                        ..Default::default()
                    }
                })
                .collect::<Vec<_>>()
        };
        let mtu = if c.get("mtu") > 0 { c.get("mtu") as usize } else { DEFAULT_MTU };
        World2 {
            c,
            peers,
            ch: vec![mk(), mk()],
            ids,
            net: Net::new(c),
            epoch: 0,
            next_uid: UID0,
            pk: vec![HashMap::new(), HashMap::new()],
            net_to_pid: HashMap::new(),
            keep: vec![],
            sent_log: vec![vec![], vec![]],
            rate: c.get("bw_rate") as u64,
            burst: c.get("bw_burst") as u64,
            via: c.get("via"),
            mtu: vec![mtu, mtu],
            faulty: false,
        }
    }

    fn apply_op(&mut self, node: usize, op: &Op, rec: &mut Rec) {
        let a = |i: usize| op.args.get(i).copied().unwrap_or(0);
        match op.kind.as_str() {
            "send" => {
                let nch = self.ch[node].len();
                let ch = (a(0).max(0) as usize) % nch;
                let mut size = a(1).max(0) as usize;
                // messages too small to carry an identity cannot be told apart: only where order
                // does not matter
                if matches!(self.ch[node][ch].mode, M_SU | M_SR | M_OR) && size < 4 {
                    size += 4;
                }
                let count = a(3).max(1);
                let frames = self.peers[node].frames;
                let prio = if a(2) > 0 { a(2) as f32 / 100.0 } else { DEFAULT_MESSAGE_PRIORITY };
                for _ in 0..count {
                    // no byte of a uid may look like the start of a word
                    while self.next_uid.to_le_bytes().contains(&0xE7) {
                        self.next_uid += 1;
                    }
                    let uid = self.next_uid;
                    self.next_uid += 1;
                    let bytes = Bytes::from(payload(uid, size));
                    let p = &mut self.peers[node];
                    let mut t = p.app.world_mut().get_mut::<Transport>(p.ent).unwrap();
                    let kind = with_ch!(ch, C, ChannelKind::of::<C>());
                    let r = if self.via == 0 { t.send_mut_erased(kind, bytes, prio) } else { t.send_erased(kind, bytes, prio).map(|_| None) };
                    let id = match r {
                        Ok(id) => id.map(|i| i.0),
                        Err(e) => {
                            let p = crate::checks::static_id(&self.c.prop);
                            rec.viol(p, "send-error", format!("sending on a registered channel failed: {e:?}"));
                            continue;
                        }
                    };
                    rec.log(&[1, node as u64, ch as u64, uid as u64, size as u64, id.unwrap_or(0) as u64]);
                    rec.trace(|| format!("node {node} sends uid={uid:x} ch={ch} size={size} msg_id={id:?}"));
                    rec.stat("net.messages_sent", 1);
                    let m = &mut self.ch[node][ch];
                    if size < 4 {
                        *m.anon_sent.entry(size).or_insert(0) += 1;
                    }
                    let idx = m.msgs.len();
                    m.by_uid.insert(uid, idx);
                    if let Some(id) = id {
                        m.by_id.insert(id, idx);
                    }
                    m.msgs.push(Msg {
                        uid,
                        size,
                        epoch: self.epoch,
                        sent: rec.now,
                        sent_frame: frames,
                        prio: prio * m.prio,
                        msg_id: id,
                        // (a message that is compressed as a whole and then cut into fragments
                        // cannot be recognised in them)
                        words: vec![0; if self.c.get("lz4") > 0 && size > 250 { 0 } else { n_words(size) }],
                        ..Default::default()
                    });
                }
            }
            "mtu" => {
                // path MTU discovery: both current values may move, never below the minimum
                let p = &mut self.peers[node];
                let mut l = p.app.world_mut().get_mut::<Link>(p.ent).unwrap();
                let want = l.min_mtu() + a(0).max(0) as usize;
                if l.set_mtu(want).is_ok() {
                    self.mtu[node] = want;
                    rec.stat("fault.mtu_change", 1);
                }
            }
            _ => {}
        }
    }

    /// The connection ends on both sides and a new one begins (what the connection layers do with
    /// these markers); packets in flight belong to the old connection and are dropped there. One end
    /// may be a new entity, as a server has it.
    fn reconnect(&mut self, kind: i64, rec: &mut Rec) {
        rec.stat("fault.reconnect", 1);
        rec.log(&[2, self.epoch as u64]);
        rec.trace(|| "reconnect both peers".to_string());
        for (n, p) in self.peers.iter_mut().enumerate() {
            let e = p.ent;
            p.app.world_mut().entity_mut(e).insert(Disconnected::default());
            if kind == n as i64 + 1 {
                rec.stat("fault.new_entity", 1);
                p.app.world_mut().despawn(e);
                let mtu = self.c.get("mtu");
                self.mtu[n] = if mtu > 0 { mtu as usize } else { DEFAULT_MTU };
                p.ent = spawn(&mut p.app, self.c, n, mtu).0;
                continue;
            }
            p.app.world_mut().entity_mut(e).remove::<Disconnected>();
            let mut l = p.app.world_mut().get_mut::<Link>(e).unwrap();
            l.recv.drain();
            l.send.drain();
            p.app.world_mut().flush();
        }
        self.net.drop_in_flight();
        self.epoch += 1;
        for n in 0..2 {
            self.pk[n].clear();
            self.sent_log[n].clear();
            for m in self.ch[n].iter_mut() {
                m.epoch_start = m.msgs.len();
                m.by_id.clear();
                m.next_ordered = m.msgs.len();
                m.last_seq = None;
                m.anon_recv.clear();
                m.anon_sent.clear();
            }
        }
        self.net_to_pid.clear();
    }

    fn scan(bytes: &[u8], mut f: impl FnMut(u32, u32) -> bool) {
        let open = expand(bytes);
        let bytes = open.as_deref().unwrap_or(bytes);
        let mut i = 0;
        while i + 8 <= bytes.len() {
            if bytes[i] == 0xE7 && bytes[i + 3] >= 0x10 && bytes[i + 7] == 0 {
                let uid = u32::from_le_bytes([bytes[i + 1], bytes[i + 2], bytes[i + 3], 0]);
                let idx = u32::from_le_bytes([bytes[i + 4], bytes[i + 5], bytes[i + 6], bytes[i + 7]]);
                if f(uid, idx) {
                    i += 8;
                    continue;
                }
            }
            i += 1;
        }
    }

    fn find<'b>(ch: &'b mut [ChModel], uid: u32) -> Option<&'b mut Msg> {
        for m in ch.iter_mut() {
            if let Some(i) = m.by_uid.get(&uid) {
                return Some(&mut m.msgs[*i]);
            }
        }
        None
    }

    fn frame(&mut self, node: usize, ops: &mut Vec<Op>, rec: &mut Rec) {
        let now = rec.now;
        let peer_node = 1 - node;
        // network -> link
        let pkts = self.net.take(node as i64, now);
        let mut arrived_uids: Vec<u32> = vec![];
        {
            let p = &mut self.peers[node];
            let mut link = p.app.world_mut().get_mut::<Link>(p.ent).unwrap();
            for k in &pkts {
                link.recv.push_raw(BytesMut::from(&k.bytes[..]));
            }
            if self.c.get("rtt_us") > 0 {
                link.stats.rtt = Duration::from_micros(self.c.get("rtt_us") as u64);
                link.stats.jitter = Duration::from_micros(self.c.get("rttj_us") as u64);
            }
        }
        for k in &pkts {
            rec.log(&[3, node as u64, k.id, k.copy as u64]);
            if k.genuine {
                if let Some(pid) = self.net_to_pid.get(&(peer_node, k.id)) {
                    if let Some(pi) = self.pk[peer_node].get_mut(pid) {
                        pi.delivered = true;
                    }
                }
                let ch = &mut self.ch[peer_node];
                Self::scan(&k.bytes, |uid, idx| {
                    if let Some(m) = Self::find(ch, uid) {
                        let n = m.words.len();
                        let at = if idx == END { n.wrapping_sub(1) } else { idx as usize };
                        if let Some(w) = m.words.get_mut(at) {
                            if m.first_rx == 0 {
                                m.first_rx = now;
                            }
                            m.last_rx = now;
                            *w = w.saturating_add(1);
                            if arrived_uids.last() != Some(&uid) {
                                arrived_uids.push(uid);
                            }
                            return true;
                        }
                    }
                    false
                });
            }
        }
        // application operations that are due
        let mut i = 0;
        while i < ops.len() {
            if ops[i].t <= now && ops[i].node == node as i64 {
                let op = ops.remove(i);
                self.apply_op(node, &op, rec);
            } else {
                i += 1;
            }
        }
        // one frame of the application
        let dt = now - self.peers[node].last;
        self.peers[node].last = now;
        self.peers[node].frames += 1;
        set_clock(now);
        {
            let p = &mut self.peers[node];
            p.app.insert_resource(TimeUpdateStrategy::ManualDuration(Duration::from_micros(dt)));
            p.app.update();
        }
        rec.steps += 1;
        self.read_messages(node, rec);
        self.check_arrived(node, &arrived_uids, rec);
        self.read_outcomes(node, rec);
        self.flush_link(node, rec);
        let p = &mut self.peers[node];
        let jit = self.c.get("frame_jit") as u64;
        let extra = if jit > 0 { hash(&[self.c.seed, 99, node as u64, p.frames]) % (p.period * jit / 100 + 1) } else { 0 };
        p.next = now + p.period + extra;
    }

    fn read_messages(&mut self, node: usize, rec: &mut Rec) {
        // the application may poll rarely
        let every = self.c.get("read_every").max(1) as u64;
        if self.peers[node].frames % every != 0 {
            return;
        }
        let src = 1 - node;
        for chi in 0..self.ids.len() {
            loop {
                let got = {
                    let p = &mut self.peers[node];
                    let mut t = p.app.world_mut().get_mut::<Transport>(p.ent).unwrap();
                    t.channel_receive_mut(self.ids[chi]).unwrap().read_message()
                };
                let Some((_tick, bytes, _id)) = got else { break };
                self.on_delivery(src, chi, &bytes, rec);
            }
        }
    }

    fn on_delivery(&mut self, src: usize, chi: usize, bytes: &[u8], rec: &mut Rec) {
        let epoch = self.epoch;
        rec.stat("net.messages_delivered", 1);
        rec.log(&[4, src as u64, chi as u64, hash_bytes(bytes)]);
        let m = &mut self.ch[src][chi];
        let (p_once, p_content): (&'static str, &'static str) = match m.mode {
            M_UR => ("C01", "C01"),
            M_OR => ("C02", "C02"),
            M_SU | M_SR => ("C03", "C03"),
            _ => ("C04", "C04"),
        };
        let mode = m.mode;
        let idx = match uid_of(bytes) {
            Some(uid) if bytes.len() >= 4 => match m.by_uid.get(&uid) {
                Some(i) => *i,
                None => {
                    // not sent on this channel
                    rec.viol(p_content, "invented", format!("channel {chi} mode {mode}: delivered a message (uid {uid:x}, {} bytes) that was not sent on it", bytes.len()));
                    rec.viol("C05", "invented", format!("channel {chi}: delivered {} bytes that were not sent on it", bytes.len()));
                    return;
                }
            },
            _ => {
                // anonymous (0..3 bytes)
                let sent = m.anon_sent.get(&bytes.len()).copied().unwrap_or(0);
                let r = m.anon_recv.entry(bytes.len()).or_insert(0);
                *r += 1;
                let r = *r;
                if sent == 0 || bytes.len() >= 4 {
                    rec.viol(p_content, "invented", format!("channel {chi} mode {mode}: delivered {} bytes that were never sent on it", bytes.len()));
                    rec.viol("C05", "invented", format!("channel {chi}: delivered {} bytes that were never sent on it", bytes.len()));
                    return;
                }
                if mode == M_UR && r > sent {
                    rec.viol(p_once, "duplicate", format!("channel {chi}: {r} deliveries of {sent} messages of {} bytes", bytes.len()));
                }
                // attribute to the first undelivered of that size
                let size = bytes.len();
                let start = m.epoch_start;
                match m.msgs[start..].iter().position(|x| x.size == size && x.delivered == 0) {
                    Some(i) => start + i,
                    None => return,
                }
            }
        };
        let size = m.msgs[idx].size;
        let uid = m.msgs[idx].uid;
        rec.trace(|| format!("node {} receives uid={uid:x} ch={chi} ({} bytes)", 1 - src, bytes.len()));
        if m.msgs[idx].epoch != epoch {
            rec.viol("C07", "leak", format!("channel {chi}: a message of connection {} was delivered in connection {epoch}", m.msgs[idx].epoch));
            return;
        }
        if bytes != &payload(uid, size)[..] {
            rec.viol(p_content, "altered", format!("channel {chi} mode {mode}: uid {uid:x} of {size} bytes arrived altered ({} bytes)", bytes.len()));
            rec.viol("C05", "altered", format!("channel {chi}: uid {uid:x} of {size} bytes arrived altered ({} bytes)", bytes.len()));
        }
        m.msgs[idx].delivered += 1;
        let d = m.msgs[idx].delivered;
        match mode {
            M_UR => {
                if d > 1 {
                    rec.viol("C01", "duplicate", format!("channel {chi}: uid {uid:x} delivered {d} times"));
                }
            }
            M_OR => {
                // skip past: the next expected message is exactly the next one sent
                if idx != m.next_ordered {
                    rec.viol("C02", if idx < m.next_ordered { "duplicate" } else { "gap" }, format!("channel {chi}: message #{idx} delivered, expected #{}", m.next_ordered));
                }
                m.next_ordered = m.next_ordered.max(idx + 1);
            }
            M_SU | M_SR => {
                if let Some(l) = m.last_seq {
                    if idx <= l {
                        rec.viol("C03", if idx == l { "duplicate" } else { "older-after-newer" }, format!("channel {chi} mode {mode}: message #{idx} delivered after #{l}"));
                    }
                }
                m.last_seq = Some(m.last_seq.map_or(idx, |l| l.max(idx)));
            }
            _ => {
                let x = &m.msgs[idx];
                if !x.words.is_empty() && d > x.max_copies() {
                    rec.viol("C04", "more-than-network", format!("channel {chi}: uid {uid:x} delivered {d} times but its packets arrived {} times", x.max_copies()));
                }
            }
        }
        if size > 1100 {
            rec.stat("probe.fragmented_delivered", 1);
        }
        // reassembly never without all the parts (the data must have come over the network)
        let x = &self.ch[src][chi].msgs[idx];
        if !x.words.is_empty() && !x.arrived() {
            rec.viol("C05", "incomplete", format!("channel {chi}: uid {uid:x} ({size} bytes) delivered although not all of its packets arrived"));
        }
    }

    /// After a frame in which packets arrived: what is now complete must have been delivered.
    fn check_arrived(&mut self, node: usize, uids: &[u32], rec: &mut Rec) {
        if self.c.get("read_every") > 1 {
            return;
        }
        let src = 1 - node;
        for uid in uids {
            for chi in 0..self.ids.len() {
                let m = &self.ch[src][chi];
                let Some(i) = m.by_uid.get(uid) else { continue };
                let x = &m.msgs[*i];
                if x.epoch != self.epoch || !x.arrived_strict() || x.delivered > 0 {
                    continue;
                }
                // stale reassembly state is discarded after some seconds: only demand delivery of
                // messages whose parts arrived close together
                if x.last_rx - x.first_rx > 1_500_000 {
                    rec.stat("probe.slow_reassembly", 1);
                    continue;
                }
                match m.mode {
                    M_UU | M_UU_ACK => {
                        rec.viol("C04", "arrived-not-delivered", format!("channel {chi}: all packets of uid {uid:x} ({} bytes) reached the peer but it was not delivered", x.size));
                        if x.size > 1000 {
                            rec.viol("C05", "arrived-not-delivered", format!("channel {chi}: all packets of uid {uid:x} ({} bytes) reached the peer but it was not delivered", x.size));
                        }
                    }
                    M_SU | M_SR => {
                        // once any part of a newer message has arrived, older ones are stale
                        let newer = m.msgs[*i + 1..].iter().any(|y| y.epoch == self.epoch && (y.words.is_empty() || y.size > 250 || y.words.iter().any(|w| *w > 0)));
                        if !newer && m.last_seq.map_or(true, |l| l < *i) {
                            rec.viol("C03", "newest-not-delivered", format!("channel {chi} mode {}: all packets of message #{i} reached the peer, nothing newer was delivered, and it was not delivered", m.mode));
                        }
                    }
                    M_UR => {
                        rec.viol("C01", "arrived-not-delivered", format!("channel {chi}: all packets of uid {uid:x} ({} bytes) reached the peer but it was not delivered", x.size));
                    }
                    _ => {}
                }
            }
        }
    }

    fn read_outcomes(&mut self, node: usize, rec: &mut Rec) {
        let (acked, lost) = {
            let mut l = self.peers[node].app.world_mut().resource_mut::<EvLog>();
            (std::mem::take(&mut l.acked), std::mem::take(&mut l.lost))
        };
        for (list, what) in [(&acked, 1u8), (&lost, 2u8)] {
            for (id, rtt) in list {
                rec.log(&[5, node as u64, *id as u64, what as u64, *rtt]);
                let name = if what == 1 { "acknowledged" } else { "lost" };
                rec.stat(if what == 1 { "probe.packet_acked" } else { "probe.packet_lost" }, 1);
                match self.pk[node].get_mut(id) {
                    None => rec.viol("C06", "outcome-unknown-packet", format!("node {node}: packet {id} reported {name} but was not sent in this connection")),
                    Some(pi) => {
                        if pi.outcome != 0 {
                            rec.viol("C06", "two-outcomes", format!("node {node}: packet {id} reported {name} after it was reported {}", if pi.outcome == 1 { "acknowledged" } else { "lost" }));
                        }
                        if what == 1 && !pi.delivered {
                            rec.viol("C06", "false-packet-ack", format!("node {node}: packet {id} reported acknowledged but it never reached the peer"));
                        }
                        if what == 1 && rtt.abs_diff(rec.now.saturating_sub(pi.sent)) > 2 {
                            rec.viol("C06", "wrong-rtt", format!("node {node}: packet {id} sent at {} us and acknowledged now is reported with a round trip of {rtt} us", pi.sent));
                        }
                        pi.outcome = what;
                    }
                }
            }
        }
        for chi in 0..self.ids.len() {
            let kind = with_ch!(chi, C, ChannelKind::of::<C>());
            let (acks, nacks) = {
                let p = &mut self.peers[node];
                let t = p.app.world().get::<Transport>(p.ent).unwrap();
                let s = t.channel_send(kind).unwrap();
                (
                    s.message_acks().iter().map(|m| m.0).collect::<Vec<_>>(),
                    s.message_nacks().iter().map(|m| m.0).collect::<Vec<_>>(),
                )
            };
            let m = &mut self.ch[node][chi];
            for id in acks {
                rec.log(&[6, node as u64, chi as u64, id as u64]);
                rec.stat("probe.message_acked", 1);
                let Some(i) = m.by_id.get(&id) else {
                    if self.via == 0 {
                        rec.viol("C06", "ack-unknown-message", format!("channel {chi}: message id {id} reported delivered but was not sent in this connection"));
                    }
                    continue;
                };
                let x = &mut m.msgs[*i];
                x.acked += 1;
                rec.trace(|| format!("node {node}: ack of uid={:x} ch={chi}", x.uid));
                if x.acked > 1 {
                    rec.viol("C06", "ack-twice", format!("channel {chi}: uid {:x} reported delivered {} times", x.uid, x.acked));
                }
                if !x.words.is_empty() && !x.arrived() {
                    rec.viol("C06", "false-ack", format!("channel {chi} mode {}: uid {:x} ({} bytes) reported delivered but not all of its packets reached the peer", m.mode, x.uid, x.size));
                }
                if m.mode == M_UU_ACK && x.nacked > 0 && x.size <= 200 {
                    rec.viol("C06", "message-both", format!("channel {chi}: uid {:x} reported lost and then delivered", x.uid));
                }
            }
            for id in nacks {
                rec.log(&[7, node as u64, chi as u64, id as u64]);
                rec.stat("probe.message_nacked", 1);
                if let Some(i) = m.by_id.get(&id) {
                    let x = &mut m.msgs[*i];
                    x.nacked += 1;
                    if m.mode == M_UU_ACK && x.acked > 0 {
                        rec.viol("C06", "message-both", format!("channel {chi}: uid {:x} reported delivered and then lost", x.uid));
                    }
                }
            }
        }
    }

    fn flush_link(&mut self, node: usize, rec: &mut Rec) {
        let now = rec.now;
        let out: Vec<Bytes> = {
            let p = &mut self.peers[node];
            let mut l = p.app.world_mut().get_mut::<Link>(p.ent).unwrap();
            l.send.drain().collect()
        };
        // contents already handed over never change
        let mut k = 0;
        while k < self.keep.len() {
            let (t, b, h) = &self.keep[k];
            if hash_bytes(b) != *h {
                rec.viol("C04", "buffer-mutated", format!("a packet handed to the link at t={t} changed afterwards"));
                self.keep.remove(k);
                continue;
            }
            if now > *t + 200_000 || self.keep.len() > 400 {
                self.keep.remove(k);
                continue;
            }
            k += 1;
        }
        let mut flushed: Vec<(usize, usize)> = vec![]; // (channel, msg) first transmitted in this flush
        for b in out {
            if b.len() > self.mtu[node] {
                rec.viol("C05", "mtu", format!("node {node}: packet of {} bytes on a link with MTU {}", b.len(), self.mtu[node]));
            }
            rec.log(&[8, node as u64, b.len() as u64]);
            if b.len() < 3 {
                rec.viol("C04", "malformed", format!("node {node}: packet of {} bytes", b.len()));
                continue;
            }
            let pid = u16::from_le_bytes([b[1], b[2]]);
            let pid_be = u16::from_be_bytes([b[1], b[2]]);
            let pid = if crate::families::transport::le_ids() { pid } else { pid_be };
            let header_only = b.len() <= 13;
            if self.rate > 0 && !header_only {
                self.sent_log[node].push((now, b.len() as u64));
            }
            if header_only {
                rec.stat("probe.ack_only_packet", 1);
            }
            if expand(&b).is_some() {
                rec.stat("probe.compressed_packet", 1);
            }
            self.pk[node].insert(pid, PktInst { ack_only: header_only, sent: now, ..Default::default() });
            let mut uids: Vec<u32> = vec![];
            {
                let ch = &mut self.ch[node];
                Self::scan(&b, |uid, idx| {
                    if let Some(m) = Self::find(ch, uid) {
                        if !m.words.is_empty() && (idx == END || (idx as usize) < m.words.len()) {
                            m.tx_words += 1;
                            m.last_tx = now;
                            if m.first_tx.is_none() {
                                m.first_tx = Some(now);
                                uids.push(uid);
                            }
                            return true;
                        }
                    }
                    false
                });
            }
            for u in uids {
                for (ci, m) in self.ch[node].iter().enumerate() {
                    if let Some(i) = m.by_uid.get(&u) {
                        flushed.push((ci, *i));
                    }
                }
            }
            if self.c.get("keep") != 0 {
                self.keep.push((now, b.clone(), hash_bytes(&b)));
            }
            let id = self.net.send(now, addr(node as i64, 0), addr(1 - node as i64, 0), b.to_vec(), rec);
            self.net_to_pid.insert((node, id), pid);
        }
        self.check_cap(node, &flushed, rec);
    }

    fn check_cap(&mut self, node: usize, flushed: &[(usize, usize)], rec: &mut Rec) {
        if self.rate == 0 {
            return;
        }
        let now = rec.now;
        // bytes in every interval ending now
        let log = &self.sent_log[node];
        if log.last().map(|l| l.0) == Some(now) {
            let mut sum = 0u64;
            for (t, len) in log.iter().rev() {
                sum += len;
                let allowed = self.burst + (self.rate * (now - t)).div_ceil(1_000_000) * 10_005 / 10_000 + 2;
                if sum > allowed {
                    rec.viol("C08", "cap-exceeded", format!("node {node}: {sum} bytes in the {} us before t={now}, allowed {allowed} (cap {} B/s, burst {})", now - t, self.rate, self.burst));
                    break;
                }
            }
        }
        // not retried means not sent late
        for (ci, i) in flushed {
            let m = &self.ch[node][*ci];
            let x = &m.msgs[*i];
            if !m.retry && !is_reliable(m.mode) && m.freq == 0 && x.epoch == self.epoch && x.sent != now {
                rec.viol("C08", "late-without-retry", format!("channel {ci}: message of t={} first sent at t={now} although the channel does not retry", x.sent));
            }
        }
        // priority: something first transmitted now while a more important, no larger, no younger
        // message on the same terms has still not been transmitted
        if flushed.is_empty() {
            return;
        }
        // (waiting reliable messages gain priority with every frame they wait)
        let frames = self.peers[node].frames;
        let eff = |m: &ChModel, x: &Msg| x.prio * if is_reliable(m.mode) { (frames - x.sent_frame) as f32 } else { 1.0 };
        let mut low: Option<(f32, usize)> = None;
        for (ci, i) in flushed {
            let m = &self.ch[node][*ci];
            let x = &m.msgs[*i];
            if m.freq == 0 && low.map_or(true, |l| eff(m, x) < l.0) {
                low = Some((eff(m, x), *ci));
            }
        }
        if let Some((lp, lch)) = low {
            for (ci, m) in self.ch[node].iter().enumerate() {
                if m.freq != 0 || (!m.retry && !is_reliable(m.mode)) {
                    continue;
                }
                for x in &m.msgs[m.epoch_start..] {
                    let xp = eff(m, x);
                    if x.first_tx.is_none() && !x.words.is_empty() && xp > lp * 1.01 {
                        rec.viol("C08", "starved", format!("node {node}: a message of priority {lp} on channel {lch} was sent while one of priority {xp} (uid {:x}, channel {ci}, waiting since t={}) was not", x.uid, x.sent));
                        return;
                    }
                }
            }
        }
    }

    fn outstanding(&self, what: &str) -> Vec<String> {
        let mut v = vec![];
        for n in 0..2 {
            for (ci, m) in self.ch[n].iter().enumerate() {
                match what {
                    "deliver" => match m.mode {
                        M_UR | M_OR => {
                            for (i, x) in m.msgs[m.epoch_start..].iter().enumerate() {
                                if x.delivered == 0 {
                                    v.push(format!("{} node {n} channel {ci} message #{i} uid {:x} size {} sent t={}", if m.mode == M_UR { "C01" } else { "C02" }, x.uid, x.size, x.sent));
                                }
                            }
                        }
                        M_SR => {
                            if let Some(x) = m.msgs[m.epoch_start..].last() {
                                if x.delivered == 0 {
                                    v.push(format!("C03 node {n} channel {ci} last message uid {:x} size {} sent t={}", x.uid, x.size, x.sent));
                                }
                            }
                        }
                        _ => {}
                    },
                    "ack" if self.via == 0 => {
                        let watch = m.mode == M_UU_ACK || is_reliable(m.mode);
                        if watch {
                            for x in &m.msgs[m.epoch_start..] {
                                let ok = x.acked > 0 || (m.mode == M_UU_ACK && x.nacked > 0);
                                if !ok && !(m.mode == M_UU_ACK && self.rate > 0 && !m.retry) && x.msg_id.map_or(true, |id| m.by_id.get(&id).map(|i| m.msgs[*i].uid) == Some(x.uid)) {
                                    v.push(format!("C06 node {n} channel {ci} mode {} uid {:x} size {} sent t={}", m.mode, x.uid, x.size, x.sent));
                                }
                            }
                        }
                    }
                    "retry" => {
                        if self.rate > 0 && m.mode < M_UR && m.retry {
                            for x in &m.msgs[m.epoch_start..] {
                                if !x.words.is_empty() && x.first_tx.is_none() {
                                    v.push(format!("C08 node {n} channel {ci} uid {:x} size {} sent t={}", x.uid, x.size, x.sent));
                                }
                            }
                        }
                    }
                    _ => {}
                }
            }
        }
        v
    }
}

/// byte order of the packet id inside a packet header, learnt once from the code itself
fn le_ids() -> bool {
    static LE: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    *LE.get_or_init(|| {
        use lightyear_serde::writer::WriteInteger;
        let mut w = lightyear_serde::writer::Writer::default();
        w.write_u16(1).unwrap();
        w.into_bytes()[0] == 1
    })
}

pub fn run(c: &Case, rec: &mut Rec) {
    let mut w = World2::new(c);
    w.faulty = !c.faults.is_empty();
    let mut ops = c.ops.clone();
    let stop_at = c.last_t() + 1;
    let recon: Vec<(u64, i64)> = c.ops.iter().filter(|o| o.kind == "reconnect").map(|o| (o.t, o.args.first().copied().unwrap_or(0))).collect();
    let mut recon_done = 0;
    // after the last operation and fault, everything must settle within this time
    let settle = c.get("settle_us").max(1_000_000) as u64;
    let deadline = stop_at + settle;
    let mut quiet = 0u32;
    loop {
        let node = if w.peers[0].next <= w.peers[1].next { 0 } else { 1 };
        let mut now = w.peers[node].next;
        // a stalled node does not run
        for f in &c.faults {
            if f.kind == "stall" && f.src == node as i64 && now >= f.t0 && now < f.t1 {
                rec.stat("fault.stall", 1);
                w.peers[node].next = f.t1 + 1;
                now = 0;
                break;
            }
        }
        if now == 0 {
            continue;
        }
        rec.now = now;
        if recon_done < recon.len() && recon[recon_done].0 <= now {
            w.reconnect(recon[recon_done].1, rec);
            recon_done += 1;
            ops.retain(|o| !(o.kind == "reconnect" && o.t <= now));
        }
        w.frame(node, &mut ops, rec);
        if rec.stop() {
            break;
        }
        if now > stop_at && ops.is_empty() {
            let d = w.outstanding("deliver");
            let a = if d.is_empty() { w.outstanding("ack") } else { vec![] };
            let r = if d.is_empty() { w.outstanding("retry") } else { vec![] };
            if d.is_empty() && a.is_empty() && r.is_empty() {
                quiet += 1;
                // a little longer: late duplicates and second outcomes would show up here
                if quiet > 40 && w.net.in_flight() == 0 {
                    rec.stat("probe.settled", 1);
                    break;
                }
            }
            if now > deadline {
                for (list, class) in [(d, "not-delivered"), (a, "no-outcome"), (r, "retry-not-sent")] {
                    for s in list.iter().take(3) {
                        let prop = crate::checks::static_id(&s[..3]);
                        rec.viol(prop, class, format!("{} us after the last fault and operation: {}", settle, &s[4..]));
                        if class == "not-delivered" {
                            let size: usize = s.split(" size ").nth(1).and_then(|x| x.split(' ').next()).and_then(|x| x.parse().ok()).unwrap_or(0);
                            if size > 1000 {
                                rec.viol("C05", class, format!("{} us after the last fault and operation: {}", settle, &s[4..]));
                            }
                            if w.rate > 0 {
                                rec.viol("C08", class, format!("reliable message held back by the cap never sent: {}", &s[4..]));
                            }
                            if w.epoch > 0 {
                                rec.viol("C07", class, format!("in a new connection: {}", &s[4..]));
                            }
                        }
                        if class == "no-outcome" && w.epoch > 0 {
                            rec.viol("C07", class, format!("in a new connection: {}", &s[4..]));
                        }
                    }
                }
                break;
            }
        }
        if rec.steps > 60_000 {
            rec.stat("probe.step_limit", 1);
            break;
        }
    }
    rec.sim_us = rec.now;
    // abstract states: per channel, (mode, sent bucket, delivered bucket, acked bucket)
    for n in 0..2 {
        for m in &w.ch[n] {
            let b = |x: usize| (usize::BITS - x.leading_zeros()) as u64;
            rec.state(&[
                m.mode as u64,
                b(m.msgs.len()),
                b(m.msgs.iter().filter(|x| x.delivered > 0).count()),
                b(m.msgs.iter().filter(|x| x.acked > 0).count()),
                b(m.msgs.iter().filter(|x| x.nacked > 0).count()),
                b(m.msgs.iter().filter(|x| x.size > 1100).count()),
                (w.rate > 0) as u64,
            ]);
        }
    }
    let fault_fired: u64 = rec.stats.iter().filter(|(k, _)| k.starts_with("fault.")).map(|(_, v)| *v).sum();
    let delivered = rec.stats.get("net.messages_delivered").copied().unwrap_or(0);
    if delivered > 0 && (fault_fired > 0 || w.rate > 0) {
        rec.stat("nontrivial", 1);
    }
    let _ = (node_of(0), &w.sent_log, HashSet::<u8>::new(), BTreeMap::<u8, u8>::new());
    let _ = matches as usize;
    let _ = Connected;
}

// ---------------------------------------------------------------------------------------------
// generation

pub fn net_faults(r: &mut Rng, c: &mut Case, t_end: u64, intensity: i64, nodes: i64) {
    let n = r.range(1, 2 + intensity);
    for _ in 0..n {
        let t0 = r.range(0, (t_end * 8 / 10) as i64) as u64;
        let len = r.range(20_000, (t_end / 2).max(30_000) as i64) as u64;
        let (s, d) = match r.range(0, 3) {
            0 => (0, -1),
            1 => (r.range(0, nodes - 1), -1),
            2 => (-1, r.range(0, nodes - 1)),
            _ => (-1, -1),
        };
        match r.range(0, 9) {
            0..=2 => {
                let p = *r.pick(&[50, 150, 300, 500, 800]);
                c.fault(t0, t0 + len, "loss", s, d, &[p]);
            }
            3 | 4 => {
                let p = *r.pick(&[100, 300, 700]);
                let e = *r.pick(&[0, 5_000, 50_000, 400_000]);
                c.fault(t0, t0 + len, "dup", s, d, &[p, e]);
            }
            5 | 6 => {
                let p = *r.pick(&[100, 300, 700]);
                let e = *r.pick(&[10_000, 60_000, 300_000]);
                c.fault(t0, t0 + len, "reorder", s, d, &[p, e]);
            }
            7 => {
                let l = r.range(20_000, 400_000) as u64;
                c.fault(t0, t0 + l, "part", s, d, &[]);
            }
            8 => c.fault(t0, t0 + len, "delay", s, d, &[*r.pick(&[20_000, 100_000, 300_000])]),
            _ => {
                let l = r.range(30_000, 600_000) as u64;
                let node = r.range(0, nodes - 1);
                c.fault(t0, t0 + l, "stall", node, -1, &[]);
            }
        }
    }
}

pub fn generate(prop: &str, seed: u64, tier: Tier) -> Case {
    let mut r = Rng::new(seed);
    let mut c = Case::new(prop, "T", seed);
    let thorough = tier == Tier::Thorough;
    let prof = r.range(0, 99);
    // profile: 0..=84 ordinary, 85..=91 huge message counts (id wrap-around), 92.. big messages
    let wrap = (prop == "C01" || prop == "C02" || prop == "C03" || prop == "C06") && prof >= 97;
    let big = !wrap && (prof >= 90 || (prop == "C05" && prof >= 60));
    c.set("tick_us", *r.pick(&[10_000, 15_625, 16_667, 33_333]));
    c.set("frame0_us", *r.pick(&[4_000, 8_000, 16_000, 16_667, 33_000]));
    c.set("frame1_us", *r.pick(&[4_000, 8_000, 16_000, 16_667, 33_000, 60_000]));
    c.set("frame_jit", *r.pick(&[0, 0, 10, 50, 200]));
    let delay = *r.pick(&[0i64, 1_000, 10_000, 40_000, 120_000]);
    let jit = *r.pick(&[0i64, 0, 2_000, 20_000, 60_000]);
    c.set("net_delay_us", delay);
    c.set("net_jitter_us", jit);
    // the round trip the sync layer would report, as the application sees it: network plus frames
    let fr = c.get("frame0_us").max(c.get("frame1_us")) * (100 + c.get("frame_jit")) / 100;
    let rtt = (2 * (delay + jit) + 2 * fr + 2_000).max(20_000);
    c.set("rtt_us", *r.pick(&[rtt, rtt, rtt, rtt * 2, rtt * 5]));
    c.set("rttj_us", jit);
    c.set("via", if prop == "C06" { 0 } else { *r.pick(&[0, 0, 1]) });
    c.set("keep", r.range(0, 1));
    c.set("read_every", if r.chance(1, 8) { r.range(2, 5) } else { 1 });
    if r.chance(1, 3) {
        c.set("mtu", r.range(300, 1500));
    }
    let modes: Vec<i64> = match prop {
        "C01" => vec![M_UR, M_UR, M_UR, M_OR, M_UU],
        "C02" => vec![M_OR, M_OR, M_OR, M_UR, M_SU],
        "C03" => vec![M_SU, M_SR, M_SU, M_SR, M_OR],
        "C04" => vec![M_UU, M_UU_ACK, M_UU, M_UR],
        "C06" => vec![M_UU_ACK, M_UU_ACK, M_UR, M_SR, M_OR, M_UU],
        _ => vec![M_UU_ACK, M_UU, M_SU, M_UR, M_SR, M_OR],
    };
    let n_ch = if wrap { r.range(1, 2) } else { r.range(1, MAX_CH as i64) };
    c.set("n_ch", n_ch);
    for i in 0..n_ch {
        let m = if i == 0 { modes[0..3.min(modes.len())][(r.next() % 3.min(modes.len()) as u64) as usize] } else { *r.pick(&modes) };
        c.set(&format!("ch{i}_mode"), m);
        if r.chance(1, 6) {
            c.set(&format!("ch{i}_freq"), *r.pick(&[5_000, 30_000, 100_000]));
        }
        c.set(&format!("ch{i}_prio"), *r.pick(&[100, 100, 10, 1000, 50]));
        if r.chance(1, 4) {
            c.set(&format!("ch{i}_minre"), *r.pick(&[5_000, 50_000, 200_000]));
        }
        if r.chance(1, 6) {
            c.set(&format!("ch{i}_rf"), *r.pick(&[100, 250]));
        }
        if r.chance(1, 4) {
            c.set(&format!("ch{i}_noretry"), 1);
        }
    }
    let cap = prop == "C08" || (r.chance(1, 8) && !wrap);
    let mut rate = 0i64;
    if cap {
        rate = *r.pick(&[6_000i64, 15_000, 40_000, 120_000]);
        let mtu = if c.get("mtu") > 0 { c.get("mtu") } else { 1200 };
        c.set("bw_rate", rate);
        c.set("bw_burst", (*r.pick(&[mtu + 20, 2 * mtu, rate.max(mtu + 20), 4 * mtu])).max(2000));
    }
    // message ids are 16 bit: guarantees assume far less than 32768 messages of a channel between
    // the oldest and the newest in flight, so wrap-around cases take several seconds
    let t_end = if wrap { r.range(6_000_000, 9_000_000) as u64 } else { r.range(300_000, if thorough { 3_000_000 } else { 1_500_000 }) as u64 };
    let mut total: i64 = 0;
    let mut chsum = [0i64; MAX_CH];
    if wrap {
        // more than 65536 messages on one channel: message ids wrap around
        let per = r.range(1500, 2500);
        // half of the sequenced ones: fragmented messages, many of them superseded while incomplete,
        // and fragmented messages again under the same message ids one wrap-around later
        let lap = matches!(c.get("ch0_mode"), M_SR | M_SU) && r.chance(1, 2);
        let first = if lap { r.range(10, 40) } else { 0 };
        let rounds = if lap { (65_536 - first + per - 1) / per } else { 66_500 / per + r.range(1, 4) };
        let step = (t_end as i64 / rounds).max(1000);
        let mut left = 65_536 - first;
        for k in 0..rounds {
            let n = if lap { per.min(left) } else { per };
            left -= n;
            c.op((k * step) as u64 + if lap { 300_000 } else { 0 }, 0, "send", &[0, *r.pick(&[8, 8, 9, 12]), 100, n]);
            total += n * 14;
        }
        if lap {
            c.op(0, 0, "send", &[0, r.range(1_300, 5_000), 100, first]);
            c.fault(0, 250_000, "loss", 0, 1, &[*r.pick(&[300, 500])]);
            let size = r.range(1_300, 5_000);
            for k in 0..first.min(15) {
                c.op(t_end + 1_000_000 + k as u64 * 60_000, 0, "send", &[0, size, 100, 1]);
            }
            total += 50 * 5_000;
        }
        c.set("frame0_us", 8_000);
        c.set("frame1_us", 8_000);
        c.set("frame_jit", 0);
        c.set("net_delay_us", *r.pick(&[0, 5_000]));
        c.set("net_jitter_us", 0);
        c.set("rtt_us", 60_000);
        c.cfg.remove("ch0_freq");
    } else {
        let n_ops = r.range(3, if thorough { 80 } else { 40 });
        for _ in 0..n_ops {
            let t = r.range(0, t_end as i64) as u64;
            let ch = r.range(0, n_ch - 1);
            let size = match r.range(0, 19) {
                0 => r.range(0, 7),
                1..=9 => r.range(8, 60),
                10..=14 => r.range(60, 400),
                15 => r.range(900, 1300),
                _ if big => r.range(1_000, 60_000),
                16 => r.range(1_100, 6_000),
                _ => r.range(8, 1_200),
            };
            let count = match r.range(0, 9) {
                0..=5 => 1,
                6..=8 => r.range(2, 6),
                _ => r.range(10, 300),
            };
            // large and numerous at the same time only costs time
            let count = if size > 2_000 { 1 } else if size > 300 { count.min(20) } else { count };
            if cap && total + size * count > rate * 8 {
                continue;
            }
            total += (size + 16) * count;
            chsum[ch as usize] += size * count;
            let prio = *r.pick(&[100, 100, 100, 500, 20]);
            c.op(t, r.range(0, 1), "send", &[ch, size, prio, count]);
        }
        if r.chance(1, 6) {
            for _ in 0..r.range(1, 3) {
                let t = r.range(0, t_end as i64) as u64;
                c.op(t, r.range(0, 1), "mtu", &[r.range(0, 400)]);
            }
        }
        if prop == "C07" || r.chance(1, 12) {
            for _ in 0..r.range(1, 3) {
                let t = r.range((t_end / 10) as i64, t_end as i64) as u64;
                c.op(t, -1, "reconnect", &[(hash(&[seed, t, 5]) % 4) as i64]);
            }
        }
    }
    if !r.chance(1, 8) {
        if wrap {
            for _ in 0..r.range(1, 4) {
                let t0 = r.range(0, t_end as i64) as u64;
                let len = r.range(50_000, 700_000) as u64;
                match r.range(0, 3) {
                    0 => c.fault(t0, t0 + len, "loss", -1, -1, &[*r.pick(&[50, 200, 400])]),
                    1 => c.fault(t0, t0 + len, "dup", -1, -1, &[300, *r.pick(&[5_000, 100_000])]),
                    2 => c.fault(t0, t0 + len, "reorder", -1, -1, &[300, *r.pick(&[20_000, 100_000])]),
                    _ => c.fault(t0, t0 + len / 3, "part", -1, -1, &[]),
                }
            }
        } else {
            net_faults(&mut r, &mut c, t_end, 3, 2);
        }
    }
    if hash(&[seed, 0x9ad]) % 12 == 0 {
        c.set("pad_ch", 58 + (hash(&[seed, 0x9ad, 1]) % 9) as i64);
    }
    // a message of several hundred fragments
    // (a header acknowledges 33 packets, the rest of a burst is sent again)
    let mut rounds = 0;
    if big && !cap && hash(&[seed, 0xf4a6]) % 3 == 0 {
        let mtu = if c.get("mtu") > 0 { c.get("mtu") } else { 1200 };
        let size = *r.pick(&[250, 262, 300, 530]) * (mtu - r.range(0, 90));
        c.op(r.range(0, t_end as i64) as u64, r.range(0, 1), "send", &[r.range(0, n_ch - 1), size, 100, 1]);
        total += size;
        rounds = 20;
    }
    // an outage longer than anything in the code waits for incomplete data
    if !wrap && hash(&[seed, 0x6f7574]) % 16 == 0 {
        let t0 = r.range(0, t_end as i64) as u64;
        let len = *r.pick(&[2_900_000, 3_300_000, 4_500_000, 8_000_000]);
        let (s, d) = *r.pick(&[(0, 1), (1, 0), (-1, -1)]);
        c.fault(t0.saturating_sub(200_000), t0 + 1, "loss", s, d, &[*r.pick(&[200, 500])]);
        c.fault(t0, t0 + len, "part", s, d, &[]);
        if !cap {
            // messages of several packets that arrive in part before the outage
            for ch in 0..n_ch {
                let size = r.range(2_500, 9_000);
                c.op(t0.saturating_sub(r.range(20_000, 190_000) as u64), s.max(0), "send", &[ch, size, 100, 1]);
                total += size;
            }
        }
    }
    if r.chance(1, 6) && !wrap {
        c.set("lz4", 1);
        c.set("lz4_min0", *r.pick(&[0, 0, 16, 128, 1_000]));
        c.set("lz4_min1", *r.pick(&[0, 0, 16, 128, 1_000_000]));
        c.set("lz4_max", *r.pick(&[256, 1_200, 4_096, 65_536, 65_536]));
    }
    // settle bound: retransmission rounds plus the time the cap needs for everything
    let mut settle = 20_000_000 + 12 * c.get("rtt_us") + rounds * (3 * c.get("rtt_us") + 300_000);
    if cap {
        settle += total * 6 * 1_000_000 / rate.max(1);
    }
    c.set("settle_us", settle);
    c.sort();
    c
}
