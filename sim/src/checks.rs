use crate::families::{conditioner, io, netcode, p2p, stack, transport};
use crate::case::Case;
use crate::rng::mix;
use crate::runner::{Check, Tier};

const IDS: [&str; 27] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18",
    "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26", "C27",
];

pub fn static_id(s: &str) -> &'static str {
    IDS.iter().find(|i| **i == s).copied().unwrap_or("C00")
}

const T_REAL: &[&str] = &[
    "lightyear_transport (channels, reliability, fragmentation, acks, priority, bandwidth limiter, packet builder)",
    "lightyear_link",
    "lightyear_core timeline",
    "lightyear_serde",
    "bevy App/ECS schedules, bevy_time",
];
const T_STUB: &[&str] = &[
    "network (simulated)",
    "clocks (simulated)",
    "connection and ping layers (the harness sets the link's round-trip statistics and the Disconnected marker)",
];
const T_RULE: &str = "seeded generation of channel sets, message workloads and fault windows (loss, duplication, reordering, delay, partition, stall, MTU change, reconnect); non-trivial = at least one message was delivered and at least one fault fired or a bandwidth cap was active; distinct = distinct event-log hash";
const T_ASSUME: &[&str] = &["frames run one node at a time; within a frame bevy's schedule is single-threaded"];

macro_rules! t {
    ($p:expr, $n:expr) => {
        Check { prop: $p, generate: transport::generate, quick: $n, rule: T_RULE, real: T_REAL, stub: T_STUB, assumptions: T_ASSUME }
    };
}

const N_REAL: &[&str] = &[
    "lightyear_netcode (client, server, tokens, replay protection, plugins)",
    "lightyear_connection (lifecycle, peer lookup, server states)",
    "lightyear_link (links, server links)",
    "bevy App/ECS schedules, bevy_time",
];
const N_STUB: &[&str] = &[
    "network and server IO (simulated datagram sockets)",
    "monotonic and wall clocks (simulated, with skew and jumps)",
    "key and nonce generation uses the OS generator; no decision depends on the values",
    "transport layer (payloads are made and collected by the harness)",
];
const N_RULE: &str = "seeded generation of clients, tokens (valid, expired, wrong key, protocol or address), connect/disconnect/crash/stop/link-failure operations, payload bursts, network faults, outages around the timeouts, and attacker actions (random, replayed, altered, cross-wired, reflected and insider-sealed packets); non-trivial = at least one server connection and at least one fault or attack; distinct = distinct event-log hash";
const N_ASSUME: &[&str] = &["frames run one node at a time", "an attacker does not relay a whole handshake from its own address (the protocol does not bind tokens to addresses)"];
macro_rules! n {
    ($p:expr, $n:expr) => {
        Check { prop: $p, generate: netcode::generate, quick: $n, rule: N_RULE, real: N_REAL, stub: N_STUB, assumptions: N_ASSUME }
    };
}

const M_REAL: &[&str] = &[
    "lightyear_messages (typed messages, events, entity mapping, timeline-bound delivery, targets, local client)",
    "lightyear_transport, lightyear_netcode, lightyear_connection (host client included), lightyear_link, lightyear_sync (pings, client clock)",
    "bevy App/ECS schedules, bevy_time",
];
const M_STUB: &[&str] = &[
    "network and server IO (simulated datagram sockets)",
    "monotonic and wall clocks (simulated, with drift)",
    "entity replication (the harness makes the entity associations that replication would make)",
    "the timeline a channel is bound to (the harness drives it)",
];
const M_RULE: &str = "seeded generation of clients, an optional local client, connect/disconnect/crash/stop operations, typed messages and events on eight channels to one connection or to a target, entity associations, timeline changes, readers that pause, and network faults; non-trivial = at least one message was received, and a fault fired or the run was a fault-free one; distinct = distinct event-log hash";
const M_ASSUME: &[&str] = &["frames run one node at a time"];
macro_rules! m {
    ($p:expr, $n:expr) => {
        Check { prop: $p, generate: stack::generate, quick: $n, rule: M_RULE, real: M_REAL, stub: M_STUB, assumptions: M_ASSUME }
    };
}

const S_RULE: &str = "seeded generation of clients, tick and frame lengths, frame jitter, work within frames, clock drift, synchronisation and input-delay settings, network delay and jitter, and disturbances (delay changes, asymmetric delay, loss, reordering, partitions, stalls, reconnections, crashes) followed by a calm period; non-trivial = a client synchronised and stayed to the settled part of the calm period; distinct = distinct event-log hash";
macro_rules! s {
    ($p:expr, $n:expr) => {
        Check { prop: $p, generate: stack::sync::generate, quick: $n, rule: S_RULE, real: M_REAL, stub: M_STUB, assumptions: M_ASSUME }
    };
}

const P_REAL: &[&str] = &[
    "lightyear_p2p (session negotiation), lightyear_raw_connection, lightyear_connection (lifecycle, topology)",
    "lightyear_messages, lightyear_transport, lightyear_link, lightyear_sync (pings, peer clock alignment)",
    "bevy App/ECS schedules, bevy_time",
];
const P_STUB: &[&str] = &["network and connection establishment (simulated connections that come up and break)", "clocks (simulated, with drift)"];
const P_RULE: &str = "seeded generation of two to four peers, boot ticks, frame lengths, start delays and timeouts, connections that come up and break at different times on either side, start and stop requests with skew, duplicates and omissions, crashes, stalls, loss, duplication, reordering, delay and partitions, then a final attempt on a steady network; non-trivial = at least two attempts; distinct = distinct event-log hash";
const P_ASSUME: &[&str] = &["frames run one node at a time", "a broken connection is noticed by both ends, and its packets do not reach a later connection"];

const L_REAL: &[&str] = &["lightyear_link (conditioner, receive queues, server links)", "lightyear_utils ready buffer", "bevy App/ECS schedules"];
const L_STUB: &[&str] = &["IO backend and reader (the harness)", "monotonic clock and the conditioner's randomness (simulated, seeded)"];
const L_RULE: &str = "seeded generation of links and conditions (none, latency, jitter, fixed, Gilbert and Gilbert-Elliott loss, half of each, copied from a server), arrival patterns (bursts at one instant, trains, thousands of packets), frame lengths and jitter, stalls and slow readers; non-trivial = at least one conditioned packet; distinct = distinct event-log hash";
const L_ASSUME: &[&str] = &["the number of losses is judged within eight standard deviations of the configured rate"];

const U_REAL: &[&str] = &["lightyear_udp (server and single-peer plugins, buffer pools)", "lightyear_crossbeam", "lightyear_aeronet", "aeronet_io observers and packet buffers", "lightyear_link (links, server links)", "bevy App/ECS schedules"];
const U_STUB: &[&str] = &["sockets (simulated, with errors)", "the Aeronet session layer, such as WebSocket or WebTransport (the harness)", "users of the links (the harness)", "monotonic clock (simulated)"];
const U_RULE: &str = "seeded generation of servers, clients and strangers, packets of 0 to 1472 bytes (and beyond) alone and in bursts, link start, unlink, restart, removal of links, dropped peers, session errors, socket errors on reading and sending, loss, duplication, reordering, stalls and slow readers; non-trivial = at least one packet was read from a socket, channel or session; distinct = distinct event-log hash";
const U_ASSUME: &[&str] = &["frames run one node at a time", "binding a socket succeeds when its address is free"];

const MIX_REAL: &[&str] = &[
    "lightyear_transport, lightyear_link, lightyear_core timeline, lightyear_serde, bevy App/ECS schedules, bevy_time (all cases)",
    "lightyear_netcode, lightyear_connection (netcode and full-stack cases)",
    "lightyear_messages, lightyear_sync (full-stack cases)",
];
const MIX_STUB: &[&str] = &[
    "network and server IO (simulated)",
    "clocks (simulated)",
    "connection and ping layers in the transport-only cases (the harness sets the link's round-trip statistics and the Disconnected marker)",
    "entity replication, the timeline a channel is bound to (full-stack cases)",
];
const TM_RULE: &str = "nine in ten cases: transport-only (channel sets, message workloads, fault windows, reconnects on the same entity); one in ten: the full stack with connect/disconnect/crash/stop operations; non-trivial = at least one message was delivered and at least one fault or reconnect happened; distinct = distinct event-log hash";
const NM_RULE: &str = "three in four cases: netcode server and clients with attacker packets (junk, mutated, truncated, replayed, forged); one in four: the full stack with one client sending hostile payloads inside its session; non-trivial = at least one hostile input was processed; distinct = distinct event-log hash";
fn reset_cases(prop: &str, seed: u64, tier: Tier) -> Case {
    if mix(seed ^ 0x07) % 10 == 0 { stack::generate(prop, seed, tier) } else { transport::generate(prop, seed, tier) }
}
const SM_RULE: &str = "half of the cases: clock-synchronisation runs (tick and frame lengths, frame jitter, work within frames, clock drift, settings, delay and jitter, disturbances, reconnections, crashes); half: full-stack runs (clients, a local client, server stop and start, messages, faults); non-trivial = a client synchronised (first kind) or a message was received under faults (second kind); distinct = distinct event-log hash";
fn clock_cases(prop: &str, seed: u64, tier: Tier) -> Case {
    if mix(seed ^ 0x19) % 2 == 0 { stack::generate(prop, seed, tier) } else { stack::sync::generate(prop, seed, tier) }
}
const NU_RULE: &str = "four in five cases: netcode server and clients under connect/disconnect/stop/despawn operations, crashes and network faults; one in five: raw connections over the UDP plugins under start, stop, connect, disconnect, unlink, restart and removal of connections, socket errors and network faults; non-trivial = the rule of the family concerned (connections and faults; packets read); distinct = distinct event-log hash";
const NU_REAL: &[&str] = &[
    "lightyear_netcode (client and server, netcode cases)",
    "lightyear_raw_connection, lightyear_udp (raw-connection cases)",
    "lightyear_connection (lifecycle, topology), lightyear_link (links, server links)",
    "bevy App/ECS schedules, bevy_time",
];
const NU_STUB: &[&str] = &["network and sockets (simulated, with errors)", "monotonic and wall clocks (simulated, with drift)", "users of the links in the raw-connection cases (the harness)"];
fn lifecycle_cases(prop: &str, seed: u64, tier: Tier) -> Case {
    if mix(seed ^ 0x13) % 5 == 0 { io::generate(prop, seed, tier) } else { netcode::generate(prop, seed, tier) }
}
fn hostile_cases(prop: &str, seed: u64, tier: Tier) -> Case {
    let kind = mix(seed ^ 0x22) % 16;
    if kind >= 6 {
        return netcode::generate(prop, seed, tier);
    }
    if kind >= 2 {
        return stack::generate(prop, seed, tier);
    }
    // without a connection layer that authenticates, anything may reach the layers above
    let mut c = if kind == 0 { transport::generate(prop, seed, tier) } else { p2p::generate(prop, seed, tier) };
    let mut r = crate::rng::Rng::new(seed ^ 0x2222);
    let end = c.last_t() + 500_000;
    for _ in 0..r.range(1, 4) {
        let t = r.range(0, end as i64) as u64;
        c.fault(t, t + r.range(100_000, 2_000_000) as u64, *r.pick(&["junk", "junk", "flip", "trunc"]), -1, -1, &[*r.pick(&[50, 200, 700])]);
    }
    if kind == 0 && r.chance(1, 2) {
        c.set("lz4", 1);
        c.set("lz4_min0", *r.pick(&[0, 0, 16, 128, 1_000]));
        c.set("lz4_min1", *r.pick(&[0, 0, 16, 128, 1_000_000]));
        c.set("lz4_max", *r.pick(&[256, 1_200, 4_096, 65_536, 65_536]));
    }
    c.sort();
    c
}

static CHECKS: &[Check] = &[
    t!("C01", 12000),
    t!("C02", 12000),
    t!("C03", 12000),
    t!("C04", 12000),
    t!("C05", 12000),
    t!("C06", 12000),
    Check { prop: "C07", generate: reset_cases, quick: 12000, rule: TM_RULE, real: MIX_REAL, stub: MIX_STUB, assumptions: M_ASSUME },
    t!("C08", 12000),
    n!("C09", 6000),
    n!("C10", 6000),
    n!("C11", 6000),
    n!("C12", 6000),
    Check { prop: "C13", generate: lifecycle_cases, quick: 6000, rule: NU_RULE, real: NU_REAL, stub: NU_STUB, assumptions: N_ASSUME },
    m!("C14", 2500),
    m!("C15", 2500),
    m!("C16", 2500),
    m!("C17", 2500),
    s!("C18", 1500),
    Check { prop: "C19", generate: clock_cases, quick: 2500, rule: SM_RULE, real: M_REAL, stub: M_STUB, assumptions: M_ASSUME },
    Check { prop: "C20", generate: p2p::generate, quick: 2500, rule: P_RULE, real: P_REAL, stub: P_STUB, assumptions: P_ASSUME },
    Check { prop: "C21", generate: conditioner::generate, quick: 4000, rule: L_RULE, real: L_REAL, stub: L_STUB, assumptions: L_ASSUME },
    m!("C23", 2500),
    Check { prop: "C27", generate: io::generate, quick: 8000, rule: U_RULE, real: U_REAL, stub: U_STUB, assumptions: U_ASSUME },
    Check { prop: "C22", generate: hostile_cases, quick: 6000, rule: NM_RULE, real: MIX_REAL, stub: MIX_STUB, assumptions: N_ASSUME },
];

pub fn get(prop: &str) -> &'static Check {
    CHECKS.iter().find(|c| c.prop == prop).unwrap_or_else(|| panic!("no check for {prop}"))
}
