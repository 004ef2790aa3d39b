#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks below."""
import json, subprocess, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "deterministic simulation with fault injection: "
SEARCH = "Seeded search over whole-system executions, not exhaustive: no violation in the runs explored. Trusts the simulated network and clocks and the harness's reference models. "
T = "two real transport stacks over a simulated network"
N = "real netcode clients and a real server over a simulated network with an active attacker"
M = "a real server and clients, from message API to datagrams, over a simulated network"
CHECKS = {
 "C01": (T, "Two real peers; every message is tracked from send to delivery; liveness within a bound after the last fault."),
 "C02": (T, "As C01, with the delivered sequence compared with the sent sequence at every delivery."),
 "C03": (T, "Delivery order on sequenced channels checked at every delivery; the last reliable message must arrive."),
 "C04": (T, "Deliveries are compared with what was sent and with how often the network delivered the packets; handed-over packets are re-hashed later."),
 "C05": (T, "Every packet is measured against the link MTU; large messages are compared byte for byte."),
 "C06": (T, "Every receipt and packet outcome is compared with what the network really delivered."),
 "C07": (T + "; and the full stack", "Reconnections in the middle of traffic; every delivery is attributed to the connection it was sent in."),
 "C08": (T, "Token-bucket bound over every interval ending at every send; priorities of everything waiting at each flush."),
 "C09": (N, "Every packet that reaches the server or a client is opened with the simulator's own copy of the token keys; a connection must be explained by a valid unexpired request and a challenge answer of that session."),
 "C10": (N, "Payloads carry unique ids; a reference replay window decides for every arrival whether it may, must or must not be passed up."),
 "C11": (N, "Silence is measured on simulated time from what really arrived; notices are looked for on the wire; a final healed phase demands that everyone connects and stays."),
 "C12": (N, "Connected clients are counted after every server frame; a final healed phase demands that freed slots are usable."),
 "C13": (N, "Lifecycle components and the peer lookup are compared after every frame on every node; state changes are recorded by observers."),
 "C14": (M, "For every message to a target the harness computes the selected connections at the send; every delivery is compared with that set, and every selected connection that lives on must get it."),
 "C15": (M, "The harness knows every association of every connection and how each entity was written to the wire; every received entity is compared with the one that association names."),
 "C16": (M, "Every received message and event is matched by id, content, type, channel, sender and connection with what was sent; calm phases demand delivery within a bound."),
 "C17": (M, "The harness moves the timelines (lag, stalls, jumps, catch-up) and compares the frame of every hand-over with the tick the message carries."),
 "C18": (M + " and clocks", "Ticks of every node are compared at the same simulated instant after the disturbances end, with bounds derived from the configured margins and the true delays; reported round trips against true ones."),
 "C19": (M + " and clocks", "Tick, shift notices, pace and elapsed time are accounted for in every frame of every node."),
 "C20": ("real peers with raw connections over a simulated network", "Every report of a start is compared with the peer's tick, links and topology and with the attempts of the other peers; attempts that fail must end in time; a final attempt on a steady network must start everyone."),
 "C21": ("real links in a simulated process", "Every packet is tracked from arrival to release against its earliest and latest instant; the losses of thousands of packets are compared with the configured rate and burst length within eight standard deviations."),
 "C23": (M, "A client in the server's process runs beside remote ones; deliveries to and from it must be exact, in order and within a few frames whatever happens to the others."),
 "C27": ("real UDP, crossbeam and aeronet adapters on simulated sockets, channels and sessions", "Every datagram and packet is tracked by number from the simulated socket, channel or session to the link and back, with errors, closes and reopenings injected; held payloads are hashed again later."),
 "C22": (N + "; and the full stack with one hostile client", "Hostile packets of every kind from strangers, spoofed addresses and token holders; any panic, or any broken guarantee of another connection, is a violation."),
}
NA = {
 "C24": "A pure encode/decode law: there is no concurrency, time, I/O, scheduling or second party for it to depend on, so a simulated schedule or fault adds nothing to it (wire values are still exercised inside the simulated runs of the other checks).",
 "C25": "lightyear_replication needs bevy_replicon, which is not in the offline crate cache: the crate cannot be compiled here, so its real code cannot run under the simulator.",
 "C26": "lightyear_prediction/lightyear_replication need bevy_replicon, which is not in the offline crate cache: the crates cannot be compiled here, so their real code cannot run under the simulator.",
}
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
for p in props:
    if p not in CHECKS and p not in NA:
        NA[p] = "No check yet: planned (see DESIGN.md), the simulated family for it is being built."
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout
hooks = [l.split()[0] for l in log.splitlines() if l.split(" ", 1)[1].startswith("hooks:")]
m = {
 "version": 1,
 "setup_cmd": "bash build.sh",
 "hooks": {"guard": "cargo feature sim_hooks (lightyear_transport, lightyear_netcode, lightyear_link, lightyear_udp), off by default",
           "enable": "/verif/sim/Cargo.toml depends on those crates with features = [\"sim_hooks\"]",
           "source_commits": hooks},
 "checks": [{"property": p, "quick_cmd": f"bash check.sh {p} quick", "thorough_cmd": f"bash check.sh {p} thorough",
             "technique": TECH + CHECKS[p][0], "level": "exploration", "level_note": SEARCH + CHECKS[p][1]} for p in props if p in CHECKS],
 "not_applicable": [{"property": p, "reason": NA[p]} for p in props if p in NA],
}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
