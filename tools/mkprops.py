#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the prose stays reviewable)."""
import json, sys
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

T = "crates/transport/transport/src/"
M = "crates/transport/messages/src/"
N = "crates/connection/netcode/src/"
C = "crates/connection/connection/src/"
S = "crates/core/sync/src/"

prop("C01", "Reliable unordered channels deliver every message exactly once",
 "While two peers stay connected, every message sent on a reliable unordered channel is handed to the receiving application exactly once, byte for byte as it was sent, whatever the network loses, duplicates, reorders or delays. Nothing that was not sent is ever delivered. Once the network stops misbehaving, every message sent before that is delivered within a bounded time. (Message ids have 16 bits: this assumes that fewer than 32768 messages of a channel separate the oldest and the newest in flight.)",
 ["schedules", "fault_sequences", "inputs", "configurations"],
 "Every sequence of sends (sizes, channels, priorities, both directions), every frame rate and pause pattern of either peer, and every finite sequence of packet loss, duplication, reordering, delay and partition.",
 "Unit tests push a handful of hand-picked packets through one sender or one receiver; none drives both ends through a lossy network for thousands of packets, across id wrap-around, or checks what is delivered against what was sent.",
 [T+"plugin.rs", T+"channel/send_reliable.rs", T+"channel/receive.rs", T+"channel/fragments/receive.rs", T+"packet/header.rs", T+"packet/packet_builder.rs"],
 [("retransmit unacked messages after a multiple of the RTT", T+"channel/send_reliable.rs"), ("receiver drops message ids it has already delivered", T+"channel/receive.rs"), ("packet acks carried in every header", T+"packet/header.rs")],
 [("unacked messages", "sent, not yet known to be received", T+"channel/send_reliable.rs"), ("oldest pending id and receive buffer", "what the receiver already has", T+"channel/receive.rs")],
 ["messages read by the application on the receiving peer"])

prop("C02", "Ordered reliable channels deliver exactly the sent sequence",
 "On an ordered reliable channel the messages delivered to the application are, at every moment, a gap-free prefix of the messages the peer sent on that channel in this connection, in send order, each intact. Once the network stops misbehaving the whole sequence is delivered within a bounded time. Traffic on other channels never changes this.",
 ["schedules", "fault_sequences", "inputs", "configurations"],
 "Every sequence of sends mixed over several channels, every frame schedule of either peer, every finite sequence of network faults.",
 "Tests check ordering for a few ids in one buffer; the guarantee is about every interleaving of loss, retransmission, fragmentation and id wrap-around between two live peers.",
 [T+"channel/receive.rs", T+"channel/send_reliable.rs", T+"channel/fragments/receive.rs", T+"plugin.rs"],
 [("receiver releases only the next expected id", T+"channel/receive.rs"), ("wrapping message ids", "crates/core/utils/src/wrapping_id.rs")],
 None, ["messages read by the application on the receiving peer"])

prop("C03", "Sequenced channels never deliver an older message after a newer one",
 "On a sequenced channel, reliable or not, the application only ever sees messages in strictly increasing send order, each at most once and intact. A message that arrives completely before any part of a newer one is delivered. On a sequenced reliable channel the last message sent is delivered within a bounded time once the network stops misbehaving.",
 ["schedules", "fault_sequences", "inputs", "configurations"],
 "Every sequence of sends including fragmented ones, every frame schedule and every finite sequence of network faults.",
 "Tests feed a few ids in a few orders; reordered fragments of several messages, retransmissions of stale ones and id wrap-around are not sampled together.",
 [T+"channel/receive.rs", T+"channel/fragments/receive.rs", T+"channel/send.rs", T+"channel/send_reliable.rs"],
 [("receiver discards ids older than the newest delivered", T+"channel/receive.rs")],
 None, ["messages read by the application on the receiving peer"])

prop("C04", "Unreliable channels deliver what arrives, intact, and nothing else",
 "Every message delivered on an unreliable unordered channel is byte-identical to one the peer sent on that same channel in this connection, and is delivered no more often than the network delivered its packets. A message all of whose packets reach a connected peer is delivered, whatever happens to other packets. Packet contents already handed to the link never change afterwards.",
 ["schedules", "fault_sequences", "inputs", "configurations"],
 "Every mix of message sizes, channels, priorities and directions, every frame schedule, every sequence of loss, duplication, reordering and delay, and packets held back arbitrarily long by the link.",
 "Tests check single packets; buffer reuse, packing of many messages into packets and interleaved fragments of many messages under reordering are only exercised by long mixed runs.",
 [T+"packet/packet_builder.rs", T+"packet/message.rs", T+"channel/send.rs", T+"channel/receive.rs", T+"plugin.rs", "crates/core/core/src/buffer_pool.rs"],
 [("length-delimited packing of messages per channel", T+"packet/packet_builder.rs"), ("pooled packet buffers released only when no longer shared", "crates/core/core/src/buffer_pool.rs")],
 None, ["messages read by the application", "payloads taken from the link"])

prop("C05", "Oversized messages arrive whole or not at all; packets fit the link MTU",
 "A message larger than one packet is delivered only as exactly the bytes sent, never truncated, never mixed with parts of another message, and on a reliable channel it is always eventually delivered once faults stop. No packet handed to a link is ever larger than that link's maximum packet size. The connection's own framing and encryption never push a packet over the size the connection layer accepts.",
 ["inputs", "schedules", "fault_sequences", "configurations"],
 "Every message size around and far beyond the fragment boundaries, every permitted link packet size, every mix with small messages, every arrival order, duplication and loss of the pieces.",
 "Tests split and rejoin one message in order; boundary sizes crossed with arrival order, duplicates, interleaved messages and packet-size settings form a space they only touch.",
 [T+"channel/fragments/send.rs", T+"channel/fragments/receive.rs", T+"channel/fragments/ack.rs", T+"packet/packet_builder.rs", "crates/io/link/src/lib.rs"],
 [("fragmentation of messages larger than a packet", T+"channel/fragments/send.rs"), ("reassembly keyed by message id with per-fragment bitmap", T+"channel/fragments/receive.rs"), ("packet budget taken from the link MTU", T+"packet/packet_builder.rs")],
 None, ["messages read by the application", "sizes of payloads taken from the link"])

prop("C06", "A delivery receipt is true, and every tracked message gets an outcome",
 "When the sender of a message is told it was delivered, every packet needed for that message really had arrived at the connected peer, and it is told so at most once per message. A packet is reported either acknowledged or lost, never both and never twice, only if it was sent in this connection, and an acknowledgement comes with the time the round trip took. Once faults stop, every message sent on a channel that reports outcomes has been reported acknowledged or lost within a bounded time, and on reliable channels acknowledged.",
 ["schedules", "fault_sequences", "inputs"],
 "Every interleaving of data and acknowledgement packets with loss, duplication, reordering and delay, every frame schedule, and histories long enough for packet and message ids to wrap.",
 "Ack tests replay a dozen headers; truthfulness is a statement about every pair of histories at both ends, including late acks, id wrap-around and fragment subsets.",
 [T+"packet/header.rs", T+"packet/nack.rs", T+"plugin.rs", T+"channel/fragments/ack.rs", T+"channel/send.rs"],
 [("ack bitfield of the last 33 packets", T+"packet/header.rs"), ("packet to message map", T+"channel/builder.rs"), ("loss timeout derived from RTT and jitter", T+"packet/nack.rs")],
 [("unclassified sent packets", "packets neither acked nor lost yet", T+"packet/header.rs")],
 ["message acks and nacks of a channel", "packet acked and lost notifications"])

prop("C07", "A new connection starts clean: nothing leaks from an earlier one",
 "After a peer disconnects and connects again, no message, partial message, acknowledgement or unread data from the earlier connection is delivered in the new one, even if packets of the old connection arrive late. The new connection gives all channels their full guarantees from its first message on. Data sent in the new connection is never suppressed because of what happened in the old one.",
 ["histories", "schedules", "fault_sequences", "crash_points"],
 "Every history of connects, disconnects, timeouts and crash-restarts of either peer at arbitrary points with messages, fragments and acknowledgements in flight, and every late delivery of old packets.",
 "Tests reconnect from one quiet state; leaks depend on what was buffered, half-assembled or in flight at the instant of the disconnect.",
 [T+"channel/builder.rs", T+"client.rs", T+"server.rs", T+"plugin.rs", M+"plugin.rs", M+"receive.rs", "crates/io/link/src/lib.rs", N+"client_plugin.rs", N+"server_plugin.rs"],
 [("transport state reset on disconnect", T+"channel/builder.rs"), ("typed receivers removed on disconnect", M+"receive.rs"), ("link queues reset on unlink", "crates/io/link/src/lib.rs")],
 None, ["messages read after a reconnect"])

prop("C08", "The bandwidth cap holds, and only delays or drops what it may",
 "With a bandwidth cap configured, the bytes of packets carrying messages that a connection hands to its link in any interval never exceed the cap for that interval plus one burst allowance (packets that carry only acknowledgements are exempt; the burst must admit at least one full packet). Reliable messages held back by the cap, and unreliable ones on channels that retry unsent messages, are still sent later; on channels that do not retry, a held-back message is dropped rather than sent late. Among messages waiting on the same terms, higher priority is not starved by lower priority.",
 ["inputs", "schedules", "configurations", "fault_sequences"],
 "Every cap and burst size at least one packet large, every backlog of sizes and priorities, every frame schedule.",
 "The rate limiter reads a real clock, so tests only check single packets; the cap is a statement over all windows of a long schedule.",
 [T+"packet/priority_manager.rs", T+"plugin.rs", T+"channel/send.rs", T+"packet/packet_builder.rs"],
 [("token bucket consumed per packet", T+"packet/priority_manager.rs"), ("retry-unsent policy per channel", T+"channel/send.rs")],
 None, ["payloads taken from the link", "messages read by the application"],
 "rate limiter clock behind a feature-gated seam")

prop("C09", "Only holders of a valid connect token become connected, as that token's client",
 "A server reports a client connected only if that peer holds a connect token that was sealed with the server's key for its protocol, names this server, has not expired and has answered a challenge this server gave since it was started; the client id and user data reported are those of that token. A client reports itself connected only to a server holding the key. Packets forged, altered, truncated or taken from another exchange never create, change or end a connection.",
 ["fault_sequences", "inputs", "schedules", "histories"],
 "Every sequence of honest handshakes mixed with an attacker that replays, alters, truncates, redirects and fabricates packets of every kind, and with tokens that are expired, for another protocol, another server or another key.",
 "Tests run a handful of handshakes and one or two bad tokens; an attacker picks among all captured packets, all fields and all moments.",
 [N+"server.rs", N+"client.rs", N+"packet.rs", N+"token.rs", N+"crypto.rs"],
 [("AEAD-sealed private token and challenge token", N+"token.rs"), ("per-connection keys authenticate every later packet with its prefix", N+"packet.rs"), ("expiry and server address checks on requests", N+"server.rs")],
 None, ["connected clients and their ids on the server", "client state"],
 "wall clock used for token expiry behind a feature-gated seam")

prop("C10", "An authenticated payload is delivered at most once, unaltered, from its sender",
 "On an authenticated connection, each payload a peer sends is passed up by the other side at most once, exactly as sent and attributed to the connection it was sent on; duplicated, replayed, altered or cross-wired packets are dropped. A genuine payload that arrives within the replay window of the newest one received is not dropped. Payloads are passed up only between connected peers. No two packets of a session carry the same sequence number under the same key.",
 ["fault_sequences", "schedules", "inputs"],
 "Every pattern of duplication, reordering, replay across time and across clients, bit alteration and truncation of the encrypted packets of any number of concurrent connections.",
 "Replay tests check a few sequence numbers on the bare window; the guarantee covers all packet kinds, directions and interleavings of many connections.",
 [N+"replay.rs", N+"packet.rs", N+"server.rs", N+"client.rs"],
 [("sliding replay window", N+"replay.rs"), ("sequence number authenticated as nonce", N+"packet.rs")],
 None, ["payloads passed to the transport layer"])

prop("C11", "Dead connections are noticed in time; healthy ones are kept and recover",
 "If one side stops hearing from the other for longer than the configured timeout it ends the connection and says so within a bounded time, also when its token names further servers, and a side that was asked to disconnect tells the other if the network lets any of its notices through. As long as packets keep flowing both ways more often than the timeout, an idle connection is never dropped. Once the network heals, a client that connects with a fresh valid token to a running server with free slots succeeds within a bounded time, and every attempt ends connected or in a definite failure.",
 ["fault_sequences", "schedules", "crash_points", "configurations"],
 "Every sequence of partitions, one-way outages, crashes and restarts of either side, stalls, orderly disconnects and reconnect attempts, for every timeout setting.",
 "Tests time out one idle client; the interplay of keep-alives, timeouts, retries, restarts and half-open connections depends on when the fault hits.",
 [N+"client.rs", N+"server.rs", N+"client_plugin.rs", N+"server_plugin.rs", C+"client.rs", C+"server.rs"],
 [("keep-alive packets", N+"server.rs"), ("connect, challenge and connection timeouts", N+"client.rs"), ("redundant disconnect packets", N+"server.rs")],
 None, ["connection state on both sides"])

prop("C12", "A server never exceeds its client limit and frees slots that are released",
 "A server never has more clients connected at once than its configured maximum, counts each client id at most once, and refuses clients its admission handler rejects. A refused client ends in a definite failure state. A slot released by a disconnect, a timeout or the loss of its link becomes available to later clients.",
 ["schedules", "fault_sequences", "configurations", "histories"],
 "Every interleaving of connection attempts, refusals, timeouts, disconnects, duplicate client ids and retransmitted handshake packets around the limit.",
 "Tests fill a server once in order; the race between several handshakes in flight, retransmissions and releases is scheduled by the network.",
 [N+"server.rs", N+"server_plugin.rs", N+"client.rs"],
 [("limit checked when the request and when the response is processed", N+"server.rs"), ("denied packets", N+"server.rs")],
 None, ["connected clients on the server", "state of refused clients"])

prop("C13", "Connection state is consistent: one state, one peer entry, full teardown",
 "At every moment each connection is in exactly one of its lifecycle states, and looking a peer up by id gives exactly the connection currently established with it. When a link fails, a connection is torn down, or a server stops, every dependent connection becomes disconnected, is removed from the lookup and from the server's client list, and nothing is left behind. State changes are reported once, in order.",
 ["histories", "schedules", "fault_sequences", "configurations"],
 "Every history of connect, disconnect, start, stop, unlink, despawn and timeout operations on any number of links, in any order and any number per frame.",
 "Tests walk a few transitions; the state is spread over several markers and maps updated by observers, so consistency depends on every order of overlapping operations.",
 [C+"client.rs", C+"server.rs", C+"host.rs", C+"network_topology.rs", "crates/io/link/src/lib.rs", "crates/io/link/src/server.rs", "crates/connection/raw_connection/src/client.rs", "crates/connection/raw_connection/src/server.rs"],
 [("marker components that replace each other when inserted", C+"client.rs"), ("peer map maintained by observers", C+"lib.rs"), ("unlink cascades from a server to its links", "crates/io/link/src/server.rs")],
 None, ["lifecycle components", "peer lookup", "server's client collection"])

prop("C14", "A targeted message reaches exactly the clients the target names",
 "A message a server sends to a target on a reliable channel is delivered exactly once to every client that the target selects among those connected to that server when it is sent, and never to any other client. This holds for all, none, single, lists and exclusions, with duplicates and unknown ids in the lists, and while other clients connect and disconnect.",
 ["inputs", "histories", "schedules", "fault_sequences"],
 "Every target over every set of connected, departed and never-seen client ids, every join and leave history, with network faults.",
 "Tests resolve a few targets over fixed tables; here the client set changes while messages are in flight.",
 [C+"network_target.rs", M+"server.rs", M+"multi.rs"],
 [("target resolved against the server's connected clients and the peer lookup", C+"network_target.rs"), ("one serialisation shared by all recipients", M+"multi.rs")],
 None, ["messages read on every client"])

prop("C15", "Entity references in messages name the right entity on the other side",
 "An entity mentioned in a message or event arrives as the entity the receiving side has associated with it, whichever side created it, and as an explicit placeholder if no association is known, never as an unrelated entity. Associations of one connection never affect another connection, and do not survive a disconnect.",
 ["histories", "inputs", "schedules"],
 "Every history of associations being added and removed on either side, for many clients, with messages in flight and reconnects.",
 "Tests map one entity on one connection; cross-connection isolation and changes while messages are in flight are not sampled.",
 ["crates/transport/serde/src/entity_map.rs", M+"send.rs", M+"receive.rs", M+"multi.rs", M+"plugin.rs"],
 [("sender maps known entities and marks them as mapped, receiver maps the rest", "crates/transport/serde/src/entity_map.rs")],
 None, ["entity fields of received messages"])

prop("C16", "Typed messages and events arrive once, as sent, with the right type and sender",
 "A message or event sent as one registered type is received by the connected peer as that type only, with equal content and identified with the connection and peer it came from, under the guarantees of the channel used. Several types sharing one channel do not disturb each other, and messages not read in the frame they arrive are discarded rather than delivered later or to someone else. A message that cannot be sent, because it does not serialise or its channel does not exist, leaves the messages around it untouched.",
 ["inputs", "schedules", "fault_sequences", "configurations"],
 "Every mix of registered message and event types over every channel kind and several clients, with or without readers, under network faults.",
 "Tests send one message of one type; type routing, per-frame clearing and sender attribution across many clients are schedule dependent.",
 [M+"plugin.rs", M+"receive.rs", M+"receive_event.rs", M+"send.rs", M+"send_trigger.rs", M+"registry.rs", M+"trigger.rs"],
 [("type id written before each message", M+"registry.rs"), ("per-type receivers cleared at the end of the frame", M+"receive.rs")],
 None, ["typed receivers", "event observers"])

prop("C17", "Messages bound to a timeline are released at their tick, not before",
 "On a channel bound to a timeline, a message is not handed to the application before the receiver's timeline has reached the sender's tick that the message carries (the tick at which it left, that of the delivering packet if it was resent), and is handed over no later than the first frame after both the message has arrived and the timeline has reached that tick. Messages released together come out in tick order, an ordered channel keeps its order, and none that arrived in time is lost or duplicated.",
 ["schedules", "fault_sequences", "inputs"],
 "Every arrival order and delay of messages, every movement of the receiving timeline including stalls, jumps and large catch-ups.",
 "Tests hold one message; release depends on arrival order crossed with how the timeline moves.",
 [M+"plugin.rs", M+"receive.rs", "crates/core/utils/src/ready_buffer.rs"],
 [("payloads held in a queue ordered by tick", M+"plugin.rs")],
 None, ["frames in which messages become readable"])

prop("C18", "Client clock converges to the server's and stays ahead by the promised lead",
 "Once a client is connected and the network is steady, it becomes synchronised within a bounded time and its tick then stays within a bounded distance of the server tick plus half the round trip plus the configured margin, so that what it sends arrives - all but a rare exception, when the margins are the default ones or larger and it renders at least one frame per tick - no later than the server simulates that tick. The reported round trip is never negative or unbounded and converges to the true one when the network is steady. After any finite disturbance the clock returns to this state.",
 ["schedules", "fault_sequences", "configurations"],
 "Every latency and jitter up to the supported range, every tick rate, clock offset, drift, stall, latency step and packet loss pattern that eventually becomes steady.",
 "Tests step the controller a few times; convergence is a closed-loop property of both peers, the network and time.",
 [S+"timeline/sync.rs", S+"timeline/input.rs", S+"timeline/remote.rs", S+"ping/manager.rs", S+"ping/plugin.rs", S+"ping/estimator.rs"],
 [("ping and pong exchange", S+"ping/plugin.rs"), ("smoothed RTT with outlier clamp", S+"ping/estimator.rs"), ("speed controller with resync", S+"timeline/sync.rs")],
 None, ["local tick on client and server at the same instant", "link statistics"])

prop("C19", "The simulation tick advances one per step; every jump is announced",
 "The local tick advances by exactly one for each fixed simulation step and otherwise changes only by an amount announced to the application, never silently. A server's tick never jumps. The speed correction applied to a client's clock always stays within the configured limits, so time never runs backwards.",
 ["schedules", "fault_sequences", "configurations"],
 "Every frame schedule including long stalls and bursts, every clock synchronisation scenario.",
 "Tests check single corrections; the accounting must balance over every run.",
 [S+"timeline/sync.rs", S+"timeline/input.rs", "crates/core/core/src/timeline.rs", "crates/core/core/src/tick.rs"],
 [("tick incremented first in each fixed step", "crates/core/core/src/timeline.rs"), ("shift event applied to the local tick", S+"timeline/sync.rs")],
 None, ["tick at each fixed step", "shift events", "virtual clock speed"])

prop("C20", "Peers that start a peer-to-peer session start it at the same tick",
 "Any two peers of the same group that report a peer-to-peer session started report the same start tick, each reports it once per attempt, exactly when its own simulation is about to enter that tick, and never with a different group of peers. On a peer on which an attempt does not lead to a start it ends within its timeout, with the session stopped, its links free and another attempt possible. On a steady network, peers that all ask for the session (equally often, and close together compared with the timeout, with a start delay longer than the negotiation takes) all start, whichever asks first and however different their clocks are.",
 ["schedules", "fault_sequences", "configurations", "histories"],
 "Every number of peers, every order and timing of start and stop requests, message delay, loss and reordering, disconnected members, mismatched groups and repeated attempts.",
 "Tests drive the negotiation by hand for two peers; agreement is about every interleaving over several peers and attempts.",
 ["crates/connection/p2p/src/session.rs", C+"p2p.rs", C+"network_topology.rs"],
 [("readiness and acknowledgement messages carrying attempt number and group hash", "crates/connection/p2p/src/session.rs")],
 None, ["session state", "start notifications"])

prop("C21", "The network conditioner delays and drops as configured and nothing else",
 "A link with a simulated network condition releases each packet no earlier than the configured latency minus jitter after it was received and no later than latency plus jitter plus one frame, delivers it unaltered and at most once, and drops packets only at the configured loss rate. With no loss configured nothing is lost, with no jitter packets received at different times stay in order, and without a condition packets pass straight through.",
 ["schedules", "configurations", "inputs"],
 "Every latency, jitter and loss setting including extremes, every arrival pattern and frame schedule.",
 "Tests push one packet at one setting; the bound is over all arrival patterns and frame schedules.",
 ["crates/io/link/src/conditioner.rs", "crates/io/link/src/lib.rs", "crates/io/link/src/server.rs", "crates/core/utils/src/ready_buffer.rs"],
 [("packets held in a queue ordered by release time", "crates/io/link/src/conditioner.rs")],
 None, ["packets taken from the link's receive queue"],
 "conditioner randomness behind a feature-gated seam")

prop("C22", "No packet from the network can crash a peer or disturb other connections",
 "Whatever bytes arrive on a link, before, during or after a handshake, from a stranger or from a connected peer, the receiving application does not crash (nor allocates memory for sizes that are merely announced until it dies), and other connections keep all their guarantees. On an authenticated connection, packets injected by a third party also leave the connection itself undisturbed: it stays connected and its messages keep being delivered.",
 ["inputs", "fault_sequences", "schedules"],
 "Every byte string as a packet: random, truncated, extended, bit-flipped and field-mutated versions of genuine packets of all layers, at any moment and in any number.",
 "Tests parse a few malformed inputs; a single unlucky field at the wrong moment suffices, and its effect on other connections needs a running system.",
 [N+"packet.rs", N+"server.rs", N+"client.rs", N+"replay.rs", T+"plugin.rs", T+"packet/header.rs", T+"packet/message.rs", T+"channel/fragments/receive.rs", M+"plugin.rs", S+"ping/manager.rs", "crates/transport/serde/src/reader.rs"],
 [("checked reads from packet bytes", "crates/transport/serde/src/reader.rs"), ("packets of a failed parse are dropped", T+"plugin.rs"), ("authentication before interpretation", N+"packet.rs")],
 None, ["process alive", "guarantees of the other connections"])

prop("C23", "A client inside the server process gets the same messages as a remote one",
 "When a client runs in the same process as the server, messages and events in both directions between them are delivered exactly once, in send order per channel and as sent, like over a perfect network, with the right sender identity. Sending to all clients includes the local one exactly once, and it can connect and disconnect like any other client without disturbing remote clients.",
 ["histories", "schedules", "inputs"],
 "Every mix of local and remote clients, sends in both directions over every channel kind, connects and disconnects in any order.",
 "Tests send single messages through the local path, which shares almost no code with the network path.",
 [C+"host.rs", M+"plugin.rs", M+"send.rs", M+"receive.rs", M+"server.rs", T+"plugin.rs"],
 [("local path that bypasses packets", M+"send.rs"), ("host-client buffer", C+"host.rs")],
 None, ["messages read by local client and server"])

prop("C24", "Every value survives its trip through the wire encoding",
 "Decoding the encoding of any value of a wire type (ids, ticks, times, targets, entities, variable-length integers, fragments) gives back an equal value and consumes exactly the bytes written, and the announced length equals the written length.",
 ["inputs"],
 "Every value of every wire type.",
 "Tests sample a few values per type.",
 ["crates/transport/serde/src/lib.rs", "crates/transport/serde/src/varint.rs", "crates/core/core/src/id.rs", "crates/core/core/src/time.rs"],
 [("hand-written encoders and decoders", "crates/transport/serde/src/lib.rs")])

prop("C25", "Replicated state converges to the authority's state",
 "Once changes stop and the network is steady, every entity and component replicated to a client equals the authority's, entities despawned there are despawned, and no client ever sees a state that the authority never had or components of an entity not visible to it.",
 ["schedules", "fault_sequences", "histories"],
 "Every history of spawns, despawns, component changes, visibility and authority changes under network faults, joins and leaves.",
 "Tests replicate a few changes over a perfect link.",
 ["crates/replication/replication/src/lib.rs"],
 [("replication built on the external replication crate", "crates/replication/replication/src/lib.rs")])

prop("C26", "Rollback re-simulation ends in the state the confirmed inputs determine",
 "After a misprediction is detected, rolling back and re-simulating gives the same state as if the confirmed state and inputs had been known from the start, for every tick in the history window.",
 ["schedules", "fault_sequences", "histories"],
 "Every history of predictions, confirmations and late inputs.",
 "Tests roll back a few scripted mispredictions.",
 ["crates/replication/prediction/src/rollback.rs", "crates/core/core/src/confirmed_history.rs"],
 [("state restored from history and fixed steps re-run", "crates/replication/prediction/src/rollback.rs")])

prop("C27", "Sockets, channels and sessions carry packets faithfully to and from their link",
 "A datagram or packet that the socket, channel or session receives from peer A appears unaltered, exactly once and in arrival order on the one live link of A (packets that arrive while that link is still being made may be dropped; the link exists within a few frames). What is pushed to a linked link leaves exactly once, unaltered, in order, to its own peer and to no other. An error of a socket or session affects only the packet or frame concerned, never other packets or peers. Packets handed over never change afterwards. Unlinking closes the socket, channel or session, shows the given reason to every observer, takes a server's child links with it, and linking again works; when the other side goes away the link becomes unlinked after its remaining packets were read.",
 ["inputs", "fault_sequences", "schedules", "histories"],
 "Every size and interleaving of datagrams of several peers, every pattern of socket errors (interrupted, would block, reset, refused, no buffers), links and servers opened, closed and reopened at any moment, held payloads of any age.",
 "Tests send one packet over one healthy socket; buffer reuse, error paths and reopening need many packets, held references and faults at particular moments.",
 ["crates/io/udp/src/lib.rs", "crates/io/udp/src/server.rs", "crates/io/crossbeam/src/lib.rs", "crates/io/aeronet/src/lib.rs", "crates/io/aeronet/src/server.rs", "crates/io/link/src/lib.rs", "crates/io/link/src/server.rs"],
 [("one receive buffer frozen per datagram", "crates/io/udp/src/lib.rs"), ("address to link map", "crates/io/udp/src/server.rs"), ("session and link entities tied together", "crates/io/aeronet/src/lib.rs")],
 None, ["packets on links and on the simulated sockets, channels and sessions"])

out = sys.argv[1] if len(sys.argv) > 1 else "/verif/properties.jsonl"
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
import os
for p in P:
    assert len(p["title"]) <= 80, p["id"]
    for f_ in p["anchors"]["files"]:
        if not os.path.exists("/repo/" + f_): print("missing", p["id"], f_)
    for m in p["anchors"]["mechanism"]:
        if not os.path.exists("/repo/" + m["where"]): print("missing", p["id"], m["where"])
