From 9b1d55ce58e6c4001168153d97aa095395fb8513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:48 +0000
Subject: [PATCH 01/26] hooks: sim_hooks feature: seams for the simulator's
 clock and randomness (off by default)

---
 crates/connection/netcode/Cargo.toml          |  2 ++
 crates/connection/netcode/src/lib.rs          |  2 ++
 crates/connection/netcode/src/utils.rs        | 22 +++++++++++++
 crates/io/link/Cargo.toml                     |  2 ++
 crates/io/link/src/conditioner.rs             | 23 +++++++++++++
 crates/io/link/src/lib.rs                     |  2 ++
 crates/transport/transport/Cargo.toml         |  2 ++
 crates/transport/transport/src/lib.rs         |  2 ++
 .../transport/src/packet/priority_manager.rs  | 10 +++++-
 crates/transport/transport/src/sim_hooks.rs   | 33 +++++++++++++++++++
 10 files changed, 99 insertions(+), 1 deletion(-)
 create mode 100644 crates/transport/transport/src/sim_hooks.rs

diff --git a/crates/connection/netcode/Cargo.toml b/crates/connection/netcode/Cargo.toml
index ae6852a..d0385d5 100644
--- a/crates/connection/netcode/Cargo.toml
+++ b/crates/connection/netcode/Cargo.toml
@@ -33,6 +33,8 @@ server = [
   "bevy_time",
 ]
 trace = []
+# lets a deterministic simulator provide the wall clock used for token expiry; off by default
+sim_hooks = []
 
 [dependencies]
 # local crates
diff --git a/crates/connection/netcode/src/lib.rs b/crates/connection/netcode/src/lib.rs
index 891e5b1..92daa28 100644
--- a/crates/connection/netcode/src/lib.rs
+++ b/crates/connection/netcode/src/lib.rs
@@ -86,6 +86,8 @@ mod replay;
 mod server;
 mod token;
 mod utils;
+#[cfg(feature = "sim_hooks")]
+pub use utils::sim_hooks;
 
 #[cfg(feature = "client")]
 pub mod client_plugin;
diff --git a/crates/connection/netcode/src/utils.rs b/crates/connection/netcode/src/utils.rs
index d35dee3..b77e5e6 100644
--- a/crates/connection/netcode/src/utils.rs
+++ b/crates/connection/netcode/src/utils.rs
@@ -12,12 +12,34 @@ use core::{iter, option, slice};
 /// Return the number of seconds since unix epoch
 #[cfg(feature = "std")]
 pub(crate) fn now() -> Result<u64, super::Error> {
+    #[cfg(feature = "sim_hooks")]
+    if let Some(seconds) = sim_hooks::unix_seconds() {
+        return Ok(seconds);
+    }
     // number of seconds since unix epoch
     Ok(SystemTime::now()
         .duration_since(SystemTime::UNIX_EPOCH)?
         .as_secs())
 }
 
+/// Seam for deterministic simulation: the wall clock observed by [`now`].
+#[cfg(feature = "sim_hooks")]
+pub mod sim_hooks {
+    use core::sync::atomic::{AtomicU64, Ordering};
+
+    static UNIX_SECONDS: AtomicU64 = AtomicU64::new(u64::MAX);
+
+    /// Sets the wall-clock time (in seconds since the unix epoch) observed by this process.
+    pub fn set_unix_seconds(seconds: u64) {
+        UNIX_SECONDS.store(seconds, Ordering::Relaxed);
+    }
+
+    pub(super) fn unix_seconds() -> Option<u64> {
+        let seconds = UNIX_SECONDS.load(Ordering::Relaxed);
+        (seconds != u64::MAX).then_some(seconds)
+    }
+}
+
 #[cfg(not(feature = "std"))]
 pub(crate) fn now() -> Result<u64, super::Error> {
     // TODO: test if this works
diff --git a/crates/io/link/Cargo.toml b/crates/io/link/Cargo.toml
index 46c32aa..73fa437 100644
--- a/crates/io/link/Cargo.toml
+++ b/crates/io/link/Cargo.toml
@@ -12,6 +12,8 @@ repository = "https://github.com/cBournhonesque/lightyear"
 default = ["std"]
 std = []
 test_utils = []
+# lets a deterministic simulator seed the link conditioner; off by default
+sim_hooks = []
 
 [dependencies]
 lightyear_core.workspace = true
diff --git a/crates/io/link/src/conditioner.rs b/crates/io/link/src/conditioner.rs
index 2ae8c00..88803e9 100644
--- a/crates/io/link/src/conditioner.rs
+++ b/crates/io/link/src/conditioner.rs
@@ -150,7 +150,10 @@ impl<P: Eq> LinkConditioner<P> {
     /// Dropped packets are discarded immediately. Delivered packets are queued by their simulated
     /// delivery instant.
     pub(crate) fn condition_packet(&mut self, packet: P, instant: Instant) {
+        #[cfg(not(feature = "sim_hooks"))]
         let mut rng = rand::rng();
+        #[cfg(feature = "sim_hooks")]
+        let mut rng = sim_hooks::rng();
 
         // Execute the Gilbert–Elliott model to decide packet loss. See
         // `LinkConditionerConfig` for details.
@@ -398,6 +401,26 @@ impl LinkConditionerConfig {
     }
 }
 
+/// Seam for deterministic simulation (feature `sim_hooks`, off by default): the randomness of the
+/// conditioner is drawn from a seed chosen by the simulator.
+#[cfg(feature = "sim_hooks")]
+pub mod sim_hooks {
+    use core::sync::atomic::{AtomicU64, Ordering};
+    use rand::SeedableRng;
+    use rand::rngs::StdRng;
+
+    static SEED: AtomicU64 = AtomicU64::new(0);
+
+    /// Sets the seed; every conditioned packet then uses its own generator, derived from it.
+    pub fn set_seed(seed: u64) {
+        SEED.store(seed, Ordering::Relaxed);
+    }
+
+    pub(super) fn rng() -> StdRng {
+        StdRng::seed_from_u64(SEED.fetch_add(0x9E37_79B9_7F4A_7C15, Ordering::Relaxed))
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/crates/io/link/src/lib.rs b/crates/io/link/src/lib.rs
index a36dcc6..92e7e4b 100644
--- a/crates/io/link/src/lib.rs
+++ b/crates/io/link/src/lib.rs
@@ -25,6 +25,8 @@ extern crate alloc;
 extern crate std;
 
 mod conditioner;
+#[cfg(feature = "sim_hooks")]
+pub use conditioner::sim_hooks;
 mod mtu;
 pub mod server;
 
diff --git a/crates/transport/transport/Cargo.toml b/crates/transport/transport/Cargo.toml
index eb6f352..3918fb5 100644
--- a/crates/transport/transport/Cargo.toml
+++ b/crates/transport/transport/Cargo.toml
@@ -19,6 +19,8 @@ metrics = ["dep:metrics", "std", "lightyear_utils/metrics", "bevy_utils/debug"]
 trace = []
 
 test_utils = []
+# lets a deterministic simulator provide the clock of the bandwidth limiter; off by default
+sim_hooks = []
 
 [dependencies]
 # local crates
diff --git a/crates/transport/transport/src/lib.rs b/crates/transport/transport/src/lib.rs
index a280fb8..62e8675 100644
--- a/crates/transport/transport/src/lib.rs
+++ b/crates/transport/transport/src/lib.rs
@@ -19,6 +19,8 @@ pub mod packet;
 pub mod plugin;
 #[cfg(feature = "server")]
 mod server;
+#[cfg(feature = "sim_hooks")]
+pub mod sim_hooks;
 
 pub mod prelude {
     pub use crate::channel::Channel;
diff --git a/crates/transport/transport/src/packet/priority_manager.rs b/crates/transport/transport/src/packet/priority_manager.rs
index de0f1ed..51f43f1 100644
--- a/crates/transport/transport/src/packet/priority_manager.rs
+++ b/crates/transport/transport/src/packet/priority_manager.rs
@@ -2,7 +2,9 @@ use crate::channel::registry::ChannelRegistry;
 use crate::packet::message::{MessageData, SendCandidate};
 use alloc::vec::Vec;
 use core::num::NonZeroU32;
-use governor::{DefaultDirectRateLimiter, Quota};
+#[cfg(not(feature = "sim_hooks"))]
+use governor::DefaultDirectRateLimiter;
+use governor::Quota;
 use lightyear_serde::ToBytes;
 use nonzero_ext::*;
 #[cfg(feature = "trace")]
@@ -66,7 +68,10 @@ pub struct PriorityManager {
 #[derive(Debug)]
 pub(crate) struct BandwidthLimiter {
     enabled: bool,
+    #[cfg(not(feature = "sim_hooks"))]
     limiter: DefaultDirectRateLimiter,
+    #[cfg(feature = "sim_hooks")]
+    limiter: crate::sim_hooks::SimRateLimiter,
 }
 
 impl Default for PriorityManager {
@@ -162,7 +167,10 @@ impl BandwidthLimiter {
     pub(crate) fn new(config: PriorityConfig) -> Self {
         Self {
             enabled: config.enabled,
+            #[cfg(not(feature = "sim_hooks"))]
             limiter: DefaultDirectRateLimiter::direct(config.bandwidth_quota),
+            #[cfg(feature = "sim_hooks")]
+            limiter: crate::sim_hooks::limiter(config.bandwidth_quota),
         }
     }
 
diff --git a/crates/transport/transport/src/sim_hooks.rs b/crates/transport/transport/src/sim_hooks.rs
new file mode 100644
index 0000000..b22d90c
--- /dev/null
+++ b/crates/transport/transport/src/sim_hooks.rs
@@ -0,0 +1,33 @@
+//! Seam for deterministic simulation (feature `sim_hooks`, off by default): the bandwidth limiter
+//! reads the simulator's clock instead of the machine's.
+use core::sync::atomic::{AtomicU64, Ordering};
+use core::time::Duration;
+use governor::clock::Clock;
+use governor::middleware::NoOpMiddleware;
+use governor::state::{InMemoryState, NotKeyed};
+use governor::{Quota, RateLimiter};
+
+static NOW_NANOS: AtomicU64 = AtomicU64::new(0);
+
+/// Sets the time that every bandwidth limiter of this process observes.
+pub fn set_now_nanos(nanos: u64) {
+    NOW_NANOS.store(nanos, Ordering::Relaxed);
+}
+
+#[derive(Debug, Clone, Copy, Default)]
+pub(crate) struct SimClock;
+
+impl Clock for SimClock {
+    type Instant = Duration;
+
+    fn now(&self) -> Duration {
+        Duration::from_nanos(NOW_NANOS.load(Ordering::Relaxed))
+    }
+}
+
+pub(crate) type SimRateLimiter =
+    RateLimiter<NotKeyed, InMemoryState, SimClock, NoOpMiddleware<Duration>>;
+
+pub(crate) fn limiter(quota: Quota) -> SimRateLimiter {
+    RateLimiter::direct_with_clock(quota, SimClock)
+}
-- 
2.43.0


From 0da9abe4486ee0e814c8dc72f42df5c87d631007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:56 +0000
Subject: [PATCH 02/26] fix: netcode rejects packets with an unknown or
 disallowed kind or an invalid sequence length

Packet::read panicked (shift overflow, out-of-bounds slice, unreachable!) on
header bytes anyone can send, and only logged packet kinds that are not allowed.
---
 crates/connection/netcode/src/packet.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/connection/netcode/src/packet.rs b/crates/connection/netcode/src/packet.rs
index 787d03b..32d50d8 100644
--- a/crates/connection/netcode/src/packet.rs
+++ b/crates/connection/netcode/src/packet.rs
@@ -560,8 +560,9 @@ impl Packet {
         let mut cursor = io::Cursor::new(buf);
         let prefix_byte = cursor.read_u8()?;
         let (sequence_len, pkt_kind) = Packet::get_prefix(prefix_byte);
-        if allowed_packets & (1 << pkt_kind) == 0 {
+        if pkt_kind > Packet::DISCONNECT || allowed_packets & (1 << pkt_kind) == 0 {
             debug!("ignoring packet of type {}, not allowed", pkt_kind);
+            return Err(Error::InvalidType(pkt_kind).into());
         }
         if prefix_byte == Packet::REQUEST {
             // connection request packet: first byte should be 0x00
@@ -570,6 +571,13 @@ impl Packet {
             packet.decrypt_token_data(key)?;
             return Ok(Packet::Request(packet));
         }
+        if pkt_kind == Packet::REQUEST {
+            // connection requests are never encrypted with a session key
+            return Err(Error::InvalidType(pkt_kind).into());
+        }
+        if !(1..=size_of::<u64>()).contains(&sequence_len) {
+            return Err(Error::InvalidSequenceBytes(sequence_len as u8).into());
+        }
         if buf_len < size_of::<u8>() + sequence_len + MAC_BYTES {
             // should at least have prefix byte, sequence and mac
             return Err(Error::TooSmall.into());
-- 
2.43.0


From 4d7aa5b2c8c93d0336d17ecc4ce1261baf367896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:56 +0000
Subject: [PATCH 03/26] fix: netcode replay protection does not overflow on a
 sequence number near u64::MAX

---
 crates/connection/netcode/src/replay.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/connection/netcode/src/replay.rs b/crates/connection/netcode/src/replay.rs
index 44bcd4c..bf8964a 100644
--- a/crates/connection/netcode/src/replay.rs
+++ b/crates/connection/netcode/src/replay.rs
@@ -24,7 +24,7 @@ impl ReplayProtection {
     }
 
     pub fn is_already_received(&self, sequence: u64) -> bool {
-        if sequence + self.received_packet.len() as u64 <= self.most_recent_sequence {
+        if sequence.saturating_add(self.received_packet.len() as u64) <= self.most_recent_sequence {
             return true;
         }
 
-- 
2.43.0


From 1b3ad498314164458b49fa40545d5111d687447b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:36 +0000
Subject: [PATCH 04/26] fix: netcode server ignores payloads of a client that
 has not completed the handshake

A token holder that never answered the challenge had its payloads passed up on
a connection that is still pending.
---
 crates/connection/netcode/src/server.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/crates/connection/netcode/src/server.rs b/crates/connection/netcode/src/server.rs
index ae5b8b8..1043554 100644
--- a/crates/connection/netcode/src/server.rs
+++ b/crates/connection/netcode/src/server.rs
@@ -563,16 +563,22 @@ impl<Ctx> Server<Ctx> {
                 Ok(None)
             }
             Packet::KeepAlive(_) => {
-                if let Some(client_id) =
-                    self.conn_cache.find_by_entity(&entity).map(|c| c.client_id)
+                if let Some(client_id) = self
+                    .conn_cache
+                    .find_by_entity(&entity)
+                    .filter(|c| c.is_connected())
+                    .map(|c| c.client_id)
                 {
                     self.touch_client(client_id);
                 }
                 Ok(None)
             }
             Packet::Payload(packet) => {
-                if let Some(client_id) =
-                    self.conn_cache.find_by_entity(&entity).map(|c| c.client_id)
+                if let Some(client_id) = self
+                    .conn_cache
+                    .find_by_entity(&entity)
+                    .filter(|c| c.is_connected())
+                    .map(|c| c.client_id)
                 {
                     self.touch_client(client_id);
                     Ok(Some(packet.into_recv()))
-- 
2.43.0


From 537492f8eaf406266f94508e189f2d1b72972177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:36 +0000
Subject: [PATCH 05/26] fix: netcode server accepts a second client id from the
 address of an unfinished connection

The pending entry kept the old key in the id map, so the new client could
never complete the handshake from that address.
---
 crates/connection/netcode/src/server.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/connection/netcode/src/server.rs b/crates/connection/netcode/src/server.rs
index 1043554..ca6e0a9 100644
--- a/crates/connection/netcode/src/server.rs
+++ b/crates/connection/netcode/src/server.rs
@@ -148,8 +148,10 @@ impl ConnectionCache {
         user_data: [u8; USER_DATA_BYTES],
     ) {
         let time = self.time;
-        if let Some(existing) = self.mut_by_entity(&entity) {
-            existing.client_id = client_id;
+        if let Some(existing) = self
+            .mut_by_entity(&entity)
+            .filter(|existing| existing.client_id == client_id)
+        {
             existing.timeout = timeout;
             existing.send_key = send_key;
             existing.receive_key = receive_key;
-- 
2.43.0


From 453239cb916396ff7a288e148a5fd0711b8a9b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:36 +0000
Subject: [PATCH 06/26] fix: netcode server binds a connection to the link that
 answered the challenge

With two pending links of one client id the response could connect one entity
while the connection record, its timeout and its disconnect named the other.
---
 crates/connection/netcode/src/server.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/crates/connection/netcode/src/server.rs b/crates/connection/netcode/src/server.rs
index ca6e0a9..3f965ac 100644
--- a/crates/connection/netcode/src/server.rs
+++ b/crates/connection/netcode/src/server.rs
@@ -179,6 +179,14 @@ impl ConnectionCache {
 
         self.client_id_map.insert(entity, client_id);
     }
+    /// Make `entity` the only entity of the client.
+    fn bind(&mut self, client_id: ClientId, entity: Entity) {
+        if let Some(conn) = self.clients.get_mut(&client_id) {
+            conn.entity = entity;
+        }
+        self.client_id_map
+            .retain(|other, id| *id != client_id || *other == entity);
+    }
     fn remove(&mut self, client_id: ClientId) {
         let Some(conn) = self.clients.get(&client_id) else {
             return;
@@ -820,6 +828,10 @@ impl<Ctx> Server<Ctx> {
         let Some(client) = self.conn_cache.clients.get(&id) else {
             return Err(Error::UnknownClient(id::PeerId::Netcode(id)));
         };
+        if self.conn_cache.client_id_map.get(&entity) != Some(&id) {
+            // the challenge was issued to another client
+            return Err(Error::UnknownClient(id::PeerId::Netcode(id)));
+        }
         if client.is_connected() {
             // TODO: most of the time this error can happen because we receive older 'ConnectionResponse' messages
             // even though the client is already connected. Should we just ignore this error?
@@ -836,6 +848,9 @@ impl<Ctx> Server<Ctx> {
             return Err(Error::ServerIsFull(id::PeerId::Netcode(id)));
         }
 
+        // A client whose address changed during the handshake is pending on several entities:
+        // the connection belongs to the one that answers the challenge.
+        self.conn_cache.bind(id, entity);
         let client = self.conn_cache.clients.get_mut(&id).unwrap();
 
         client.connect();
-- 
2.43.0


From 402b5ea728db430c345a26dd8b05c7f5964aed4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:54 +0000
Subject: [PATCH 07/26] fix: netcode server frees the connection of a client
 link that is closed or despawned

A link that was unlinked or despawned on the server kept its slot and client id
until the token timeout, and forever with a disabled timeout: the client was
refused with ClientIdInUse.
---
 crates/connection/netcode/src/server.rs       | 19 +++++++++++++
 .../connection/netcode/src/server_plugin.rs   | 27 +++++++++++++++++++
 2 files changed, 46 insertions(+)

diff --git a/crates/connection/netcode/src/server.rs b/crates/connection/netcode/src/server.rs
index 3f965ac..1023977 100644
--- a/crates/connection/netcode/src/server.rs
+++ b/crates/connection/netcode/src/server.rs
@@ -199,6 +199,18 @@ impl ConnectionCache {
         self.clients.remove(&client_id);
     }
 
+    /// Remove everything that is known about an entity whose link is gone.
+    fn forget_entity(&mut self, entity: Entity) {
+        let Some(client_id) = self.client_id_map.remove(&entity) else {
+            return;
+        };
+        // a pending client may still complete the handshake from another entity
+        if self.client_id_map.values().all(|id| *id != client_id) {
+            self.replay_protection.remove(&client_id);
+            self.clients.remove(&client_id);
+        }
+    }
+
     fn clear(&mut self) {
         self.clients.clear();
         self.client_ids_scratch.clear();
@@ -1150,6 +1162,13 @@ impl<Ctx> Server<Ctx> {
         self.disconnect(*client_id, sender)
     }
 
+    /// Forget the client of a link that was closed or despawned, so that its slot and client id
+    /// can be used again.
+    pub(crate) fn forget_entity(&mut self, entity: Entity) {
+        self.conn_cache.forget_entity(entity);
+        self.send_queue.remove(&entity);
+    }
+
     /// Disconnects all clients.
     pub fn disconnect_all(&mut self, sender: &mut LinkSender) -> Result<()> {
         debug!("Server preparing to disconnect all clients");
diff --git a/crates/connection/netcode/src/server_plugin.rs b/crates/connection/netcode/src/server_plugin.rs
index a1f6ac1..dfb6919 100644
--- a/crates/connection/netcode/src/server_plugin.rs
+++ b/crates/connection/netcode/src/server_plugin.rs
@@ -423,6 +423,31 @@ impl NetcodeServerPlugin {
         }
     }
 
+    /// When a client link is closed or despawned without a netcode disconnect, its connection ends too.
+    fn forget_disconnected(
+        trigger: On<Add, Disconnected>,
+        links: Query<&LinkOf>,
+        mut servers: Query<&mut NetcodeServer>,
+    ) {
+        if let Ok(link_of) = links.get(trigger.entity)
+            && let Ok(mut server) = servers.get_mut(link_of.server)
+        {
+            server.inner.forget_entity(trigger.entity);
+        }
+    }
+
+    fn forget_removed(
+        trigger: On<Remove, LinkOf>,
+        links: Query<&LinkOf>,
+        mut servers: Query<&mut NetcodeServer>,
+    ) {
+        if let Ok(link_of) = links.get(trigger.entity)
+            && let Ok(mut server) = servers.get_mut(link_of.server)
+        {
+            server.inner.forget_entity(trigger.entity);
+        }
+    }
+
     fn stop(
         trigger: On<Stop>,
         mut commands: Commands,
@@ -510,5 +535,7 @@ impl Plugin for NetcodeServerPlugin {
         app.add_observer(Self::start);
         app.add_observer(Self::stop);
         app.add_observer(Self::reset_on_stopped);
+        app.add_observer(Self::forget_disconnected);
+        app.add_observer(Self::forget_removed);
     }
 }
-- 
2.43.0


From 87171da226089a1b295cf3a0206ac36c6ce90439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:50 +0000
Subject: [PATCH 08/26] fix: the peer map follows a connected entity that is
 despawned or replaced

Despawning a Connected entity left its peer in NetworkingMetadata::peer_map, and a
late Disconnected on an old entity removed the entry of the peer's new one.
---
 crates/connection/connection/src/client.rs | 23 ++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/crates/connection/connection/src/client.rs b/crates/connection/connection/src/client.rs
index 7283f61..01eef79 100644
--- a/crates/connection/connection/src/client.rs
+++ b/crates/connection/connection/src/client.rs
@@ -45,6 +45,7 @@ pub struct Disconnect {
 
 #[derive(Component, Debug, Reflect)]
 #[component(on_add = Connected::on_add)]
+#[component(on_despawn = Connected::on_despawn)]
 pub struct Connected;
 
 impl Connected {
@@ -66,6 +67,21 @@ impl Connected {
             metadata.peer_map.insert(peer_id, context.entity);
         }
     }
+
+    /// An entity can be despawned without going through [`Disconnected`] first
+    fn on_despawn(mut world: DeferredWorld, context: HookContext) {
+        remove_peer(&mut world, context.entity);
+    }
+}
+
+/// Remove the entity from the peer map, unless the peer is already connected on another entity
+fn remove_peer(world: &mut DeferredWorld, entity: Entity) {
+    if let Some(peer_id) = world.get::<RemoteId>(entity).map(|c| c.0)
+        && let Some(mut metadata) = world.get_resource_mut::<NetworkingMetadata>()
+        && metadata.peer_map.get(&peer_id) == Some(&entity)
+    {
+        metadata.peer_map.remove(&peer_id);
+    }
 }
 
 // TODO: add automatic disconnection for entities that are Connecting for too long
@@ -121,12 +137,7 @@ pub struct Disconnected {
 
 impl Disconnected {
     fn on_add(mut world: DeferredWorld, context: HookContext) {
-        if let Some(peer_id) = world.get::<RemoteId>(context.entity).map(|c| c.0) {
-            world
-                .resource_mut::<NetworkingMetadata>()
-                .peer_map
-                .remove(&peer_id);
-        }
+        remove_peer(&mut world, context.entity);
         world
             .commands()
             .entity(context.entity)
-- 
2.43.0


From 18f5a3587ac285722268cae5cc1f681ec2345ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:28 +0000
Subject: [PATCH 09/26] fix: netcode replay protection starts anew when a
 pending client presents another token

Packets received under the keys of an earlier token advanced the window, and the
first packets sent under the new keys were then dropped as replays.
---
 crates/connection/netcode/src/server.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/connection/netcode/src/server.rs b/crates/connection/netcode/src/server.rs
index 1023977..ac67071 100644
--- a/crates/connection/netcode/src/server.rs
+++ b/crates/connection/netcode/src/server.rs
@@ -152,11 +152,17 @@ impl ConnectionCache {
             .mut_by_entity(&entity)
             .filter(|existing| existing.client_id == client_id)
         {
+            let new_key = existing.receive_key != receive_key;
             existing.timeout = timeout;
             existing.send_key = send_key;
             existing.receive_key = receive_key;
             existing.last_access_time = time;
             existing.user_data = user_data;
+            if new_key {
+                // sequence numbers start again with the keys of a new token
+                self.replay_protection
+                    .insert(client_id, ReplayProtection::new());
+            }
             return;
         }
         let conn = Connection {
-- 
2.43.0


From ab0946ac60cfdb46d5f59559ec48debde99a89fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:26 +0000
Subject: [PATCH 10/26] fix: the peer map also follows a disconnecting entity
 that is despawned

---
 crates/connection/connection/src/client.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/crates/connection/connection/src/client.rs b/crates/connection/connection/src/client.rs
index 01eef79..28408a0 100644
--- a/crates/connection/connection/src/client.rs
+++ b/crates/connection/connection/src/client.rs
@@ -45,7 +45,7 @@ pub struct Disconnect {
 
 #[derive(Component, Debug, Reflect)]
 #[component(on_add = Connected::on_add)]
-#[component(on_despawn = Connected::on_despawn)]
+#[component(on_despawn = remove_peer_on_despawn)]
 pub struct Connected;
 
 impl Connected {
@@ -67,11 +67,11 @@ impl Connected {
             metadata.peer_map.insert(peer_id, context.entity);
         }
     }
+}
 
-    /// An entity can be despawned without going through [`Disconnected`] first
-    fn on_despawn(mut world: DeferredWorld, context: HookContext) {
-        remove_peer(&mut world, context.entity);
-    }
+/// An entity can be despawned without going through [`Disconnected`] first
+fn remove_peer_on_despawn(mut world: DeferredWorld, context: HookContext) {
+    remove_peer(&mut world, context.entity);
 }
 
 /// Remove the entity from the peer map, unless the peer is already connected on another entity
@@ -147,6 +147,7 @@ impl Disconnected {
 
 #[derive(Component, Default, Debug, Reflect)]
 #[component(on_add = Disconnecting::on_add)]
+#[component(on_despawn = remove_peer_on_despawn)]
 pub struct Disconnecting;
 
 impl Disconnecting {
-- 
2.43.0


From e7c0f65bf1cb5196e8791b639f13fe5f4d5a6942 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 01:22:23 +0000
Subject: [PATCH 11/26] fix: a message to all clients does not wait for clients
 that are not connected

---
 crates/transport/messages/src/server.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/transport/messages/src/server.rs b/crates/transport/messages/src/server.rs
index 3004444..f271a57 100644
--- a/crates/transport/messages/src/server.rs
+++ b/crates/transport/messages/src/server.rs
@@ -6,13 +6,14 @@ use crate::send::Priority;
 use crate::send_trigger::EventSender;
 use crate::trigger::TriggerRegistration;
 use bevy_ecs::entity::EntitySet;
-use bevy_ecs::query::QueryFilter;
+use bevy_ecs::query::{QueryFilter, With};
 use bevy_ecs::{
     error::Result,
     event::Event,
     relationship::RelationshipTarget,
     system::{Local, Res, SystemParam},
 };
+use lightyear_connection::client::Connected;
 use lightyear_connection::client_of::ClientOf;
 use lightyear_connection::direction::NetworkDirection;
 use lightyear_connection::network_target::{NetworkTarget, NetworkTargetResolver};
@@ -27,7 +28,8 @@ use lightyear_transport::channel::Channel;
 /// instead of their Entity.
 #[derive(SystemParam)]
 pub struct ServerMultiMessageSender<'w, 's, F: QueryFilter + 'static = ()> {
-    sender: MultiMessageSender<'w, 's, F>,
+    // `Server::collection` also lists entities which are linked but not connected
+    sender: MultiMessageSender<'w, 's, (With<Connected>, F)>,
     metadata: Res<'w, NetworkingMetadata>,
     resolver: Local<'s, NetworkTargetResolver>,
 }
-- 
2.43.0


From eb613b51eb85201d98ac25dce19c44fc6cf01bfc Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 01:22:23 +0000
Subject: [PATCH 12/26] fix: entities in a message to several clients reach the
 host-client unchanged

---
 crates/transport/messages/src/multi.rs   | 32 ++++++++++++++++++------
 crates/transport/serde/src/entity_map.rs | 23 ++++++++++++++---
 2 files changed, 44 insertions(+), 11 deletions(-)

diff --git a/crates/transport/messages/src/multi.rs b/crates/transport/messages/src/multi.rs
index b235c0f..aa60e5e 100644
--- a/crates/transport/messages/src/multi.rs
+++ b/crates/transport/messages/src/multi.rs
@@ -3,12 +3,13 @@ use crate::registry::MessageKind;
 use crate::registry::MessageRegistry;
 use crate::send::Priority;
 use crate::{Message, MessageManager};
-use bevy_ecs::query::QueryFilter;
+use bevy_ecs::query::{Has, QueryFilter};
 use bevy_ecs::{
     entity::EntitySet,
     error::{BevyError, Result},
     system::{Local, Query, Res, SystemParam},
 };
+use lightyear_connection::host::HostClient;
 use lightyear_serde::entity_map::SendEntityMap;
 use lightyear_serde::writer::Writer;
 use lightyear_transport::channel::Channel;
@@ -19,7 +20,16 @@ use lightyear_transport::prelude::Transport;
 /// 2) send a message without needing to clone it
 #[derive(SystemParam)]
 pub struct MultiMessageSender<'w, 's, F: QueryFilter + 'static = ()> {
-    pub(crate) query: Query<'w, 's, (&'static mut MessageManager, &'static mut Transport), F>,
+    pub(crate) query: Query<
+        'w,
+        's,
+        (
+            &'static mut MessageManager,
+            &'static mut Transport,
+            Has<HostClient>,
+        ),
+        F,
+    >,
     pub(crate) registry: Res<'w, MessageRegistry>,
     // TODO: should we let users provide their own Writer?
     pub(crate) writer: Local<'s, Writer>,
@@ -50,27 +60,33 @@ impl<'w, 's, F: QueryFilter> MultiMessageSender<'w, 's, F> {
             let bytes_len = bytes.len();
             self.query
                 .iter_many_unique_mut(senders)
-                .try_for_each(|(_, transport)| {
+                .try_for_each(|(_, transport, _)| {
                     #[cfg(feature = "metrics")]
                     metric_handles.record_send::<M>(bytes_len);
                     transport.send_with_priority::<C>(bytes.clone(), priority)
                 })?;
         } else {
-            self.query
-                .iter_many_unique_mut(senders)
-                .try_for_each(|(mut manager, transport)| {
+            self.query.iter_many_unique_mut(senders).try_for_each(
+                |(mut manager, transport, host)| {
+                    // the host-client is in the same world: its entities must not be mapped
+                    let mut same_world = SendEntityMap::same_world();
                     self.registry.serialize::<M>(
                         message,
                         &mut self.writer,
                         // TODO: ideally we could do entity mapping without Mut!!!
-                        &mut manager.entity_mapper.local_to_remote,
+                        if host {
+                            &mut same_world
+                        } else {
+                            &mut manager.entity_mapper.local_to_remote
+                        },
                     )?;
                     let bytes = self.writer.take_written();
                     #[cfg(feature = "metrics")]
                     metric_handles.record_send::<M>(bytes.len());
                     transport.send_with_priority::<C>(bytes, priority)?;
                     Ok::<(), BevyError>(())
-                })?;
+                },
+            )?;
         }
         Ok::<(), _>(())
     }
diff --git a/crates/transport/serde/src/entity_map.rs b/crates/transport/serde/src/entity_map.rs
index 433bcc8..76a9f1d 100644
--- a/crates/transport/serde/src/entity_map.rs
+++ b/crates/transport/serde/src/entity_map.rs
@@ -41,14 +41,31 @@ impl EntityMapper for EntityMap {
 }
 
 #[derive(Default, Debug, Reflect, Deref, DerefMut)]
-pub struct SendEntityMap(pub(crate) EntityHashMap<Entity>);
+pub struct SendEntityMap {
+    #[deref]
+    pub(crate) map: EntityHashMap<Entity>,
+    /// Whether the receiver lives in the same world, so that every entity is already valid for it
+    pub(crate) same_world: bool,
+}
+
+impl SendEntityMap {
+    /// Map for a receiver that lives in the same world as the sender (for example a host-client):
+    /// entities are sent as they are, and the receiver does not map them again.
+    pub fn same_world() -> Self {
+        Self {
+            map: EntityHashMap::default(),
+            same_world: true,
+        }
+    }
+}
 
 impl EntityMapper for SendEntityMap {
     /// Try to map the entity using the map, or return the initial entity if it doesn't work
     fn get_mapped(&mut self, entity: Entity) -> Entity {
         // if we have the entity in our mapping, map it and mark it as mapped
         // so that on the receive side we don't map it again
-        match self.0.get(&entity) {
+        match self.map.get(&entity) {
+            None if self.same_world => RemoteEntityMap::mark_mapped(entity),
             Some(mapped) => {
                 trace!("Mapping entity {entity:?} to {mapped:?} in SendEntityMap!");
                 trace!(
@@ -77,7 +94,7 @@ impl EntityMapper for SendEntityMap {
             remote_entity = ?target,
             "inserted send entity mapping"
         );
-        self.0.insert(source, target);
+        self.map.insert(source, target);
     }
 }
 
-- 
2.43.0


From e13ed50d89c082df5d86f3bdc6107fefdfdf54c4 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 01:22:23 +0000
Subject: [PATCH 13/26] fix: payloads received together with a disconnection do
 not reach the next connection

---
 crates/transport/transport/src/plugin.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/transport/transport/src/plugin.rs b/crates/transport/transport/src/plugin.rs
index fd0d770..3bb17b5 100644
--- a/crates/transport/transport/src/plugin.rs
+++ b/crates/transport/transport/src/plugin.rs
@@ -644,11 +644,16 @@ impl TransportPlugin {
     #[cfg(any(feature = "client", feature = "server"))]
     fn handle_disconnection(
         trigger: On<Add, Disconnected>,
-        mut query: Query<&mut Transport>,
+        mut query: Query<(&mut Transport, Option<&mut Link>)>,
         registry: Res<ChannelRegistry>,
     ) {
-        if let Ok(mut transport) = query.get_mut(trigger.entity) {
+        if let Ok((mut transport, link)) = query.get_mut(trigger.entity) {
             transport.reset(&registry);
+            // payloads received together with the disconnection belong to the connection that
+            // ended: they must not reach the channels of the next one
+            if let Some(mut link) = link {
+                link.recv.drain();
+            }
         }
     }
 }
-- 
2.43.0


From 21027bb8c7032ad5b1323fab87f87b3e95425d8a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 01:22:23 +0000
Subject: [PATCH 14/26] fix: a pong with a huge processing time does not panic

---
 crates/core/core/src/time.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/core/src/time.rs b/crates/core/core/src/time.rs
index 5385144..27e6ad4 100644
--- a/crates/core/core/src/time.rs
+++ b/crates/core/core/src/time.rs
@@ -271,7 +271,7 @@ impl From<i32> for TickDelta {
 impl From<PositiveTickDelta> for TickDelta {
     fn from(value: PositiveTickDelta) -> Self {
         Self {
-            value: value.value.wrapping_to_fixed(),
+            value: value.value.saturating_to_fixed(),
         }
     }
 }
-- 
2.43.0


From a9f0f013b46f7e355c85a1e0f8d2e238629b84d2 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 01:22:23 +0000
Subject: [PATCH 15/26] fix: messages still buffered at a disconnection are not
 sent on the next connection

---
 crates/transport/messages/src/plugin.rs       | 25 ++++++++++++++++---
 crates/transport/messages/src/registry.rs     |  5 +++-
 crates/transport/messages/src/send.rs         | 12 +++++++++
 crates/transport/messages/src/send_trigger.rs |  9 +++++++
 crates/transport/messages/src/trigger.rs      |  1 +
 5 files changed, 48 insertions(+), 4 deletions(-)

diff --git a/crates/transport/messages/src/plugin.rs b/crates/transport/messages/src/plugin.rs
index 39e06e1..2d9284f 100644
--- a/crates/transport/messages/src/plugin.rs
+++ b/crates/transport/messages/src/plugin.rs
@@ -65,16 +65,29 @@ pub const MAX_PENDING_TIMELINE_PAYLOADS: usize = 4096;
 pub const MAX_TIMELINE_LAG_TICKS: u32 = 100;
 
 impl MessagePlugin {
-    /// Resets receive state when a connection ends.
+    /// Resets the state of messages and events when a connection ends.
+    ///
+    /// Whatever is still buffered in the senders was meant for the previous connection epoch.
     ///
     /// Typed message receivers and private timeline-event queues are recreated
     /// lazily, so removing them is enough to discard both ready and pending
     /// payloads from the previous connection epoch.
     fn handle_disconnection(trigger: On<Add, Disconnected>, mut world: DeferredWorld) {
-        let receiver_components = {
+        let (receiver_components, senders) = {
             let Some(registry) = world.get_resource::<MessageRegistry>() else {
                 return;
             };
+            let senders = registry
+                .send_metadata
+                .values()
+                .map(|metadata| (metadata.component_id, metadata.clear_fn))
+                .chain(
+                    registry
+                        .send_trigger_metadata
+                        .values()
+                        .map(|metadata| (metadata.component_id, metadata.clear_fn)),
+                )
+                .collect::<alloc::vec::Vec<_>>();
             let mut receiver_components = registry
                 .receive_metadata
                 .values()
@@ -86,7 +99,7 @@ impl MessagePlugin {
                     .values()
                     .map(|metadata| metadata.component_id),
             );
-            receiver_components
+            (receiver_components, senders)
         };
 
         let entity = trigger.entity;
@@ -101,6 +114,12 @@ impl MessagePlugin {
             for component_id in receiver_components {
                 entity_mut.remove_by_id(component_id);
             }
+            for (component_id, clear_fn) in senders {
+                if let Ok(sender) = entity_mut.get_mut_by_id(component_id) {
+                    // SAFETY: the function was registered together with this component id.
+                    unsafe { clear_fn(sender) };
+                }
+            }
         });
     }
 
diff --git a/crates/transport/messages/src/registry.rs b/crates/transport/messages/src/registry.rs
index c0a928a..c8a6ee7 100644
--- a/crates/transport/messages/src/registry.rs
+++ b/crates/transport/messages/src/registry.rs
@@ -3,7 +3,7 @@ use crate::receive::{
     ReleaseTimelineMessageFn,
 };
 use crate::receive_event::{ReceiveLocalTriggerFn, ReceiveTriggerFn, ReleaseTimelineTriggerFn};
-use crate::send::{MessageSender, SendLocalMessageFn, SendMessageFn};
+use crate::send::{ClearSenderFn, MessageSender, SendLocalMessageFn, SendMessageFn};
 use crate::send_trigger::{SendLocalTriggerFn, SendTriggerFn};
 use crate::{Message, MessageNetId};
 use bevy_app::App;
@@ -130,6 +130,7 @@ pub(crate) struct SendMessageMetadata {
     pub(crate) component_id: ComponentId,
     pub(crate) send_message_fn: SendMessageFn,
     pub(crate) send_local_message_fn: SendLocalMessageFn,
+    pub(crate) clear_fn: ClearSenderFn,
 }
 
 #[derive(Debug, Clone, TypePath)]
@@ -138,6 +139,7 @@ pub(crate) struct SendTriggerMetadata {
     pub(crate) component_id: ComponentId,
     pub(crate) send_trigger_fn: SendTriggerFn,
     pub(crate) send_local_trigger_fn: SendLocalTriggerFn,
+    pub(crate) clear_fn: ClearSenderFn,
 }
 
 #[derive(Debug, Clone, Copy, TypePath)]
@@ -275,6 +277,7 @@ impl MessageRegistry {
                 component_id,
                 send_message_fn: MessageSender::<M>::send_message_typed,
                 send_local_message_fn: MessageSender::<M>::send_local_message_typed,
+                clear_fn: MessageSender::<M>::clear_typed,
             },
         );
     }
diff --git a/crates/transport/messages/src/send.rs b/crates/transport/messages/src/send.rs
index 83a5488..915ab16 100644
--- a/crates/transport/messages/src/send.rs
+++ b/crates/transport/messages/src/send.rs
@@ -71,6 +71,9 @@ impl<M: Message> Default for MessageSender<M> {
     }
 }
 
+// SAFETY: the sender must correspond to the sender component of the registered type
+pub(crate) type ClearSenderFn = unsafe fn(sender: MutUntyped);
+
 // SAFETY: the sender must correspond to the correct `MessageSender<M>` type
 pub(crate) type SendMessageFn = unsafe fn(
     sender: MutUntyped,
@@ -114,6 +117,15 @@ impl<M: Message> MessageSender<M> {
         self.send_with_priority::<C>(message, 1.0);
     }
 
+    /// Discard everything that was buffered but not sent yet
+    ///
+    /// SAFETY: the `sender` must be of type [`MessageSender<M>`]
+    pub(crate) unsafe fn clear_typed(sender: MutUntyped) {
+        // SAFETY: the caller guarantees that `sender` has type `MessageSender<M>`.
+        let mut sender = unsafe { sender.with_type::<Self>() };
+        sender.send.clear();
+    }
+
     /// Take all messages from the [`MessageSender<M>`], serialize them, and buffer them
     /// on the appropriate channel of the [`Transport`].
     ///
diff --git a/crates/transport/messages/src/send_trigger.rs b/crates/transport/messages/src/send_trigger.rs
index d645073..1a6b23c 100644
--- a/crates/transport/messages/src/send_trigger.rs
+++ b/crates/transport/messages/src/send_trigger.rs
@@ -43,6 +43,15 @@ impl<M: Event> Default for EventSender<M> {
 }
 
 impl<M: Event> EventSender<M> {
+    /// Discard everything that was buffered but not sent yet
+    ///
+    /// SAFETY: the `sender` must be of type [`EventSender<M>`]
+    pub(crate) unsafe fn clear_typed(sender: MutUntyped) {
+        // SAFETY: the caller guarantees that `sender` has type `EventSender<M>`.
+        let mut sender = unsafe { sender.with_type::<Self>() };
+        sender.send.clear();
+    }
+
     /// Take all messages from the [`EventSender<M>`], serialize them, and buffer them
     /// on the appropriate channel of the [`Transport`].
     ///
diff --git a/crates/transport/messages/src/trigger.rs b/crates/transport/messages/src/trigger.rs
index cd961a9..f03620b 100644
--- a/crates/transport/messages/src/trigger.rs
+++ b/crates/transport/messages/src/trigger.rs
@@ -104,6 +104,7 @@ impl AppTriggerExt for App {
                 component_id: sender_id,
                 send_trigger_fn: EventSender::<M>::send_event_typed,
                 send_local_trigger_fn: EventSender::<M>::send_local_trigger_typed,
+                clear_fn: EventSender::<M>::clear_typed,
             },
         );
         registry.receive_trigger.insert(
-- 
2.43.0


From 76cc81db2b117f3fc0dfd27a44253906488560cc Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 02:09:52 +0000
Subject: [PATCH 16/26] fix: a peer that starts a P2P session later still
 learns that the others are ready

---
 crates/connection/p2p/src/session.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/crates/connection/p2p/src/session.rs b/crates/connection/p2p/src/session.rs
index 63c3ac4..81df67f 100644
--- a/crates/connection/p2p/src/session.rs
+++ b/crates/connection/p2p/src/session.rs
@@ -82,7 +82,8 @@ pub struct P2PSession {
     generation: u32,
     /// Earliest start tick advertised by this app after its Links and input timeline are ready.
     local_ready_tick: Option<Tick>,
-    /// Whether this app has queued its Ready message on every frozen remote Link.
+    /// Whether this app has queued its Ready message on every frozen remote Link since the last
+    /// remote peer became ready.
     local_ready_sent: bool,
     /// Whether this app has queued its StartAcknowledgement on every frozen remote Link.
     local_acknowledgement_sent: bool,
@@ -234,7 +235,12 @@ impl P2PSession {
                 earliest_start_tick,
                 ..
             } => match peer.ready_tick {
-                None => peer.ready_tick = Some(earliest_start_tick),
+                None => {
+                    peer.ready_tick = Some(earliest_start_tick);
+                    // The peer may have begun this attempt after our own Ready reached it, in
+                    // which case it ignored it. Now that it has begun, send it again.
+                    self.local_ready_sent = false;
+                }
                 Some(previous) if previous != earliest_start_tick => tracing::warn!(
                     ?peer_id,
                     ?previous,
@@ -346,7 +352,8 @@ impl P2PSession {
         Some(start_tick)
     }
 
-    /// Return each locally available Ready or acknowledgement once.
+    /// Return each locally available Ready or acknowledgement once, and Ready again after each
+    /// remote peer's Ready.
     ///
     /// The caller broadcasts each returned message to every current candidate Link. The transport
     /// channel provides retransmission; these flags only prevent enqueuing duplicates every frame.
-- 
2.43.0


From 5ac311caf8f971f6b7ee41a712fa226171eac4bc Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 02:11:02 +0000
Subject: [PATCH 17/26] fix: a P2P peer whose clock was moved back is heard by
 the others

---
 crates/core/sync/src/client.rs          |  1 +
 crates/core/sync/src/timeline/remote.rs | 29 +++++++++++++++++++++----
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/crates/core/sync/src/client.rs b/crates/core/sync/src/client.rs
index 4e6c56f..a20df99 100644
--- a/crates/core/sync/src/client.rs
+++ b/crates/core/sync/src/client.rs
@@ -61,6 +61,7 @@ impl Plugin for ClientPlugin {
 
         // remote timeline
         app.add_observer(RemoteTimeline::handle_connect);
+        app.add_observer(RemoteTimeline::handle_p2p);
         app.add_observer(remote::update_remote_timeline);
         app.add_systems(
             PreUpdate,
diff --git a/crates/core/sync/src/timeline/remote.rs b/crates/core/sync/src/timeline/remote.rs
index 3eb55cc..326b4a2 100644
--- a/crates/core/sync/src/timeline/remote.rs
+++ b/crates/core/sync/src/timeline/remote.rs
@@ -6,6 +6,7 @@ use bevy_reflect::Reflect;
 use bevy_time::{Real, Time};
 use core::time::Duration;
 use lightyear_connection::client::Connected;
+use lightyear_connection::p2p::P2P;
 use lightyear_core::prelude::Rollback;
 use lightyear_core::tick::{Tick, TickDuration};
 use lightyear_core::time::{TickDelta, TickInstant};
@@ -181,13 +182,33 @@ impl RemoteTimeline {
         mut query: Query<&mut RemoteTimeline>,
     ) {
         if let Ok(mut timeline) = query.get_mut(trigger.entity) {
-            timeline.received_packet = false;
-            timeline.offset = TickDelta::from(0);
-            timeline.first_estimate = true;
-            timeline.last_received_tick = None;
+            timeline.restart();
         }
     }
 
+    /// Reset the Remote timeline of a P2P Link that enters a start barrier or a session.
+    ///
+    /// Peers align their clocks during the barrier by moving them back, after which the ticks of
+    /// their packets are older than the ones received before.
+    pub(crate) fn handle_p2p(
+        trigger: On<Insert, P2P>,
+        mut query: Query<(&mut RemoteTimeline, &P2P)>,
+    ) {
+        if let Ok((mut timeline, state)) = query.get_mut(trigger.entity)
+            && *state != P2P::Inactive
+        {
+            timeline.restart();
+        }
+    }
+
+    /// Forget the estimate; the next packet starts a new one.
+    fn restart(&mut self) {
+        self.received_packet = false;
+        self.offset = TickDelta::from(0);
+        self.first_estimate = true;
+        self.last_received_tick = None;
+    }
+
     /// Calculates a dynamic EMA smoothing factor (alpha) based on network jitter.
     ///
     /// The alpha value is determined as follows:
-- 
2.43.0


From 0e109b9a69fcc500ca7401a6757c9225fbe3159e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 02:31:47 +0000
Subject: [PATCH 18/26] hooks: sim_hooks feature of lightyear_udp: the
 simulator provides the sockets (off by default)

---
 crates/io/udp/Cargo.toml       |  2 +
 crates/io/udp/src/lib.rs       |  6 +++
 crates/io/udp/src/server.rs    |  4 +-
 crates/io/udp/src/sim_hooks.rs | 71 ++++++++++++++++++++++++++++++++++
 4 files changed, 81 insertions(+), 2 deletions(-)
 create mode 100644 crates/io/udp/src/sim_hooks.rs

diff --git a/crates/io/udp/Cargo.toml b/crates/io/udp/Cargo.toml
index 2847d99..6b8610a 100644
--- a/crates/io/udp/Cargo.toml
+++ b/crates/io/udp/Cargo.toml
@@ -13,6 +13,8 @@ default = []
 server = ["bevy_platform"]
 metrics = ["dep:metrics"]
 test_utils = []
+# lets a deterministic simulator provide the sockets; off by default
+sim_hooks = []
 
 [dependencies]
 lightyear_core.workspace = true
diff --git a/crates/io/udp/src/lib.rs b/crates/io/udp/src/lib.rs
index 862a47f..e6bbc9e 100644
--- a/crates/io/udp/src/lib.rs
+++ b/crates/io/udp/src/lib.rs
@@ -13,7 +13,10 @@
 // requires `std` for `UdpSocket`.
 #![allow(clippy::std_instead_of_core)]
 
+#[cfg(feature = "sim_hooks")]
+use crate::sim_hooks::UdpSocket;
 use std::io::ErrorKind;
+#[cfg(not(feature = "sim_hooks"))]
 use std::net::UdpSocket;
 
 use aeronet_io::connection::{LocalAddr, PeerAddr};
@@ -35,6 +38,9 @@ use tracing::{error, info, trace};
 #[cfg(feature = "server")]
 pub mod server;
 
+#[cfg(feature = "sim_hooks")]
+pub mod sim_hooks;
+
 /// Re-exports commonly needed by applications and transport setup code.
 pub mod prelude {
     pub use crate::UdpIo;
diff --git a/crates/io/udp/src/server.rs b/crates/io/udp/src/server.rs
index b459c05..f9d7d5a 100644
--- a/crates/io/udp/src/server.rs
+++ b/crates/io/udp/src/server.rs
@@ -44,7 +44,7 @@ pub(crate) const MTU: usize = 1472;
 #[derive(Component)]
 #[require(Server)]
 pub struct ServerUdpIo {
-    socket: Option<std::net::UdpSocket>,
+    socket: Option<crate::UdpSocket>,
     recv_buffers: BufferPool,
     connected_addresses: HashMap<SocketAddr, LinkOfStatus>,
 }
@@ -108,7 +108,7 @@ impl ServerUdpPlugin {
     ) -> Result {
         if let Ok((mut udp_io, local_addr)) = query.get_mut(trigger.entity) {
             let mut local_addr = local_addr.ok_or(UdpError::LocalAddrMissing)?;
-            let socket = std::net::UdpSocket::bind(local_addr.0)?;
+            let socket = crate::UdpSocket::bind(local_addr.0)?;
             socket.set_nonblocking(true)?;
             local_addr.0 = socket.local_addr()?;
             info!("Server UDP socket bound to {}", local_addr.0);
diff --git a/crates/io/udp/src/sim_hooks.rs b/crates/io/udp/src/sim_hooks.rs
new file mode 100644
index 0000000..7ce5307
--- /dev/null
+++ b/crates/io/udp/src/sim_hooks.rs
@@ -0,0 +1,71 @@
+//! Seam for deterministic simulation (feature `sim_hooks`, off by default): sockets of the
+//! simulated network take the place of the machine's.
+use std::io::{Error, ErrorKind, Result};
+use std::net::SocketAddr;
+use std::sync::Mutex;
+
+/// The network that every UDP socket of this process uses.
+pub trait SimNet: Send {
+    /// Opens a socket; returns its number and the address it is bound to.
+    fn bind(&mut self, addr: SocketAddr) -> Result<(u64, SocketAddr)>;
+    /// Closes a socket.
+    fn close(&mut self, socket: u64);
+    /// Sends one datagram.
+    fn send_to(&mut self, socket: u64, payload: &[u8], addr: SocketAddr) -> Result<usize>;
+    /// Receives one datagram, or fails with [`ErrorKind::WouldBlock`].
+    fn recv_from(&mut self, socket: u64, buffer: &mut [u8]) -> Result<(usize, SocketAddr)>;
+}
+
+static NET: Mutex<Option<Box<dyn SimNet>>> = Mutex::new(None);
+
+/// Installs the network.
+pub fn set_net(net: Option<Box<dyn SimNet>>) {
+    *NET.lock().unwrap_or_else(|e| e.into_inner()) = net;
+}
+
+fn with<R>(f: impl FnOnce(&mut dyn SimNet) -> Result<R>) -> Result<R> {
+    match NET.lock().unwrap_or_else(|e| e.into_inner()).as_mut() {
+        Some(net) => f(net.as_mut()),
+        None => Err(Error::from(ErrorKind::NotConnected)),
+    }
+}
+
+/// Stands in for [`std::net::UdpSocket`].
+#[derive(Debug)]
+pub(crate) struct UdpSocket {
+    id: u64,
+    addr: SocketAddr,
+}
+
+impl UdpSocket {
+    pub(crate) fn bind(addr: SocketAddr) -> Result<Self> {
+        let (id, addr) = with(|n| n.bind(addr))?;
+        Ok(Self { id, addr })
+    }
+
+    pub(crate) fn set_nonblocking(&self, _nonblocking: bool) -> Result<()> {
+        Ok(())
+    }
+
+    #[allow(dead_code)]
+    pub(crate) fn local_addr(&self) -> Result<SocketAddr> {
+        Ok(self.addr)
+    }
+
+    pub(crate) fn send_to(&self, payload: &[u8], addr: SocketAddr) -> Result<usize> {
+        with(|n| n.send_to(self.id, payload, addr))
+    }
+
+    pub(crate) fn recv_from(&self, buffer: &mut [u8]) -> Result<(usize, SocketAddr)> {
+        with(|n| n.recv_from(self.id, buffer))
+    }
+}
+
+impl Drop for UdpSocket {
+    fn drop(&mut self) {
+        let _ = with(|n| {
+            n.close(self.id);
+            Ok(())
+        });
+    }
+}
-- 
2.43.0


From aff7285158336475ca88a06997e5c88770ce7d75 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 02:34:12 +0000
Subject: [PATCH 19/26] fix: a link conditioner with a jitter below one
 millisecond does not panic

---
 crates/io/link/src/conditioner.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/io/link/src/conditioner.rs b/crates/io/link/src/conditioner.rs
index 88803e9..4c1f986 100644
--- a/crates/io/link/src/conditioner.rs
+++ b/crates/io/link/src/conditioner.rs
@@ -175,8 +175,8 @@ impl<P: Eq> LinkConditioner<P> {
 
         let mut latency: i32 = self.config.incoming_latency.as_millis() as i32;
         let mut packet_timestamp = instant;
-        if self.config.incoming_jitter > Duration::default() {
-            let jitter: i32 = self.config.incoming_jitter.as_millis() as i32;
+        let jitter: i32 = self.config.incoming_jitter.as_millis() as i32;
+        if jitter > 0 {
             latency += rng.random_range(-jitter..jitter);
         }
         if latency > 0 {
-- 
2.43.0


From b26d2d0ed6764513577502f286ca272d2e323239 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 03:41:42 +0000
Subject: [PATCH 20/26] fix: the reason given to Unlink reaches every observer,
 also with an Aeronet session

---
 crates/io/aeronet/src/lib.rs | 4 ++--
 crates/io/link/src/lib.rs    | 5 +++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/crates/io/aeronet/src/lib.rs b/crates/io/aeronet/src/lib.rs
index f18aeea..5d07ef3 100644
--- a/crates/io/aeronet/src/lib.rs
+++ b/crates/io/aeronet/src/lib.rs
@@ -159,7 +159,7 @@ impl AeronetPlugin {
     }
 
     fn unlink(
-        mut trigger: On<Unlink>,
+        trigger: On<Unlink>,
         query: Query<&AeronetLink>,
         aeronet_query: Query<Has<Server>>,
         mut commands: Commands,
@@ -168,7 +168,7 @@ impl AeronetPlugin {
             // get the aeronet session entity
             && let Ok(is_server) = aeronet_query.get(aeronet_link.0)
         {
-            let reason = core::mem::take(&mut trigger.reason).to_string();
+            let reason = trigger.reason.to_string();
             trace!(
                 "Unlink triggered on Link entity {:?} (reason: {reason:?}). Closing/Disconnecting AeronetLink entity {:?}",
                 trigger.entity, aeronet_link.0
diff --git a/crates/io/link/src/lib.rs b/crates/io/link/src/lib.rs
index 92e7e4b..7e7d430 100644
--- a/crates/io/link/src/lib.rs
+++ b/crates/io/link/src/lib.rs
@@ -500,10 +500,11 @@ impl LinkPlugin {
     }
 
     /// Handles [`Unlink`] requests by inserting [`Unlinked`].
-    fn unlink(mut unlink: On<Unlink>, mut commands: Commands) {
+    fn unlink(unlink: On<Unlink>, mut commands: Commands) {
         if let Ok(mut c) = commands.get_entity(unlink.entity) {
             c.insert(Unlinked {
-                reason: core::mem::take(&mut unlink.reason),
+                // other observers of this event need the reason too
+                reason: unlink.reason.clone(),
             });
         }
     }
-- 
2.43.0


From 7790d3f616cf9f05d62b4fc21ab0b430b5c47796 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 05:17:50 +0000
Subject: [PATCH 21/26] fix: a raw server that was stopped ends Stopped, not
 Stopping

---
 crates/connection/raw_connection/src/server.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/connection/raw_connection/src/server.rs b/crates/connection/raw_connection/src/server.rs
index 2d5dab8..9958b6c 100644
--- a/crates/connection/raw_connection/src/server.rs
+++ b/crates/connection/raw_connection/src/server.rs
@@ -68,11 +68,14 @@ impl RawConnectionPlugin {
     ) -> Result {
         if let Ok(server) = query.get_mut(trigger.entity) {
             trace!("RawClient Stop! Disconnecting all LinkOfs and triggering Unlink");
+            // Inserted before the Unlink, which completes the stop: inserted afterwards it would
+            // replace Stopped and the server would remain Stopping
+            commands.entity(trigger.entity).insert(Stopping);
             commands.trigger(Unlink {
                 entity: trigger.entity,
                 reason: UnlinkReason::ServerStopped,
             });
-            commands.entity(trigger.entity).insert(Stopping);
+            commands.entity(trigger.entity).insert(Stopped);
             // SAFETY: we know that the list of client entities are unique because it is a Relationship
             let unique_slice =
                 unsafe { UniqueEntitySlice::from_slice_unchecked(server.collection()) };
-- 
2.43.0


From 0acab824f8418ae23e9ca427de7da66440fef0cc Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 05:36:04 +0000
Subject: [PATCH 22/26] fix: a sequenced channel forgets incomplete fragmented
 messages that were superseded

They stayed in the reassembly buffer for good on reliable sequenced channels; after a
wrap-around of the message ids a new message with the same id was mixed with the old fragments.
---
 .../transport/src/channel/fragments/receive.rs       |  9 +++++++++
 crates/transport/transport/src/channel/receive.rs    | 12 ++++++++++++
 2 files changed, 21 insertions(+)

diff --git a/crates/transport/transport/src/channel/fragments/receive.rs b/crates/transport/transport/src/channel/fragments/receive.rs
index 329e221..11fef24 100644
--- a/crates/transport/transport/src/channel/fragments/receive.rs
+++ b/crates/transport/transport/src/channel/fragments/receive.rs
@@ -49,6 +49,15 @@ impl FragmentReceiver {
         })
     }
 
+    /// Discard the incomplete messages which are older than `newest`.
+    ///
+    /// A sequenced channel accepts none of their remaining fragments, and their message id is
+    /// reused after a wrap-around.
+    pub(crate) fn discard_older_than(&mut self, newest: MessageId) {
+        self.fragment_messages
+            .retain(|message_id, _| *message_id >= newest);
+    }
+
     /// Receive a fragment of a FragmentData message.
     ///
     /// When we complete the final message by aggregating all fragments, we will return the
diff --git a/crates/transport/transport/src/channel/receive.rs b/crates/transport/transport/src/channel/receive.rs
index 32ce170..13950b4 100644
--- a/crates/transport/transport/src/channel/receive.rs
+++ b/crates/transport/transport/src/channel/receive.rs
@@ -153,6 +153,11 @@ impl ChannelReceive {
         if !self.state.prepare_receive(message_id)? {
             return Ok(());
         }
+        if self.state.is_sequenced()
+            && let Some(message_id) = message_id
+        {
+            self.fragments.discard_older_than(message_id);
+        }
 
         let completed = match message.data {
             MessageData::Single(single) => Some((message.remote_sent_tick, single.bytes)),
@@ -183,6 +188,13 @@ impl RecvState {
         )
     }
 
+    fn is_sequenced(&self) -> bool {
+        matches!(
+            self,
+            Self::UnreliableSequenced { .. } | Self::ReliableSequenced { .. }
+        )
+    }
+
     fn prepare_receive(&mut self, message_id: Option<MessageId>) -> Result<bool> {
         match self {
             Self::UnreliableUnordered { .. } => Ok(true),
-- 
2.43.0


From aa2fb5b631cbf14f36a240d594566ae698c04e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:02:35 +0000
Subject: [PATCH 23/26] fix: a netcode client that was connected reports the
 end of its connection instead of silently trying the next server

---
 crates/connection/netcode/src/client.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/connection/netcode/src/client.rs b/crates/connection/netcode/src/client.rs
index 4b8d73f..c5ed55d 100644
--- a/crates/connection/netcode/src/client.rs
+++ b/crates/connection/netcode/src/client.rs
@@ -470,7 +470,8 @@ impl<Ctx> Client<Ctx> {
                     "client should disconnect -> {:?}",
                     self.should_disconnect_state
                 );
-                if self.connect_to_next_server().is_ok() {
+                // a client that was connected reports that the connection ended
+                if self.is_pending() && self.connect_to_next_server().is_ok() {
                     return;
                 };
                 self.should_disconnect_state
-- 
2.43.0


From 3ef65dce5b682e02a03f31411ff04f1d21cfde3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:12:41 +0000
Subject: [PATCH 24/26] fix: a message that cannot be serialized neither
 corrupts nor holds back the messages after it

---
 crates/transport/messages/src/multi.rs        |  2 ++
 crates/transport/messages/src/send.rs         | 26 ++++++++++++++-----
 crates/transport/messages/src/send_trigger.rs | 14 +++++++---
 crates/transport/transport/src/plugin.rs      | 15 ++++++-----
 4 files changed, 40 insertions(+), 17 deletions(-)

diff --git a/crates/transport/messages/src/multi.rs b/crates/transport/messages/src/multi.rs
index aa60e5e..825bcd6 100644
--- a/crates/transport/messages/src/multi.rs
+++ b/crates/transport/messages/src/multi.rs
@@ -47,6 +47,8 @@ impl<'w, 's, F: QueryFilter> MultiMessageSender<'w, 's, F> {
     ) -> Result {
         #[cfg(feature = "metrics")]
         let metric_handles = self.registry.metric_handles(&MessageKind::of::<M>())?;
+        // a message that could not be serialized may have left something behind
+        self.writer.reset();
         // if the message is not map-entities, we can serialize it once and clone the bytes
         if !self.registry.is_map_entities::<M>()? {
             // TODO: serialize once for all senders. Figure out how to get a shared writer. Maybe on Server? Or as a global resource?
diff --git a/crates/transport/messages/src/send.rs b/crates/transport/messages/src/send.rs
index 915ab16..e202ede 100644
--- a/crates/transport/messages/src/send.rs
+++ b/crates/transport/messages/src/send.rs
@@ -145,7 +145,9 @@ impl<M: Message> MessageSender<M> {
         sender
             .send
             .drain(..)
-            .try_for_each(|(message, channel_kind, channel_name, priority)| {
+            .map(|(message, channel_kind, channel_name, priority)| {
+                // a message that could not be serialized may have left something behind
+                sender.writer.reset();
                 // we write the message NetId, and then serialize the message
                 net_id.to_bytes(&mut sender.writer)?;
                 // SAFETY: the message has been checked to be of type `M`.
@@ -180,6 +182,8 @@ impl<M: Message> MessageSender<M> {
                 transport.send_erased(channel_kind, bytes, priority)?;
                 Ok(())
             })
+            // a message that cannot be sent does not hold back the others
+            .fold(Ok(()), Result::and)
     }
 
     /// Take all messages from the [`MessageSender<M>`], and add them to
@@ -205,7 +209,7 @@ impl<M: Message> MessageSender<M> {
         sender
             .send
             .drain(..)
-            .try_for_each(|(message, channel_kind, channel_name, _priority)| {
+            .map(|(message, channel_kind, channel_name, _priority)| {
                 trace!(
                     "Send local message of type {:?} on channel {:?}",
                     DebugName::type_name::<M>(),
@@ -264,6 +268,8 @@ impl<M: Message> MessageSender<M> {
                     )
                 }
             })
+            // a message that cannot be sent does not hold back the others
+            .fold(Ok(()), Result::and)
     }
 
     pub fn on_add_hook(mut world: DeferredWorld, context: HookContext) {
@@ -309,7 +315,7 @@ impl MessagePlugin {
                 message_manager
                     .send_messages
                     .iter()
-                    .try_for_each(|(message_kind, sender_id)| {
+                    .map(|(message_kind, sender_id)| {
                         let mut entity_mut = message_sender_query.get_mut(entity).unwrap();
                         let message_sender = entity_mut
                             .get_mut_by_id(*sender_id)
@@ -342,6 +348,8 @@ impl MessagePlugin {
                         }
                         Ok::<_, MessageError>(())
                     })
+                    // a message that cannot be sent does not hold back the others
+                    .fold(Ok(()), Result::and)
                     .inspect_err(|e| error!("error sending message: {e:?}"))
                     .ok();
 
@@ -351,7 +359,7 @@ impl MessagePlugin {
                 message_manager
                     .send_triggers
                     .iter()
-                    .try_for_each(|(message_kind, sender_id)| {
+                    .map(|(message_kind, sender_id)| {
                         let mut entity_mut = message_sender_query.get_mut(entity).unwrap();
                         let message_sender = entity_mut
                             .get_mut_by_id(*sender_id)
@@ -380,6 +388,8 @@ impl MessagePlugin {
                         }
                         Ok::<_, MessageError>(())
                     })
+                    // a message that cannot be sent does not hold back the others
+                    .fold(Ok(()), Result::and)
                     .inspect_err(|e| error!("error sending trigger: {e:?}"))
                     .ok();
             },
@@ -418,7 +428,7 @@ impl MessagePlugin {
             message_manager
                 .send_messages
                 .iter()
-                .try_for_each(|(message_kind, sender_id)| {
+                .map(|(message_kind, sender_id)| {
                     let mut entity_mut = message_sender_query.get_mut(entity).unwrap();
                     let message_sender = entity_mut
                         .get_mut_by_id(*sender_id)
@@ -442,6 +452,8 @@ impl MessagePlugin {
                     }
                     Ok::<_, MessageError>(())
                 })
+                // a message that cannot be sent does not hold back the others
+                .fold(Ok(()), Result::and)
                 .inspect_err(|e| error!("error sending message on host-client: {e:?}"))
                 .ok();
 
@@ -450,7 +462,7 @@ impl MessagePlugin {
             message_manager
                 .send_triggers
                 .iter()
-                .try_for_each(|(message_kind, sender_id)| {
+                .map(|(message_kind, sender_id)| {
                     let mut entity_mut = message_sender_query.get_mut(entity).unwrap();
                     let message_sender = entity_mut
                         .get_mut_by_id(*sender_id)
@@ -474,6 +486,8 @@ impl MessagePlugin {
                     }
                     Ok::<_, MessageError>(())
                 })
+                // a message that cannot be sent does not hold back the others
+                .fold(Ok(()), Result::and)
                 .inspect_err(|e| error!("error sending trigger on host-client: {e:?}"))
                 .ok();
         })
diff --git a/crates/transport/messages/src/send_trigger.rs b/crates/transport/messages/src/send_trigger.rs
index 1a6b23c..943dca5 100644
--- a/crates/transport/messages/src/send_trigger.rs
+++ b/crates/transport/messages/src/send_trigger.rs
@@ -67,7 +67,9 @@ impl<M: Event> EventSender<M> {
         let mut sender = unsafe { trigger_sender.with_type::<Self>() };
         // enable split borrows
         let sender = &mut *sender;
-        sender.send.drain(..).try_for_each(|pending| {
+        let sent = sender.send.drain(..).map(|pending| {
+            // a message that could not be serialized may have left something behind
+            sender.writer.reset();
             let PendingEvent {
                 event,
                 channel_kind,
@@ -91,7 +93,9 @@ impl<M: Event> EventSender<M> {
             );
             transport.send_erased(channel_kind, bytes, priority)?;
             Ok(())
-        })
+        });
+        // a message that cannot be sent does not hold back the others
+        sent.fold(Ok(()), Result::and)
     }
 
     // TODO: maybe we don't need this, it's identical to sending a message
@@ -112,7 +116,7 @@ impl<M: Event> EventSender<M> {
     ) -> Result<(), MessageError> {
         // SAFETY:  the `trigger_sender` must be of type `EventSender<M>`
         let mut sender = unsafe { trigger_sender.with_type::<Self>() };
-        sender.send.drain(..).try_for_each(|pending| {
+        let sent = sender.send.drain(..).map(|pending| {
             let target_timeline = channel_registry
                 .settings(pending.channel_kind)
                 .and_then(|settings| settings.timeline);
@@ -161,7 +165,9 @@ impl<M: Event> EventSender<M> {
                     target_timeline,
                 )
             }
-        })
+        });
+        // a message that cannot be sent does not hold back the others
+        sent.fold(Ok(()), Result::and)
     }
 
     pub fn on_add_hook(mut world: DeferredWorld, context: HookContext) {
diff --git a/crates/transport/transport/src/plugin.rs b/crates/transport/transport/src/plugin.rs
index 3bb17b5..39838d7 100644
--- a/crates/transport/transport/src/plugin.rs
+++ b/crates/transport/transport/src/plugin.rs
@@ -422,8 +422,8 @@ impl TransportPlugin {
                 return
             }
             transport.packet_manager.begin_send(mtu);
-            (|| {
-                while let Ok((channel_kind, bytes, priority)) = transport.recv_channel.try_recv() {
+            while let Ok((channel_kind, bytes, priority)) = transport.recv_channel.try_recv() {
+                (|| {
                     let channel_send = transport.senders.get(&channel_kind).ok_or(
                         TransportError::ChannelNotFound(channel_kind),
                     )?;
@@ -442,11 +442,12 @@ impl TransportPlugin {
                     );
                     // TODO: do we need the message_id?
                     transport.send_mut_erased(channel_kind, bytes, priority)?;
-                }
-                Ok::<(), TransportError>(())
-            })()
-            .inspect_err(|e| error!("error sending message: {e:?}"))
-            .ok();
+                    Ok::<(), TransportError>(())
+                })()
+                // a message that cannot be sent does not hold back the others
+                .inspect_err(|e| error!("error sending message: {e:?}"))
+                .ok();
+            }
 
             // Collect cheap snapshots while each channel retains ownership of its pending queues.
             transport.priority_manager.clear();
-- 
2.43.0


From acdb9a010a0e43ab1f94634ae12e96e922594bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:52 +0000
Subject: [PATCH 25/26] fix: a collection's length on the wire no longer
 decides how much memory is allocated before it is read

---
 crates/transport/serde/src/lib.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/crates/transport/serde/src/lib.rs b/crates/transport/serde/src/lib.rs
index 13dc1d1..8e3f6aa 100644
--- a/crates/transport/serde/src/lib.rs
+++ b/crates/transport/serde/src/lib.rs
@@ -218,8 +218,8 @@ impl<M: ToBytes> ToBytes for Vec<M> {
         Self: Sized,
     {
         let len = buffer.read_varint()? as usize;
-        // TODO: if we know the MIN_LEN we can preallocate
-        let mut vec = Vec::with_capacity(len);
+        // the length comes from the peer: do not allocate more than the buffer can contain
+        let mut vec = Vec::with_capacity(len.min(buffer.remaining()));
         for _ in 0..len {
             vec.push(M::from_bytes(buffer)?);
         }
@@ -249,7 +249,8 @@ where
         Self: Sized,
     {
         let len = buffer.read_varint()? as usize;
-        let mut values = SmallVec::with_capacity(len);
+        // the length comes from the peer: do not allocate more than the buffer can contain
+        let mut values = SmallVec::with_capacity(len.min(buffer.remaining()));
         for _ in 0..len {
             values.push(A::Item::from_bytes(buffer)?);
         }
@@ -281,8 +282,8 @@ impl<K: ToBytes + Eq + Hash, V: ToBytes, S: Default + BuildHasher> ToBytes for H
         Self: Sized,
     {
         let len = buffer.read_varint()? as usize;
-        // TODO: if we know the MIN_LEN we can preallocate
-        let mut res = HashMap::with_capacity_and_hasher(len, S::default());
+        // the length comes from the peer: do not allocate more than the buffer can contain
+        let mut res = HashMap::with_capacity_and_hasher(len.min(buffer.remaining()), S::default());
         for _ in 0..len {
             let key = K::from_bytes(buffer)?;
             let value = V::from_bytes(buffer)?;
-- 
2.43.0


From 49f299d70a49f408bc0b6b57165bc2c96662c8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:52 +0000
Subject: [PATCH 26/26] fix: a fragment's announced number of fragments no
 longer decides how much memory is allocated

---
 .../src/channel/fragments/receive.rs          | 50 +++++++------------
 1 file changed, 18 insertions(+), 32 deletions(-)

diff --git a/crates/transport/transport/src/channel/fragments/receive.rs b/crates/transport/transport/src/channel/fragments/receive.rs
index 11fef24..e8ca0ce 100644
--- a/crates/transport/transport/src/channel/fragments/receive.rs
+++ b/crates/transport/transport/src/channel/fragments/receive.rs
@@ -1,6 +1,6 @@
 //! Fragment validation, reassembly, and decompression for channel receives.
 
-use alloc::{vec, vec::Vec};
+use alloc::vec;
 use bevy_platform::collections::HashMap;
 
 use crate::channel::receive::ChannelReceiveError;
@@ -109,11 +109,9 @@ impl FragmentReceiver {
         }
 
         // completed the fragmented message!
-        if let Some(payload) = fragment_message.receive_fragment(
-            fragment_index,
-            fragment.bytes.as_ref(),
-            current_time,
-        )? {
+        if let Some(payload) =
+            fragment_message.receive_fragment(fragment_index, fragment.bytes, current_time)?
+        {
             let fragment_compression = fragment_message
                 .compression
                 .ok_or(ChannelReceiveError::MissingFragmentCompression)?;
@@ -133,9 +131,9 @@ pub struct FragmentConstructor {
     num_fragments: usize,
     fragment_size: usize,
     num_received_fragments: usize,
-    received: Vec<bool>,
-    // bytes: Bytes,
-    bytes: Vec<u8>,
+    /// The fragments received so far. The number of fragments is announced by the peer, so nothing
+    /// is allocated for a fragment before it arrives.
+    received: HashMap<usize, Bytes>,
 
     tick: Tick,
     compression: Option<FragmentCompression>,
@@ -144,15 +142,14 @@ pub struct FragmentConstructor {
 
 impl FragmentConstructor {
     pub fn new(tick: Tick, num_fragments: usize, fragment_size: usize) -> Result<Self> {
-        let max_message_size = num_fragments
+        num_fragments
             .checked_mul(fragment_size)
             .ok_or(ChannelReceiveError::FragmentedMessageSizeOverflow)?;
         Ok(Self {
             num_fragments,
             fragment_size,
             num_received_fragments: 0,
-            received: vec![false; num_fragments],
-            bytes: vec![0; max_message_size],
+            received: HashMap::default(),
             tick,
             compression: None,
             last_received: None,
@@ -176,7 +173,7 @@ impl FragmentConstructor {
     pub fn receive_fragment(
         &mut self,
         fragment_index: usize,
-        bytes: &[u8],
+        bytes: Bytes,
         received_time: Option<Duration>,
     ) -> Result<Option<(Tick, Bytes)>> {
         self.last_received = received_time;
@@ -196,30 +193,19 @@ impl FragmentConstructor {
             });
         }
 
-        if !self.received[fragment_index] {
-            self.received[fragment_index] = true;
+        if !self.received.contains_key(&fragment_index) {
+            self.received.insert(fragment_index, bytes);
             self.num_received_fragments += 1;
-
-            if is_last_fragment {
-                let len = (self.num_fragments - 1)
-                    .checked_mul(self.fragment_size)
-                    .and_then(|len| len.checked_add(bytes.len()))
-                    .ok_or(ChannelReceiveError::FragmentedMessageSizeOverflow)?;
-                self.bytes.resize(len, 0);
-            }
-
-            let start = fragment_index
-                .checked_mul(self.fragment_size)
-                .ok_or(ChannelReceiveError::FragmentedMessageSizeOverflow)?;
-            let end = start
-                .checked_add(bytes.len())
-                .ok_or(ChannelReceiveError::FragmentedMessageSizeOverflow)?;
-            self.bytes[start..end].copy_from_slice(bytes);
         }
 
         if self.num_received_fragments == self.num_fragments {
             trace!("Received all fragments!");
-            let payload = core::mem::take(&mut self.bytes);
+            let len = self.received.values().map(Bytes::len).sum();
+            let mut payload = vec![0; len];
+            for (fragment_index, bytes) in self.received.drain() {
+                let start = fragment_index * self.fragment_size;
+                payload[start..start + bytes.len()].copy_from_slice(&bytes);
+            }
             return Ok(Some((self.tick, payload.into())));
         }
 
-- 
2.43.0

