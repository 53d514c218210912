From c0a8d33541db01ab23a8cf18690fffdc2afb62d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:53 +0000
Subject: [PATCH 01/20] hook: derive Debug on server internals under
 cfg(omnipaxos_mc)

---
 omnipaxos/src/ballot_leader_election.rs   | 1 +
 omnipaxos/src/lib.rs                      | 2 ++
 omnipaxos/src/omni_paxos.rs               | 1 +
 omnipaxos/src/sequence_paxos/mod.rs       | 1 +
 omnipaxos/src/storage/internal_storage.rs | 1 +
 omnipaxos/src/storage/state_cache.rs      | 1 +
 omnipaxos/src/util.rs                     | 1 +
 7 files changed, 8 insertions(+)

diff --git a/omnipaxos/src/ballot_leader_election.rs b/omnipaxos/src/ballot_leader_election.rs
index 1a9c677..db077fd 100644
--- a/omnipaxos/src/ballot_leader_election.rs
+++ b/omnipaxos/src/ballot_leader_election.rs
@@ -68,6 +68,7 @@ const RECOVERY_ROUND: u32 = 0;
 /// A Ballot Leader Election component. Used in conjunction with OmniPaxos to handle the election of a leader for a cluster of OmniPaxos servers,
 /// incoming messages and produces outgoing messages that the user has to fetch periodically and send using a network implementation.
 /// User also has to periodically fetch the decided entries that are guaranteed to be strongly consistent and linearizable, and therefore also safe to be used in the higher level application.
+#[cfg_attr(omnipaxos_mc, derive(Debug))]
 pub(crate) struct BallotLeaderElection {
     /// The identifier for the configuration that this instance is part of.
     configuration_id: ConfigurationId,
diff --git a/omnipaxos/src/lib.rs b/omnipaxos/src/lib.rs
index 9df84ce..8c98a1f 100644
--- a/omnipaxos/src/lib.rs
+++ b/omnipaxos/src/lib.rs
@@ -12,6 +12,8 @@
 
 #![cfg_attr(docsrs, feature(doc_auto_cfg))]
 #![deny(missing_docs)]
+// `omnipaxos_mc` is a cfg flag for external verification harnesses: it only derives `Debug` on internal structs.
+#![allow(unexpected_cfgs)]
 /// Trait and struct related to the leader election in Omni-Paxos.
 pub mod ballot_leader_election;
 /// OmniPaxos error definitions
diff --git a/omnipaxos/src/omni_paxos.rs b/omnipaxos/src/omni_paxos.rs
index f98c9ba..59b8455 100644
--- a/omnipaxos/src/omni_paxos.rs
+++ b/omnipaxos/src/omni_paxos.rs
@@ -222,6 +222,7 @@ impl Default for ServerConfig {
 
 /// The `OmniPaxos` struct represents an OmniPaxos server. Maintains the replicated log that can be read from and appended to.
 /// It also handles incoming messages and produces outgoing messages that you need to fetch and send periodically using your own network implementation.
+#[cfg_attr(omnipaxos_mc, derive(Debug))]
 pub struct OmniPaxos<T, B>
 where
     T: Entry,
diff --git a/omnipaxos/src/sequence_paxos/mod.rs b/omnipaxos/src/sequence_paxos/mod.rs
index 3692820..6a4cef1 100644
--- a/omnipaxos/src/sequence_paxos/mod.rs
+++ b/omnipaxos/src/sequence_paxos/mod.rs
@@ -22,6 +22,7 @@ pub mod leader;
 /// a Sequence Paxos replica. Maintains local state of the replicated log, handles incoming messages and produces outgoing messages that the user has to fetch periodically and send using a network implementation.
 /// User also has to periodically fetch the decided entries that are guaranteed to be strongly consistent and linearizable, and therefore also safe to be used in the higher level application.
 /// If snapshots are not desired to be used, use `()` for the type parameter `S`.
+#[cfg_attr(omnipaxos_mc, derive(Debug))]
 pub(crate) struct SequencePaxos<T, B>
 where
     T: Entry,
diff --git a/omnipaxos/src/storage/internal_storage.rs b/omnipaxos/src/storage/internal_storage.rs
index 39b6f48..27f962f 100644
--- a/omnipaxos/src/storage/internal_storage.rs
+++ b/omnipaxos/src/storage/internal_storage.rs
@@ -19,6 +19,7 @@ pub(crate) struct InternalStorageConfig {
 
 /// Internal representation of storage. Serves as the interface between Sequence Paxos and the
 /// storage back-end.
+#[cfg_attr(omnipaxos_mc, derive(Debug))]
 pub(crate) struct InternalStorage<I, T>
 where
     I: Storage<T>,
diff --git a/omnipaxos/src/storage/state_cache.rs b/omnipaxos/src/storage/state_cache.rs
index 48a3d89..fba05ab 100644
--- a/omnipaxos/src/storage/state_cache.rs
+++ b/omnipaxos/src/storage/state_cache.rs
@@ -4,6 +4,7 @@ use crate::ballot_leader_election::Ballot;
 use crate::{unicache::*, util::NodeId};
 
 /// A simple in-memory storage for simple state values of OmniPaxos.
+#[cfg_attr(omnipaxos_mc, derive(Debug))]
 pub(super) struct StateCache<T>
 where
     T: Entry,
diff --git a/omnipaxos/src/util.rs b/omnipaxos/src/util.rs
index 561c349..077a3f0 100644
--- a/omnipaxos/src/util.rs
+++ b/omnipaxos/src/util.rs
@@ -390,6 +390,7 @@ impl SequenceNumber {
     }
 }
 
+#[cfg_attr(omnipaxos_mc, derive(Debug))]
 pub(crate) struct LogicalClock {
     time: u64,
     timeout: u64,
-- 
2.43.0


From 2ef3de0dde918e74eb6b29372193b7b394163c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:34 +0000
Subject: [PATCH 02/20] fix: keep the decided index when syncing with a leader
 that knows of fewer decided entries

An AcceptSync from a leader whose decided index is lower than the follower's
made the follower's decided index (and its durable copy) go backwards.
---
 omnipaxos/src/storage/internal_storage.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/omnipaxos/src/storage/internal_storage.rs b/omnipaxos/src/storage/internal_storage.rs
index 27f962f..35252f9 100644
--- a/omnipaxos/src/storage/internal_storage.rs
+++ b/omnipaxos/src/storage/internal_storage.rs
@@ -317,6 +317,8 @@ where
         decided_idx: usize,
         log_sync: Option<LogSync<T>>,
     ) -> StorageResult<usize> {
+        // The leader we sync with might know of fewer decided entries than we do.
+        let decided_idx = decided_idx.max(self.state_cache.decided_idx);
         self.state_cache.accepted_round = accepted_round;
         self.state_cache.decided_idx = decided_idx;
         let mut sync_txn: Vec<StorageOp<T>> = vec![
-- 
2.43.0


From 8f94bb084b914a73f5cd419bf17c6828bd490437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:34 +0000
Subject: [PATCH 03/20] fix: do not extend an AcceptDecide of an older session
 after AcceptSync

A resent Promise handled while an AcceptDecide is still in the outgoing buffer
starts a new session with AcceptSync, but later entries were merged into the
old AcceptDecide. A follower that skips the old message (it was still in the
Prepare phase) silently misses these entries and decides a different log.
---
 omnipaxos/src/sequence_paxos/leader.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/omnipaxos/src/sequence_paxos/leader.rs b/omnipaxos/src/sequence_paxos/leader.rs
index fd9379f..70da0aa 100644
--- a/omnipaxos/src/sequence_paxos/leader.rs
+++ b/omnipaxos/src/sequence_paxos/leader.rs
@@ -174,6 +174,8 @@ where
         };
         let log_sync = self.create_log_sync(followers_valid_entries_idx, followers_decided_idx);
         self.leader_state.increment_seq_num_session(to);
+        // An unsent AcceptDecide belongs to the previous session and must not be extended anymore
+        self.leader_state.set_latest_accept_meta(to, None);
         let acc_sync = AcceptSync {
             n: current_n,
             seq_num: self.leader_state.next_seq_num(to),
-- 
2.43.0


From 0c264c2a2a8af67803453ba2ba6193401b319bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:34 +0000
Subject: [PATCH 04/20] fix: merge a delta snapshot into the old decided log

sync_log updated the cached decided index before building the snapshot of the
receiver's decided log, so that a delta snapshot was merged into a snapshot
that lacked decided entries or contained undecided ones.
---
 omnipaxos/src/storage/internal_storage.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/omnipaxos/src/storage/internal_storage.rs b/omnipaxos/src/storage/internal_storage.rs
index 35252f9..22b6503 100644
--- a/omnipaxos/src/storage/internal_storage.rs
+++ b/omnipaxos/src/storage/internal_storage.rs
@@ -319,8 +319,6 @@ where
     ) -> StorageResult<usize> {
         // The leader we sync with might know of fewer decided entries than we do.
         let decided_idx = decided_idx.max(self.state_cache.decided_idx);
-        self.state_cache.accepted_round = accepted_round;
-        self.state_cache.decided_idx = decided_idx;
         let mut sync_txn: Vec<StorageOp<T>> = vec![
             StorageOp::SetAcceptedRound(accepted_round),
             StorageOp::SetDecidedIndex(decided_idx),
@@ -334,6 +332,7 @@ where
                     sync_txn.push(StorageOp::SetSnapshot(Some(c)));
                 }
                 Some(SnapshotType::Delta(d)) => {
+                    // The delta continues from our old decided index
                     let mut snapshot = self.create_decided_snapshot()?;
                     snapshot.merge(d);
                     self.state_cache.compacted_idx = sync.sync_idx;
@@ -358,6 +357,8 @@ where
                 None => (),
             }
         }
+        self.state_cache.accepted_round = accepted_round;
+        self.state_cache.decided_idx = decided_idx;
         self.storage.write_atomically(sync_txn)?;
         Ok(self.state_cache.accepted_idx)
     }
-- 
2.43.0


From f35020ad48c112de37e5b1630ef3a8fd2c0b910e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:34 +0000
Subject: [PATCH 05/20] fix: do not count the stopsign as a log entry when
 syncing logs

The accepted and decided indexes include the stopsign. Using them as the common
prefix of the logs made the receiver place the stopsign one index too far, so
it acknowledged an index it does not have and reported the reconfiguration as
undecided.
---
 omnipaxos/src/sequence_paxos/mod.rs       | 5 ++++-
 omnipaxos/src/storage/internal_storage.rs | 9 ++++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/omnipaxos/src/sequence_paxos/mod.rs b/omnipaxos/src/sequence_paxos/mod.rs
index 6a4cef1..061b8ad 100644
--- a/omnipaxos/src/sequence_paxos/mod.rs
+++ b/omnipaxos/src/sequence_paxos/mod.rs
@@ -403,7 +403,10 @@ where
         common_prefix_idx: usize,
         other_logs_decided_idx: usize,
     ) -> LogSync<T> {
-        let decided_idx = self.internal_storage.get_decided_idx();
+        // The stopsign is synced separately so only indexes of log entries are considered
+        let decided_idx = self.internal_storage.get_decided_idx_without_stopsign();
+        let common_prefix_idx =
+            common_prefix_idx.min(self.internal_storage.get_accepted_idx_without_stopsign());
         let (decided_snapshot, suffix, sync_idx) =
             if T::Snapshot::use_snapshots() && decided_idx > common_prefix_idx {
                 // Note: We snapshot from the other log's decided index and not the common prefix because
diff --git a/omnipaxos/src/storage/internal_storage.rs b/omnipaxos/src/storage/internal_storage.rs
index 22b6503..64f2552 100644
--- a/omnipaxos/src/storage/internal_storage.rs
+++ b/omnipaxos/src/storage/internal_storage.rs
@@ -470,7 +470,7 @@ where
         self.state_cache.decided_idx
     }
 
-    fn get_decided_idx_without_stopsign(&self) -> usize {
+    pub(crate) fn get_decided_idx_without_stopsign(&self) -> usize {
         match self.stopsign_is_decided() {
             true => self.get_decided_idx() - 1,
             false => self.get_decided_idx(),
@@ -490,6 +490,13 @@ where
         self.state_cache.accepted_idx
     }
 
+    pub(crate) fn get_accepted_idx_without_stopsign(&self) -> usize {
+        match self.state_cache.stopsign {
+            Some(_) => self.get_accepted_idx() - 1,
+            None => self.get_accepted_idx(),
+        }
+    }
+
     pub(crate) fn get_suffix(&self, from: usize) -> StorageResult<Vec<T>> {
         self.storage.get_suffix(from)
     }
-- 
2.43.0


From 03950f2c32906515749af37658f17c5c597f2006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:34 +0000
Subject: [PATCH 06/20] fix: sync a server that has accepted but not decided
 trimmed entries

A trim is allowed up to the index that all servers have accepted, but a server
whose decided index is lower was synced from its decided index: the server that
trimmed panicked reading the trimmed entries.
---
 omnipaxos/src/sequence_paxos/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/omnipaxos/src/sequence_paxos/mod.rs b/omnipaxos/src/sequence_paxos/mod.rs
index 061b8ad..fb1bc8c 100644
--- a/omnipaxos/src/sequence_paxos/mod.rs
+++ b/omnipaxos/src/sequence_paxos/mod.rs
@@ -421,6 +421,9 @@ where
                     .expect(READ_ERROR_MSG);
                 (delta_snapshot, suffix, compacted_idx)
             } else {
+                // Trimmed entries have been accepted by all servers, so they are a common prefix
+                let common_prefix_idx =
+                    common_prefix_idx.max(self.internal_storage.get_compacted_idx());
                 let suffix = self
                     .internal_storage
                     .get_suffix(common_prefix_idx)
-- 
2.43.0


From 03ba8da27259936fa27db6913a17b550d74d9d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:19 +0000
Subject: [PATCH 07/20] fix: check the quorum ranges before adding their sizes

Quorum sizes close to the integer limit made validation overflow (a panic
with overflow checks) instead of returning an error.
---
 omnipaxos/src/omni_paxos.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/omnipaxos/src/omni_paxos.rs b/omnipaxos/src/omni_paxos.rs
index 59b8455..ae3b2b0 100644
--- a/omnipaxos/src/omni_paxos.rs
+++ b/omnipaxos/src/omni_paxos.rs
@@ -110,10 +110,6 @@ impl ClusterConfig {
             write_quorum_size,
         }) = self.flexible_quorum
         {
-            valid_config!(
-                read_quorum_size + write_quorum_size > num_nodes,
-                "The quorums must overlap i.e., the sum of their sizes must exceed the # of nodes"
-            );
             valid_config!(
                 read_quorum_size >= 2 && read_quorum_size <= num_nodes,
                 "Read quorum must be in range 2 to # of nodes in the cluster"
@@ -122,6 +118,10 @@ impl ClusterConfig {
                 write_quorum_size >= 2 && write_quorum_size <= num_nodes,
                 "Write quorum must be in range 2 to # of nodes in the cluster"
             );
+            valid_config!(
+                read_quorum_size + write_quorum_size > num_nodes,
+                "The quorums must overlap i.e., the sum of their sizes must exceed the # of nodes"
+            );
             valid_config!(
                 read_quorum_size >= write_quorum_size,
                 "Read quorum size must be >= the write quorum size."
-- 
2.43.0


From 574a48514fa556b445ccc59fec08b8eed6ae80fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:02 +0000
Subject: [PATCH 08/20] fix: follow the own ballot after raising its priority

A server whose priority was raised above the leader's with set_priority saw
another server as the leader while that one saw it as the leader, and no
leader was elected anymore.
---
 omnipaxos/src/ballot_leader_election.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/omnipaxos/src/ballot_leader_election.rs b/omnipaxos/src/ballot_leader_election.rs
index db077fd..9411ba3 100644
--- a/omnipaxos/src/ballot_leader_election.rs
+++ b/omnipaxos/src/ballot_leader_election.rs
@@ -221,11 +221,15 @@ impl BallotLeaderElection {
     }
 
     fn update_leader(&mut self) {
-        let max_reply_ballot = self.heartbeat_replies.iter().map(|r| r.ballot).max();
-        if let Some(max) = max_reply_ballot {
-            if max > self.leader {
-                self.leader = max;
-            }
+        // Our own ballot can exceed the leader's if our priority was changed. The peers will then
+        // see us as the leader, so we must too.
+        let max_ballot = self
+            .heartbeat_replies
+            .iter()
+            .map(|r| r.ballot)
+            .fold(self.current_ballot, Ballot::max);
+        if max_ballot > self.leader {
+            self.leader = max_ballot;
         }
     }
 
-- 
2.43.0


From e992b2cd2c2ce0967b05f3cc6b724445960d8056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:36 +0000
Subject: [PATCH 09/20] fix: do not size a deserialized LRU cache by the number
 of its items

---
 omnipaxos/src/unicache/lru_cache.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/omnipaxos/src/unicache/lru_cache.rs b/omnipaxos/src/unicache/lru_cache.rs
index 87b9ff2..002c75d 100644
--- a/omnipaxos/src/unicache/lru_cache.rs
+++ b/omnipaxos/src/unicache/lru_cache.rs
@@ -206,8 +206,8 @@ mod serialization {
         where
             S: SeqAccess<'de>,
         {
-            let size = seq.size_hint().unwrap_or(u8::MAX as usize);
-            let mut lru = LruCache::new(NonZeroUsize::new(size).unwrap());
+            // The number of sent items is not the size of the cache, which evicts by itself
+            let mut lru = LruCache::unbounded();
             while let Some((key, value)) = seq.next_element::<(Encodable, Encoded)>()? {
                 lru.push(key, value);
             }
-- 
2.43.0


From 5f8bf9bcc059465d9d31b17be8df414ec3a52e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:36 +0000
Subject: [PATCH 10/20] fix: keep frequencies and eviction order when cloning
 the LFU cache

---
 omnipaxos/src/unicache/lfu/mod.rs   | 22 ++++++++++++++++++++++
 omnipaxos/src/unicache/lfu_cache.rs |  8 +-------
 2 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/omnipaxos/src/unicache/lfu/mod.rs b/omnipaxos/src/unicache/lfu/mod.rs
index f280dab..c86665a 100644
--- a/omnipaxos/src/unicache/lfu/mod.rs
+++ b/omnipaxos/src/unicache/lfu/mod.rs
@@ -138,6 +138,28 @@ impl<K: Hash + Eq + Clone, V> LFUCache<K, V> {
         }
     }
 
+    /// Returns the cache that maps values to keys, with the same frequencies and eviction order.
+    pub fn inverse(&self) -> LFUCache<V, K>
+    where
+        V: Hash + Eq + Clone,
+    {
+        let values = self.values.iter().map(|(key, vc)| {
+            let value = key.clone();
+            let count = vc.count;
+            (vc.value.clone(), ValueCounter { value, count })
+        });
+        let frequency_bin = self.frequency_bin.iter().map(|(count, bin)| {
+            let keys = bin.0.iter().map(|key| self.values[key].value.clone());
+            (*count, LinkedHashSetWrapper(keys.collect()))
+        });
+        LFUCache {
+            values: values.collect(),
+            frequency_bin: frequency_bin.collect(),
+            capacity: self.capacity,
+            min_frequency: self.min_frequency,
+        }
+    }
+
     pub fn iter(&self) -> LfuIterator<K, V> {
         LfuIterator {
             values: self.values.iter(),
diff --git a/omnipaxos/src/unicache/lfu_cache.rs b/omnipaxos/src/unicache/lfu_cache.rs
index f7e9530..30e2aba 100644
--- a/omnipaxos/src/unicache/lfu_cache.rs
+++ b/omnipaxos/src/unicache/lfu_cache.rs
@@ -22,15 +22,9 @@ where
 {
     /// A cloned version of the cache but *ONLY* with the decoder. The clone is used to send the cache to followers, who will only use the decoder.
     fn clone(&self) -> Self {
-        let mut lfu_cache_decoder = LFUCache::with_capacity(self.size);
-        self.lfu_cache_encoder
-            .iter()
-            .for_each(|(encodable, encoded)| {
-                lfu_cache_decoder.set(encoded.clone(), encodable.clone());
-            });
         Self {
             lfu_cache_encoder: LFUCache::with_capacity(1),
-            lfu_cache_decoder,
+            lfu_cache_decoder: self.lfu_cache_encoder.inverse(),
             encoding: self.encoding.clone(),
             size: self.size,
         }
-- 
2.43.0


From c6187d2a8527c7b8791030f2e1d44a27f4417a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:36 +0000
Subject: [PATCH 11/20] fix: start with a fresh UniCache when becoming leader

---
 omnipaxos/src/sequence_paxos/leader.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/omnipaxos/src/sequence_paxos/leader.rs b/omnipaxos/src/sequence_paxos/leader.rs
index 70da0aa..2eafbbd 100644
--- a/omnipaxos/src/sequence_paxos/leader.rs
+++ b/omnipaxos/src/sequence_paxos/leader.rs
@@ -25,6 +25,9 @@ where
             // Flush any pending writes
             // Don't have to handle flushed entries here because we will sync with followers
             let _ = self.internal_storage.flush_batch().expect(WRITE_ERROR_MSG);
+            // The cache we got as a follower can only decode
+            #[cfg(feature = "unicache")]
+            self.internal_storage.set_unicache(crate::unicache::UniCache::new());
             self.internal_storage.set_promise(n).expect(WRITE_ERROR_MSG);
             /* insert my promise */
             let na = self.internal_storage.get_accepted_round();
-- 
2.43.0


From ed48fb97cdfb91b96fbf34090d96c4b19e9e9180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:36 +0000
Subject: [PATCH 12/20] fix: flush batched entries before sending the UniCache
 to a late follower

---
 omnipaxos/src/sequence_paxos/leader.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/omnipaxos/src/sequence_paxos/leader.rs b/omnipaxos/src/sequence_paxos/leader.rs
index 2eafbbd..c5a2a9f 100644
--- a/omnipaxos/src/sequence_paxos/leader.rs
+++ b/omnipaxos/src/sequence_paxos/leader.rs
@@ -313,6 +313,10 @@ where
             );
         }
         if prom.n == self.leader_state.n_leader {
+            // The cache sent to the follower already contains what the batched entries inserted,
+            // so they must be in the log that it is sent with.
+            #[cfg(feature = "unicache")]
+            self.flush_batch_leader();
             self.leader_state.set_promise(prom, from, false);
             self.send_accsync(from);
         }
-- 
2.43.0


From 1cfb4b8e43cdf0708d2507fa10aa3cbd6df4f289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:03 +0000
Subject: [PATCH 13/20] fix: leave no trace of a failed storage transaction

---
 omnipaxos_storage/src/persistent_storage.rs | 47 ++++++++++++++-------
 1 file changed, 31 insertions(+), 16 deletions(-)

diff --git a/omnipaxos_storage/src/persistent_storage.rs b/omnipaxos_storage/src/persistent_storage.rs
index a117f46..483345d 100644
--- a/omnipaxos_storage/src/persistent_storage.rs
+++ b/omnipaxos_storage/src/persistent_storage.rs
@@ -258,6 +258,26 @@ where
         self.write_batch.put(SNAPSHOT, s);
         Ok(())
     }
+
+    fn batch_ops(&mut self, ops: Vec<StorageOp<T>>) -> StorageResult<()> {
+        for op in ops {
+            match op {
+                StorageOp::AppendEntry(entry) => self.batch_append_entry(entry)?,
+                StorageOp::AppendEntries(entries) => self.batch_append_entries(entries)?,
+                StorageOp::AppendOnPrefix(from_idx, entries) => {
+                    self.batch_append_on_prefix(from_idx, entries)?
+                }
+                StorageOp::SetPromise(bal) => self.batch_set_promise(bal)?,
+                StorageOp::SetDecidedIndex(idx) => self.batch_set_decided_idx(idx)?,
+                StorageOp::SetAcceptedRound(bal) => self.batch_set_accepted_round(bal)?,
+                StorageOp::SetCompactedIdx(idx) => self.batch_set_compacted_idx(idx)?,
+                StorageOp::Trim(idx) => self.batch_trim(idx)?,
+                StorageOp::SetStopsign(ss) => self.batch_set_stopsign(ss)?,
+                StorageOp::SetSnapshot(snap) => self.batch_set_snapshot(snap)?,
+            }
+        }
+        Ok(())
+    }
 }
 
 /// An error returning the proposal that was failed due to that the current configuration is stopped.
@@ -276,23 +296,18 @@ where
     T::Snapshot: Serialize + for<'a> Deserialize<'a>,
 {
     fn write_atomically(&mut self, ops: Vec<StorageOp<T>>) -> StorageResult<()> {
-        for op in ops {
-            match op {
-                StorageOp::AppendEntry(entry) => self.batch_append_entry(entry)?,
-                StorageOp::AppendEntries(entries) => self.batch_append_entries(entries)?,
-                StorageOp::AppendOnPrefix(from_idx, entries) => {
-                    self.batch_append_on_prefix(from_idx, entries)?
-                }
-                StorageOp::SetPromise(bal) => self.batch_set_promise(bal)?,
-                StorageOp::SetDecidedIndex(idx) => self.batch_set_decided_idx(idx)?,
-                StorageOp::SetAcceptedRound(bal) => self.batch_set_accepted_round(bal)?,
-                StorageOp::SetCompactedIdx(idx) => self.batch_set_compacted_idx(idx)?,
-                StorageOp::Trim(idx) => self.batch_trim(idx)?,
-                StorageOp::SetStopsign(ss) => self.batch_set_stopsign(ss)?,
-                StorageOp::SetSnapshot(snap) => self.batch_set_snapshot(snap)?,
-            }
+        let old_next_log_key = self.next_log_key;
+        let mut result = self.batch_ops(ops);
+        if result.is_ok() {
+            let batch = std::mem::take(&mut self.write_batch);
+            result = self.db.write(batch).map_err(|e| e.into());
+        }
+        if result.is_err() {
+            // Undo what the failed transaction has left behind
+            self.write_batch.clear();
+            self.next_log_key = old_next_log_key;
         }
-        Ok(self.db.write(std::mem::take(&mut self.write_batch))?)
+        result
     }
 
     fn append_entry(&mut self, entry: T) -> StorageResult<()> {
-- 
2.43.0


From 79c727f297245c9f79130cb946f9fccfcb4ecdf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:03 +0000
Subject: [PATCH 14/20] fix: keep the log length when appending entries fails

---
 omnipaxos_storage/src/persistent_storage.rs | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/omnipaxos_storage/src/persistent_storage.rs b/omnipaxos_storage/src/persistent_storage.rs
index 483345d..90ff2d7 100644
--- a/omnipaxos_storage/src/persistent_storage.rs
+++ b/omnipaxos_storage/src/persistent_storage.rs
@@ -322,17 +322,7 @@ where
     }
 
     fn append_entries(&mut self, entries: Vec<T>) -> StorageResult<()> {
-        let mut batch = WriteBatchWithTransaction::<false>::default();
-        for entry in entries {
-            batch.put_cf(
-                self.get_log_handle(),
-                self.next_log_key.to_be_bytes(),
-                bincode::serialize(&entry)?,
-            );
-            self.next_log_key += 1;
-        }
-        self.db.write(batch)?;
-        Ok(())
+        self.write_atomically(vec![StorageOp::AppendEntries(entries)])
     }
 
     fn append_on_prefix(&mut self, from_idx: usize, entries: Vec<T>) -> StorageResult<()> {
-- 
2.43.0


From e52288447d2a4daccd521406752b23e16a4c6f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:04 +0000
Subject: [PATCH 15/20] fix: replace the end of the persistent log in one write

---
 omnipaxos_storage/src/persistent_storage.rs | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/omnipaxos_storage/src/persistent_storage.rs b/omnipaxos_storage/src/persistent_storage.rs
index 90ff2d7..889c6ba 100644
--- a/omnipaxos_storage/src/persistent_storage.rs
+++ b/omnipaxos_storage/src/persistent_storage.rs
@@ -326,16 +326,7 @@ where
     }
 
     fn append_on_prefix(&mut self, from_idx: usize, entries: Vec<T>) -> StorageResult<()> {
-        // Don't need to delete entries that will be overwritten.
-        let delete_idx = from_idx + entries.len();
-        if delete_idx < self.next_log_key {
-            let from_key = delete_idx.to_be_bytes();
-            let to_key = self.next_log_key.to_be_bytes();
-            self.db
-                .delete_range_cf(self.get_log_handle(), from_key, to_key)?;
-        }
-        self.next_log_key = from_idx;
-        self.append_entries(entries)
+        self.write_atomically(vec![StorageOp::AppendOnPrefix(from_idx, entries)])
     }
 
     fn get_entries(&self, from: usize, to: usize) -> StorageResult<Vec<T>> {
-- 
2.43.0


From d2e268951eedc47ab8defb07cc5a58a59fd9e80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:59 +0000
Subject: [PATCH 16/20] fix: do not send a delta snapshot based on an outdated
 promise

---
 omnipaxos/src/sequence_paxos/leader.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/omnipaxos/src/sequence_paxos/leader.rs b/omnipaxos/src/sequence_paxos/leader.rs
index c5a2a9f..c8cd95b 100644
--- a/omnipaxos/src/sequence_paxos/leader.rs
+++ b/omnipaxos/src/sequence_paxos/leader.rs
@@ -175,7 +175,13 @@ where
         } else {
             followers_decided_idx
         };
-        let log_sync = self.create_log_sync(followers_valid_entries_idx, followers_decided_idx);
+        // A delta snapshot must continue from the follower's current decided index. Once it has been
+        // sent an AcceptSync in this round, its promise can be outdated so send everything instead.
+        let snapshot_from_idx = match self.leader_state.get_seq_num(to).session {
+            0 => followers_decided_idx,
+            _ => 0,
+        };
+        let log_sync = self.create_log_sync(followers_valid_entries_idx, snapshot_from_idx);
         self.leader_state.increment_seq_num_session(to);
         // An unsent AcceptDecide belongs to the previous session and must not be extended anymore
         self.leader_state.set_latest_accept_meta(to, None);
-- 
2.43.0


From 56333651110e70e13e0826f457ab5760bd35e48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:59 +0000
Subject: [PATCH 17/20] fix: let the leader trim when the server ids have gaps

---
 omnipaxos/src/sequence_paxos/mod.rs | 10 ++++++----
 omnipaxos/src/util.rs               |  9 +++++----
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/omnipaxos/src/sequence_paxos/mod.rs b/omnipaxos/src/sequence_paxos/mod.rs
index fb1bc8c..221cc57 100644
--- a/omnipaxos/src/sequence_paxos/mod.rs
+++ b/omnipaxos/src/sequence_paxos/mod.rs
@@ -142,9 +142,11 @@ where
     pub(crate) fn trim(&mut self, trim_idx: Option<usize>) -> Result<(), CompactionErr> {
         match self.state {
             (Role::Leader, _) => {
-                let min_all_accepted_idx = self.leader_state.get_min_all_accepted_idx();
+                let min_all_accepted_idx = self
+                    .leader_state
+                    .get_min_all_accepted_idx(&self.peers);
                 let trimmed_idx = match trim_idx {
-                    Some(idx) if idx <= *min_all_accepted_idx => idx,
+                    Some(idx) if idx <= min_all_accepted_idx => idx,
                     None => {
                         #[cfg(feature = "logging")]
                         trace!(
@@ -152,10 +154,10 @@ where
                             "No trim index provided, using min_las_idx: {:?}",
                             min_all_accepted_idx
                         );
-                        *min_all_accepted_idx
+                        min_all_accepted_idx
                     }
                     _ => {
-                        return Err(CompactionErr::NotAllDecided(*min_all_accepted_idx));
+                        return Err(CompactionErr::NotAllDecided(min_all_accepted_idx));
                     }
                 };
                 let result = self.internal_storage.try_trim(trimmed_idx);
diff --git a/omnipaxos/src/util.rs b/omnipaxos/src/util.rs
index 077a3f0..d946b66 100644
--- a/omnipaxos/src/util.rs
+++ b/omnipaxos/src/util.rs
@@ -183,11 +183,12 @@ where
         }
     }
 
-    pub fn get_min_all_accepted_idx(&self) -> &usize {
-        self.accepted_indexes
+    /// The index that all servers have accepted. Not every pid up to `max_pid` needs to be a server.
+    pub fn get_min_all_accepted_idx(&self, peers: &[NodeId]) -> usize {
+        peers
             .iter()
-            .min()
-            .expect("Should be all initialised to 0!")
+            .map(|pid| self.get_accepted_idx(*pid))
+            .fold(self.get_accepted_idx(self.n_leader.pid), usize::min)
     }
 
     pub fn reset_latest_accept_meta(&mut self) {
-- 
2.43.0


From 211fa1d025a521ba9b9bcef2787a972893c19643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:32 +0000
Subject: [PATCH 18/20] fix: dashboard shows the role and progress of the
 current leader

The role and the followers' progress were derived from the leader of the
previous refresh, so a new leader was shown as a follower (and a deposed
one as the leader) next to the new leader's id.
---
 omnipaxos_ui/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omnipaxos_ui/src/lib.rs b/omnipaxos_ui/src/lib.rs
index 4e5d576..527b2c4 100644
--- a/omnipaxos_ui/src/lib.rs
+++ b/omnipaxos_ui/src/lib.rs
@@ -167,9 +167,9 @@ impl OmniPaxosUI {
             let ballot = op_states.current_ballot;
             self.app.current_node.ballot_number = ballot.n;
             self.app.set_decided_idx(op_states.decided_idx);
+            self.update_leader(&op_states);
             self.update_progress(&op_states);
             self.update_active_peers(&op_states);
-            self.update_leader(&op_states);
             self.update_ui();
         }
     }
-- 
2.43.0


From a803b5797ccc09899493996739a294617dfc3cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:32 +0000
Subject: [PATCH 19/20] fix: dashboard can be started again after it was
 stopped

The logger can be installed only once per process; start() panicked on
the second attempt.
---
 omnipaxos_ui/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omnipaxos_ui/src/lib.rs b/omnipaxos_ui/src/lib.rs
index 527b2c4..1849152 100644
--- a/omnipaxos_ui/src/lib.rs
+++ b/omnipaxos_ui/src/lib.rs
@@ -47,7 +47,8 @@ impl OmniPaxosUI {
     /// Start the UI, do nothing if already started
     pub fn start(&mut self) {
         if !self.started {
-            init_logger(LevelFilter::Trace).unwrap();
+            // fails if the logger is already installed, e.g., when the UI is started again
+            let _ = init_logger(LevelFilter::Trace);
             set_default_level(LevelFilter::Debug);
             let mut stdout = stdout();
             crossterm::execute!(stdout, EnterAlternateScreen, EnableMouseCapture).unwrap();
-- 
2.43.0


From fce94c74e11f9d98c57d60e881309b1b040ae3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:32 +0000
Subject: [PATCH 20/20] fix: dashboard is drawn in full after it is started
 again

Only the differences to the last frame before stop() were drawn on the
blank screen.
---
 omnipaxos_ui/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/omnipaxos_ui/src/lib.rs b/omnipaxos_ui/src/lib.rs
index 1849152..267183a 100644
--- a/omnipaxos_ui/src/lib.rs
+++ b/omnipaxos_ui/src/lib.rs
@@ -54,6 +54,8 @@ impl OmniPaxosUI {
             crossterm::execute!(stdout, EnterAlternateScreen, EnableMouseCapture).unwrap();
             enable_raw_mode().unwrap();
             self.terminal.hide_cursor().unwrap();
+            // the screen is blank now, so the next frame must be drawn in full
+            self.terminal.clear().unwrap();
             self.update_ui();
             self.started = true;
             debug!(Self::logger(), "UI started with slog");
-- 
2.43.0

