From 77f0b9a661e2b7ccd1e70c08cd471c888217c2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:13 +0000
Subject: [PATCH 01/30] fix: reads with an empty range at the stopsign or with
 an index of usize::MAX panicked

---
 omnipaxos/src/omni_paxos.rs               |  2 +-
 omnipaxos/src/storage/internal_storage.rs | 13 ++++++-------
 2 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/omnipaxos/src/omni_paxos.rs b/omnipaxos/src/omni_paxos.rs
index f98c9ba..d5f9005 100644
--- a/omnipaxos/src/omni_paxos.rs
+++ b/omnipaxos/src/omni_paxos.rs
@@ -300,7 +300,7 @@ where
         match self
             .seq_paxos
             .internal_storage
-            .read(idx..idx + 1)
+            .read(idx..=idx)
             .expect("storage error while trying to read log entries")
         {
             Some(mut v) => v.pop(),
diff --git a/omnipaxos/src/storage/internal_storage.rs b/omnipaxos/src/storage/internal_storage.rs
index 39b6f48..e698f68 100644
--- a/omnipaxos/src/storage/internal_storage.rs
+++ b/omnipaxos/src/storage/internal_storage.rs
@@ -93,11 +93,11 @@ where
     {
         let from_idx = match r.start_bound() {
             Bound::Included(i) => *i,
-            Bound::Excluded(e) => *e + 1,
+            Bound::Excluded(e) => e.saturating_add(1),
             Bound::Unbounded => 0,
         };
         let to_idx = match r.end_bound() {
-            Bound::Included(i) => *i + 1,
+            Bound::Included(i) => i.saturating_add(1),
             Bound::Excluded(e) => *e,
             Bound::Unbounded => self.get_accepted_idx(),
         };
@@ -150,9 +150,8 @@ where
                     self.stopsign_is_decided(),
                 )]))
             }
-            e => {
-                unimplemented!("{}", format!("Unexpected read combination: {:?}", e))
-            }
+            // The range ends before it starts, i.e. it is empty.
+            (IndexEntry::StopSign(_), _) | (_, IndexEntry::Compacted) => Ok(Some(vec![])),
         }
     }
 
@@ -164,9 +163,9 @@ where
     ) -> StorageResult<Option<IndexEntry>> {
         if idx < compacted_idx {
             Ok(Some(IndexEntry::Compacted))
-        } else if idx + 1 < accepted_idx {
+        } else if idx.saturating_add(1) < accepted_idx {
             Ok(Some(IndexEntry::Entry))
-        } else if idx + 1 == accepted_idx {
+        } else if idx.saturating_add(1) == accepted_idx {
             match self.get_stopsign() {
                 Some(ss) => Ok(Some(IndexEntry::StopSign(ss))),
                 _ => Ok(Some(IndexEntry::Entry)),
-- 
2.43.0


From 04dddb5c65b55513e9be58654a17ed7771aad15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:13 +0000
Subject: [PATCH 02/30] fix: a delta snapshot received in a log sync was merged
 onto the wrong decided prefix

---
 omnipaxos/src/storage/internal_storage.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omnipaxos/src/storage/internal_storage.rs b/omnipaxos/src/storage/internal_storage.rs
index e698f68..4717a67 100644
--- a/omnipaxos/src/storage/internal_storage.rs
+++ b/omnipaxos/src/storage/internal_storage.rs
@@ -316,7 +316,6 @@ where
         log_sync: Option<LogSync<T>>,
     ) -> StorageResult<usize> {
         self.state_cache.accepted_round = accepted_round;
-        self.state_cache.decided_idx = decided_idx;
         let mut sync_txn: Vec<StorageOp<T>> = vec![
             StorageOp::SetAcceptedRound(accepted_round),
             StorageOp::SetDecidedIndex(decided_idx),
@@ -354,6 +353,8 @@ where
                 None => (),
             }
         }
+        // Updated last because a delta snapshot applies on top of our previously decided log.
+        self.state_cache.decided_idx = decided_idx;
         self.storage.write_atomically(sync_txn)?;
         Ok(self.state_cache.accepted_idx)
     }
-- 
2.43.0


From 90684f60e7dec20d7700e012663de00243ec56fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:13 +0000
Subject: [PATCH 03/30] fix: a log sync with a leader that knows fewer decided
 entries regressed the decided index

---
 omnipaxos/src/storage/internal_storage.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/omnipaxos/src/storage/internal_storage.rs b/omnipaxos/src/storage/internal_storage.rs
index 4717a67..8857325 100644
--- a/omnipaxos/src/storage/internal_storage.rs
+++ b/omnipaxos/src/storage/internal_storage.rs
@@ -316,6 +316,8 @@ where
         log_sync: Option<LogSync<T>>,
     ) -> StorageResult<usize> {
         self.state_cache.accepted_round = accepted_round;
+        // The leader might not have learned yet that some of our entries are decided.
+        let decided_idx = decided_idx.max(self.get_decided_idx());
         let mut sync_txn: Vec<StorageOp<T>> = vec![
             StorageOp::SetAcceptedRound(accepted_round),
             StorageOp::SetDecidedIndex(decided_idx),
-- 
2.43.0


From 5bb47f53f2a72f5b3b9b8bf5d00667f57b31f2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:13 +0000
Subject: [PATCH 04/30] fix: a log sync after an accepted stopsign counted the
 stopsign twice

---
 omnipaxos/src/sequence_paxos/mod.rs       | 6 ++++--
 omnipaxos/src/storage/internal_storage.rs | 8 ++++++++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/omnipaxos/src/sequence_paxos/mod.rs b/omnipaxos/src/sequence_paxos/mod.rs
index 3692820..cf279c5 100644
--- a/omnipaxos/src/sequence_paxos/mod.rs
+++ b/omnipaxos/src/sequence_paxos/mod.rs
@@ -417,11 +417,13 @@ where
                     .expect(READ_ERROR_MSG);
                 (delta_snapshot, suffix, compacted_idx)
             } else {
+                // The stopsign is sent separately, it's not part of the suffix.
+                let sync_idx = common_prefix_idx.min(self.internal_storage.get_log_end_idx());
                 let suffix = self
                     .internal_storage
-                    .get_suffix(common_prefix_idx)
+                    .get_suffix(sync_idx)
                     .expect(READ_ERROR_MSG);
-                (None, suffix, common_prefix_idx)
+                (None, suffix, sync_idx)
             };
         LogSync {
             decided_snapshot,
diff --git a/omnipaxos/src/storage/internal_storage.rs b/omnipaxos/src/storage/internal_storage.rs
index 8857325..4062156 100644
--- a/omnipaxos/src/storage/internal_storage.rs
+++ b/omnipaxos/src/storage/internal_storage.rs
@@ -488,6 +488,14 @@ where
         self.state_cache.accepted_idx
     }
 
+    /// The length of the replicated log not counting the stopsign, as if log was never compacted.
+    pub(crate) fn get_log_end_idx(&self) -> usize {
+        match self.state_cache.stopsign {
+            Some(_) => self.get_accepted_idx() - 1,
+            None => self.get_accepted_idx(),
+        }
+    }
+
     pub(crate) fn get_suffix(&self, from: usize) -> StorageResult<Vec<T>> {
         self.storage.get_suffix(from)
     }
-- 
2.43.0


From 3d3f0edf16cc0e88e29fbdabb77d68e61a1fae9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:13 +0000
Subject: [PATCH 05/30] fix: a log sync with a server whose known decided index
 is below our trimmed index failed

---
 omnipaxos/src/sequence_paxos/mod.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/omnipaxos/src/sequence_paxos/mod.rs b/omnipaxos/src/sequence_paxos/mod.rs
index cf279c5..70d45f3 100644
--- a/omnipaxos/src/sequence_paxos/mod.rs
+++ b/omnipaxos/src/sequence_paxos/mod.rs
@@ -403,8 +403,16 @@ where
         other_logs_decided_idx: usize,
     ) -> LogSync<T> {
         let decided_idx = self.internal_storage.get_decided_idx();
+        let compacted_idx = self.internal_storage.get_compacted_idx();
+        // A log that was trimmed without a snapshot has no snapshot of its decided entries to send.
+        let only_trimmed = compacted_idx > 0
+            && self
+                .internal_storage
+                .get_snapshot()
+                .expect(READ_ERROR_MSG)
+                .is_none();
         let (decided_snapshot, suffix, sync_idx) =
-            if T::Snapshot::use_snapshots() && decided_idx > common_prefix_idx {
+            if T::Snapshot::use_snapshots() && !only_trimmed && decided_idx > common_prefix_idx {
                 // Note: We snapshot from the other log's decided index and not the common prefix because
                 // snapshots currently only work on decided entries.
                 let (delta_snapshot, compacted_idx) = self
@@ -417,8 +425,11 @@ where
                     .expect(READ_ERROR_MSG);
                 (delta_snapshot, suffix, compacted_idx)
             } else {
-                // The stopsign is sent separately, it's not part of the suffix.
-                let sync_idx = common_prefix_idx.min(self.internal_storage.get_log_end_idx());
+                // The stopsign is sent separately, it's not part of the suffix. Trimmed entries are
+                // already in the log of all servers.
+                let sync_idx = common_prefix_idx
+                    .min(self.internal_storage.get_log_end_idx())
+                    .max(compacted_idx);
                 let suffix = self
                     .internal_storage
                     .get_suffix(sync_idx)
-- 
2.43.0


From 8855f0bde9b8bd6120bb3f1a348bdad8833dd71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:13 +0000
Subject: [PATCH 06/30] fix: entries were added to an unsent AcceptDecide that
 precedes a repeated AcceptSync

---
 omnipaxos/src/sequence_paxos/leader.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/omnipaxos/src/sequence_paxos/leader.rs b/omnipaxos/src/sequence_paxos/leader.rs
index fd9379f..42ba7bf 100644
--- a/omnipaxos/src/sequence_paxos/leader.rs
+++ b/omnipaxos/src/sequence_paxos/leader.rs
@@ -174,6 +174,8 @@ where
         };
         let log_sync = self.create_log_sync(followers_valid_entries_idx, followers_decided_idx);
         self.leader_state.increment_seq_num_session(to);
+        // Entries accepted from now on must not be added to an AcceptDecide of the previous session.
+        self.leader_state.set_latest_accept_meta(to, None);
         let acc_sync = AcceptSync {
             n: current_n,
             seq_num: self.leader_state.next_seq_num(to),
-- 
2.43.0


From 15d16a503acdb3d006cfc57fe6e7c612edb9e37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:13 +0000
Subject: [PATCH 07/30] fix: trim never succeeded in clusters whose server ids
 are not consecutive from 1

---
 omnipaxos/src/sequence_paxos/mod.rs | 8 ++++----
 omnipaxos/src/util.rs               | 6 ++++--
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/omnipaxos/src/sequence_paxos/mod.rs b/omnipaxos/src/sequence_paxos/mod.rs
index 70d45f3..bc923e8 100644
--- a/omnipaxos/src/sequence_paxos/mod.rs
+++ b/omnipaxos/src/sequence_paxos/mod.rs
@@ -141,9 +141,9 @@ where
     pub(crate) fn trim(&mut self, trim_idx: Option<usize>) -> Result<(), CompactionErr> {
         match self.state {
             (Role::Leader, _) => {
-                let min_all_accepted_idx = self.leader_state.get_min_all_accepted_idx();
+                let min_all_accepted_idx = self.leader_state.get_min_all_accepted_idx(&self.peers);
                 let trimmed_idx = match trim_idx {
-                    Some(idx) if idx <= *min_all_accepted_idx => idx,
+                    Some(idx) if idx <= min_all_accepted_idx => idx,
                     None => {
                         #[cfg(feature = "logging")]
                         trace!(
@@ -151,10 +151,10 @@ where
                             "No trim index provided, using min_las_idx: {:?}",
                             min_all_accepted_idx
                         );
-                        *min_all_accepted_idx
+                        min_all_accepted_idx
                     }
                     _ => {
-                        return Err(CompactionErr::NotAllDecided(*min_all_accepted_idx));
+                        return Err(CompactionErr::NotAllDecided(min_all_accepted_idx));
                     }
                 };
                 let result = self.internal_storage.try_trim(trimmed_idx);
diff --git a/omnipaxos/src/util.rs b/omnipaxos/src/util.rs
index 561c349..7b1ddb3 100644
--- a/omnipaxos/src/util.rs
+++ b/omnipaxos/src/util.rs
@@ -183,9 +183,11 @@ where
         }
     }
 
-    pub fn get_min_all_accepted_idx(&self) -> &usize {
-        self.accepted_indexes
+    pub fn get_min_all_accepted_idx(&self, peers: &[NodeId]) -> usize {
+        peers
             .iter()
+            .chain(std::iter::once(&self.n_leader.pid))
+            .map(|pid| self.get_accepted_idx(*pid))
             .min()
             .expect("Should be all initialised to 0!")
     }
-- 
2.43.0


From 6951e45f31503713f7fdf8ee3bcef087bb15d6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:13 +0000
Subject: [PATCH 08/30] fix: a reconfiguration requested before a leader was
 known was never forwarded

---
 omnipaxos/src/sequence_paxos/follower.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/omnipaxos/src/sequence_paxos/follower.rs b/omnipaxos/src/sequence_paxos/follower.rs
index e363e33..95d7d8e 100644
--- a/omnipaxos/src/sequence_paxos/follower.rs
+++ b/omnipaxos/src/sequence_paxos/follower.rs
@@ -59,6 +59,9 @@ where
                 .expect(WRITE_ERROR_MSG);
             if self.internal_storage.get_stopsign().is_none() {
                 self.forward_buffered_proposals();
+                if let Some(ss) = self.buffered_stopsign.take() {
+                    self.forward_stopsign(ss);
+                }
             }
             let accepted = Accepted {
                 n: accsync.n,
-- 
2.43.0


From 5c2a460a39912f59dc7ca3a889fdb0e3a43a0591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:29 +0000
Subject: [PATCH 09/30] fix: a restarted server that had promised a higher
 ballot than the current leader's never rejoined

---
 omnipaxos/src/ballot_leader_election.rs | 15 ++++++++++++++-
 omnipaxos/src/omni_paxos.rs             |  1 +
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/omnipaxos/src/ballot_leader_election.rs b/omnipaxos/src/ballot_leader_election.rs
index 1a9c677..e61f7f7 100644
--- a/omnipaxos/src/ballot_leader_election.rs
+++ b/omnipaxos/src/ballot_leader_election.rs
@@ -156,6 +156,14 @@ impl BallotLeaderElection {
         self.current_ballot.priority = p;
     }
 
+    /// Seek leadership with the given ballot. Peers must see it in our heartbeats from now on, or
+    /// they don't recognise us as the owner of the round they promise.
+    pub(crate) fn set_current_ballot(&mut self, b: Ballot) {
+        self.current_ballot = b;
+        self.leader = b;
+        self.happy = true;
+    }
+
     /// Returns reference to outgoing messages
     pub(crate) fn outgoing_mut(&mut self) -> &mut Vec<BLEMessage> {
         &mut self.outgoing
@@ -259,7 +267,12 @@ impl BallotLeaderElection {
 
     fn check_takeover(&mut self) {
         if !self.happy {
-            let all_neighbors_unhappy = self.heartbeat_replies.iter().all(|r| !r.happy);
+            // A neighbor that is happy with a leader lower than ours doesn't count: we can't follow
+            // that leader, e.g., because we crashed after promising our own higher ballot.
+            let all_neighbors_unhappy = self
+                .heartbeat_replies
+                .iter()
+                .all(|r| !r.happy || r.leader < self.leader);
             let im_quorum_connected = self
                 .quorum
                 .is_prepare_quorum(self.heartbeat_replies.len() + 1);
diff --git a/omnipaxos/src/omni_paxos.rs b/omnipaxos/src/omni_paxos.rs
index d5f9005..48812e5 100644
--- a/omnipaxos/src/omni_paxos.rs
+++ b/omnipaxos/src/omni_paxos.rs
@@ -392,6 +392,7 @@ where
         let mut my_ballot = self.ble.get_current_ballot();
         let promise = self.seq_paxos.get_promise();
         my_ballot.n = promise.n + 1;
+        self.ble.set_current_ballot(my_ballot);
         self.seq_paxos.handle_leader(my_ballot);
     }
 
-- 
2.43.0


From 49eef5b65215e3d57e803b45cae6d1cffc3a776e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:07 +0000
Subject: [PATCH 10/30] fix: raising a server's priority above the current
 leader's could leave the cluster without a leader

---
 omnipaxos/src/ballot_leader_election.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/omnipaxos/src/ballot_leader_election.rs b/omnipaxos/src/ballot_leader_election.rs
index e61f7f7..d1cd265 100644
--- a/omnipaxos/src/ballot_leader_election.rs
+++ b/omnipaxos/src/ballot_leader_election.rs
@@ -234,6 +234,10 @@ impl BallotLeaderElection {
                 self.leader = max;
             }
         }
+        // Changing the priority can make our own ballot the highest one.
+        if self.current_ballot > self.leader {
+            self.leader = self.current_ballot;
+        }
     }
 
     fn update_happiness(&mut self, seq_paxos_state: &(Role, Phase)) {
-- 
2.43.0


From 8683474972a3b07f12a9d6108f97f31204ecc16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:49 +0000
Subject: [PATCH 11/30] fix: a delta snapshot in a repeated log sync of the
 same round was applied twice

---
 omnipaxos/src/sequence_paxos/leader.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/omnipaxos/src/sequence_paxos/leader.rs b/omnipaxos/src/sequence_paxos/leader.rs
index 42ba7bf..c6e1fc0 100644
--- a/omnipaxos/src/sequence_paxos/leader.rs
+++ b/omnipaxos/src/sequence_paxos/leader.rs
@@ -172,7 +172,13 @@ where
         } else {
             followers_decided_idx
         };
-        let log_sync = self.create_log_sync(followers_valid_entries_idx, followers_decided_idx);
+        // A delta snapshot only fits the decided log that the follower promised with. An earlier
+        // AcceptSync of this round might extend it before the follower gets this one.
+        let snapshot_from_idx = match self.leader_state.get_seq_num(to).session {
+            0 => followers_decided_idx,
+            _ => 0,
+        };
+        let log_sync = self.create_log_sync(followers_valid_entries_idx, snapshot_from_idx);
         self.leader_state.increment_seq_num_session(to);
         // Entries accepted from now on must not be added to an AcceptDecide of the previous session.
         self.leader_state.set_latest_accept_meta(to, None);
-- 
2.43.0


From f74e83d385bfe8d2fee799c9821733a3a16a1df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:36 +0000
Subject: [PATCH 12/30] fix: a new leader could sync with a snapshot beyond the
 decided index it then stored

---
 omnipaxos/src/util.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/omnipaxos/src/util.rs b/omnipaxos/src/util.rs
index 7b1ddb3..f893018 100644
--- a/omnipaxos/src/util.rs
+++ b/omnipaxos/src/util.rs
@@ -172,6 +172,8 @@ where
                 PromiseState::Promised(m) => Some(m.decided_idx),
                 _ => None,
             })
+            // The promise that we sync our log with might have been reset since.
+            .chain(std::iter::once(self.max_promise_meta.decided_idx))
             .max()
             .unwrap_or_default()
     }
-- 
2.43.0


From 817221842f6eb1ddcacb6645518f119a808b0bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:54 +0000
Subject: [PATCH 13/30] fix: a follower whose promise the leader reset stayed
 unsynced if its new promise was lost

---
 omnipaxos/src/sequence_paxos/follower.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/omnipaxos/src/sequence_paxos/follower.rs b/omnipaxos/src/sequence_paxos/follower.rs
index 95d7d8e..0924ff7 100644
--- a/omnipaxos/src/sequence_paxos/follower.rs
+++ b/omnipaxos/src/sequence_paxos/follower.rs
@@ -12,7 +12,9 @@ where
     /*** Follower ***/
     pub(crate) fn handle_prepare(&mut self, prep: Prepare, from: NodeId) {
         let old_promise = self.internal_storage.get_promise();
-        if old_promise < prep.n || (old_promise == prep.n && self.state.1 == Phase::Recover) {
+        // The leader also prepares us again in its round if it reset our promise meanwhile.
+        let is_reprepared = matches!(self.state.1, Phase::Recover | Phase::Accept);
+        if old_promise < prep.n || (old_promise == prep.n && is_reprepared) {
             // Flush any pending writes
             // Don't have to handle flushed entries here because we will sync with followers
             let _ = self.internal_storage.flush_batch().expect(WRITE_ERROR_MSG);
-- 
2.43.0


From 89d07e2848702d6b1665e4c43d73f9b28705e6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:33 +0000
Subject: [PATCH 14/30] fix: a serialised LRU UniCache could not be
 deserialised when empty and lost its capacity otherwise

---
 omnipaxos/src/unicache/lru_cache.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/omnipaxos/src/unicache/lru_cache.rs b/omnipaxos/src/unicache/lru_cache.rs
index 87b9ff2..fadd317 100644
--- a/omnipaxos/src/unicache/lru_cache.rs
+++ b/omnipaxos/src/unicache/lru_cache.rs
@@ -206,8 +206,8 @@ mod serialization {
         where
             S: SeqAccess<'de>,
         {
-            let size = seq.size_hint().unwrap_or(u8::MAX as usize);
-            let mut lru = LruCache::new(NonZeroUsize::new(size).unwrap());
+            // The serialized cache might be empty or not full. Its size is limited by LRUniCache.
+            let mut lru = LruCache::unbounded();
             while let Some((key, value)) = seq.next_element::<(Encodable, Encoded)>()? {
                 lru.push(key, value);
             }
-- 
2.43.0


From 3bae1df4e1e5f97018aefd87bc09dab294369719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:13 +0000
Subject: [PATCH 15/30] fix: a UniCache received from the leader was unusable
 once its server became the leader

---
 omnipaxos/src/unicache/lfu_cache.rs | 15 ++++++++++-----
 omnipaxos/src/unicache/lru_cache.rs | 18 +++++++++++++-----
 2 files changed, 23 insertions(+), 10 deletions(-)

diff --git a/omnipaxos/src/unicache/lfu_cache.rs b/omnipaxos/src/unicache/lfu_cache.rs
index f7e9530..2d30193 100644
--- a/omnipaxos/src/unicache/lfu_cache.rs
+++ b/omnipaxos/src/unicache/lfu_cache.rs
@@ -11,7 +11,10 @@ where
 {
     lfu_cache_encoder: LFUCache<Encodable, Encoded>,
     lfu_cache_decoder: LFUCache<Encoded, Encodable>,
+    /// The latest encoding used by the encoder.
     encoding: Encoded,
+    /// The latest encoding used by the decoder.
+    decoder_encoding: Encoded,
     size: usize,
 }
 
@@ -20,7 +23,7 @@ where
     Encodable: DefaultEncodable,
     Encoded: DefaultEncoded,
 {
-    /// A cloned version of the cache but *ONLY* with the decoder. The clone is used to send the cache to followers, who will only use the decoder.
+    /// A cloned version of the cache but *ONLY* with the decoder. The clone is used to send the cache to followers, who will only use the decoder. The encoder is empty and gets used if the follower becomes the leader.
     fn clone(&self) -> Self {
         let mut lfu_cache_decoder = LFUCache::with_capacity(self.size);
         self.lfu_cache_encoder
@@ -29,9 +32,10 @@ where
                 lfu_cache_decoder.set(encoded.clone(), encodable.clone());
             });
         Self {
-            lfu_cache_encoder: LFUCache::with_capacity(1),
+            lfu_cache_encoder: LFUCache::with_capacity(self.size),
             lfu_cache_decoder,
-            encoding: self.encoding.clone(),
+            encoding: Encoded::default(),
+            decoder_encoding: self.encoding.clone(),
             size: self.size,
         }
     }
@@ -47,6 +51,7 @@ where
             lfu_cache_encoder: LFUCache::with_capacity(size),
             lfu_cache_decoder: LFUCache::with_capacity(size),
             encoding: Encoded::default(),
+            decoder_encoding: Encoded::default(),
             size,
         }
     }
@@ -84,11 +89,11 @@ where
                         .set(popped_encoded, not_encodable.clone());
                 } else {
                     let one = Encoded::one();
-                    let enc = std::mem::take(&mut self.encoding);
+                    let enc = std::mem::take(&mut self.decoder_encoding);
                     let added = enc.add(one);
                     self.lfu_cache_decoder
                         .set(added.clone(), not_encodable.clone());
-                    self.encoding = added;
+                    self.decoder_encoding = added;
                 }
                 not_encodable
             }
diff --git a/omnipaxos/src/unicache/lru_cache.rs b/omnipaxos/src/unicache/lru_cache.rs
index fadd317..dc3de86 100644
--- a/omnipaxos/src/unicache/lru_cache.rs
+++ b/omnipaxos/src/unicache/lru_cache.rs
@@ -31,7 +31,10 @@ where
 {
     lru_cache_encoder: LruWrapper<Encodable, Encoded>,
     lru_cache_decoder: LruWrapper<Encoded, Encodable>,
+    /// The latest encoding used by the encoder.
     encoding: Encoded,
+    /// The latest encoding used by the decoder.
+    decoder_encoding: Encoded,
     size: usize,
 }
 
@@ -44,7 +47,10 @@ where
 {
     lru_cache_encoder: LruWrapper<Encodable, Encoded>,
     lru_cache_decoder: LruWrapper<Encoded, Encodable>,
+    /// The latest encoding used by the encoder.
     encoding: Encoded,
+    /// The latest encoding used by the decoder.
+    decoder_encoding: Encoded,
     size: usize,
 }
 
@@ -53,7 +59,7 @@ where
     Encodable: DefaultEncodable,
     Encoded: DefaultEncoded,
 {
-    /// A cloned version of the cache but *ONLY* with the decoder. The clone is used to send the cache to followers, who will only use the decoder.
+    /// A cloned version of the cache but *ONLY* with the decoder. The clone is used to send the cache to followers, who will only use the decoder. The encoder is empty and gets used if the follower becomes the leader.
     fn clone(&self) -> Self {
         let mut cloned_decoder = LruCache::new(NonZeroUsize::new(self.size).unwrap());
         self.lru_cache_encoder
@@ -64,9 +70,10 @@ where
                 cloned_decoder.push(encoded.clone(), encodable.clone());
             });
         Self {
-            lru_cache_encoder: LruWrapper(LruCache::new(NonZeroUsize::new(1).unwrap())),
+            lru_cache_encoder: LruWrapper(LruCache::new(NonZeroUsize::new(self.size).unwrap())),
             lru_cache_decoder: LruWrapper(cloned_decoder),
-            encoding: self.encoding.clone(),
+            encoding: Encoded::default(),
+            decoder_encoding: self.encoding.clone(),
             size: self.size,
         }
     }
@@ -93,6 +100,7 @@ where
             lru_cache_encoder: LruWrapper(LruCache::new(s)),
             lru_cache_decoder: LruWrapper(LruCache::new(s)),
             encoding: Encoded::default(),
+            decoder_encoding: Encoded::default(),
             size,
         }
     }
@@ -130,11 +138,11 @@ where
                         .push(popped_encoded, not_encodable.clone());
                 } else {
                     let one = Encoded::one();
-                    let enc = std::mem::take(&mut self.encoding);
+                    let enc = std::mem::take(&mut self.decoder_encoding);
                     let added = enc.add(one);
                     self.lru_cache_decoder
                         .push(added.clone(), not_encodable.clone());
-                    self.encoding = added;
+                    self.decoder_encoding = added;
                 }
                 not_encodable
             }
-- 
2.43.0


From db9e60933c2fedfa7db1e87ea000d0c5160b1d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:49 +0000
Subject: [PATCH 16/30] fix: a copy of an LFU UniCache lost the frequencies and
 the eviction order

---
 omnipaxos/src/unicache/lfu/mod.rs   | 28 ++++++++++++++++++++++++++++
 omnipaxos/src/unicache/lfu_cache.rs |  8 +-------
 2 files changed, 29 insertions(+), 7 deletions(-)

diff --git a/omnipaxos/src/unicache/lfu/mod.rs b/omnipaxos/src/unicache/lfu/mod.rs
index f280dab..b46d5b8 100644
--- a/omnipaxos/src/unicache/lfu/mod.rs
+++ b/omnipaxos/src/unicache/lfu/mod.rs
@@ -144,6 +144,34 @@ impl<K: Hash + Eq + Clone, V> LFUCache<K, V> {
         }
     }
 
+    /// Returns a cache with keys and values swapped and the same frequencies and eviction order.
+    pub fn inverted(&self) -> LFUCache<V, K>
+    where
+        V: Hash + Eq + Clone,
+    {
+        LFUCache {
+            values: self
+                .values
+                .iter()
+                .map(|(k, vc)| {
+                    let value = k.clone();
+                    let count = vc.count;
+                    (vc.value.clone(), ValueCounter { value, count })
+                })
+                .collect(),
+            frequency_bin: self
+                .frequency_bin
+                .iter()
+                .map(|(count, bin)| {
+                    let keys = bin.0.iter().map(|k| self.values[k].value.clone());
+                    (*count, LinkedHashSetWrapper(keys.collect()))
+                })
+                .collect(),
+            capacity: self.capacity,
+            min_frequency: self.min_frequency,
+        }
+    }
+
     pub fn set(&mut self, key: K, value: V) {
         if let Some(value_counter) = self.values.get_mut(&key) {
             value_counter.value = value;
diff --git a/omnipaxos/src/unicache/lfu_cache.rs b/omnipaxos/src/unicache/lfu_cache.rs
index 2d30193..0c06414 100644
--- a/omnipaxos/src/unicache/lfu_cache.rs
+++ b/omnipaxos/src/unicache/lfu_cache.rs
@@ -25,15 +25,9 @@ where
 {
     /// A cloned version of the cache but *ONLY* with the decoder. The clone is used to send the cache to followers, who will only use the decoder. The encoder is empty and gets used if the follower becomes the leader.
     fn clone(&self) -> Self {
-        let mut lfu_cache_decoder = LFUCache::with_capacity(self.size);
-        self.lfu_cache_encoder
-            .iter()
-            .for_each(|(encodable, encoded)| {
-                lfu_cache_decoder.set(encoded.clone(), encodable.clone());
-            });
         Self {
             lfu_cache_encoder: LFUCache::with_capacity(self.size),
-            lfu_cache_decoder,
+            lfu_cache_decoder: self.lfu_cache_encoder.inverted(),
             encoding: Encoded::default(),
             decoder_encoding: self.encoding.clone(),
             size: self.size,
-- 
2.43.0


From e9a592bcc62b8b30090f376404a0cfcb344c353c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:38 +0000
Subject: [PATCH 17/30] fix: with UniCache, a follower synced while the leader
 had batched entries decoded wrong values

---
 omnipaxos/src/sequence_paxos/leader.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/omnipaxos/src/sequence_paxos/leader.rs b/omnipaxos/src/sequence_paxos/leader.rs
index c6e1fc0..307096b 100644
--- a/omnipaxos/src/sequence_paxos/leader.rs
+++ b/omnipaxos/src/sequence_paxos/leader.rs
@@ -316,6 +316,10 @@ where
             );
         }
         if prom.n == self.leader_state.n_leader {
+            // Batched entries are already encoded. They must be in the log of the AcceptSync and
+            // not follow it, since they are already in the cache that is sent along.
+            #[cfg(feature = "unicache")]
+            self.flush_batch_leader();
             self.leader_state.set_promise(prom, from, false);
             self.send_accsync(from);
         }
-- 
2.43.0


From 585209a377bd1a94889ee286b76698adc85b94f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:21 +0000
Subject: [PATCH 18/30] fix: storage reads below the trimmed index panicked or
 returned wrong entries

---
 omnipaxos_storage/src/memory_storage.rs     | 6 ++++++
 omnipaxos_storage/src/persistent_storage.rs | 4 ++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/omnipaxos_storage/src/memory_storage.rs b/omnipaxos_storage/src/memory_storage.rs
index 48e451e..310b290 100644
--- a/omnipaxos_storage/src/memory_storage.rs
+++ b/omnipaxos_storage/src/memory_storage.rs
@@ -90,6 +90,9 @@ where
     }
 
     fn get_entries(&self, from: usize, to: usize) -> StorageResult<Vec<T>> {
+        if from < self.trimmed_idx || to < self.trimmed_idx {
+            return Ok(vec![]); // Entries in the interval are trimmed
+        }
         let from = from - self.trimmed_idx;
         let to = to - self.trimmed_idx;
         Ok(self.log.get(from..to).unwrap_or(&[]).to_vec())
@@ -100,6 +103,9 @@ where
     }
 
     fn get_suffix(&self, from: usize) -> StorageResult<Vec<T>> {
+        if from < self.trimmed_idx {
+            return Ok(vec![]); // Entries in the interval are trimmed
+        }
         Ok(match self.log.get((from - self.trimmed_idx)..) {
             Some(s) => s.to_vec(),
             None => vec![],
diff --git a/omnipaxos_storage/src/persistent_storage.rs b/omnipaxos_storage/src/persistent_storage.rs
index a117f46..281a9ac 100644
--- a/omnipaxos_storage/src/persistent_storage.rs
+++ b/omnipaxos_storage/src/persistent_storage.rs
@@ -334,8 +334,8 @@ where
     }
 
     fn get_entries(&self, from: usize, to: usize) -> StorageResult<Vec<T>> {
-        // Check if the log has entries up to the requested endpoint.
-        if to > self.next_log_key || from >= to {
+        // Check if the log has all entries up to the requested endpoint.
+        if to > self.next_log_key || from >= to || from < self.get_compacted_idx()? {
             return Ok(vec![]); // Do an early return
         }
 
-- 
2.43.0


From 9423e10e8025e5ed8f871fb77559e5739329a503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:04 +0000
Subject: [PATCH 19/30] fix: a failed operation on the persistent storage left
 traces and append_on_prefix was not atomic

---
 omnipaxos_storage/src/persistent_storage.rs | 73 ++++++++++-----------
 1 file changed, 36 insertions(+), 37 deletions(-)

diff --git a/omnipaxos_storage/src/persistent_storage.rs b/omnipaxos_storage/src/persistent_storage.rs
index 281a9ac..7b69947 100644
--- a/omnipaxos_storage/src/persistent_storage.rs
+++ b/omnipaxos_storage/src/persistent_storage.rs
@@ -180,6 +180,21 @@ where
             .expect("Couldn't find RocksDB log column family")
     }
 
+    /// Writes the operations in the write batch if batching all of them succeeded. Otherwise, or if
+    /// the write fails, rolls back to the state before with the given next log key.
+    fn write_batch_or_rollback(
+        &mut self,
+        batched: StorageResult<()>,
+        prev_log_key: usize,
+    ) -> StorageResult<()> {
+        let batch = std::mem::take(&mut self.write_batch);
+        let res = batched.and_then(|_| Ok(self.db.write(batch)?));
+        if res.is_err() {
+            self.next_log_key = prev_log_key;
+        }
+        res
+    }
+
     fn batch_append_entry(&mut self, entry: T) -> StorageResult<()> {
         self.write_batch.put_cf(
             self.db.cf_handle(LOG).unwrap(),
@@ -276,23 +291,22 @@ where
     T::Snapshot: Serialize + for<'a> Deserialize<'a>,
 {
     fn write_atomically(&mut self, ops: Vec<StorageOp<T>>) -> StorageResult<()> {
-        for op in ops {
-            match op {
-                StorageOp::AppendEntry(entry) => self.batch_append_entry(entry)?,
-                StorageOp::AppendEntries(entries) => self.batch_append_entries(entries)?,
-                StorageOp::AppendOnPrefix(from_idx, entries) => {
-                    self.batch_append_on_prefix(from_idx, entries)?
-                }
-                StorageOp::SetPromise(bal) => self.batch_set_promise(bal)?,
-                StorageOp::SetDecidedIndex(idx) => self.batch_set_decided_idx(idx)?,
-                StorageOp::SetAcceptedRound(bal) => self.batch_set_accepted_round(bal)?,
-                StorageOp::SetCompactedIdx(idx) => self.batch_set_compacted_idx(idx)?,
-                StorageOp::Trim(idx) => self.batch_trim(idx)?,
-                StorageOp::SetStopsign(ss) => self.batch_set_stopsign(ss)?,
-                StorageOp::SetSnapshot(snap) => self.batch_set_snapshot(snap)?,
+        let prev_log_key = self.next_log_key;
+        let batched = ops.into_iter().try_for_each(|op| match op {
+            StorageOp::AppendEntry(entry) => self.batch_append_entry(entry),
+            StorageOp::AppendEntries(entries) => self.batch_append_entries(entries),
+            StorageOp::AppendOnPrefix(from_idx, entries) => {
+                self.batch_append_on_prefix(from_idx, entries)
             }
-        }
-        Ok(self.db.write(std::mem::take(&mut self.write_batch))?)
+            StorageOp::SetPromise(bal) => self.batch_set_promise(bal),
+            StorageOp::SetDecidedIndex(idx) => self.batch_set_decided_idx(idx),
+            StorageOp::SetAcceptedRound(bal) => self.batch_set_accepted_round(bal),
+            StorageOp::SetCompactedIdx(idx) => self.batch_set_compacted_idx(idx),
+            StorageOp::Trim(idx) => self.batch_trim(idx),
+            StorageOp::SetStopsign(ss) => self.batch_set_stopsign(ss),
+            StorageOp::SetSnapshot(snap) => self.batch_set_snapshot(snap),
+        });
+        self.write_batch_or_rollback(batched, prev_log_key)
     }
 
     fn append_entry(&mut self, entry: T) -> StorageResult<()> {
@@ -307,30 +321,15 @@ where
     }
 
     fn append_entries(&mut self, entries: Vec<T>) -> StorageResult<()> {
-        let mut batch = WriteBatchWithTransaction::<false>::default();
-        for entry in entries {
-            batch.put_cf(
-                self.get_log_handle(),
-                self.next_log_key.to_be_bytes(),
-                bincode::serialize(&entry)?,
-            );
-            self.next_log_key += 1;
-        }
-        self.db.write(batch)?;
-        Ok(())
+        let prev_log_key = self.next_log_key;
+        let batched = self.batch_append_entries(entries);
+        self.write_batch_or_rollback(batched, prev_log_key)
     }
 
     fn append_on_prefix(&mut self, from_idx: usize, entries: Vec<T>) -> StorageResult<()> {
-        // Don't need to delete entries that will be overwritten.
-        let delete_idx = from_idx + entries.len();
-        if delete_idx < self.next_log_key {
-            let from_key = delete_idx.to_be_bytes();
-            let to_key = self.next_log_key.to_be_bytes();
-            self.db
-                .delete_range_cf(self.get_log_handle(), from_key, to_key)?;
-        }
-        self.next_log_key = from_idx;
-        self.append_entries(entries)
+        let prev_log_key = self.next_log_key;
+        let batched = self.batch_append_on_prefix(from_idx, entries);
+        self.write_batch_or_rollback(batched, prev_log_key)
     }
 
     fn get_entries(&self, from: usize, to: usize) -> StorageResult<Vec<T>> {
-- 
2.43.0


From b9a06f2251b0a65ce91c2e363252f9adaa1fd5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:50 +0000
Subject: [PATCH 20/30] fix: validating a configuration with huge quorum sizes
 overflowed

ClusterConfig::validate added the quorum sizes before it checked their range: with
overflow checks it panicked, without them it could report the wrong rule.
---
 omnipaxos/src/omni_paxos.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omnipaxos/src/omni_paxos.rs b/omnipaxos/src/omni_paxos.rs
index 48812e5..bef7840 100644
--- a/omnipaxos/src/omni_paxos.rs
+++ b/omnipaxos/src/omni_paxos.rs
@@ -111,7 +111,7 @@ impl ClusterConfig {
         }) = self.flexible_quorum
         {
             valid_config!(
-                read_quorum_size + write_quorum_size > num_nodes,
+                read_quorum_size.saturating_add(write_quorum_size) > num_nodes,
                 "The quorums must overlap i.e., the sum of their sizes must exceed the # of nodes"
             );
             valid_config!(
-- 
2.43.0


From 358801e7fb1a8b1c09305015ca96e7553c6ae3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:56 +0000
Subject: [PATCH 21/30] fix: a flush timeout of 0 ticks was accepted and
 batched entries were never flushed

LogicalClock::with(0) never fires, so with batching the last entries of a batch
stayed undecided for ever. Like the other timeouts it must not be 0.
---
 omnipaxos/src/omni_paxos.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/omnipaxos/src/omni_paxos.rs b/omnipaxos/src/omni_paxos.rs
index bef7840..4e50d15 100644
--- a/omnipaxos/src/omni_paxos.rs
+++ b/omnipaxos/src/omni_paxos.rs
@@ -198,6 +198,10 @@ impl ServerConfig {
             self.resend_message_tick_timeout != 0,
             "Resend message tick timeout must be greater than 0"
         );
+        valid_config!(
+            self.flush_batch_tick_timeout != 0,
+            "Flush batch tick timeout must be greater than 0"
+        );
         Ok(())
     }
 }
-- 
2.43.0


From 0fd345d5b72793ec21ae09a4ce8cf354c5c970a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:47 +0000
Subject: [PATCH 22/30] fix: the cause of an invalid-configuration error was
 the error itself

Walking the chain of sources, as error reporters do, never ended.
---
 omnipaxos/src/errors.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omnipaxos/src/errors.rs b/omnipaxos/src/errors.rs
index b5bcf0b..d4ff1f8 100644
--- a/omnipaxos/src/errors.rs
+++ b/omnipaxos/src/errors.rs
@@ -36,7 +36,7 @@ impl error::Error for ConfigError {
             ConfigError::ReadFile(ref err) => Some(err),
             #[cfg(feature = "toml_config")]
             ConfigError::Parse(ref err) => Some(err),
-            ConfigError::InvalidConfig(_) => Some(self),
+            ConfigError::InvalidConfig(_) => None,
         }
     }
 }
-- 
2.43.0


From 0c75dbb2e19e7d581a8b95e6df5775face710cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:08 +0000
Subject: [PATCH 23/30] fix: the dashboard showed the role of the previous
 report

---
 omnipaxos_ui/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omnipaxos_ui/src/lib.rs b/omnipaxos_ui/src/lib.rs
index 4e5d576..527b2c4 100644
--- a/omnipaxos_ui/src/lib.rs
+++ b/omnipaxos_ui/src/lib.rs
@@ -167,9 +167,9 @@ impl OmniPaxosUI {
             let ballot = op_states.current_ballot;
             self.app.current_node.ballot_number = ballot.n;
             self.app.set_decided_idx(op_states.decided_idx);
+            self.update_leader(&op_states);
             self.update_progress(&op_states);
             self.update_active_peers(&op_states);
-            self.update_leader(&op_states);
             self.update_ui();
         }
     }
-- 
2.43.0


From cedf125449376ecbb3e400b17d7181b5b6f07397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:18 +0000
Subject: [PATCH 24/30] fix: starting a dashboard after one had been started
 before panicked

---
 omnipaxos_ui/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omnipaxos_ui/src/lib.rs b/omnipaxos_ui/src/lib.rs
index 527b2c4..d5e1b05 100644
--- a/omnipaxos_ui/src/lib.rs
+++ b/omnipaxos_ui/src/lib.rs
@@ -47,7 +47,8 @@ impl OmniPaxosUI {
     /// Start the UI, do nothing if already started
     pub fn start(&mut self) {
         if !self.started {
-            init_logger(LevelFilter::Trace).unwrap();
+            // Fails if a logger is already set, e.g., because a UI was started before.
+            let _ = init_logger(LevelFilter::Trace);
             set_default_level(LevelFilter::Debug);
             let mut stdout = stdout();
             crossterm::execute!(stdout, EnterAlternateScreen, EnableMouseCapture).unwrap();
-- 
2.43.0


From 6338e28698d489f64a8d2b878a0cfecdf1615898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:40 +0000
Subject: [PATCH 25/30] fix: a dashboard that was started again drew only what
 had changed since it was stopped

---
 omnipaxos_ui/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/omnipaxos_ui/src/lib.rs b/omnipaxos_ui/src/lib.rs
index d5e1b05..1cd8920 100644
--- a/omnipaxos_ui/src/lib.rs
+++ b/omnipaxos_ui/src/lib.rs
@@ -54,6 +54,8 @@ impl OmniPaxosUI {
             crossterm::execute!(stdout, EnterAlternateScreen, EnableMouseCapture).unwrap();
             enable_raw_mode().unwrap();
             self.terminal.hide_cursor().unwrap();
+            // The screen is empty: redraw everything, not only what changed since the last stop.
+            self.terminal.clear().unwrap();
             self.update_ui();
             self.started = true;
             debug!(Self::logger(), "UI started with slog");
-- 
2.43.0


From c7aebaced4e881c9a71c986b62485dc05cf3c89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:05 +0000
Subject: [PATCH 26/30] fix: the dashboard never returned from drawing the log
 in a narrow terminal

---
 omnipaxos_ui/src/render.rs | 16 ++++++++++++----
 omnipaxos_ui/src/util.rs   |  1 +
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/omnipaxos_ui/src/render.rs b/omnipaxos_ui/src/render.rs
index d900a4e..431a6f3 100644
--- a/omnipaxos_ui/src/render.rs
+++ b/omnipaxos_ui/src/render.rs
@@ -70,8 +70,7 @@ where
         .split(chunks[3]);
 
     // Logger
-    let logger_w = draw_logging();
-    f.render_widget(logger_w, body_chunks[0]);
+    render_logging(f, body_chunks[0]);
 
     // Table
     let table = draw_follower_table(app, Borders::ALL);
@@ -119,8 +118,7 @@ where
         .split(chunks[3]);
 
     // Logger
-    let logger_w = draw_logging();
-    f.render_widget(logger_w, body_chunks[0]);
+    render_logging(f, body_chunks[0]);
 
     // Info
     draw_leader_info(f, app, chunks[2]);
@@ -293,6 +291,16 @@ where
     f.render_widget(node_info_text, chunks[1]);
 }
 
+fn render_logging<B>(f: &mut Frame<B>, area: Rect)
+where
+    B: Backend,
+{
+    // TuiLoggerWidget indents wrapped lines and never returns (or panics) if nothing fits after it.
+    if area.width >= UI_LOGGING_MIN_WIDTH {
+        f.render_widget(draw_logging(), area);
+    }
+}
+
 fn draw_logging<'a>() -> TuiLoggerWidget<'a> {
     // Smart logging window
     // let tui_sm = TuiLoggerSmartWidget::default()
diff --git a/omnipaxos_ui/src/util.rs b/omnipaxos_ui/src/util.rs
index b866634..f0cc769 100644
--- a/omnipaxos_ui/src/util.rs
+++ b/omnipaxos_ui/src/util.rs
@@ -10,6 +10,7 @@ pub(crate) mod defaults {
     pub(crate) const UI_NODE_INFO_TITLE: &str = "Current node information";
     pub(crate) const UI_CLUSTER_INFO_TITLE: &str = "Cluster information";
     pub(crate) const UI_LOGGING_TITLE: &str = "System log";
+    pub(crate) const UI_LOGGING_MIN_WIDTH: u16 = 12;
     pub(crate) const THROUGHPUT_DATA_SIZE: usize = 200;
     pub(crate) const UI_BARCHART_WIDTH: u16 = 3;
     pub(crate) const UI_BARCHART_GAP: u16 = 1;
-- 
2.43.0


From 73bd45e2d82f9bc89847b81ccf14c62af2d1fb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:11 +0000
Subject: [PATCH 27/30] fix: the dashboard of a leader panicked in a terminal
 of a few columns

---
 omnipaxos_ui/src/render.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/omnipaxos_ui/src/render.rs b/omnipaxos_ui/src/render.rs
index 431a6f3..cd0ac2a 100644
--- a/omnipaxos_ui/src/render.rs
+++ b/omnipaxos_ui/src/render.rs
@@ -481,6 +481,10 @@ fn draw_progress_bar<B>(f: &mut Frame<B>, cell: Rect, ratio: f64)
 where
     B: Backend,
 {
+    if cell.width == 0 {
+        // Gauge panics if it has no columns
+        return;
+    }
     let chunks = Layout::default()
         .constraints(
             [
-- 
2.43.0


From 53487d590579809a78ae5d59bced93f03a0542c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:39 +0000
Subject: [PATCH 28/30] fix: a restarted server counted late heartbeat replies
 to its previous incarnation twice

---
 omnipaxos/src/ballot_leader_election.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/omnipaxos/src/ballot_leader_election.rs b/omnipaxos/src/ballot_leader_election.rs
index d1cd265..c4dfde8 100644
--- a/omnipaxos/src/ballot_leader_election.rs
+++ b/omnipaxos/src/ballot_leader_election.rs
@@ -306,6 +306,9 @@ impl BallotLeaderElection {
 
     fn handle_reply(&mut self, rep: HeartbeatReply) {
         if rep.round == self.hb_round && rep.ballot.config_id == self.configuration_id {
+            // After a restart, late replies to our previous incarnation can have the same round.
+            self.heartbeat_replies
+                .retain(|r| r.ballot.pid != rep.ballot.pid);
             self.heartbeat_replies.push(rep);
         }
     }
-- 
2.43.0


From b8518eeed9bfa4914a283be648bf999d740d1283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:21 +0000
Subject: [PATCH 29/30] fix: the components of a server overwrote each other's
 records in the default log file

---
 omnipaxos/src/omni_paxos.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/omnipaxos/src/omni_paxos.rs b/omnipaxos/src/omni_paxos.rs
index 4e50d15..b732baa 100644
--- a/omnipaxos/src/omni_paxos.rs
+++ b/omnipaxos/src/omni_paxos.rs
@@ -10,6 +10,8 @@ use crate::{
     },
     utils::{ui, ui::ClusterState},
 };
+#[cfg(feature = "logging")]
+use crate::utils::logger::create_logger;
 #[cfg(any(feature = "toml_config", feature = "serde"))]
 use serde::Deserialize;
 #[cfg(feature = "serde")]
@@ -64,6 +66,10 @@ impl OmniPaxosConfig {
         B: Storage<T>,
     {
         self.validate()?;
+        #[cfg(feature = "logging")]
+        if self.server_config.custom_logger.is_none() {
+            return self.with_shared_logger().build(storage);
+        }
         // Use stored ballot as initial BLE leader
         let recovered_leader = storage
             .get_promise()
@@ -78,6 +84,19 @@ impl OmniPaxosConfig {
             seq_paxos: SequencePaxos::with(self.into(), storage),
         })
     }
+
+    /// Lets all components of the server use one default logger. With one each, they would truncate
+    /// the log file and overwrite each other's records.
+    #[cfg(feature = "logging")]
+    fn with_shared_logger(mut self) -> Self {
+        let path = self
+            .server_config
+            .logger_file_path
+            .clone()
+            .unwrap_or_else(|| format!("logs/paxos_{}.log", self.server_config.pid));
+        self.server_config.custom_logger = Some(create_logger(&path));
+        self
+    }
 }
 
 /// Configuration for an `OmniPaxos` cluster.
-- 
2.43.0


From bd3c23f4c22d6e4dbbe1bd48c5fd2ede4ddfd843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:25 +0000
Subject: [PATCH 30/30] fix: a cached field without its own policy took over
 the one of the field before

The derive macro kept the cache type of the previous field, so after a field
with cache(lfu) all following ones that leave the policy out used LFU instead
of the documented default LRU.
---
 omnipaxos_macros/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omnipaxos_macros/src/lib.rs b/omnipaxos_macros/src/lib.rs
index 421b10c..28de883 100644
--- a/omnipaxos_macros/src/lib.rs
+++ b/omnipaxos_macros/src/lib.rs
@@ -68,7 +68,6 @@ pub fn unicache_entry_derive(input: TokenStream) -> TokenStream {
     let (impl_generics, ty_generics, where_clause) = ast.generics.split_for_impl();
 
     let snapshot_type = get_snapshot_type(&ast);
-    let mut cache_type = None;
 
     match ast.data {
         syn::Data::Struct(data) => {
@@ -94,6 +93,7 @@ pub fn unicache_entry_derive(input: TokenStream) -> TokenStream {
                 });
                 field_names.push(name);
                 if let Some(attr) = attr {
+                    let mut cache_type = None;
                     let mut encoding_type = None;
                     let mut cache_size = None;
                     attr.parse_nested_meta(|meta| {
-- 
2.43.0

