LRU = "omnipaxos/src/unicache/lru_cache.rs"
LFM = "omnipaxos/src/unicache/lfu/mod.rs"

seed("s20-phase-flag", "C20",
  [(OP, "            let is_accepted = self.seq_paxos.get_state().1 == Phase::Accept;\n", "            let is_accepted = self.seq_paxos.get_state().1 != Phase::Prepare;\n")],
  '''
fn main() {
    let mut s: Sim<E> = Sim::new(3);
    s.lead(1);
    // 2 and 3 promise, but server 1 never gets a promise
    s.one(1, 2);
    s.one(1, 3);
    s.lose(2, 1);
    s.lose(3, 1);
    assert_eq!(s.op(2).get_current_leader(), Some((1, false)));
    s.crash(2);
    s.start(2);
    // server 1 is still preparing
    assert_eq!(s.op(1).get_current_leader(), Some((1, false)));
    assert_eq!(s.op(2).get_current_leader(), Some((1, false)));
}
''',
  "a follower that promised a candidate restarts before the candidate completed its prepare phase",
  "the restarted follower reports that the candidate is an established leader")

seed("s21-kept-acks", "C12",
  [(LEAD, "            self.leader_state =\n                LeaderState::with(n, self.leader_state.max_pid, self.leader_state.quorum);\n",
          "            let accepted = std::mem::take(&mut self.leader_state.accepted_indexes);\n            self.leader_state =\n                LeaderState::with(n, self.leader_state.max_pid, self.leader_state.quorum);\n            // Followers keep what they have accepted before\n            self.leader_state.accepted_indexes = accepted;\n")],
  '''
fn main() {
    let mut s: Sim<E> = Sim::new(5);
    s.lead(1);
    s.deliver();
    for i in [3, 4, 5] {
        s.cut(1, i);
    }
    for v in [10, 11, 12] {
        s.append(1, v);
    }
    s.deliver(); // accepted by 1 and 2 only
    assert_eq!(s.decided(1), Vec::<u32>::new());
    // 3 leads with 4 and 5, without those entries
    s.cut(2, 3);
    s.cut(2, 4);
    s.cut(2, 5);
    s.cut(1, 2);
    s.lead(3);
    s.deliver();
    s.append(3, 20);
    s.deliver();
    assert_eq!(s.decided(3), vec![20]);
    // 1 comes back and leads with 3, 4 and 5
    for i in [3, 4, 5] {
        s.heal(1, i);
    }
    s.deliver();
    s.lead(1);
    s.deliver();
    for i in [3, 5] {
        s.cut(1, i);
    }
    // only 1 and 4 accept these
    s.append(1, 21);
    s.append(1, 22);
    s.deliver();
    assert_eq!(s.decided(1), vec![20], "decided by two of five servers");
}
''',
  "a server that leads twice; in its first term a follower acknowledged entries that were then overwritten by another leader, in the second term that follower is unreachable",
  "acknowledgements of an earlier term of the same leader count in its next term, so entries are decided with fewer acceptors than the quorum")

seed("s22-delta-undecided", "C07",
  [(IST, "        let log_decided_idx = self.get_decided_idx_without_stopsign();\n        self.create_snapshot(log_decided_idx)\n",
         "        let log_len = self.storage.get_log_len()?;\n        self.create_snapshot(self.get_compacted_idx() + log_len)\n")],
  '''
fn main() {
    let mut s: Sim<S> = Sim::new(3);
    s.lead(1);
    s.deliver();
    s.append(1, 10);
    s.deliver();
    assert_eq!(s.decided(3), vec![10]);
    // 3 accepts 11 but does not learn that it is decided
    s.append(1, 11);
    s.one(1, 3);
    s.q.remove(&(3, 1));
    s.one(1, 2);
    s.one(2, 1);
    s.lose(1, 3);
    s.cut(1, 3);
    s.append(1, 12);
    s.deliver();
    assert_eq!(s.decided(1), vec![10, 11, 12]);
    // 2 leads and brings 3 up to date with a delta snapshot
    s.lead(2);
    s.deliver();
    s.append(2, 13);
    s.deliver();
    assert_eq!(s.decided(3), vec![10, 11, 12, 13]);
}
''',
  "a follower with accepted but undecided entries that is brought up to date with a delta snapshot by the next leader",
  "the follower merges the delta into a snapshot of its whole log, so its undecided entries are applied twice")

seed("s23-session-order", "C10",
  [(UT, "        } else if msg_seq_num <= *self {\n            MessageStatus::Outdated\n", "        } else if msg_seq_num.counter <= self.counter {\n            MessageStatus::Outdated\n")],
  '''
fn main() {
    let mut c = config(3);
    c.server_config.election_tick_timeout = 1000;
    let mut s: Sim<E> = Sim::with(c);
    s.lead(1);
    s.one(1, 2);
    s.one(2, 1); // 1 leads with 2
    s.one(1, 3); // 3 promises
    for _ in 0..3 {
        s.tick(3); // the promise is resent
    }
    s.one(3, 1); // first AcceptSync
    for v in [10, 11, 12] {
        s.append(1, v);
        s.deliver_among(&[1, 2]);
    }
    s.one(3, 1); // second AcceptSync
    s.deliver();
    s.append(1, 13);
    s.deliver();
    for _ in 0..12 {
        for i in 1..=3 {
            s.tick(i);
        }
        s.deliver();
    }
    assert_eq!(s.decided(1), vec![10, 11, 12, 13]);
    assert_eq!(s.decided(3), vec![10, 11, 12, 13]);
}
''',
  "a promise that is resent because its first copy is slow, entries proposed between the leader's two answers, and nothing proposed for a while after",
  "a message of a later synchronisation session with a lower counter is taken for an old one, so the follower never notices that it has to resynchronise and stays behind")

seed("s24-keep-forwarded", "C03",
  [(SP, "            let pf = PaxosMsg::ProposalForward(entries);\n", "            if self.state.1 == Phase::Prepare {\n                // The leader is not established yet: propose again once it has synchronised us\n                self.buffered_proposals.extend(entries.iter().cloned());\n            }\n            let pf = PaxosMsg::ProposalForward(entries);\n")],
  '''
fn main() {
    let mut s: Sim<E> = Sim::new(3);
    s.lead(1);
    s.deliver();
    s.append(2, 20);
    s.deliver();
    s.lead(1);
    s.one(1, 3); // 3 has promised, but is not synchronised yet
    s.append(3, 30);
    s.deliver();
    s.append(2, 21);
    s.deliver();
    assert_eq!(s.decided(2), vec![20, 30, 21]);
}
''',
  "a proposal at a follower between its promise and its synchronisation",
  "the proposal is forwarded at once and again after the synchronisation, so it is decided twice")

seed("s25-stale-stopsign", "C05",
  [(IST, "                None if self.state_cache.stopsign.is_some() => {\n", "                None if self.state_cache.stopsign.is_some()\n                    && decided_idx < self.state_cache.accepted_idx =>\n                {\n")],
  '''
use omnipaxos::*;
fn main() {
    let mut s: Sim<E> = Sim::new(3);
    s.lead(1);
    s.deliver();
    s.cut(1, 2);
    s.cut(1, 3);
    // a stop-sign that only server 1 accepts
    let c = ClusterConfig { configuration_id: 2, nodes: vec![1, 2, 3, 4], ..Default::default() };
    s.op(1).reconfigure(c, None).unwrap_or_else(|_| panic!());
    s.pump(1);
    s.lead(2);
    s.deliver();
    s.append(2, 20);
    s.deliver();
    s.heal(1, 2);
    s.heal(1, 3);
    s.deliver();
    assert_eq!(s.decided(2), vec![20]);
    assert!(s.op(1).is_reconfigured().is_none(), "stopped without a decided stop-sign");
    assert_eq!(s.decided(1), vec![20]);
    s.append(1, 11);
    s.deliver();
    assert_eq!(s.decided(1), vec![20, 11]);
}
''',
  "a stop-sign accepted only by a leader that is then replaced, and synchronised again when the new leader's decided log is as long as its own",
  "the overwritten stop-sign stays in the log of the old leader, which considers the configuration stopped")

seed("s26-snapshot-two-writes", "C06",
  [(IST, "            self.storage.write_atomically(vec![\n                StorageOp::Trim(new_compacted_idx),\n                StorageOp::SetCompactedIdx(new_compacted_idx),\n                StorageOp::SetSnapshot(Some(snapshot)),\n            ])?;\n",
         "            // Only trim once the snapshot is safely stored\n            self.storage.set_snapshot(Some(snapshot))?;\n            self.storage.write_atomically(vec![\n                StorageOp::Trim(new_compacted_idx),\n                StorageOp::SetCompactedIdx(new_compacted_idx),\n            ])?;\n")],
  '''
fn main() {
    for k in 0..4 {
        let mut s: Sim<S> = Sim::new(3);
        s.lead(1);
        s.deliver();
        for v in [10, 11, 12] {
            s.append(1, v);
        }
        s.deliver();
        {
            let mut i = s.st[&2].0.borrow_mut();
            i.writes = 0;
            i.crash_at = Some(k);
        }
        let op = s.ops.get_mut(&2).unwrap();
        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| op.snapshot(Some(2), true)));
        s.st[&2].0.borrow_mut().crash_at = None;
        s.crash(2);
        s.start(2);
        s.op(2).snapshot(None, true).unwrap_or_else(|e| panic!("{e:?}"));
        assert_eq!(s.decided(2), vec![10, 11, 12]);
    }
}
''',
  "a crash between the two writes of taking a snapshot, and another snapshot after the restart",
  "after the restart the stored snapshot already contains entries that are still in the log; the next snapshot applies them twice")

seed("s27-promise-counts", "C01",
  [(UT, "        self.promises_meta[Self::pid_to_idx(from)] = PromiseState::Promised(promise_meta);\n",
        "        if prom.n_accepted == self.max_promise_meta.n_accepted {\n            // Same round as the log that will be adopted, so this is a prefix of it\n            self.accepted_indexes[Self::pid_to_idx(from)] = prom.accepted_idx;\n        }\n        self.promises_meta[Self::pid_to_idx(from)] = PromiseState::Promised(promise_meta);\n")],
  '''
fn main() {
    let mut s: Sim<E> = Sim::new(5);
    s.lead(1);
    s.deliver();
    // 10 of leader 1 reaches only 2
    s.append(1, 10);
    s.one(1, 2);
    s.q.clear();
    // 5 leads with 3 and 4; 50 reaches nobody
    for a in [1, 2] {
        for b in [3, 4, 5] {
            s.cut(a, b);
        }
    }
    s.lead(5);
    for i in [3, 4] {
        s.one(5, i);
        s.one(i, 5);
    }
    s.append(5, 50);
    s.q.clear();
    for i in [3, 4] {
        s.cut(5, i);
    }
    // 1 leads again with 2 and 3
    for b in [3, 4] {
        s.cut.remove(&(1, b));
    }
    s.lead(1);
    s.lead(1);
    s.one(1, 2);
    s.one(1, 2);
    s.one(1, 3);
    s.one(1, 3);
    while s.one(2, 1) {}
    while s.one(3, 1) {}
    // 3 accepts 10, the synchronisation of 2 is slow
    while s.one(1, 3) {}
    while s.one(3, 1) {}
    let d1 = s.decided(1);
    s.q.clear();
    // 5 leads again with 2 and 4
    s.crash(1);
    s.crash(3);
    s.cut.clear();
    s.lead(5);
    s.lead(5);
    s.lead(5);
    s.deliver_among(&[2, 4, 5]);
    let d5 = s.decided(5);
    for k in 0..d1.len().min(d5.len()) {
        assert_eq!(d1[k], d5[k], "servers 1 and 5 decided differently");
    }
}
''',
  "five servers: an entry of an old round that the new leader adopts, a follower that has it from the old round but is slow to be synchronised, and a rival with an entry of a round in between",
  "what a follower accepted in an earlier round counts as accepted in the new one, so an entry is decided that a later leader overwrites")

seed("s28-compacted-index", "C09",
  [(IST, "                return Ok(Some(vec![self.create_compacted_entry(compacted_idx)?]))\n", "                return Ok(Some(vec![self.create_compacted_entry(to_idx)?]))\n")],
  '''
use omnipaxos::util::LogEntry;
fn main() {
    let mut s: Sim<E> = Sim::new(3);
    s.lead(1);
    s.deliver();
    for v in [10, 11, 12] {
        s.append(1, v);
    }
    s.deliver();
    s.op(1).trim(Some(3)).unwrap_or_else(|e| panic!("{e:?}"));
    for r in [0..1, 0..2, 1..2, 0..3] {
        let e = s.op(1).read_entries(r.clone()).unwrap();
        assert!(e.len() == 1 && matches!(e[0], LogEntry::Trimmed(3)), "{r:?}: {e:?}");
    }
}
''',
  "a read of a range that ends inside the compacted prefix",
  "the trimmed or snapshot marker carries the end of the range instead of the compacted index")

seed("s29-flush-own-ack", "C13",
  [(LEAD, "            .flush_batch_and_get_entries()\n            .expect(WRITE_ERROR_MSG);\n        if let Some(metadata) = accepted_metadata {\n            self.leader_state\n                .set_accepted_idx(self.pid, metadata.accepted_idx);\n            self.send_acceptdecide(metadata);\n",
          "            .flush_batch_and_get_entries()\n            .expect(WRITE_ERROR_MSG);\n        if let Some(metadata) = accepted_metadata {\n            self.send_acceptdecide(metadata);\n")],
  '''
fn main() {
    let mut c = config(3);
    c.server_config.batch_size = 2;
    c.server_config.election_tick_timeout = 1000;
    let mut s: Sim<E> = Sim::with(c);
    s.lead(1);
    s.deliver();
    s.cut(1, 3);
    s.cut(2, 3);
    s.append(1, 10);
    s.append(1, 11);
    s.append(1, 12);
    for _ in 0..6 {
        s.tick(1);
        s.tick(2);
        s.deliver();
    }
    assert_eq!(s.decided(1), vec![10, 11, 12]);
}
''',
  "entries flushed by the timer at the leader while only as many followers respond as the quorum needs",
  "the leader does not count itself as an acceptor of entries flushed by the timer, so they are not decided")

seed("s31-pid-before-priority", "C11",
  [(BLE, "(self.n, self.priority, self.pid).cmp(&(other.n, other.priority, other.pid))", "(self.n, self.pid, self.priority).cmp(&(other.n, other.pid, other.priority))")],
  '''
fn main() {
    let mut s: Sim<E> = Sim::new(3);
    s.ble = true;
    for i in 1..=3 {
        s.crash(i);
        s.start(i);
    }
    s.op(1).set_priority(5);
    s.deliver();
    for _ in 0..6 {
        for i in 1..=3 {
            s.tick(i);
        }
        s.deliver();
    }
    for i in 1..=3 {
        assert_eq!(s.op(i).get_current_leader().map(|x| x.0), Some(1));
    }
}
''',
  "simultaneous candidates where the one with the highest priority does not have the highest id",
  "the configured priority is only considered between ballots of the same server")

seed("s36-promise-without-stopsign", "C05",
  [(FOL, "            let accepted_idx = self.internal_storage.get_accepted_idx();\n            let log_sync = if", "            let accepted_idx = self.internal_storage.get_accepted_idx_without_stopsign();\n            let log_sync = if")],
  '''
use omnipaxos::*;
fn main() {
    let mut s: Sim<E> = Sim::new(3);
    s.lead(1);
    s.deliver();
    s.cut(1, 3);
    let c = ClusterConfig { configuration_id: 2, nodes: vec![1, 2, 3, 4], ..Default::default() };
    s.op(1).reconfigure(c, None).unwrap_or_else(|_| panic!());
    s.pump(1);
    s.one(1, 2);
    s.one(2, 1);
    assert!(s.op(1).is_reconfigured().is_some());
    s.q.clear();
    s.cut(1, 2);
    // 3 leads with 2, which has accepted the decided stop-sign
    s.lead(3);
    s.deliver();
    let _ = s.op(3).append(E(30));
    s.pump(3);
    s.deliver();
    assert!(s.op(3).is_reconfigured().is_some(), "{:?}", s.decided(3));
}
''',
  "a stop-sign decided with one follower, then a new leader that has the same log but not the stop-sign",
  "a promise does not count the stop-sign, so the new leader does not take over a decided stop-sign and decides other entries")

seed("s38-no-prepare-after-stopsign", "C10",
  [(LEAD, "                            self.send_accept_stopsign(follower, ss.clone(), true);\n                        }\n                    }\n                }\n                // Resend Prepare\n",
          "                            self.send_accept_stopsign(follower, ss.clone(), true);\n                        }\n                    }\n                    return;\n                }\n                // Resend Prepare\n")],
  '''
use omnipaxos::*;
fn main() {
    let mut c = config(3);
    c.server_config.election_tick_timeout = 1000;
    let mut s: Sim<E> = Sim::with(c);
    s.lead(1);
    s.lose(1, 3);
    s.deliver();
    let c = ClusterConfig { configuration_id: 2, nodes: vec![1, 2, 3, 4], ..Default::default() };
    s.op(1).reconfigure(c, None).unwrap_or_else(|_| panic!());
    s.pump(1);
    s.deliver();
    assert!(s.op(1).is_reconfigured().is_some());
    for _ in 0..30 {
        for i in 1..=3 {
            s.tick(i);
        }
        s.deliver();
    }
    assert!(s.op(3).is_reconfigured().is_some(), "server 3 never learns of the decided stop-sign");
}
''',
  "a server that has missed everything so far, including the Prepare, when a stop-sign is decided by the others",
  "a leader whose log ends with a stop-sign no longer resends Prepare, so a server that was not reachable during the prepare phase is never brought up to date")

seed("s39-old-heartbeats", "C20",
  [(BLE, "        self.prev_replies = std::mem::take(&mut self.heartbeat_replies);\n", "        if !self.heartbeat_replies.is_empty() {\n            self.prev_replies = std::mem::take(&mut self.heartbeat_replies);\n        }\n")],
  '''
fn main() {
    let mut s: Sim<E> = Sim::new(3);
    s.ble = true;
    for _ in 0..4 {
        for i in 1..=3 {
            s.tick(i);
        }
        s.deliver();
    }
    assert_eq!(s.op(2).get_ui_states().heartbeats.len(), 2);
    s.cut(1, 2);
    s.cut(2, 3);
    for _ in 0..4 {
        for i in 1..=3 {
            s.tick(i);
        }
        s.deliver();
    }
    assert_eq!(s.op(2).get_ui_states().heartbeats.len(), 0, "an isolated server lists heartbeats");
    assert_eq!(s.op(1).get_ui_states().heartbeats.len(), 1);
}
''',
  "a server that loses all its connections",
  "an isolated server keeps reporting the heartbeats of its last connected round")

seed("s14-memory-trim-index", "C14",
  [(MEM, "        self.trimmed_idx = trimmed_idx;\n", "        self.trimmed_idx += to_trim;\n")],
  '''
use omnipaxos::storage::Storage;
use omnipaxos_storage::memory_storage::MemoryStorage;
fn main() {
    let mut m: MemoryStorage<E> = MemoryStorage::default();
    m.append_entries(vec![E(10), E(11)]).unwrap();
    // a snapshot of five entries replaces the shorter log
    m.trim(5).unwrap();
    m.set_compacted_idx(5).unwrap();
    m.append_on_prefix(5, vec![E(15), E(16)]).unwrap();
    assert_eq!(m.get_log_len().unwrap(), 2);
    assert_eq!(m.get_entries(5, 7).unwrap(), vec![E(15), E(16)]);
    assert_eq!(m.get_suffix(6).unwrap(), vec![E(16)]);
}
''',
  "trimming past the end of the log, as when a snapshot of a longer log is installed",
  "the in-memory storage translates indexes by the number of removed entries instead of the trimmed index")

PERS = '''
use omnipaxos::storage::*;
use omnipaxos_storage::persistent_storage::*;
fn open(d: &str) -> PersistentStorage<X> {
    PersistentStorage::open(PersistentStorageConfig::with_path(d.to_string()))
}
#[derive(Clone, Debug, PartialEq, serde::Deserialize)]
pub struct X(u32);
impl serde::Serialize for X {
    fn serialize<Z: serde::Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> {
        if self.0 == 666 {
            return Err(serde::ser::Error::custom("cannot be stored"));
        }
        z.serialize_newtype_struct("X", &self.0)
    }
}
impl Entry for X {
    type Snapshot = NoSnapshot;
}
'''
seed("s14b-last-stale-entry", "C14",
  [(PER, "        if delete_idx < self.next_log_key {\n            let from_key = delete_idx.to_be_bytes();\n            let to_key = self.next_log_key.to_be_bytes();\n            let log = self.db.cf_handle(LOG).unwrap();\n",
         "        if delete_idx + 1 < self.next_log_key {\n            let from_key = delete_idx.to_be_bytes();\n            let to_key = self.next_log_key.to_be_bytes();\n            let log = self.db.cf_handle(LOG).unwrap();\n")],
  PERS + '''
fn main() {
    let d = std::env::current_dir().unwrap().join("db").to_str().unwrap().to_string();
    let mut p = open(&d);
    p.append_entries(vec![X(1), X(2), X(3)]).unwrap();
    p.append_on_prefix(1, vec![X(4)]).unwrap();
    assert_eq!(p.get_log_len().unwrap(), 2);
    drop(p);
    let p = open(&d);
    assert_eq!(p.get_log_len().unwrap(), 2);
    assert_eq!(p.get_suffix(0).unwrap(), vec![X(1), X(4)]);
}
''',
  "overwriting a suffix so that the log becomes exactly one entry shorter, then reopening the database",
  "the last entry of the overwritten suffix stays in the database and is part of the log after it is reopened",
  {"storage_features": '"persistent_storage"'})

seed("s15-snapshot-direct", "C15",
  [(PER, "        let s = bincode::serialize(&snapshot)?;\n        self.write_batch.put(SNAPSHOT, s);\n        Ok(())\n",
         "        // Snapshots can be large, so they are not buffered\n        let s = bincode::serialize(&snapshot)?;\n        self.db.put(SNAPSHOT, s)?;\n        Ok(())\n")],
  PERS.replace("type Snapshot = NoSnapshot;", "type Snapshot = XS;") + '''
#[derive(Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
pub struct XS(Vec<u32>);
impl Snapshot<X> for XS {
    fn create(e: &[X]) -> Self {
        XS(e.iter().map(|x| x.0).collect())
    }
    fn merge(&mut self, d: Self) {
        self.0.extend(d.0)
    }
    fn use_snapshots() -> bool {
        true
    }
}
fn main() {
    let d = std::env::current_dir().unwrap().join("db").to_str().unwrap().to_string();
    let mut p = open(&d);
    p.append_entries(vec![X(1), X(2)]).unwrap();
    let group = vec![
        StorageOp::Trim(2),
        StorageOp::SetCompactedIdx(2),
        StorageOp::SetSnapshot(Some(XS(vec![1, 2]))),
        StorageOp::AppendOnPrefix(2, vec![X(666)]),
    ];
    assert!(p.write_atomically(group).is_err());
    drop(p);
    let p = open(&d);
    assert_eq!(p.get_suffix(0).unwrap(), vec![X(1), X(2)]);
    assert_eq!(p.get_snapshot().unwrap(), None, "part of the failed group is stored");
}
''',
  "a failure or crash in the middle of an atomic group that contains a snapshot",
  "the snapshot is written outside the atomic group, so it can be stored without the trim that belongs to it",
  {"storage_features": '"persistent_storage"'})

UNI = {"features": ', "unicache"'}
seed("s16-lru-peek", "C16",
  [(LRU, "        match self.lru_cache_encoder.get(field) {\n", "        match self.lru_cache_encoder.peek(field) {\n")],
  '''
use omnipaxos::unicache::{lru_cache::LRUniCache, FieldCache};
fn main() {
    let mut l: LRUniCache<String, u8> = LRUniCache::new(2);
    let mut f = l.clone();
    for v in ["a", "b", "a", "c", "c", "a", "b"] {
        let e = l.try_encode(&v.to_string());
        assert_eq!(f.decode(e), v);
    }
}
''',
  "a value that is used again before the cache is full and another one evicted",
  "using a cached value does not make it recent at the leader, but does at the followers, so they evict different values", UNI)

seed("s16b-lfu-min-frequency", "C16",
  [(LFM, "            if count == self.min_frequency && bin.0.is_empty() {\n", "            if bin.0.is_empty() {\n")],
  '''
use omnipaxos::unicache::{lfu_cache::LFUniCache, FieldCache};
fn main() {
    let mut l: LFUniCache<String, u8> = LFUniCache::new(2);
    let mut f = l.clone();
    for v in ["a", "a", "b", "a", "c", "b", "a"] {
        let e = l.try_encode(&v.to_string());
        assert_eq!(f.decode(e), v);
    }
}
''',
  "a cached value that was used more often than another one is used once more before an eviction",
  "the lowest use count is lost track of, and the next eviction finds nothing to evict", UNI)

seed("s16c-cache-first-session", "C16",
  [(FOL, "            self.internal_storage.set_unicache(accsync.unicache);\n", "            if accsync.seq_num.session == 1 {\n                self.internal_storage.set_unicache(accsync.unicache);\n            }\n")],
  '''
use omnipaxos::{macros::UniCacheEntry, storage::*, unicache::*, util::NodeId};
use serde::{Deserialize, Serialize};
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, UniCacheEntry)]
pub struct U {
    id: u32,
    #[unicache(encoding(u8), size(2))]
    word: String,
}
impl Val for U {
    fn mk(v: u32) -> Self {
        U { id: v, word: format!("w{}", v % 10) }
    }
    fn get(&self) -> u32 {
        assert_eq!(self.word, format!("w{}", self.id % 10));
        self.id
    }
    fn snap(_: &NoSnapshot) -> Vec<u32> {
        vec![]
    }
}
fn main() {
    let mut s: Sim<U> = Sim::new(3);
    s.lead(1);
    s.deliver();
    s.append(1, 11);
    s.deliver();
    s.cut(1, 3);
    s.append(1, 22);
    s.deliver();
    s.heal(1, 3);
    s.deliver();
    // 22 reached server 3 with the synchronisation; now its word is sent in its encoded form
    s.append(1, 32);
    s.append(1, 41);
    s.deliver();
    assert_eq!(s.decided(3), vec![11, 22, 32, 41]);
    assert_eq!(s.decided(2), vec![11, 22, 32, 41]);
}
''',
  "a follower that misses an entry, is synchronised again by the same leader, and then gets an entry with the same value",
  "the cache is only installed at the first synchronisation of a round, so after another one the follower cannot decode", UNI)
