LEAD = "omnipaxos/src/sequence_paxos/leader.rs"
FOL = "omnipaxos/src/sequence_paxos/follower.rs"
SP = "omnipaxos/src/sequence_paxos/mod.rs"
IST = "omnipaxos/src/storage/internal_storage.rs"
SC = "omnipaxos/src/storage/state_cache.rs"
UT = "omnipaxos/src/util.rs"
BLE = "omnipaxos/src/ballot_leader_election.rs"
OP = "omnipaxos/src/omni_paxos.rs"
MSG = "omnipaxos/src/messages.rs"
MEM = "omnipaxos_storage/src/memory_storage.rs"
PER = "omnipaxos_storage/src/persistent_storage.rs"

seed("s01-late-promise-prefix", "C01",
  [(LEAD, "            *prev_round_max_accepted_idx.min(followers_accepted_idx)\n", "            *followers_accepted_idx\n"),
   (LEAD, "            accepted_idx: prev_round_max_accepted_idx,\n", "")],
  '''
fn main() {
    let mut s: Sim<E> = Sim::new(5);
    s.lead(1);
    s.deliver();
    s.append(1, 10);
    s.deliver();
    for i in [2, 3, 4] {
        s.cut(1, i);
    }
    s.append(1, 11);
    s.one(1, 5); // server 5 accepts 11 of leader 1
    s.q.clear();
    s.cut(1, 5);
    s.cut(2, 5);
    // 2 leads with 3 and 4 and decides 20, 21
    s.lead(2);
    s.deliver();
    s.append(2, 20);
    s.append(2, 21);
    s.deliver();
    // server 5 promises late
    s.heal(2, 5);
    s.deliver();
    s.append(2, 22);
    s.deliver();
    let want = s.decided(2);
    assert_eq!(want, vec![10, 20, 21, 22]);
    s.agree();
    assert_eq!(s.decided(5), want);
}
''',
  "an entry accepted by one server only under the old leader, a leader change without that server that decides other entries, then a late promise of that server in the accept phase",
  "the new leader assumes that the late follower's whole log is a prefix of its own; the follower keeps the old leader's entry and decides it")

seed("s02-decided-not-durable", "C02",
  [(IST, "        let mut sync_txn: Vec<StorageOp<T>> = vec![\n            StorageOp::SetAcceptedRound(accepted_round),\n            StorageOp::SetDecidedIndex(decided_idx),\n        ];\n        if let Some(sync) = log_sync {\n",
         "        let mut sync_txn: Vec<StorageOp<T>> = vec![StorageOp::SetAcceptedRound(accepted_round)];\n        if let Some(sync) = log_sync {\n            sync_txn.push(StorageOp::SetDecidedIndex(decided_idx));\n")],
  '''
fn main() {
    let mut s: Sim<E> = Sim::new(3);
    s.lead(1);
    s.deliver();
    s.append(1, 10);
    s.one(1, 2);
    s.one(1, 3);
    s.one(2, 1); // decided at 1
    s.one(1, 3); // and 3, not yet at 2
    s.q.clear();
    assert_eq!(s.decided(1), vec![10]);
    // 2 has accepted everything, so it leads without log to sync but learns the decided index
    s.lead(2);
    s.deliver();
    assert_eq!(s.decided(2), vec![10]);
    s.crash(2);
    s.start(2);
    assert_eq!(s.decided(2), vec![10]);
}
''',
  "a server that knows fewer decided entries than its followers, but has all of them accepted, becomes leader and crashes before anything else is decided",
  "the decided index that a new leader learns from promises is reported but not stored, so it is lower after the restart")

seed("s03-forward-again", "C03",
  [(FOL, "        let proposals = std::mem::take(&mut self.buffered_proposals);\n        if !proposals.is_empty() {\n            self.forward_proposals(proposals);\n        }\n",
         "        if !self.buffered_proposals.is_empty() {\n            self.forward_proposals(self.buffered_proposals.clone());\n        }\n")],
  '''
fn main() {
    let mut s: Sim<E> = Sim::new(3);
    s.append(3, 30); // no leader yet: buffered
    s.lead(1);
    s.deliver();
    assert_eq!(s.decided(3), vec![30]);
    // another leader change syncs server 3 once more
    s.lead(2);
    s.deliver();
    s.append(2, 20);
    s.deliver();
    assert_eq!(s.decided(1), vec![30, 20]);
    assert_eq!(s.decided(3), vec![30, 20]);
}
''',
  "a proposal made at a server that knows no leader, followed by two synchronisations of that server",
  "a proposal buffered before the first leader is forwarded again at every later synchronisation and decided more than once")

seed("s04-promise-empty-log", "C04",
  [(FOL, "            self.internal_storage\n                .set_promise(prep.n)\n                .expect(WRITE_ERROR_MSG);\n            self.state = (Role::Follower, Phase::Prepare);\n",
         "            self.internal_storage\n                .set_follower_promise(prep.n)\n                .expect(WRITE_ERROR_MSG);\n            self.state = (Role::Follower, Phase::Prepare);\n"),
   (IST, "    pub(crate) fn set_decided_idx(&mut self, idx: usize) -> StorageResult<()> {\n",
         "    /// The promise of a server with an empty log is stored together with its first entries.\n    pub(crate) fn set_follower_promise(&mut self, n_prom: Ballot) -> StorageResult<()> {\n        self.state_cache.promise = n_prom;\n        if self.state_cache.accepted_idx == 0 {\n            return Ok(());\n        }\n        self.storage.set_promise(n_prom)\n    }\n\n    pub(crate) fn set_decided_idx(&mut self, idx: usize) -> StorageResult<()> {\n"),
   (IST, "            StorageOp::SetAcceptedRound(accepted_round),\n", "            StorageOp::SetPromise(self.state_cache.promise),\n            StorageOp::SetAcceptedRound(accepted_round),\n")],
  '''
fn main() {
    let mut s: Sim<E> = Sim::new(3);
    s.op(2).set_priority(1);
    s.lead(1); // ballot of server 1
    s.lead(2); // higher ballot
    // 3 promises the higher ballot of 2, the promise reaches 2
    s.one(2, 3);
    s.one(3, 2); // 2 leads with {2,3}
    s.crash(3);
    s.start(3);
    s.lose(3, 1);
    // the restarted server must not accept the lower ballot of 1
    s.one(1, 3);
    s.deliver_among(&[1, 3]);
    s.append(1, 10);
    s.deliver_among(&[1, 3]);
    let p = s.op(3).get_promise();
    assert_eq!(p.pid, 2, "promised {p:?} after having promised the ballot of server 2");
}
''',
  "a server with an empty log promises, crashes before it accepted anything, and then receives a lower ballot's Prepare",
  "the promise of a follower with an empty log is only kept in memory, so after a crash it promises a lower ballot")

seed("s05-second-stopsign", "C05",
  [(LEAD, "        if self.accepted_reconfiguration() {\n            return;\n        }\n        match self.state {\n            (Role::Leader, Phase::Prepare) => self.buffered_stopsign = Some(ss),\n            (Role::Leader, Phase::Accept) => self.accept_stopsign_leader(ss),\n",
          "        match self.state {\n            (Role::Leader, Phase::Prepare) => self.buffered_stopsign = Some(ss),\n            (Role::Leader, Phase::Accept) if !self.internal_storage.stopsign_is_decided() => {\n                self.accept_stopsign_leader(ss)\n            }\n            (Role::Leader, Phase::Accept) => (),\n")],
  '''
use omnipaxos::*;
fn cfg(id: u32) -> ClusterConfig {
    ClusterConfig { configuration_id: id, nodes: vec![1, 2, 3, 4], ..Default::default() }
}
fn main() {
    let mut s: Sim<E> = Sim::new(3);
    s.lead(1);
    s.deliver();
    s.append(1, 10);
    s.deliver();
    assert!(s.op(1).reconfigure(cfg(2), None).is_ok());
    assert!(s.op(2).reconfigure(cfg(3), None).is_ok());
    s.pump(2);
    s.one(2, 1); // forwarded while the first stop-sign is not decided yet
    s.pump(1);
    s.deliver();
    for i in 1..=3 {
        let ss = s.op(i).is_reconfigured().unwrap_or_else(|| panic!("server {i} is not reconfigured"));
        assert_eq!(ss.next_config.configuration_id, 2);
        assert_eq!(s.decided(i), vec![10, 1000000]);
    }
}
''',
  "a second reconfiguration forwarded from a follower while the leader's own stop-sign is accepted but undecided",
  "the leader accepts a second stop-sign, which takes another log position and replaces the first")

seed("s06-split-sync", "C06",
  [(IST, "        self.state_cache.accepted_round = accepted_round;\n        self.state_cache.decided_idx = decided_idx;\n        self.storage.write_atomically(sync_txn)?;\n",
         "        self.state_cache.accepted_round = accepted_round;\n        self.state_cache.decided_idx = decided_idx;\n        let log_txn = sync_txn.split_off(2);\n        self.storage.write_atomically(sync_txn)?;\n        if !log_txn.is_empty() {\n            self.storage.write_atomically(log_txn)?;\n        }\n")],
  '''
fn main() {
    let mut s: Sim<E> = Sim::new(3);
    s.lead(1);
    s.deliver();
    s.cut(1, 2);
    s.append(1, 10);
    s.deliver(); // decided by 1 and 3
    assert_eq!(s.decided(1), vec![10]);
    // 3 leads; 2 crashes in the middle of the synchronisation
    s.cut(1, 3);
    s.lead(3);
    s.one(3, 2);
    s.one(2, 3);
    s.one_crash(3, 2, 1);
    s.q.clear();
    s.start(2);
    s.q.clear();
    s.crash(3);
    // 1 and 2 are a quorum and one of them has the decided entry
    s.heal(1, 2);
    s.q.clear();
    s.op(2).try_become_leader();
    for _ in 0..4 {
        s.tick(2);
        s.tick(1);
        s.deliver_among(&[1, 2]);
    }
    s.lead(2);
    s.deliver_among(&[1, 2]);
    s.append(2, 20);
    s.deliver_among(&[1, 2]);
    assert_eq!(s.decided(2).first(), Some(&10), "{:?}", s.decided(2));
    s.agree();
}
''',
  "a crash between the two storage writes of a log synchronisation, then an election in which the crashed server's accepted round is the highest",
  "the accepted round is stored before the log that belongs to it, so a server that crashed in between wins over servers that hold decided entries")

seed("s07-forced-snapshot", "C07",
  [(SP, "            Compaction::Snapshot(idx) => {\n                let _ = self.snapshot(idx, true);\n            }\n",
        "            Compaction::Snapshot(idx) => {\n                // the sender only snapshots decided entries\n                let _ = self.internal_storage.try_remote_snapshot(idx);\n            }\n"),
   (IST, "    pub(crate) fn set_promise(&mut self, n_prom: Ballot) -> StorageResult<()> {\n",
         "    pub(crate) fn try_remote_snapshot(&mut self, idx: Option<usize>) -> StorageResult<()> {\n        match idx {\n            Some(i)\n                if i > self.get_decided_idx() && i <= self.get_accepted_idx_without_stopsign() =>\n            {\n                self.set_decided_idx(i)?;\n                self.try_snapshot(Some(i))\n            }\n            _ => self.try_snapshot(idx),\n        }\n    }\n\n    pub(crate) fn set_promise(&mut self, n_prom: Ballot) -> StorageResult<()> {\n")],
  '''
fn main() {
    let mut s: Sim<S> = Sim::new(5);
    s.lead(1);
    s.deliver();
    for i in [2, 3, 4] {
        s.cut(1, i);
    }
    s.append(1, 11);
    s.one(1, 5);
    s.q.clear();
    s.cut(1, 5);
    s.lead(2);
    s.lose(2, 5); // 5 misses the Prepare
    s.deliver_among(&[2, 3, 4]);
    s.append(2, 20);
    s.deliver_among(&[2, 3, 4]);
    s.lose(2, 5);
    s.op(2).snapshot(Some(1), false).unwrap();
    s.pump(2);
    s.deliver();
    s.agree();
    s.heal(2, 5);
    s.deliver();
    s.append(2, 21);
    s.deliver();
    s.agree();
    assert_eq!(s.decided(5), vec![20, 21]);
}
''',
  "a cluster-wide snapshot with an explicit index reaching a server that holds an undecided entry of an old leader at that position",
  "the server snapshots its own undecided entries as if they were the decided ones")

seed("s08-trim-lower-again", "C08",
  [(IST, "                StorageOp::SetCompactedIdx(new_compacted_idx),\n            ])?;\n            self.state_cache.compacted_idx = new_compacted_idx;\n        }\n        Ok(())\n    }\n\n    pub(crate) fn try_snapshot",
         "                StorageOp::SetCompactedIdx(new_compacted_idx),\n            ])?;\n        }\n        self.state_cache.compacted_idx = new_compacted_idx;\n        Ok(())\n    }\n\n    pub(crate) fn try_snapshot")],
  '''
fn main() {
    let mut s: Sim<E> = Sim::new(3);
    s.lead(1);
    s.deliver();
    for v in 10..14 {
        s.append(1, v);
    }
    s.deliver();
    s.op(1).trim(Some(3)).unwrap();
    s.pump(1);
    s.deliver();
    // trimming less than what is trimmed already changes nothing
    s.op(1).trim(Some(1)).unwrap();
    s.pump(1);
    s.deliver();
    for i in 1..=3 {
        assert_eq!(s.op(i).get_compacted_idx(), 3);
        assert_eq!(s.decided(i), vec![0, 0, 0, 13]);
    }
}
''',
  "a trim to an index below an earlier trim (or such a trim message arriving late)",
  "the cached compacted index goes back below what has been removed; reads and synchronisation then miss entries")

seed("s09-excluded-start", "C09",
  [(IST, "            Bound::Excluded(e) => *e + 1,\n            Bound::Unbounded => 0,\n", "            Bound::Excluded(e) => *e,\n            Bound::Unbounded => 0,\n")],
  '''
use std::ops::Bound;
fn main() {
    let mut s: Sim<E> = Sim::new(3);
    s.lead(1);
    s.deliver();
    for v in 10..13 {
        s.append(1, v);
    }
    s.deliver();
    let v = s.op(1).read_entries((Bound::Excluded(0), Bound::Included(2))).unwrap();
    assert_eq!(v.len(), 2, "entries after index 0 and up to index 2: {v:?}");
}
''',
  "a range with an excluded start bound",
  "reading a range with an excluded start returns the excluded entry")

seed("s10-preparereq-same-ballot", "C10",
  [(LEAD, "        if self.state.0 == Role::Leader && prepreq.n <= self.leader_state.n_leader {\n            self.leader_state.reset_promise(from);\n",
          "        if self.state.0 == Role::Leader\n            && prepreq.n <= self.leader_state.n_leader\n            && !self.accepted_reconfiguration()\n        {\n            self.leader_state.reset_promise(from);\n")],
  '''
use omnipaxos::*;
fn main() {
    let mut s: Sim<E> = Sim::new(3);
    s.ble = true;
    fn run(s: &mut Sim<E>, k: usize) {
        for _ in 0..k {
            for i in 1..=3 {
                if s.ops.contains_key(&i) {
                    s.tick(i);
                }
            }
            s.deliver();
        }
    }
    run(&mut s, 8);
    let l = s.op(1).get_current_leader().unwrap().0;
    let f = if l == 3 { 2 } else { 3 };
    s.append(l, 10);
    s.deliver();
    s.crash(f);
    run(&mut s, 2);
    s.op(l).reconfigure(ClusterConfig { configuration_id: 2, nodes: vec![1, 2, 3], ..Default::default() }, None).unwrap_or_else(|_| panic!());
    s.pump(l);
    run(&mut s, 2);
    assert!(s.op(l).is_reconfigured().is_some());
    s.start(f);
    run(&mut s, 30);
    assert_eq!(s.decided(f), vec![10, 1000000]);
}
''',
  "a follower that crashes before it received the stop-sign and restarts afterwards",
  "the leader does not answer a recovering server once the log holds a stop-sign, so that server never learns that the configuration ended")

seed("s11-followers-of-others", "C11",
  [(BLE, "                .filter(|hb_reply| hb_reply.leader <= self.current_ballot)\n                .count();\n", "                .filter(|hb_reply| hb_reply.ballot <= self.current_ballot)\n                .count();\n")],
  '''
fn main() {
    // 1 leads everybody; then only server 2 keeps full connectivity and 1 is left with a
    // quorum of servers that already follow a higher ballot
    let mut s: Sim<E> = Sim::new(3);
    s.ble = true;
    let run = |s: &mut Sim<E>, k: usize| {
        for _ in 0..k {
            for i in 1..=3 {
                s.tick(i);
            }
            s.deliver();
        }
    };
    s.deliver();
    run(&mut s, 5);
    let l = s.op(1).get_current_leader().unwrap().0;
    // chain: the leader keeps one neighbour, which also sees the third server
    let others: Vec<u64> = (1..=3).filter(|x| *x != l).collect();
    let (mid, end) = (others[0], others[1]);
    s.cut(l, end);
    // the end server becomes leader through the middle one
    s.op(end).try_become_leader();
    s.pump(end);
    s.deliver();
    run(&mut s, 20);
    // a server of the middle's choice leads and everything proposed is decided
    s.append(mid, 77);
    run(&mut s, 20);
    assert!(s.decided(mid).contains(&77), "nothing is decided at the server that sees everybody");
    // now the promised leader dies for good, and the old one does not see that it lost its followers
    s.cut(mid, end);
    run(&mut s, 20);
    s.append(l, 78);
    s.append(mid, 79);
    run(&mut s, 20);
    let d = s.decided(mid);
    assert!(d.contains(&78) && d.contains(&79), "no decision with servers {l} and {mid} connected: {d:?}");
    s.agree();
}
''',
  "a leader whose neighbours follow a higher ballot of a server it cannot reach, after which that server is gone",
  "a leader counts neighbours that follow a higher ballot as its own followers, stays content, and no leader is elected although a quorum is connected")

seed("s12-higher-counts", "C12",
  [(UT, "            .filter(|p| matches!(p, PromiseState::Promised(_)))\n", "            .filter(|p| !matches!(p, PromiseState::NotPromised))\n")],
  '''
fn main() {
    let mut t: Sim<E> = Sim::new(5);
    t.lead(1);
    t.deliver();
    t.append(1, 10);
    t.deliver();
    use omnipaxos::messages::{sequence_paxos::*, Message};
    t.lead(2);
    let n = t.op(2).get_promise();
    let mut higher = n;
    higher.n += 1;
    higher.pid = 5;
    t.lose(2, 3);
    t.lose(2, 4);
    t.lose(2, 5);
    for p in [4, 5] {
        t.op(2).handle_incoming(Message::SequencePaxos(PaxosMessage { from: p, to: 2, msg: PaxosMsg::NotAccepted(NotAccepted { n: higher }) }));
    }
    t.one(2, 1);
    t.one(1, 2);
    let accsync = t.q.get(&(2, 1)).map(|q| q.len()).unwrap_or(0);
    assert_eq!(accsync, 0, "server 2 leads with promises from servers 1 and 2 only");
}
''',
  "rejections from servers that promised a higher ballot arriving while a candidate is still collecting promises",
  "servers that refused the candidate count towards its read quorum")

seed("s13-stopsign-before-batch", "C13",
  [(SC, "        self.stopsign = Some(ss);\n        if self.batched_entries.is_empty() {\n", "        self.stopsign = Some(ss);\n        if self.batched_entries.len() < 2 {\n")],
  '''
use omnipaxos::*;
fn main() {
    let mut c = config(3);
    c.server_config.batch_size = 3;
    let mut s: Sim<E> = Sim::with(c);
    s.lead(1);
    s.deliver();
    s.append(1, 10);
    s.op(1).reconfigure(ClusterConfig { configuration_id: 2, nodes: vec![1, 2, 3], ..Default::default() }, None).unwrap_or_else(|_| panic!());
    s.pump(1);
    for _ in 0..10 {
        s.deliver();
        for i in 1..=3 {
            s.tick(i);
        }
    }
    s.deliver();
    assert_eq!(s.decided(1), vec![10, 1000000]);
    assert_eq!(s.decided(2), vec![10, 1000000]);
}
''',
  "a reconfiguration proposed while exactly one entry waits in the leader's batch",
  "the batched entry is not written before the stop-sign and ends up outside the log or after it")

seed("s17-take-nonempty", "C17",
  [(SP, "            buffer.append(&mut self.outgoing);\n        }\n        self.leader_state.reset_latest_accept_meta();\n        self.latest_accepted_meta = None;\n",
        "            buffer.extend(self.outgoing.drain(..).take(self.peers.len() + 1));\n        }\n        self.leader_state.reset_latest_accept_meta();\n        self.latest_accepted_meta = None;\n")],
  '''
use omnipaxos::messages::Message;
fn main() {
    let mut s: Sim<E> = Sim::new(3);
    s.append(3, 33);
    s.lead(1);
    s.deliver();
    // the application keeps unsent messages in its buffer
    let mut buf: Vec<Message<E>> = vec![];
    s.op(1).append(E(1)).unwrap_or_else(|_| panic!());
    s.op(1).take_outgoing_messages(&mut buf);
    let n = buf.len();
    s.op(1).append(E(2)).unwrap_or_else(|_| panic!());
    s.op(1).reconnected(2);
    s.op(1).reconnected(3);
    s.op(1).take_outgoing_messages(&mut buf);
    assert_eq!(buf.len() - n, 4, "fetching messages lost some");
}
''',
  "fetching more messages than there are servers with a buffer that still holds unsent messages",
  "messages beyond the cluster size are dropped when the caller's buffer is not empty")


seed("s19-stopsign-field", "C19",
  [(UT, "    /// The accepted StopSign.\n    pub stopsign: Option<StopSign>,\n", "    /// The accepted StopSign.\n    #[cfg_attr(\n        feature = \"serde\",\n        serde(default, skip_serializing_if = \"Option::is_none\")\n    )]\n    pub stopsign: Option<StopSign>,\n")],
  '''
use omnipaxos::messages::Message;
fn main() {
    let mut s: Sim<E> = Sim::new(3);
    s.lead(1);
    for _ in 0..200 {
        let l: Vec<(u64, u64)> = s.q.iter().filter(|(_, q)| !q.is_empty()).map(|(k, _)| *k).collect();
        for (f, t) in l {
            // send the first message over the wire
            let m = s.q.get_mut(&(f, t)).unwrap().pop_front().unwrap();
            let b = bincode::serialize(&m).unwrap();
            let m2: Message<E> = bincode::deserialize(&b).unwrap_or_else(|e| panic!("{m:?} cannot be read back: {e}"));
            assert_eq!(format!("{m:?}"), format!("{m2:?}"));
            s.q.get_mut(&(f, t)).unwrap().push_front(m2);
            s.one(f, t);
        }
    }
    s.append(1, 10);
    s.deliver();
    assert_eq!(s.decided(3), vec![10]);
}
''',
  "a log synchronisation without stop-sign sent in a format that is not self-describing",
  "the synchronisation message cannot be read back from bincode")

seed("s18-write-everyone", "C18",
  [(OP, "                read_quorum_size >= write_quorum_size,\n", "                read_quorum_size >= write_quorum_size.min(num_nodes - 1),\n")],
  '''
use omnipaxos::util::FlexibleQuorum;
use omnipaxos::*;
fn main() {
    for n in 2..8usize {
        for r in 0..9 {
            for w in 0..9 {
                let c = ClusterConfig {
                    configuration_id: 1,
                    nodes: (1..=n as u64).collect(),
                    flexible_quorum: Some(FlexibleQuorum { read_quorum_size: r, write_quorum_size: w }),
                };
                let ok = r >= 2 && w >= 2 && r <= n && w <= n && r + w > n && r >= w;
                assert_eq!(c.validate().is_ok(), ok, "{n} servers, read quorum {r}, write quorum {w}");
            }
        }
    }
}
''',
  "a write quorum of all servers with a read quorum of all but one",
  "a configuration whose read quorum is smaller than its write quorum is accepted")
