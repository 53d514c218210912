MSG = "omnipaxos/src/messages.rs"
MAC = "omnipaxos_macros/src/lib.rs"

seed("s40-foreign-heartbeat", "C11",
  [(BLE, "        if rep.round == self.hb_round && rep.ballot.config_id == self.configuration_id {", "        if rep.round == self.hb_round && rep.ballot.config_id >= self.configuration_id {")],
  '''
// servers 1, 2 and 3 of configuration 1; server 3 has moved on to configuration 2
use omnipaxos::{messages::Message, OmniPaxos};
fn main() {
    let mut s: Sim<E> = Sim::new(3);
    s.ble = true;
    for _ in 0..6 {
        for i in 1..=3 {
            s.tick(i);
        }
        s.deliver();
    }
    let (leader, _) = s.op(1).get_current_leader().unwrap();
    let gone = if leader == 3 { 2 } else { 3 };
    let stay: Vec<u64> = (1..=3).filter(|i| *i != gone).collect();
    s.crash(gone);
    let mut c = config(3);
    c.cluster_config.configuration_id = 2;
    c.server_config.pid = gone;
    let mut other: OmniPaxos<E, omnipaxos_storage::memory_storage::MemoryStorage<E>> = c.build(Default::default()).unwrap();
    let foreign = |s: &mut Sim<E>, other: &mut OmniPaxos<E, omnipaxos_storage::memory_storage::MemoryStorage<E>>| {
        // heartbeats only
        for i in &stay {
            while let Some(m) = s.q.get_mut(&(*i, gone)).and_then(|q| q.pop_front()) {
                if let Message::BLE(_) = m {
                    other.handle_incoming(m);
                }
            }
        }
        let mut out = vec![];
        other.take_outgoing_messages(&mut out);
        for m in out {
            let to = m.get_receiver();
            if let Message::BLE(_) = m {
                s.op(to).handle_incoming(m);
                s.pump(to);
            }
        }
    };
    for _ in 0..8 {
        other.tick();
        for i in &stay {
            s.tick(*i);
        }
        for _ in 0..3 {
            foreign(&mut s, &mut other);
            s.deliver_among(&stay);
        }
    }
    for i in &stay {
        assert_eq!(s.op(*i).get_current_leader().unwrap().0, leader, "the leader changed although nothing happened in this configuration");
    }
    assert_eq!(s.op(leader).get_ui_states().heartbeats.len(), 1, "a heartbeat of another configuration is counted");
    s.append(leader, 7);
    s.deliver_among(&stay);
    assert_eq!(s.decided(leader), vec![7]);
}
''',
  "a server of a newer configuration answers heartbeats of the servers of an older one",
  "heartbeats of servers in another configuration are counted in the election")

seed("s41-trim-past-stopsign", "C08",
  [(IST, "            Ordering::Equal => log_decided_idx,\n            Ordering::Greater", "            Ordering::Equal => idx,\n            Ordering::Greater")],
  '''
fn main() {
    let mut s: Sim<E> = Sim::new(3);
    s.lead(1);
    s.deliver();
    for v in [10, 11] {
        s.append(1, v);
    }
    s.deliver();
    let mut next = config(3).cluster_config;
    next.configuration_id = 2;
    s.op(1).reconfigure(next, None).unwrap();
    s.pump(1);
    s.deliver();
    for i in 1..=3 {
        assert!(s.op(i).is_reconfigured().is_some());
    }
    // everything is decided and accepted by all
    s.op(1).trim(None).unwrap();
    s.pump(1);
    s.deliver();
    for i in 1..=3 {
        assert_eq!(s.op(i).get_compacted_idx(), 2, "only the two entries can be trimmed");
        assert_eq!(s.decided(i), vec![0, 0, 1000000]);
    }
    // a restarted server still has the stop-sign as its last position
    s.crash(2);
    s.start(2);
    s.deliver();
    assert_eq!(s.op(2).get_decided_idx(), 3);
    assert!(s.op(2).is_reconfigured().is_some());
}
''',
  "a trim of the whole decided log after the stop-sign has been decided",
  "the stop-sign is trimmed as if it were an entry: the compacted index passes the end of the log")

seed("s42-snapshot-keeps-stopsign", "C05",
  [(IST, "                None if self.state_cache.stopsign.is_some() => {\n", "                None if self.state_cache.stopsign.is_some() && !installed_snapshot => {\n"),
   (IST, "        if let Some(sync) = log_sync {\n            match sync.decided_snapshot {\n", "        if let Some(sync) = log_sync {\n            let installed_snapshot = sync.decided_snapshot.is_some();\n            match sync.decided_snapshot {\n")],
  '''
fn main() {
    let mut s: Sim<S> = Sim::new(3);
    s.lead(1);
    s.deliver();
    s.append(1, 10);
    s.deliver();
    s.cut(1, 2);
    s.cut(1, 3);
    // only server 1 has the stop-sign
    let mut next = config(3).cluster_config;
    next.configuration_id = 2;
    s.op(1).reconfigure(next, None).unwrap();
    s.pump(1);
    s.deliver();
    s.lead(2);
    s.deliver();
    for v in [11, 12] {
        s.append(2, v);
    }
    s.deliver();
    assert_eq!(s.decided(2), vec![10, 11, 12]);
    // server 1 catches up with a snapshot of what has been decided without it
    s.heal(1, 2);
    s.heal(1, 3);
    s.deliver();
    assert_eq!(s.decided(1), vec![10, 11, 12]);
    assert!(s.op(1).is_reconfigured().is_none(), "a stop-sign that was never decided is reported");
    s.append(1, 13);
    s.deliver();
    for i in 1..=3 {
        assert_eq!(s.decided(i), vec![10, 11, 12, 13]);
    }
}
''',
  "a deposed leader with an undecided stop-sign is brought up to date with a snapshot",
  "the stop-sign that lost stays in the log of the old leader and ends up after the decided entries")

seed("s43-large-default-cache", "C16",
  [(MAC, "Some(quote::quote!(u8::MAX as usize))", "Some(quote::quote!(u16::MAX as usize))")],
  '''
use omnipaxos::{macros::UniCacheEntry, storage::Entry, unicache::*};
use serde::{Deserialize, Serialize};
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, UniCacheEntry)]
pub struct Item {
    pub id: u32,
    #[unicache(encoding(u8))]
    pub name: String,
}
fn main() {
    let mut leader = ItemCache::new();
    let mut follower = leader.clone();
    for i in 0..900u32 {
        let e = Item { id: i, name: format!("name{}", i % 300) };
        let r = leader.try_encode(&e);
        assert_eq!(follower.decode(r), e, "decoded another entry than the leader encoded");
    }
}
''',
  "a cached field with the default size that takes more than 255 different values",
  "the default cache is larger than its one-byte encoding can address",
  files={"features": ', "unicache", "macros"'})

seed("s44-reconfigure-unchecked-forward", "C18",
  [(OP, "        if let Err(config_error) = new_configuration.validate() {\n            return Err(ProposeErr::ConfigError(", "        let check = match new_configuration.flexible_quorum {\n            // sizes are checked when the next configuration is built\n            Some(q) if q.read_quorum_size >= q.write_quorum_size => Ok(()),\n            _ => new_configuration.validate(),\n        };\n        if let Err(config_error) = check {\n            return Err(ProposeErr::ConfigError(")],
  '''
use omnipaxos::util::FlexibleQuorum;
fn main() {
    let mut s: Sim<E> = Sim::new(3);
    s.lead(1);
    s.deliver();
    let mut next = config(3).cluster_config;
    next.configuration_id = 2;
    // these quorums do not overlap
    next.nodes = vec![1, 2, 3, 4, 5];
    next.flexible_quorum = Some(FlexibleQuorum { read_quorum_size: 3, write_quorum_size: 2 });
    assert!(s.op(1).reconfigure(next, None).is_err(), "an invalid configuration was accepted");
    s.pump(1);
    s.deliver();
    assert!(s.op(1).is_reconfigured().is_none());
}
''',
  "a reconfiguration to a configuration with flexible quorums that do not overlap",
  "an invalid next configuration is proposed and decided")

seed("s45-sync-drops-batch", "C13",
  [(FOL, "            let mut new_accepted_idx = self\n                .internal_storage\n                .append_entries_and_get_accepted_idx(entries)\n                .expect(WRITE_ERROR_MSG);\n", "            let pending = acc_dec.decided_idx > self.internal_storage.get_accepted_idx();\n            let mut new_accepted_idx = self\n                .internal_storage\n                .append_entries_and_get_accepted_idx(entries)\n                .expect(WRITE_ERROR_MSG);\n            if pending && new_accepted_idx.is_some() {\n                // everything up to the decided index has been flushed with the batch\n                return;\n            }\n")],
  '''
fn main() {
    let mut c = config(3);
    c.server_config.batch_size = 2;
    c.server_config.election_tick_timeout = 1000;
    let mut s: Sim<E> = Sim::with(c);
    s.lead(1);
    s.deliver();
    // three proposals: the third stays in the leader's batch
    for v in [10, 11] {
        s.append(1, v);
    }
    s.deliver();
    s.append(1, 12);
    for _ in 0..3 {
        s.tick(1);
    }
    // server 2 has 12 in its own batch; server 3 acknowledges it after its timer
    s.deliver();
    for _ in 0..3 {
        s.tick(3);
    }
    // the decision of 12 travels with the next two entries, and server 3 is not reachable any more
    s.op(1).append(E::mk(13)).unwrap();
    s.op(1).append(E::mk(14)).unwrap();
    s.one(3, 1);
    assert_eq!(s.decided(1), vec![10, 11, 12]);
    s.cut(1, 3);
    s.cut(2, 3);
    s.deliver();
    for _ in 0..3 {
        for i in 1..=2 {
            s.tick(i);
        }
        s.deliver();
    }
    for i in 1..=2 {
        assert_eq!(s.decided(i), vec![10, 11, 12, 13, 14], "server {i}");
    }
}
''',
  "a follower whose batch becomes full with the message that also decides entries of its batch",
  "the follower neither acknowledges the flushed entries nor takes over the decision")
