//! A small deterministic cluster for the demonstrations: real servers, in-memory storage that
//! survives restarts, one FIFO queue per link.
#![allow(dead_code)]
use omnipaxos::ballot_leader_election::Ballot;
use omnipaxos::messages::Message;
use omnipaxos::storage::*;
use omnipaxos::util::*;
use omnipaxos::*;
use omnipaxos_storage::memory_storage::MemoryStorage;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::rc::Rc;

pub trait Val: Entry + std::fmt::Debug + 'static {
    fn mk(v: u32) -> Self;
    fn get(&self) -> u32;
    fn snap(s: &Self::Snapshot) -> Vec<u32>;
}

#[derive(Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
pub struct E(pub u32);
#[cfg(not(feature = "unicache"))]
impl Entry for E {
    type Snapshot = NoSnapshot;
}
#[cfg(not(feature = "unicache"))]
impl Val for E {
    fn mk(v: u32) -> Self {
        E(v)
    }
    fn get(&self) -> u32 {
        self.0
    }
    fn snap(_: &NoSnapshot) -> Vec<u32> {
        vec![]
    }
}

#[derive(Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
pub struct S(pub u32);
#[derive(Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
pub struct SList(pub Vec<u32>);
#[cfg(not(feature = "unicache"))]
impl Entry for S {
    type Snapshot = SList;
}
#[cfg(not(feature = "unicache"))]
impl Snapshot<S> for SList {
    fn create(e: &[S]) -> Self {
        SList(e.iter().map(|x| x.0).collect())
    }
    fn merge(&mut self, d: Self) {
        self.0.extend(d.0)
    }
    fn use_snapshots() -> bool {
        true
    }
}
#[cfg(not(feature = "unicache"))]
impl Val for S {
    fn mk(v: u32) -> Self {
        S(v)
    }
    fn get(&self) -> u32 {
        self.0
    }
    fn snap(s: &SList) -> Vec<u32> {
        s.0.clone()
    }
}

pub struct Inner<T: Entry> {
    pub mem: MemoryStorage<T>,
    pub writes: u32,
    /// stop (unwind) instead of doing this write
    pub crash_at: Option<u32>,
}
pub struct Shared<T: Entry>(pub Rc<RefCell<Inner<T>>>);
pub struct Crashed;
impl<T: Entry> Shared<T> {
    fn w(&self) {
        let mut i = self.0.borrow_mut();
        let k = i.writes;
        i.writes += 1;
        if i.crash_at == Some(k) {
            drop(i);
            std::panic::resume_unwind(Box::new(Crashed));
        }
    }
}
impl<T: Entry> Clone for Shared<T> {
    fn clone(&self) -> Self {
        Shared(self.0.clone())
    }
}
impl<T: Entry> Storage<T> for Shared<T> {
    fn write_atomically(&mut self, ops: Vec<StorageOp<T>>) -> StorageResult<()> {
        self.w();
        self.0.borrow_mut().mem.write_atomically(ops)
    }
    fn append_entry(&mut self, e: T) -> StorageResult<()> {
        self.w();
        self.0.borrow_mut().mem.append_entry(e)
    }
    fn append_entries(&mut self, e: Vec<T>) -> StorageResult<()> {
        self.w();
        self.0.borrow_mut().mem.append_entries(e)
    }
    fn append_on_prefix(&mut self, i: usize, e: Vec<T>) -> StorageResult<()> {
        self.w();
        self.0.borrow_mut().mem.append_on_prefix(i, e)
    }
    fn set_promise(&mut self, n: Ballot) -> StorageResult<()> {
        self.w();
        self.0.borrow_mut().mem.set_promise(n)
    }
    fn set_decided_idx(&mut self, i: usize) -> StorageResult<()> {
        self.w();
        self.0.borrow_mut().mem.set_decided_idx(i)
    }
    fn get_decided_idx(&self) -> StorageResult<usize> {
        self.0.borrow().mem.get_decided_idx()
    }
    fn set_accepted_round(&mut self, n: Ballot) -> StorageResult<()> {
        self.w();
        self.0.borrow_mut().mem.set_accepted_round(n)
    }
    fn get_accepted_round(&self) -> StorageResult<Option<Ballot>> {
        self.0.borrow().mem.get_accepted_round()
    }
    fn get_entries(&self, a: usize, b: usize) -> StorageResult<Vec<T>> {
        self.0.borrow().mem.get_entries(a, b)
    }
    fn get_log_len(&self) -> StorageResult<usize> {
        self.0.borrow().mem.get_log_len()
    }
    fn get_suffix(&self, a: usize) -> StorageResult<Vec<T>> {
        self.0.borrow().mem.get_suffix(a)
    }
    fn get_promise(&self) -> StorageResult<Option<Ballot>> {
        self.0.borrow().mem.get_promise()
    }
    fn set_stopsign(&mut self, s: Option<StopSign>) -> StorageResult<()> {
        self.w();
        self.0.borrow_mut().mem.set_stopsign(s)
    }
    fn get_stopsign(&self) -> StorageResult<Option<StopSign>> {
        self.0.borrow().mem.get_stopsign()
    }
    fn trim(&mut self, i: usize) -> StorageResult<()> {
        self.w();
        self.0.borrow_mut().mem.trim(i)
    }
    fn set_compacted_idx(&mut self, i: usize) -> StorageResult<()> {
        self.w();
        self.0.borrow_mut().mem.set_compacted_idx(i)
    }
    fn get_compacted_idx(&self) -> StorageResult<usize> {
        self.0.borrow().mem.get_compacted_idx()
    }
    fn set_snapshot(&mut self, s: Option<T::Snapshot>) -> StorageResult<()> {
        self.w();
        self.0.borrow_mut().mem.set_snapshot(s)
    }
    fn get_snapshot(&self) -> StorageResult<Option<T::Snapshot>> {
        self.0.borrow().mem.get_snapshot()
    }
}

pub type Op<T> = OmniPaxos<T, Shared<T>>;

pub struct Sim<T: Val> {
    pub n: u64,
    pub cfg: OmniPaxosConfig,
    pub ops: BTreeMap<u64, Op<T>>,
    pub st: BTreeMap<u64, Shared<T>>,
    pub q: BTreeMap<(u64, u64), VecDeque<Message<T>>>,
    pub cut: BTreeSet<(u64, u64)>,
    /// whether heartbeats are delivered as well
    pub ble: bool,
}

pub fn config(n: u64) -> OmniPaxosConfig {
    let mut c = OmniPaxosConfig::default();
    c.cluster_config.configuration_id = 1;
    c.cluster_config.nodes = (1..=n).collect();
    c.server_config.election_tick_timeout = 1;
    c.server_config.resend_message_tick_timeout = 3;
    c.server_config.flush_batch_tick_timeout = 3;
    c
}

impl<T: Val> Sim<T> {
    pub fn new(n: u64) -> Self {
        Self::with(config(n))
    }
    pub fn with(cfg: OmniPaxosConfig) -> Self {
        let nodes = cfg.cluster_config.nodes.clone();
        let mut s = Sim {
            n: nodes.len() as u64,
            cfg,
            ops: BTreeMap::new(),
            st: BTreeMap::new(),
            q: BTreeMap::new(),
            cut: BTreeSet::new(),
            ble: false,
        };
        for i in nodes {
            s.st.insert(i, Shared(Rc::new(RefCell::new(Inner { mem: MemoryStorage::default(), writes: 0, crash_at: None }))));
            s.start(i);
        }
        s
    }
    pub fn start(&mut self, i: u64) {
        let mut c = self.cfg.clone();
        c.server_config.pid = i;
        let op = c.build(self.st[&i].clone()).unwrap();
        self.ops.insert(i, op);
        self.pump(i);
    }
    pub fn crash(&mut self, i: u64) {
        self.ops.remove(&i);
    }
    pub fn op(&mut self, i: u64) -> &mut Op<T> {
        self.ops.get_mut(&i).unwrap()
    }
    /// move the outgoing messages of server i to the links
    pub fn pump(&mut self, i: u64) {
        let mut out = vec![];
        if let Some(op) = self.ops.get_mut(&i) {
            op.take_outgoing_messages(&mut out);
        }
        for m in out {
            let (f, t) = (m.get_sender(), m.get_receiver());
            if !self.ble && matches!(m, Message::BLE(_)) {
                continue;
            }
            if self.cut.contains(&(f, t)) || self.cut.contains(&(t, f)) {
                continue;
            }
            self.q.entry((f, t)).or_default().push_back(m);
        }
    }
    pub fn lead(&mut self, i: u64) {
        self.op(i).try_become_leader();
        self.pump(i);
    }
    pub fn append(&mut self, i: u64, v: u32) {
        self.op(i).append(T::mk(v)).unwrap_or_else(|_| panic!("append refused"));
        self.pump(i);
    }
    /// deliver one message of the link; false if there is none
    pub fn one(&mut self, f: u64, t: u64) -> bool {
        let m = match self.q.get_mut(&(f, t)).and_then(|q| q.pop_front()) {
            Some(m) => m,
            None => return false,
        };
        if let Some(op) = self.ops.get_mut(&t) {
            op.handle_incoming(m);
            self.pump(t);
        }
        true
    }
    /// deliver one message, the server stopping at its k-th storage write (0 = before the first)
    pub fn one_crash(&mut self, f: u64, t: u64, k: u32) {
        {
            let mut i = self.st[&t].0.borrow_mut();
            i.writes = 0;
            i.crash_at = Some(k);
        }
        let m = self.q.get_mut(&(f, t)).and_then(|q| q.pop_front()).expect("no message");
        let op = self.ops.get_mut(&t).unwrap();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| op.handle_incoming(m)));
        if let Err(e) = r {
            if !e.is::<Crashed>() {
                std::panic::resume_unwind(e);
            }
        }
        self.st[&t].0.borrow_mut().crash_at = None;
        self.crash(t);
    }
    pub fn lose(&mut self, f: u64, t: u64) {
        self.q.remove(&(f, t));
    }
    /// deliver everything that can be delivered between the given servers
    pub fn deliver_among(&mut self, set: &[u64]) {
        for _ in 0..10000 {
            let l = self.q.iter().find(|((f, t), q)| !q.is_empty() && set.contains(f) && set.contains(t)).map(|(k, _)| *k);
            match l {
                Some((f, t)) => {
                    self.one(f, t);
                }
                None => return,
            }
        }
        panic!("messages never stop");
    }
    pub fn deliver(&mut self) {
        let all: Vec<u64> = self.cfg.cluster_config.nodes.clone();
        self.deliver_among(&all)
    }
    pub fn tick(&mut self, i: u64) {
        self.op(i).tick();
        self.pump(i);
    }
    pub fn cut(&mut self, a: u64, b: u64) {
        self.cut.insert((a, b));
        self.q.remove(&(a, b));
        self.q.remove(&(b, a));
    }
    pub fn heal(&mut self, a: u64, b: u64) {
        self.cut.remove(&(a, b));
        self.cut.remove(&(b, a));
        self.op(a).reconnected(b);
        self.pump(a);
        self.op(b).reconnected(a);
        self.pump(b);
    }
    /// decided values (0 = trimmed, 1000000 = stop-sign)
    pub fn decided(&mut self, i: u64) -> Vec<u32> {
        let op = self.op(i);
        let d = op.get_decided_idx();
        let mut v = vec![];
        for e in op.read_decided_suffix(0).unwrap_or_default() {
            match e {
                LogEntry::Decided(x) => v.push(x.get()),
                LogEntry::Undecided(_) => panic!("undecided entry in the decided suffix"),
                LogEntry::Trimmed(k) => v.extend(vec![0; k]),
                LogEntry::Snapshotted(s) => v.extend(T::snap(&s.snapshot)),
                LogEntry::StopSign(_, dec) => {
                    assert!(dec, "undecided stop-sign in the decided suffix");
                    v.push(1000000)
                }
            }
        }
        assert_eq!(v.len(), d, "decided index and decided entries of server {i} differ: {v:?}");
        v
    }
    /// no two servers have decided different values
    pub fn agree(&mut self) {
        let up: Vec<u64> = self.ops.keys().copied().collect();
        for a in &up {
            for b in &up {
                let (x, y) = (self.decided(*a), self.decided(*b));
                for k in 0..x.len().min(y.len()) {
                    assert!(x[k] == y[k] || x[k] == 0 || y[k] == 0, "servers {a} and {b} decided differently: {x:?} {y:?}");
                }
            }
        }
    }
}
