//! One real OmniPaxos server plus the environment seam around it: a storage whose writes are
//! counted (and can "lose power" before any individual write), and the inputs a server can get.
use omnipaxos::{
    ballot_leader_election::Ballot,
    messages::{sequence_paxos::*, Message},
    storage::*,
    util::{FlexibleQuorum, LogEntry},
    ClusterConfig, CompactionErr, OmniPaxos, OmniPaxosConfig, ProposeErr, ServerConfig,
};
use omnipaxos_storage::memory_storage::MemoryStorage;
use serde::{de::DeserializeOwned, Serialize};
use std::{
    cell::{Cell, RefCell},
    fmt::Debug,
    ops::Bound,
    panic::{catch_unwind, AssertUnwindSafe},
    rc::Rc,
};

pub const SS_BASE: u32 = 1_000_000;
pub const BAD: u32 = 999_999;

/// Entry types used by the harness. `id` identifies the proposal.
pub trait HEntry: Entry + Serialize + DeserializeOwned + 'static {
    fn mk(id: u32) -> Self;
    fn id(&self) -> u32;
    fn snap_list(s: &Self::Snapshot) -> Vec<u32>;
}

pub struct CrashToken;

thread_local! {
    static PANIC_MSG: RefCell<Option<String>> = RefCell::new(None);
    static QUIET: Cell<bool> = Cell::new(false);
}

pub fn install_panic_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if QUIET.with(|q| q.get()) {
            let loc = info
                .location()
                .map(|l| format!("{}:{}", l.file(), l.line()))
                .unwrap_or_default();
            let p = info.payload();
            let m = p
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| p.downcast_ref::<String>().cloned())
                .unwrap_or_default();
            PANIC_MSG.with(|c| *c.borrow_mut() = Some(format!("{} at {}", m, loc)));
        } else {
            old(info)
        }
    }));
}

pub enum Guarded<R> {
    Done(R),
    Crashed,
    Panicked(String),
}

/// Run a closure of library code, separating injected crashes from genuine panics.
pub fn guarded<R>(f: impl FnOnce() -> R) -> Guarded<R> {
    QUIET.with(|q| q.set(true));
    PANIC_MSG.with(|c| *c.borrow_mut() = None);
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(false));
    match r {
        Ok(r) => Guarded::Done(r),
        Err(p) => {
            if p.is::<CrashToken>() {
                Guarded::Crashed
            } else {
                Guarded::Panicked(
                    PANIC_MSG
                        .with(|c| c.borrow_mut().take())
                        .unwrap_or_else(|| "unknown panic".into()),
                )
            }
        }
    }
}

pub struct Inner<T: Entry> {
    pub mem: MemoryStorage<T>,
    pub writes: u32,
    pub crash_at: Option<u32>,
}

/// The durable storage of one server; shared between the server and the harness.
pub struct RecStorage<T: Entry>(pub Rc<RefCell<Inner<T>>>);

impl<T: Entry> Clone for RecStorage<T> {
    fn clone(&self) -> Self {
        RecStorage(self.0.clone())
    }
}

impl<T: Entry> RecStorage<T> {
    pub fn new(mem: MemoryStorage<T>) -> Self {
        RecStorage(Rc::new(RefCell::new(Inner {
            mem,
            writes: 0,
            crash_at: None,
        })))
    }
    fn w(&self) {
        let mut i = self.0.borrow_mut();
        if i.crash_at == Some(i.writes) {
            drop(i);
            std::panic::resume_unwind(Box::new(CrashToken));
        }
        i.writes += 1;
    }
}

impl<T: Entry> Debug for RecStorage<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let i = self.0.borrow();
        let m = &i.mem;
        let c = m.get_compacted_idx().unwrap();
        write!(
            f,
            "S[{:?} {:?} {:?} {:?} {} {:?} {:?}",
            m.get_promise().unwrap(),
            m.get_accepted_round().unwrap(),
            m.get_decided_idx().unwrap(),
            c,
            m.get_log_len().unwrap(),
            m.get_stopsign().unwrap(),
            m.get_snapshot().unwrap()
        )?;
        write!(f, " {:?}]", raw_log(m))
    }
}

/// All entries physically present.
pub fn raw_log<T: Entry>(m: &MemoryStorage<T>) -> Vec<T> {
    let c = m.get_compacted_idx().unwrap();
    match guarded_read(|| m.get_suffix(c).unwrap()) {
        Some(v) => v,
        None => vec![],
    }
}

fn guarded_read<R>(f: impl FnOnce() -> R) -> Option<R> {
    let q = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|c| c.set(q));
    r.ok()
}

impl<T: Entry> Storage<T> for RecStorage<T> {
    fn write_atomically(&mut self, ops: Vec<StorageOp<T>>) -> StorageResult<()> {
        self.w();
        self.0.borrow_mut().mem.write_atomically(ops)
    }
    fn append_entry(&mut self, entry: T) -> StorageResult<()> {
        self.w();
        self.0.borrow_mut().mem.append_entry(entry)
    }
    fn append_entries(&mut self, entries: Vec<T>) -> StorageResult<()> {
        if !entries.is_empty() {
            self.w();
        }
        self.0.borrow_mut().mem.append_entries(entries)
    }
    fn append_on_prefix(&mut self, from_idx: usize, entries: Vec<T>) -> StorageResult<()> {
        self.w();
        self.0.borrow_mut().mem.append_on_prefix(from_idx, entries)
    }
    fn set_promise(&mut self, n: Ballot) -> StorageResult<()> {
        self.w();
        self.0.borrow_mut().mem.set_promise(n)
    }
    fn set_decided_idx(&mut self, ld: usize) -> StorageResult<()> {
        self.w();
        self.0.borrow_mut().mem.set_decided_idx(ld)
    }
    fn get_decided_idx(&self) -> StorageResult<usize> {
        self.0.borrow().mem.get_decided_idx()
    }
    fn set_accepted_round(&mut self, na: Ballot) -> StorageResult<()> {
        self.w();
        self.0.borrow_mut().mem.set_accepted_round(na)
    }
    fn get_accepted_round(&self) -> StorageResult<Option<Ballot>> {
        self.0.borrow().mem.get_accepted_round()
    }
    fn get_entries(&self, from: usize, to: usize) -> StorageResult<Vec<T>> {
        self.0.borrow().mem.get_entries(from, to)
    }
    fn get_log_len(&self) -> StorageResult<usize> {
        self.0.borrow().mem.get_log_len()
    }
    fn get_suffix(&self, from: usize) -> StorageResult<Vec<T>> {
        self.0.borrow().mem.get_suffix(from)
    }
    fn get_promise(&self) -> StorageResult<Option<Ballot>> {
        self.0.borrow().mem.get_promise()
    }
    fn set_stopsign(&mut self, s: Option<StopSign>) -> StorageResult<()> {
        self.w();
        self.0.borrow_mut().mem.set_stopsign(s)
    }
    fn get_stopsign(&self) -> StorageResult<Option<StopSign>> {
        self.0.borrow().mem.get_stopsign()
    }
    fn trim(&mut self, idx: usize) -> StorageResult<()> {
        self.w();
        self.0.borrow_mut().mem.trim(idx)
    }
    fn set_compacted_idx(&mut self, idx: usize) -> StorageResult<()> {
        self.w();
        self.0.borrow_mut().mem.set_compacted_idx(idx)
    }
    fn get_compacted_idx(&self) -> StorageResult<usize> {
        self.0.borrow().mem.get_compacted_idx()
    }
    fn set_snapshot(&mut self, s: Option<T::Snapshot>) -> StorageResult<()> {
        self.w();
        self.0.borrow_mut().mem.set_snapshot(s)
    }
    fn get_snapshot(&self) -> StorageResult<Option<T::Snapshot>> {
        self.0.borrow().mem.get_snapshot()
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Input {
    Deliver(u32),
    Append(u32),
    Reconf(u32),
    Trim(Option<u32>),
    Snap(Option<u32>, bool),
    Reconn(u8),
    Lead,
    Tick,
    Take,
    Crash,
    Restart,
    Prio(u32),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, serde::Serialize, serde::Deserialize)]
pub enum Mode {
    Normal,
    /// Process the input but leave the outgoing messages in the server for now.
    Hold,
    /// Lose power right before the k-th storage write of this input (k = number of writes:
    /// everything written, nothing sent).
    CrashAt(u8),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Ret {
    None,
    Ok,
    /// (error kind, value)
    Err(u8, u32),
    /// the error did not carry back the rejected proposal
    BadErr,
}
pub const E_PENDING: u8 = 1;
pub const E_CONFIG: u8 = 2;
pub const E_UNDECIDED: u8 = 3;
pub const E_TRIMMED: u8 = 4;
pub const E_NOTALL: u8 = 5;
pub const E_NOTLEADER: u8 = 6;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Cfg {
    pub pids: Vec<u64>,
    pub quorum: Option<(usize, usize)>,
    pub batch: usize,
    pub resend: u64,
    pub flush: u64,
    pub election: u64,
    pub prio: Vec<u32>,
    /// deliver through a serde round trip
    pub wire: u8,
    /// fetch outgoing messages into a buffer that already holds a message
    pub prefill: bool,
    /// heartbeats are exchanged
    pub beat: bool,
}

impl Cfg {
    pub fn majority(n: usize) -> Self {
        Cfg {
            pids: (1..=n as u64).collect(),
            quorum: None,
            batch: 1,
            resend: 1,
            flush: 1,
            election: u64::MAX,
            prio: vec![0; n],
            wire: 0,
            prefill: false,
            beat: false,
        }
    }
    pub fn n(&self) -> usize {
        self.pids.len()
    }
    pub fn read_q(&self) -> usize {
        self.quorum.map(|q| q.0).unwrap_or(self.n() / 2 + 1)
    }
    pub fn write_q(&self) -> usize {
        self.quorum.map(|q| q.1).unwrap_or(self.n() / 2 + 1)
    }
    pub fn op_config(&self, idx: usize) -> OmniPaxosConfig {
        OmniPaxosConfig {
            cluster_config: ClusterConfig {
                configuration_id: 1,
                nodes: self.pids.clone(),
                flexible_quorum: self.quorum.map(|(r, w)| FlexibleQuorum {
                    read_quorum_size: r,
                    write_quorum_size: w,
                }),
            },
            server_config: ServerConfig {
                pid: self.pids[idx],
                election_tick_timeout: self.election,
                resend_message_tick_timeout: self.resend,
                flush_batch_tick_timeout: self.flush,
                buffer_size: 4,
                batch_size: self.batch,
                leader_priority: self.prio[idx],
                ..Default::default()
            },
        }
    }
}

/// The stop-sign proposed as number k.
pub fn ss_config(k: u32) -> (ClusterConfig, Option<Vec<u8>>) {
    (
        ClusterConfig {
            configuration_id: 2 + k,
            nodes: vec![1, 2, 10 + k as u64],
            flexible_quorum: if k % 2 == 1 {
                Some(FlexibleQuorum {
                    read_quorum_size: 3,
                    write_quorum_size: 2,
                })
            } else {
                None
            },
        },
        if k % 3 == 2 { None } else { Some(vec![7, k as u8]) },
    )
}

pub fn ss_id(ss: &StopSign) -> u32 {
    for k in 0..8 {
        let (c, m) = ss_config(k);
        if ss.next_config == c && ss.metadata == m {
            return SS_BASE + k;
        }
    }
    SS_BASE + BAD
}

/// Observable state of a server.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Obs {
    pub up: bool,
    pub promise: Ballot,
    pub acc_round: Ballot,
    pub st_promise: Ballot,
    pub st_decided: usize,
    pub decided: usize,
    pub compacted: usize,
    pub st_compacted: usize,
    pub snap: Option<Vec<u32>>,
    pub entries: Vec<u32>,
    pub ss: Option<u32>,
    pub reconf: Option<u32>,
    pub leader: Option<(u64, bool)>,
    /// at an established leader: the accepted index it reports per server id
    pub acks: Vec<usize>,
    /// known durable log (0 = trimmed, content unknown)
    pub log: Vec<u32>,
}

impl Obs {
    pub fn len(&self) -> usize {
        self.log.len()
    }
    /// decided values, 0 where trimmed; `BAD` where the decided index exceeds the log.
    pub fn dec(&self) -> Vec<u32> {
        let d = self.decided;
        (0..d)
            .map(|i| self.log.get(i).copied().unwrap_or(BAD))
            .collect()
    }
}

pub struct Node<T: HEntry> {
    pub idx: usize,
    pub pid: u64,
    pub cfg: Rc<Cfg>,
    pub op: Option<OmniPaxos<T, RecStorage<T>>>,
    pub st: RecStorage<T>,
    pub ble: bool,
}

pub struct StepOut<T: HEntry> {
    pub out: Vec<Message<T>>,
    pub ret: Ret,
    pub writes: u32,
    pub crashed: bool,
    pub panic: Option<String>,
    /// something wrong with fetching the outgoing messages
    pub take_err: Option<String>,
}

fn cerr(e: CompactionErr) -> Ret {
    match e {
        CompactionErr::UndecidedIndex(i) => Ret::Err(E_UNDECIDED, i as u32),
        CompactionErr::TrimmedIndex(i) => Ret::Err(E_TRIMMED, i as u32),
        CompactionErr::NotAllDecided(i) => Ret::Err(E_NOTALL, i as u32),
        CompactionErr::NotCurrentLeader(p) => Ret::Err(E_NOTLEADER, p as u32),
    }
}

impl<T: HEntry> Node<T> {
    /// A server that is down, with the given durable state.
    pub fn down(cfg: &Rc<Cfg>, idx: usize, mem: MemoryStorage<T>) -> Self {
        Node {
            idx,
            pid: cfg.pids[idx],
            cfg: cfg.clone(),
            op: None,
            st: RecStorage::new(mem),
            ble: cfg.beat,
        }
    }

    pub fn step(&mut self, input: Input, mode: Mode, msg: Option<&Message<T>>) -> StepOut<T> {
        let cfg = self.cfg.clone();
        {
            let mut i = self.st.0.borrow_mut();
            i.writes = 0;
            i.crash_at = match mode {
                Mode::CrashAt(k) => Some(k as u32),
                _ => None,
            };
        }
        let ble = self.ble;
        let st = self.st.clone();
        let idx = self.idx;
        let wire = cfg.wire;
        let opslot = &mut self.op;
        let res = guarded(|| {
            let mut ret = Ret::None;
            let mut crash_after = false;
            match input {
                Input::Restart => {
                    *opslot = Some(
                        cfg.op_config(idx)
                            .build(st.clone())
                            .expect("valid config rejected"),
                    );
                }
                Input::Crash => crash_after = true,
                _ => {
                    let op = opslot.as_mut().expect("input to down node");
                    match input {
                        Input::Deliver(_) => {
                            let m = msg.unwrap();
                            op.handle_incoming(reencode(m, wire));
                        }
                        Input::Append(id) => {
                            ret = match op.append(T::mk(id)) {
                                Ok(()) => Ret::Ok,
                                Err(ProposeErr::PendingReconfigEntry(e)) if e.id() == id => {
                                    Ret::Err(E_PENDING, 0)
                                }
                                Err(_) => Ret::BadErr,
                            }
                        }
                        Input::Reconf(k) => {
                            let (c, m) = ss_config(k);
                            ret = match op.reconfigure(c.clone(), m.clone()) {
                                Ok(()) => Ret::Ok,
                                Err(ProposeErr::PendingReconfigConfig(c2, m2))
                                    if c2 == c && m2 == m =>
                                {
                                    Ret::Err(E_PENDING, 0)
                                }
                                Err(ProposeErr::ConfigError(..)) => Ret::Err(E_CONFIG, 0),
                                Err(_) => Ret::BadErr,
                            }
                        }
                        Input::Trim(i) => {
                            ret = match op.trim(i.map(|x| x as usize)) {
                                Ok(()) => Ret::Ok,
                                Err(e) => cerr(e),
                            }
                        }
                        Input::Snap(i, l) => {
                            ret = match op.snapshot(i.map(|x| x as usize), l) {
                                Ok(()) => Ret::Ok,
                                Err(e) => cerr(e),
                            }
                        }
                        Input::Reconn(p) => op.reconnected(cfg.pids[p as usize]),
                        Input::Lead => op.try_become_leader(),
                        Input::Tick => op.tick(),
                        Input::Prio(p) => op.set_priority(p),
                        Input::Take => (),
                        Input::Crash | Input::Restart => unreachable!(),
                    }
                }
            }
            let writes = st.0.borrow().writes;
            if let Mode::CrashAt(_) = mode {
                crash_after = true;
            }
            let mut out = vec![];
            let mut take_err = None;
            if !crash_after && mode != Mode::Hold {
                if let Some(op) = opslot.as_mut() {
                    if cfg.prefill {
                        out.push(sentinel());
                    }
                    op.take_outgoing_messages(&mut out);
                    if cfg.prefill {
                        let s: Message<T> = sentinel();
                        if out.is_empty() || format!("{:?}", out[0]) != format!("{s:?}") {
                            take_err = Some("fetching outgoing messages lost a message that was already in the buffer".to_string());
                        } else {
                            out.remove(0);
                        }
                    }
                    let mut again = vec![];
                    op.take_outgoing_messages(&mut again);
                    if !again.is_empty() {
                        take_err = Some(format!("fetching outgoing messages twice in a row returned {} message(s) the second time", again.len()));
                        out.append(&mut again);
                    }
                }
            }
            (ret, writes, crash_after, out, take_err)
        });
        match res {
            Guarded::Done((ret, writes, crash_after, mut out, take_err)) => {
                if crash_after {
                    self.op = None;
                    self.st.0.borrow_mut().crash_at = None;
                    return StepOut {
                        out: vec![],
                        ret,
                        writes,
                        crashed: true,
                        panic: None,
                        take_err: None,
                    };
                }
                if !ble {
                    out.retain(|m| matches!(m, Message::SequencePaxos(_)));
                }
                StepOut {
                    out,
                    ret,
                    writes,
                    crashed: false,
                    panic: None,
                    take_err,
                }
            }
            Guarded::Crashed => {
                self.op = None;
                let mut i = self.st.0.borrow_mut();
                i.crash_at = None;
                StepOut {
                    out: vec![],
                    ret: Ret::None,
                    writes: i.writes,
                    crashed: true,
                    panic: None,
                    take_err: None,
                }
            }
            Guarded::Panicked(p) => {
                self.op = None;
                // the panic may have happened while the storage was borrowed
                if let Ok(mut i) = self.st.0.try_borrow_mut() {
                    i.crash_at = None;
                }
                StepOut {
                    out: vec![],
                    ret: Ret::None,
                    writes: 0,
                    crashed: true,
                    panic: Some(p),
                    take_err: None,
                }
            }
        }
    }

    pub fn observe(&self) -> Obs {
        let i = self.st.0.borrow();
        let m = &i.mem;
        let st_compacted = m.get_compacted_idx().unwrap();
        let st_decided = m.get_decided_idx().unwrap();
        let snap = m.get_snapshot().unwrap().map(|s| T::snap_list(&s));
        let entries: Vec<u32> = raw_log(m).iter().map(|e| e.id()).collect();
        let ss = m.get_stopsign().unwrap().map(|s| ss_id(&s));
        let st_promise = m.get_promise().unwrap().unwrap_or_default();
        let acc_round = m.get_accepted_round().unwrap().unwrap_or_default();
        let mut log: Vec<u32> = match &snap {
            // a snapshot that does not cover exactly the compacted prefix is itself an
            // inconsistency; it is reported by the snapshot monitor, here we only align it.
            Some(s) if s.len() == st_compacted => s.clone(),
            _ => vec![0; st_compacted],
        };
        log.extend(entries.iter());
        log.extend(ss.iter());
        let (promise, decided, compacted, reconf, leader) = match &self.op {
            Some(op) => (
                op.get_promise(),
                op.get_decided_idx(),
                op.get_compacted_idx(),
                op.is_reconfigured().map(|s| ss_id(&s)),
                op.get_current_leader(),
            ),
            None => (st_promise, st_decided, st_compacted, None, None),
        };
        let acks = match (&self.op, leader) {
            (Some(op), Some((l, true))) if l == self.pid => op.get_ui_states().cluster_state.accepted_indexes,
            _ => vec![],
        };
        Obs {
            up: self.op.is_some(),
            acks,
            promise,
            acc_round,
            st_promise,
            st_decided,
            decided,
            compacted,
            st_compacted,
            snap,
            entries,
            ss,
            reconf,
            leader,
            log,
        }
    }
}

fn sentinel<T: Entry>() -> Message<T> {
    Message::SequencePaxos(PaxosMessage {
        from: 77,
        to: 78,
        msg: PaxosMsg::PrepareReq(PrepareReq {
            n: Ballot::default(),
        }),
    })
}

/// A copy of the message, as it comes out of the wire.
pub fn reencode<T: HEntry>(m: &Message<T>, wire: u8) -> Message<T> {
    // (cloning a message with a UniCache does not copy it: the clone has an empty cache)
    let wire = if cfg!(feature = "unicache") && wire == 0 { 2 } else { wire };
    match wire {
        1 => {
            let s = serde_json::to_string(m).expect("message must serialise to JSON");
            serde_json::from_str(&s).expect("message must deserialise from JSON")
        }
        2 => {
            let s = bincode::serialize(m).expect("message must serialise to bincode");
            bincode::deserialize(&s).expect("message must deserialise from bincode")
        }
        _ => m.clone(),
    }
}

/// Compare every read call with the reference log. Returns a description of the first mismatch.
pub fn check_reads<T: HEntry>(op: &OmniPaxos<T, RecStorage<T>>, o: &Obs) -> Option<String> {
    let c = o.st_compacted;
    let d = o.st_decided;
    let len = o.len();
    #[derive(PartialEq, Debug, Clone)]
    enum R {
        Dec(u32),
        Und(u32),
        Trim(usize),
        Snap(usize, Vec<u32>),
        Ss(u32, bool),
    }
    let conv = |v: Option<Vec<LogEntry<T>>>| -> Option<Vec<R>> {
        v.map(|v| {
            v.into_iter()
                .map(|e| match e {
                    LogEntry::Decided(e) => R::Dec(e.id()),
                    LogEntry::Undecided(e) => R::Und(e.id()),
                    LogEntry::Trimmed(i) => R::Trim(i),
                    LogEntry::Snapshotted(s) => R::Snap(s.trimmed_idx, T::snap_list(&s.snapshot)),
                    LogEntry::StopSign(s, b) => R::Ss(ss_id(&s), b),
                })
                .collect()
        })
    };
    let marker = match &o.snap {
        Some(s) => R::Snap(c, s.clone()),
        None => R::Trim(c),
    };
    let expected = |from: usize, to: usize| -> Option<Vec<R>> {
        if to > len || from >= to {
            return None;
        }
        let mut v = vec![];
        if from < c {
            v.push(marker.clone());
        }
        for i in from.max(c)..to {
            if o.ss.is_some() && i == len - 1 {
                v.push(R::Ss(o.ss.unwrap(), d == len));
            } else if i < d {
                v.push(R::Dec(o.log[i]));
            } else {
                v.push(R::Und(o.log[i]));
            }
        }
        Some(v)
    };
    let mut bad = None;
    let mut cmp = |what: String, got: Option<Vec<R>>, exp: Option<Vec<R>>| {
        if got != exp && bad.is_none() {
            bad = Some(format!(
                "{what} returned {got:?}, the log says {exp:?} (decided {d}, compacted {c}, log {:?})",
                o.log
            ));
        }
    };
    let res = guarded(|| {
        for from in 0..=len + 1 {
            let r = op.read(from).map(|e| vec![e]);
            cmp(
                format!("read({from})"),
                conv(r),
                expected(from, from + 1),
            );
            cmp(
                format!("read_decided_suffix({from})"),
                conv(op.read_decided_suffix(from)),
                if from < d { expected(from, d) } else { None },
            );
            cmp(
                format!("read_entries({from}..)"),
                // an empty tail range is not covered by the contract
                if from < len { conv(op.read_entries(from..)) } else { None },
                expected(from, len),
            );
            if from > 0 {
                cmp(
                    format!("read_entries(..{from})"),
                    conv(op.read_entries(..from)),
                    expected(0, from),
                );
            }
            for to in from + 1..=len + 2 {
                let e = expected(from, to);
                cmp(
                    format!("read_entries({from}..{to})"),
                    conv(op.read_entries(from..to)),
                    e.clone(),
                );
                cmp(
                    format!("read_entries({from}..={})", to - 1),
                    conv(op.read_entries(from..=to - 1)),
                    e.clone(),
                );
                if from > 0 {
                    cmp(
                        format!("read_entries((Excluded({}),Excluded({to})))", from - 1),
                        conv(op.read_entries((Bound::Excluded(from - 1), Bound::Excluded(to)))),
                        e,
                    );
                }
            }
        }
        if len > 0 {
            cmp(
                "read_entries(..)".into(),
                conv(op.read_entries(..)),
                expected(0, len),
            );
        }
        if op.get_decided_idx() != d {
            cmp(format!("get_decided_idx()={}", op.get_decided_idx()), Some(vec![]), None);
        }
        if op.get_compacted_idx() != c {
            cmp(format!("get_compacted_idx()={}", op.get_compacted_idx()), Some(vec![]), None);
        }
    });
    match res {
        Guarded::Done(()) => bad,
        Guarded::Crashed => None,
        Guarded::Panicked(p) => Some(format!("a read panicked: {p}")),
    }
}

/// Ballot and role of a leader-side message, if it is one.
pub fn leader_ballot<T: Entry>(m: &PaxosMsg<T>) -> Option<Ballot> {
    match m {
        PaxosMsg::Prepare(p) => Some(p.n),
        PaxosMsg::AcceptSync(a) => Some(a.n),
        PaxosMsg::AcceptDecide(a) => Some(a.n),
        PaxosMsg::AcceptStopSign(a) => Some(a.n),
        PaxosMsg::Decide(a) => Some(a.n),
        _ => None,
    }
}
