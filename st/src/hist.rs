//! Histories of real servers whose storage calls go to both backends and a plain model at once.
use crate::{caught, classes, copy_dir, logs, scratch_root, Scratch};
use mc::node::HEntry;
use mc::task::*;
use omnipaxos::ballot_leader_election::Ballot;
use omnipaxos::messages::Message;
use omnipaxos::storage::*;
use omnipaxos::{ClusterConfig, OmniPaxos, OmniPaxosConfig, ServerConfig};
use omnipaxos_storage::memory_storage::MemoryStorage;
use omnipaxos_storage::persistent_storage::{PersistentStorage, PersistentStorageConfig};
use serde_json::json;
use std::cell::RefCell;
use std::path::{Path, PathBuf};
use std::rc::Rc;
use std::time::Instant;

/// The plain model: what a log storage should hold.
#[derive(Clone, Debug)]
struct Model<T: Entry> {
    base: usize,
    log: Vec<T>,
    promise: Option<Ballot>,
    round: Option<Ballot>,
    decided: usize,
    compacted: usize,
    stop: Option<StopSign>,
    snap: Option<T::Snapshot>,
}
impl<T: Entry> Model<T> {
    fn new() -> Self {
        Model { base: 0, log: vec![], promise: None, round: None, decided: 0, compacted: 0, stop: None, snap: None }
    }
    fn op(&mut self, o: StorageOp<T>) {
        match o {
            StorageOp::AppendEntry(e) => self.log.push(e),
            StorageOp::AppendEntries(v) => self.log.extend(v),
            StorageOp::AppendOnPrefix(i, v) => {
                self.log.truncate(i.saturating_sub(self.base));
                self.log.extend(v)
            }
            StorageOp::SetPromise(b) => self.promise = Some(b),
            StorageOp::SetDecidedIndex(i) => self.decided = i,
            StorageOp::SetAcceptedRound(b) => self.round = Some(b),
            StorageOp::SetCompactedIdx(i) => self.compacted = i,
            StorageOp::Trim(i) => {
                let k = i.saturating_sub(self.base).min(self.log.len());
                self.log.drain(..k);
                self.base = self.base.max(i);
            }
            StorageOp::SetStopsign(s) => self.stop = s,
            StorageOp::SetSnapshot(s) => self.snap = s,
        }
    }
    fn len(&self) -> usize {
        self.base + self.log.len()
    }
}

fn clone_op<T: Entry>(o: &StorageOp<T>) -> StorageOp<T> {
    match o {
        StorageOp::AppendEntry(e) => StorageOp::AppendEntry(e.clone()),
        StorageOp::AppendEntries(v) => StorageOp::AppendEntries(v.clone()),
        StorageOp::AppendOnPrefix(i, v) => StorageOp::AppendOnPrefix(*i, v.clone()),
        StorageOp::SetPromise(b) => StorageOp::SetPromise(*b),
        StorageOp::SetDecidedIndex(i) => StorageOp::SetDecidedIndex(*i),
        StorageOp::SetAcceptedRound(b) => StorageOp::SetAcceptedRound(*b),
        StorageOp::SetCompactedIdx(i) => StorageOp::SetCompactedIdx(*i),
        StorageOp::Trim(i) => StorageOp::Trim(*i),
        StorageOp::SetStopsign(s) => StorageOp::SetStopsign(s.clone()),
        StorageOp::SetSnapshot(s) => StorageOp::SetSnapshot(s.clone()),
    }
}

fn differs<T: HEntry, B: Storage<T>>(b: &B, m: &Model<T>) -> Option<String> {
    macro_rules! cmp {
        ($name:expr, $got:expr, $want:expr) => {
            match $got {
                Ok(g) => {
                    let (g, w) = (format!("{:?}", g), format!("{:?}", $want));
                    if g != w {
                        return Some(format!("{} returns {g}, expected {w}", $name));
                    }
                }
                Err(e) => return Some(format!("{} fails: {e}", $name)),
            }
        };
    }
    cmp!("get_promise", b.get_promise(), m.promise);
    cmp!("get_accepted_round", b.get_accepted_round(), m.round);
    cmp!("get_decided_idx", b.get_decided_idx(), m.decided);
    cmp!("get_compacted_idx", b.get_compacted_idx(), m.compacted);
    cmp!("get_log_len", b.get_log_len(), m.log.len());
    cmp!("get_stopsign", b.get_stopsign(), m.stop);
    cmp!("get_snapshot", b.get_snapshot(), m.snap);
    for from in m.base..=m.len() {
        cmp!(format!("get_suffix({from})"), b.get_suffix(from), &m.log[from - m.base..]);
        for to in from..=m.len() {
            cmp!(format!("get_entries({from}, {to})"), b.get_entries(from, to), &m.log[from - m.base..to - m.base]);
        }
    }
    None
}

fn open<T: HEntry>(p: &Path) -> PersistentStorage<T>
where
    T::Snapshot: serde::Serialize + serde::de::DeserializeOwned,
{
    PersistentStorage::open(PersistentStorageConfig::with_path(p.to_str().unwrap().to_string()))
}

struct Inner<T: HEntry>
where
    T::Snapshot: serde::Serialize + serde::de::DeserializeOwned,
{
    mem: MemoryStorage<T>,
    per: Option<PersistentStorage<T>>,
    model: Model<T>,
    dir: Option<PathBuf>,
    image: PathBuf,
    /// check crash images of every write from now on
    crash: bool,
    err: Option<String>,
    calls: usize,
    images: usize,
}

struct Both<T: HEntry>(Rc<RefCell<Inner<T>>>)
where
    T::Snapshot: serde::Serialize + serde::de::DeserializeOwned;

impl<T: HEntry> Inner<T>
where
    T::Snapshot: serde::Serialize + serde::de::DeserializeOwned,
{
    fn write(&mut self, what: String, ops: Vec<StorageOp<T>>, mut f: impl FnMut(&mut dyn Storage<T>, Vec<StorageOp<T>>) -> StorageResult<()>) -> StorageResult<()> {
        self.calls += 1;
        let cp = |o: &Vec<StorageOp<T>>| o.iter().map(clone_op).collect::<Vec<_>>();
        let old = self.model.clone();
        for o in cp(&ops) {
            self.model.op(o);
        }
        let whole = self.model.base == self.model.compacted;
        let mut bad = None;
        let r = caught(|| f(&mut self.mem, cp(&ops)).map_err(|e| e.to_string()));
        match r {
            Ok(Ok(())) if whole => bad = differs(&self.mem, &self.model).map(|e| format!("memory storage: {e}")),
            Ok(Ok(())) => (),
            r => bad = Some(format!("memory storage fails: {r:?}")),
        }
        if let (Some(per), Some(dir)) = (self.per.as_mut(), self.dir.clone()) {
            let before = if self.crash { logs(&dir) } else { vec![] };
            let r = caught(|| f(per, cp(&ops)).map_err(|e| e.to_string()));
            match r {
                Ok(Ok(())) if whole => bad = bad.or(differs(per, &self.model).map(|e| format!("persistent storage: {e}"))),
                Ok(Ok(())) => (),
                r => bad = bad.or(Some(format!("persistent storage fails: {r:?}"))),
            }
            if self.crash && bad.is_none() {
                for (file, l1) in logs(&dir) {
                    let l0 = before.iter().find(|x| x.0 == file).map(|x| x.1).unwrap_or(0);
                    let data = std::fs::read(&file).unwrap();
                    let mut at = classes(&data, l0, l1);
                    at.push(l1);
                    for x in at {
                        self.images += 1;
                        copy_dir(&dir, &self.image);
                        let g = std::fs::OpenOptions::new().write(true).open(self.image.join(file.file_name().unwrap())).unwrap();
                        g.set_len(x).unwrap();
                        drop(g);
                        let image = self.image.clone();
                        let d = caught(|| {
                            let t = open::<T>(&image);
                            let new = if whole { differs(&t, &self.model) } else { None };
                            if x < l1 && new.is_some() && old.base == old.compacted {
                                differs(&t, &old).and(new)
                            } else {
                                new
                            }
                        });
                        let e = match d {
                            Ok(None) => continue,
                            Ok(Some(e)) => format!("the storage is in neither the state before nor after it: {e}"),
                            Err(e) => format!("reopening {e}"),
                        };
                        bad = Some(format!("the process stops during the call with {} of {} bytes written to the log: {e}", x - l0, l1 - l0));
                    }
                }
            }
        }
        if let Some(b) = bad {
            if self.err.is_none() {
                self.err = Some(format!("{what}: {b}"));
            }
        }
        Ok(())
    }
    fn reopen(&mut self) {
        if let Some(d) = self.dir.clone() {
            drop(self.per.take());
            match caught(|| {
                let s = open::<T>(&d);
                let e = differs(&s, &self.model);
                (s, e)
            }) {
                Ok((s, e)) => {
                    self.per = Some(s);
                    if let (Some(e), true) = (e, self.err.is_none()) {
                        self.err = Some(format!("after closing and opening the persistent storage: {e}"));
                    }
                }
                Err(e) => self.err = Some(format!("opening the persistent storage {e}")),
            }
        }
    }
}

impl<T: HEntry> Storage<T> for Both<T>
where
    T::Snapshot: serde::Serialize + serde::de::DeserializeOwned,
{
    fn write_atomically(&mut self, ops: Vec<StorageOp<T>>) -> StorageResult<()> {
        let s = format!("write_atomically({ops:?})");
        self.0.borrow_mut().write(s, ops, |b, o| b.write_atomically(o))
    }
    fn append_entry(&mut self, e: T) -> StorageResult<()> {
        self.0.borrow_mut().write(format!("append_entry({e:?})"), vec![StorageOp::AppendEntry(e.clone())], |b, _| b.append_entry(e.clone()))
    }
    fn append_entries(&mut self, v: Vec<T>) -> StorageResult<()> {
        self.0.borrow_mut().write(format!("append_entries({v:?})"), vec![StorageOp::AppendEntries(v.clone())], |b, _| b.append_entries(v.clone()))
    }
    fn append_on_prefix(&mut self, i: usize, v: Vec<T>) -> StorageResult<()> {
        self.0.borrow_mut().write(format!("append_on_prefix({i}, {v:?})"), vec![StorageOp::AppendOnPrefix(i, v.clone())], |b, _| b.append_on_prefix(i, v.clone()))
    }
    fn set_promise(&mut self, n: Ballot) -> StorageResult<()> {
        self.0.borrow_mut().write(format!("set_promise({n:?})"), vec![StorageOp::SetPromise(n)], |b, _| b.set_promise(n))
    }
    fn set_decided_idx(&mut self, i: usize) -> StorageResult<()> {
        self.0.borrow_mut().write(format!("set_decided_idx({i})"), vec![StorageOp::SetDecidedIndex(i)], |b, _| b.set_decided_idx(i))
    }
    fn set_accepted_round(&mut self, n: Ballot) -> StorageResult<()> {
        self.0.borrow_mut().write(format!("set_accepted_round({n:?})"), vec![StorageOp::SetAcceptedRound(n)], |b, _| b.set_accepted_round(n))
    }
    fn set_stopsign(&mut self, s: Option<StopSign>) -> StorageResult<()> {
        self.0.borrow_mut().write(format!("set_stopsign({s:?})"), vec![StorageOp::SetStopsign(s.clone())], |b, _| b.set_stopsign(s.clone()))
    }
    fn trim(&mut self, i: usize) -> StorageResult<()> {
        self.0.borrow_mut().write(format!("trim({i})"), vec![StorageOp::Trim(i)], |b, _| b.trim(i))
    }
    fn set_compacted_idx(&mut self, i: usize) -> StorageResult<()> {
        self.0.borrow_mut().write(format!("set_compacted_idx({i})"), vec![StorageOp::SetCompactedIdx(i)], |b, _| b.set_compacted_idx(i))
    }
    fn set_snapshot(&mut self, s: Option<T::Snapshot>) -> StorageResult<()> {
        self.0.borrow_mut().write(format!("set_snapshot({s:?})"), vec![StorageOp::SetSnapshot(s.clone())], |b, _| b.set_snapshot(s.clone()))
    }
    // the servers run on the model
    fn get_decided_idx(&self) -> StorageResult<usize> {
        Ok(self.0.borrow().model.decided)
    }
    fn get_accepted_round(&self) -> StorageResult<Option<Ballot>> {
        Ok(self.0.borrow().model.round)
    }
    fn get_entries(&self, from: usize, to: usize) -> StorageResult<Vec<T>> {
        let i = self.0.borrow();
        let m = &i.model;
        Ok(if to > m.len() || from >= to { vec![] } else { m.log[from - m.base..to - m.base].to_vec() })
    }
    fn get_log_len(&self) -> StorageResult<usize> {
        Ok(self.0.borrow().model.log.len())
    }
    fn get_suffix(&self, from: usize) -> StorageResult<Vec<T>> {
        let i = self.0.borrow();
        let m = &i.model;
        Ok(if from >= m.len() { vec![] } else { m.log[from - m.base..].to_vec() })
    }
    fn get_promise(&self) -> StorageResult<Option<Ballot>> {
        Ok(self.0.borrow().model.promise)
    }
    fn get_stopsign(&self) -> StorageResult<Option<StopSign>> {
        Ok(self.0.borrow().model.stop.clone())
    }
    fn get_compacted_idx(&self) -> StorageResult<usize> {
        Ok(self.0.borrow().model.compacted)
    }
    fn get_snapshot(&self) -> StorageResult<Option<T::Snapshot>> {
        Ok(self.0.borrow().model.snap.clone())
    }
}

#[derive(Clone, Copy, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
pub enum Ev {
    Append(u8),
    Elect(u8),
    Cut(u8),
    Mend,
    Snapshot(u8),
    Trim,
    Reconfigure,
    Restart(u8),
    Flush,
}

pub fn events(snaps: bool) -> Vec<Ev> {
    let mut v = vec![Ev::Append(0), Ev::Append(1), Ev::Elect(0), Ev::Elect(1), Ev::Elect(2), Ev::Cut(0), Ev::Cut(1), Ev::Mend, Ev::Reconfigure, Ev::Restart(0), Ev::Restart(1), Ev::Flush];
    v.extend(if snaps { vec![Ev::Snapshot(0), Ev::Snapshot(1)] } else { vec![Ev::Trim] });
    v
}

pub struct Run {
    pub err: Option<String>,
    pub calls: usize,
    pub images: usize,
}

/// Runs the events one after another, with all messages exchanged in between. Servers 0 and 1
/// have a persistent storage besides the one in memory.
pub fn run<T: HEntry>(h: &[Ev], batch: usize, crash: bool, sc: &Scratch) -> Run
where
    T::Snapshot: serde::Serialize + serde::de::DeserializeOwned,
{
    let n = 3;
    let conf = |i: usize| OmniPaxosConfig {
        cluster_config: ClusterConfig { configuration_id: 1, nodes: vec![1, 2, 3], flexible_quorum: None },
        server_config: ServerConfig { pid: i as u64 + 1, election_tick_timeout: 1_000_000, resend_message_tick_timeout: 1_000_000, flush_batch_tick_timeout: 1, batch_size: batch, buffer_size: 8, ..Default::default() },
    };
    let mut sts = vec![];
    for i in 0..n {
        let dir = if i < 2 { Some(sc.db(&format!("h{i}"))) } else { None };
        if let Some(d) = &dir {
            let _ = std::fs::remove_dir_all(d);
        }
        sts.push(Rc::new(RefCell::new(Inner::<T> { mem: MemoryStorage::default(), per: dir.as_ref().map(|d| open(d)), model: Model::new(), dir, image: sc.db("himg"), crash: false, err: None, calls: 0, images: 0 })));
    }
    let mut next = 1;
    let mut body = || {
        let mut ops: Vec<OmniPaxos<T, Both<T>>> = (0..n).map(|i| conf(i).build(Both(sts[i].clone())).unwrap()).collect();
        let mut cut: Option<usize> = None;
        let mut buf: Vec<Message<T>> = vec![];
        for (k, e) in h.iter().enumerate() {
            if crash && k + 1 == h.len() {
                sts.iter().for_each(|s| s.borrow_mut().crash = true);
            }
            match *e {
                Ev::Append(i) => {
                    for _ in 0..2 {
                        let _ = ops[i as usize].append(T::mk(next));
                        next += 1;
                    }
                }
                Ev::Elect(i) => ops[i as usize].try_become_leader(),
                Ev::Cut(i) => cut = Some(i as usize),
                Ev::Mend => {
                    if let Some(i) = cut.take() {
                        for j in 0..n {
                            if i != j {
                                ops[i].reconnected(j as u64 + 1);
                                ops[j].reconnected(i as u64 + 1);
                            }
                        }
                    }
                }
                Ev::Snapshot(i) => {
                    let _ = ops[i as usize].snapshot(None, false);
                }
                Ev::Trim => {
                    for o in ops.iter_mut() {
                        if o.trim(None).is_ok() {
                            break;
                        }
                    }
                }
                Ev::Reconfigure => {
                    let _ = ops[0].reconfigure(ClusterConfig { configuration_id: 2, nodes: vec![1, 2, 4], flexible_quorum: None }, Some(vec![1, 2]));
                }
                Ev::Flush => ops.iter_mut().for_each(|o| o.tick()),
                Ev::Restart(i) => {
                    let i = i as usize;
                    sts[i].borrow_mut().reopen();
                    ops[i] = conf(i).build(Both(sts[i].clone())).unwrap();
                    for j in 0..n {
                        if i != j && cut != Some(i) && cut != Some(j) {
                            ops[i].reconnected(j as u64 + 1);
                            ops[j].reconnected(i as u64 + 1);
                        }
                    }
                }
            }
            for _ in 0..60 {
                for i in 0..n {
                    ops[i].take_outgoing_messages(&mut buf);
                }
                if buf.is_empty() {
                    break;
                }
                for m in std::mem::take(&mut buf) {
                    let (a, b) = (m.get_sender() as usize - 1, m.get_receiver() as usize - 1);
                    if cut != Some(a) && cut != Some(b) {
                        ops[b].handle_incoming(m);
                    }
                }
            }
            if sts.iter().any(|s| s.borrow().err.is_some()) {
                break;
            }
        }
        if sts.iter().all(|s| s.borrow().err.is_none()) {
            sts.iter().for_each(|s| s.borrow_mut().reopen());
        }
    };
    // a failing server is judged by the other checks; only what the storages do matters here
    let _ = caught(&mut body);
    let mut r = Run { err: None, calls: 0, images: 0 };
    for (i, s) in sts.iter().enumerate() {
        if let Ok(mut s) = s.try_borrow_mut() {
            r.calls += s.calls;
            r.images += s.images;
            r.err = r.err.or(s.err.take().map(|e| format!("server {}: {e}", i + 1)));
        }
    }
    r
}

/// Every history of `depth` events after a start with a leader and two entries.
pub fn task(kind: u8, batch: usize, depth: usize, crash: bool, first: Ev) -> Task {
    let snaps = kind == 1;
    let name = format!("Lib{}-{}-b{batch}-{depth}-{first:?}", if crash { "Crash" } else { "" }, if snaps { "snap" } else { "trim" });
    let nm = name.clone();
    Task {
        name,
        run: Box::new(move |deadline| {
            let start = Instant::now();
            let sc = Scratch::new();
            let evs = events(snaps);
            let mut out = Out { name: nm.clone(), bound: format!("3 real servers, batch size {batch}: every history of {depth} events (append, election, cut, reconnection, compaction, reconfiguration, restart, flush) that begins with {first:?}, every storage call on both backends{}", if crash { ", the process stopping inside every call of the last event" } else { "" }), exhausted: true, ..Default::default() };
            let total = evs.len().pow(depth as u32 - 1);
            for k in 0..total {
                if Instant::now() > deadline {
                    out.exhausted = false;
                    break;
                }
                let mut h = vec![Ev::Elect(0), Ev::Append(0), first];
                let mut x = k;
                for _ in 1..depth {
                    h.push(evs[x % evs.len()]);
                    x /= evs.len();
                }
                let r = if snaps { run::<mc::types::S>(&h, batch, crash, &sc) } else { run::<mc::types::E>(&h, batch, crash, &sc) };
                out.states += 1;
                out.transitions += r.calls + r.images;
                out.closures += r.images;
                if out.sample.is_empty() {
                    out.sample = h.iter().map(|e| format!("{e:?}")).collect();
                }
                if let Some(e) = r.err {
                    out.exhausted = false;
                    out.viol = Some(Bad { msg: e, text: h.iter().map(|e| format!("{e:?}")).collect(), replay: json!({"kind": "lib", "snaps": snaps, "batch": batch, "crash": crash, "history": h}) });
                    break;
                }
            }
            out.validated = out.states;
            out.wall_ms = start.elapsed().as_millis() as u64;
            out
        }),
    }
}

pub fn replay(r: &serde_json::Value) -> i32 {
    let h: Vec<Ev> = serde_json::from_value(r["history"].clone()).unwrap();
    let sc = Scratch::new();
    let (batch, crash) = (r["batch"].as_u64().unwrap() as usize, r["crash"] == true);
    let x = if r["snaps"] == true { run::<mc::types::S>(&h, batch, crash, &sc) } else { run::<mc::types::E>(&h, batch, crash, &sc) };
    drop(sc);
    let _ = std::fs::remove_dir_all(scratch_root());
    for e in &h {
        println!("{e:?}");
    }
    println!("{}", x.err.as_ref().map(|e| format!("reproduced: {e}")).unwrap_or("not reproduced".into()));
    x.err.is_some() as i32
}
