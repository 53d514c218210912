//! Exhaustive enumeration of storage histories on the two shipped backends.
//! C14: every getter of both backends equals a reference log after every operation of every
//! history, also after closing and reopening at any point.
//! C15: every crash image (the write-ahead log cut at every byte written by the last operation)
//! reopens to the state before or after that operation; failed operations leave no trace.
mod hist;
use mc::task::*;
use omnipaxos::ballot_leader_election::Ballot;
use omnipaxos::storage::*;
use omnipaxos::ClusterConfig;
use omnipaxos_storage::memory_storage::MemoryStorage;
use omnipaxos_storage::persistent_storage::{PersistentStorage, PersistentStorageConfig};
use serde::{Deserialize, Serialize, Serializer};
use serde_json::json;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::time::{Duration, Instant};

const FAIL: u32 = 999_999;

fn ser(v: &u32) -> Result<u32, ()> {
    if *v == FAIL {
        Err(())
    } else {
        Ok(*v)
    }
}

/// An entry that cannot be encoded if its value is FAIL. The payload makes entries differ in size.
#[derive(Clone, Debug, PartialEq, Deserialize)]
struct P(u32, Vec<u8>);
impl Serialize for P {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        ser(&self.0).map_err(|_| serde::ser::Error::custom("cannot encode this entry"))?;
        (&self.0, &self.1).serialize(s)
    }
}
#[derive(Clone, Debug, PartialEq, Deserialize)]
struct L(Vec<u32>);
impl Serialize for L {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        for v in &self.0 {
            ser(v).map_err(|_| serde::ser::Error::custom("cannot encode this snapshot"))?;
        }
        (&self.0,).serialize(s)
    }
}
impl Entry for P {
    type Snapshot = L;
}
impl Snapshot<P> for L {
    fn create(e: &[P]) -> Self {
        L(e.iter().map(|x| x.0).collect())
    }
    fn merge(&mut self, d: Self) {
        self.0.extend(d.0)
    }
    fn use_snapshots() -> bool {
        true
    }
}
fn p(v: u32) -> P {
    P(v, vec![v as u8; (v % 3) as usize * 5])
}
fn ss(k: u32) -> StopSign {
    StopSign::with(
        ClusterConfig { configuration_id: k, nodes: vec![1, 2, 3 + k as u64], flexible_quorum: None },
        if k % 2 == 0 { None } else { Some(vec![k as u8; 4]) },
    )
}
fn bal(k: u32) -> Ballot {
    Ballot::with(1, k, k % 2, (k % 3 + 1) as u64)
}

/// Primitive operations with their arguments.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum Prim {
    Append1(u32),
    Append(Vec<u32>),
    Prefix(usize, Vec<u32>),
    Promise(u32),
    Decided(usize),
    Round(u32),
    Compacted(usize),
    Trim(usize),
    Stop(Option<u32>),
    Snap(Option<Vec<u32>>),
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum Op {
    /// separate calls
    Calls(Vec<Prim>),
    /// one write_atomically call
    Atomic(Vec<Prim>),
    /// close and open again (persistent backend)
    Reopen,
}
use Prim::*;

impl Prim {
    fn op(&self) -> StorageOp<P> {
        match self.clone() {
            Append1(v) => StorageOp::AppendEntry(p(v)),
            Append(v) => StorageOp::AppendEntries(v.into_iter().map(p).collect()),
            Prefix(i, v) => StorageOp::AppendOnPrefix(i, v.into_iter().map(p).collect()),
            Promise(k) => StorageOp::SetPromise(bal(k)),
            Decided(i) => StorageOp::SetDecidedIndex(i),
            Round(k) => StorageOp::SetAcceptedRound(bal(k)),
            Compacted(i) => StorageOp::SetCompactedIdx(i),
            Trim(i) => StorageOp::Trim(i),
            Stop(s) => StorageOp::SetStopsign(s.map(ss)),
            Snap(s) => StorageOp::SetSnapshot(s.map(L)),
        }
    }
    fn call<B: Storage<P>>(&self, b: &mut B) -> StorageResult<()> {
        match self.clone() {
            Append1(v) => b.append_entry(p(v)),
            Append(v) => b.append_entries(v.into_iter().map(p).collect()),
            Prefix(i, v) => b.append_on_prefix(i, v.into_iter().map(p).collect()),
            Promise(k) => b.set_promise(bal(k)),
            Decided(i) => b.set_decided_idx(i),
            Round(k) => b.set_accepted_round(bal(k)),
            Compacted(i) => b.set_compacted_idx(i),
            Trim(i) => b.trim(i),
            Stop(s) => b.set_stopsign(s.map(ss)),
            Snap(s) => b.set_snapshot(s.map(L)),
        }
    }
    fn fails(&self) -> bool {
        match self {
            Append1(v) => *v == FAIL,
            Append(v) | Prefix(_, v) => v.contains(&FAIL),
            Snap(Some(v)) => v.contains(&FAIL),
            _ => false,
        }
    }
}

/// The reference: a log with a trimmed prefix, and plain fields.
#[derive(Clone, Debug, PartialEq, Default)]
struct Ref {
    base: usize,
    log: Vec<u32>,
    promise: Option<u32>,
    round: Option<u32>,
    decided: usize,
    compacted: usize,
    stop: Option<u32>,
    snap: Option<Vec<u32>>,
    next: u32,
}
impl Ref {
    fn len(&self) -> usize {
        self.base + self.log.len()
    }
    fn prim(&mut self, x: &Prim) {
        match x.clone() {
            Append1(v) => self.log.push(v),
            Append(v) => self.log.extend(v),
            Prefix(i, v) => {
                self.log.truncate(i - self.base);
                self.log.extend(v)
            }
            Promise(k) => self.promise = Some(k),
            Decided(i) => self.decided = i,
            Round(k) => self.round = Some(k),
            Compacted(i) => self.compacted = i,
            Trim(i) => {
                let k = (i - self.base).min(self.log.len());
                self.log.drain(..k);
                self.base = i;
            }
            Stop(s) => self.stop = s,
            Snap(s) => self.snap = s,
        }
    }
    fn apply(&mut self, o: &Op) {
        match o {
            Op::Calls(v) | Op::Atomic(v) => v.iter().for_each(|x| self.prim(x)),
            Op::Reopen => (),
        }
        self.next += 3;
    }
}

fn call<B: Storage<P>>(b: &mut B, o: &Op) -> StorageResult<()> {
    match o {
        Op::Calls(v) => {
            for x in v {
                x.call(b)?;
            }
            Ok(())
        }
        Op::Atomic(v) => b.write_atomically(v.iter().map(|x| x.op()).collect()),
        Op::Reopen => Ok(()),
    }
}

/// Every getter, as text, or the differences to the reference.
fn differs<B: Storage<P>>(b: &B, r: &Ref) -> Option<String> {
    let mut bad = None;
    macro_rules! cmp {
        ($name:expr, $got:expr, $want:expr) => {
            match $got {
                Ok(g) => {
                    if bad.is_none() && g != $want {
                        bad = Some(format!("{} returns {:?}, expected {:?}", $name, g, $want));
                    }
                }
                Err(e) => {
                    if bad.is_none() {
                        bad = Some(format!("{} fails: {e}", $name));
                    }
                }
            }
        };
    }
    cmp!("get_promise", b.get_promise(), r.promise.map(bal));
    cmp!("get_accepted_round", b.get_accepted_round(), r.round.map(bal));
    cmp!("get_decided_idx", b.get_decided_idx(), r.decided);
    cmp!("get_compacted_idx", b.get_compacted_idx(), r.compacted);
    cmp!("get_log_len", b.get_log_len(), r.log.len());
    cmp!("get_stopsign", b.get_stopsign(), r.stop.map(ss));
    cmp!("get_snapshot", b.get_snapshot(), r.snap.clone().map(L));
    let all: Vec<usize> = (r.base..=r.len()).collect();
    let near = |x: usize| x.saturating_sub(2)..=x + 2;
    // of a long log, the ranges around its ends, its decided index and the change of key width
    let pts: Vec<usize> = if all.len() < 20 { all } else { all.into_iter().filter(|i| [r.base, r.decided, 128, 256, r.len()].iter().any(|x| near(*x).contains(i))).collect() };
    for &from in &pts {
        let w: Vec<P> = r.log[from - r.base..].iter().map(|v| p(*v)).collect();
        cmp!(format!("get_suffix({from})"), b.get_suffix(from), w);
        for &to in pts.iter().filter(|t| **t >= from) {
            let w: Vec<P> = r.log[from - r.base..to - r.base].iter().map(|v| p(*v)).collect();
            cmp!(format!("get_entries({from}, {to})"), b.get_entries(from, to), w);
        }
    }
    bad
}

fn uniq(mut v: Vec<usize>) -> Vec<usize> {
    v.sort();
    v.dedup();
    v
}

/// The operations that make sense in a state: those the library issues (every shape of its
/// transactions), and the single calls of the storage interface.
fn alphabet(r: &Ref, wide: bool) -> Vec<Op> {
    let n = r.next;
    let len = r.len();
    let c = r.compacted;
    let mut v = vec![];
    let at = |x: Vec<Prim>| Op::Atomic(x);
    v.push(Op::Calls(vec![Append(vec![n])]));
    v.push(Op::Calls(vec![Append(vec![n, n + 1])]));
    v.push(Op::Reopen);
    // log synchronisation from any index of the own log that is not compacted
    for i in uniq(vec![c, (c + len) / 2, len]) {
        for k in 0..=2u32 {
            let suffix: Vec<u32> = (n..n + k).collect();
            let d = r.decided.max(i).min(i + k as usize);
            v.push(at(vec![Round(n), Decided(d), Prefix(i, suffix.clone())]));
            if wide && k < 2 {
                v.push(at(vec![Round(n), Decided(d), Prefix(i, suffix.clone()), Stop(Some(n))]));
                v.push(at(vec![Round(n), Decided(d), Prefix(i, suffix), Stop(None)]));
            }
        }
    }
    // synchronisation with a snapshot, inside and beyond the own log
    for i in uniq(vec![c.max(r.decided), len, len + 2]) {
        for k in 0..=1u32 {
            let suffix: Vec<u32> = (n..n + k).collect();
            let x = vec![Round(n), Decided(i), Trim(i), Compacted(i), Snap(Some(vec![n; i.min(3)])), Prefix(i, suffix)];
            v.push(at(x.clone()));
            if wide {
                let mut y = x;
                y.push(Stop(Some(n + 1)));
                v.push(at(y));
            }
        }
    }
    // compaction
    for i in uniq(vec![c + 1, len]) {
        if i > c && i <= len {
            v.push(at(vec![Trim(i), Compacted(i)]));
            v.push(at(vec![Trim(i), Compacted(i), Snap(Some((0..i as u32).collect()))]));
            if wide {
                v.push(Op::Calls(vec![Trim(i), Compacted(i)]));
            }
        }
    }
    v.push(Op::Calls(vec![Promise(n)]));
    v.push(Op::Calls(vec![Decided(len)]));
    v.push(Op::Calls(vec![Stop(Some(n))]));
    if wide {
        v.push(Op::Calls(vec![Stop(None)]));
        v.push(Op::Calls(vec![Append1(n)]));
        v.push(Op::Calls(vec![Append(vec![])]));
        v.push(Op::Calls(vec![Round(n)]));
        v.push(Op::Calls(vec![Snap(Some(vec![n]))]));
        v.push(Op::Calls(vec![Snap(None)]));
        v.push(at(vec![Append1(n), Append(vec![n + 1, n + 2]), Promise(n)]));
        v.push(at(vec![]));
        for i in uniq(vec![c, (c + len) / 2, len]) {
            for k in 0..=2u32 {
                v.push(Op::Calls(vec![Prefix(i, (n..n + k).collect())]));
            }
        }
        if len > c {
            // overwriting, appending and trimming in one group
            v.push(at(vec![Prefix(c + 1, vec![n]), Append1(n + 1), Trim(c + 1), Compacted(c + 1)]));
            v.push(at(vec![Append1(n), Prefix(c + 1, vec![])]));
        }
    }
    v
}

/// The same without entries that cannot be encoded: groups with one such entry at any place.
fn failing(r: &Ref) -> Vec<Op> {
    let n = r.next;
    let len = r.len();
    let c = r.compacted;
    let f = FAIL;
    let at = |x: Vec<Prim>| Op::Atomic(x);
    let mut v = vec![
        Op::Calls(vec![Append1(f)]),
        Op::Calls(vec![Append(vec![f])]),
        Op::Calls(vec![Append(vec![n, f])]),
        Op::Calls(vec![Append(vec![n, n + 1, f])]),
        Op::Calls(vec![Append(vec![n, f, n + 1])]),
        Op::Calls(vec![Snap(Some(vec![f]))]),
        at(vec![Append1(f)]),
        at(vec![Append1(n), Append1(f)]),
        at(vec![Promise(n), Append(vec![n, f])]),
        at(vec![Append(vec![n, n + 1]), Round(n), Decided(len + 1), Append1(f), Promise(n)]),
        at(vec![Stop(Some(n)), Append1(f)]),
        at(vec![Promise(n), Round(n), Decided(len), Stop(None), Snap(Some(vec![f]))]),
        at(vec![Append1(n), Snap(Some(vec![f])), Append1(n + 1)]),
    ];
    for i in uniq(vec![c, (c + len) / 2, len]) {
        v.push(Op::Calls(vec![Prefix(i, vec![f])]));
        v.push(Op::Calls(vec![Prefix(i, vec![n, f])]));
        v.push(at(vec![Round(n), Decided(i), Prefix(i, vec![f])]));
        v.push(at(vec![Round(n), Decided(i), Prefix(i, vec![n, f])]));
        v.push(at(vec![Round(n), Decided(i), Trim(i), Compacted(i), Snap(Some(vec![f])), Prefix(i, vec![n])]));
        v.push(at(vec![Round(n), Decided(i), Trim(i), Compacted(i), Snap(Some(vec![1])), Prefix(i, vec![n, f]), Stop(Some(n))]));
        if i > c {
            v.push(at(vec![Trim(i), Compacted(i), Snap(Some(vec![f]))]));
        }
    }
    v
}

fn open(path: &Path) -> PersistentStorage<P> {
    PersistentStorage::open(PersistentStorageConfig::with_path(path.to_str().unwrap().to_string()))
}

/// A scratch directory that is removed when dropped.
struct Scratch(PathBuf);
static COUNTER: AtomicUsize = AtomicUsize::new(0);
fn scratch_root() -> PathBuf {
    let shm = Path::new("/dev/shm");
    let root = if shm.is_dir() { shm.to_path_buf() } else { std::env::temp_dir() };
    root.join(format!("omnipaxos-st-{}", std::process::id()))
}
impl Scratch {
    fn new() -> Self {
        let d = scratch_root().join(COUNTER.fetch_add(1, Ordering::SeqCst).to_string());
        std::fs::create_dir_all(&d).expect("scratch directory");
        Scratch(d)
    }
    fn db(&self, n: &str) -> PathBuf {
        self.0.join(n)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn caught<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match mc::node::guarded(f) {
        mc::node::Guarded::Done(r) => Ok(r),
        mc::node::Guarded::Panicked(m) => Err(format!("panicked: {m}")),
        mc::node::Guarded::Crashed => Err("crashed".into()),
    }
}

/// Runs one history on the in-memory backend.
fn run_mem(h: &[Op], full: bool) -> Result<(), String> {
    let mut m: MemoryStorage<P> = MemoryStorage::default();
    let mut r = Ref::default();
    r.next = 1;
    for (k, o) in h.iter().enumerate() {
        r.apply(o);
        let res = caught(|| call(&mut m, o).map_err(|e| e.to_string()));
        match res {
            Ok(Ok(())) => (),
            Ok(Err(e)) => return Err(format!("in-memory storage: operation {} fails: {e}", k + 1)),
            Err(e) => return Err(format!("in-memory storage: operation {} {e}", k + 1)),
        }
        if full || k + 1 == h.len() {
            match caught(|| differs(&m, &r)) {
                Ok(None) => (),
                Ok(Some(d)) => return Err(format!("in-memory storage: after operation {} {d}", k + 1)),
                Err(e) => return Err(format!("in-memory storage: reading after operation {} {e}", k + 1)),
            }
        }
    }
    Ok(())
}

/// Runs one history on the persistent backend; failing operations must leave no trace.
fn run_per(h: &[Op], dir: &Path) -> Result<(), String> {
    let mut s = Some(open(dir));
    let mut r = Ref::default();
    r.next = 1;
    for (k, o) in h.iter().enumerate() {
        let fails = match o {
            Op::Calls(v) | Op::Atomic(v) => v.iter().any(|x| x.fails()),
            Op::Reopen => false,
        };
        if fails {
            r.next += 3;
        } else {
            r.apply(o);
        }
        let res = caught(|| {
            if *o == Op::Reopen {
                drop(s.take());
                s = Some(open(dir));
            }
            call(s.as_mut().unwrap(), o).map_err(|e| e.to_string())
        });
        match (res, fails) {
            (Ok(Ok(())), false) | (Ok(Err(_)), true) => (),
            (Ok(Ok(())), true) => return Err(format!("persistent storage: operation {} reports success although an entry of it cannot be stored", k + 1)),
            (Ok(Err(e)), false) => return Err(format!("persistent storage: operation {} fails: {e}", k + 1)),
            (Err(e), _) => return Err(format!("persistent storage: operation {} {e}", k + 1)),
        }
        let what = if fails { "the failed operation" } else { "operation" };
        match caught(|| differs(s.as_ref().unwrap(), &r)) {
            Ok(None) => (),
            Ok(Some(d)) => return Err(format!("persistent storage: after {what} {} {d}", k + 1)),
            Err(e) => return Err(format!("persistent storage: reading after {what} {} {e}", k + 1)),
        }
    }
    // and once more after closing and reopening
    let res = caught(|| {
        drop(s.take());
        s = Some(open(dir));
        differs(s.as_ref().unwrap(), &r)
    });
    match res {
        Ok(None) => Ok(()),
        Ok(Some(d)) => Err(format!("persistent storage: after closing and reopening at the end {d}")),
        Err(e) => Err(format!("persistent storage: closing and reopening {e}")),
    }
}

fn logs(dir: &Path) -> Vec<(PathBuf, u64)> {
    let mut v: Vec<(PathBuf, u64)> = std::fs::read_dir(dir)
        .unwrap()
        .filter_map(|e| e.ok())
        .filter(|e| e.path().extension().map(|x| x == "log").unwrap_or(false))
        .map(|e| (e.path(), e.metadata().map(|m| m.len()).unwrap_or(0)))
        .collect();
    v.sort();
    v
}

fn copy_dir(from: &Path, to: &Path) {
    let _ = std::fs::remove_dir_all(to);
    std::fs::create_dir_all(to).unwrap();
    for e in std::fs::read_dir(from).unwrap().filter_map(|e| e.ok()) {
        // the LOCK file is held by the live instance; LOG files are only diagnostics
        let n = e.file_name();
        let name = n.to_string_lossy();
        if name == "LOCK" || name.starts_with("LOG") {
            continue;
        }
        std::fs::copy(e.path(), to.join(&n)).unwrap();
    }
}

/// One position of each kind in every record written to the log: at its start, in its header,
/// in its payload and before its last byte (a record is a 7-byte header, with the length of the
/// payload at byte 4, and the payload). All positions if the file does not parse that way.
fn classes(data: &[u8], l0: u64, l1: u64) -> Vec<u64> {
    let mut v = vec![];
    let mut x = l0;
    while x < l1 {
        let n = match data.get(x as usize + 4..x as usize + 6) {
            Some(b) => u16::from_le_bytes([b[0], b[1]]) as u64,
            None => 0,
        };
        if n == 0 || x + 7 + n > l1 {
            return (l0..l1).collect();
        }
        v.extend([x, x + 3, x + 7 + n / 2, x + 7 + n - 1]);
        x += 7 + n;
    }
    v.dedup();
    v
}

/// Runs the history; the process stops at every byte of the log written by the last operation
/// (one image per position), and after the operation returned. Every image must reopen to the
/// state before or after that operation; the complete image to the state after it.
fn run_crash(h: &[Op], sc: &Scratch, images: &mut usize, all_bytes: bool) -> Result<(), String> {
    let dir = sc.db("live");
    let img = sc.db("image");
    let _ = std::fs::remove_dir_all(&dir);
    let mut s = Some(open(&dir));
    let mut r = Ref::default();
    r.next = 1;
    for o in &h[..h.len() - 1] {
        r.apply(o);
        let res = caught(|| {
            if *o == Op::Reopen {
                drop(s.take());
                s = Some(open(&dir));
            }
            call(s.as_mut().unwrap(), o).map_err(|e| e.to_string())
        });
        if !matches!(res, Ok(Ok(()))) {
            return Err(format!("persistent storage: {o:?} failed: {res:?}"));
        }
    }
    let o = h.last().unwrap();
    // the states the interrupted operation may leave: a group of calls may stop between calls
    let mut allowed = vec![r.clone()];
    match o {
        Op::Calls(v) => {
            let mut q = r.clone();
            for x in v {
                q.prim(x);
                allowed.push(q.clone());
            }
        }
        _ => {
            let mut q = r.clone();
            q.apply(o);
            allowed.push(q);
        }
    }
    let before = logs(&dir);
    let res = caught(|| call(s.as_mut().unwrap(), o).map_err(|e| e.to_string()));
    if !matches!(res, Ok(Ok(()))) {
        return Err(format!("persistent storage: {o:?} failed: {res:?}"));
    }
    let after = logs(&dir);
    let len0 = |f: &PathBuf| before.iter().find(|(x, _)| x == f).map(|x| x.1).unwrap_or(0);
    let mut cuts: Vec<(Option<(PathBuf, u64)>, bool)> = vec![(None, true)];
    for (f, l1) in &after {
        let l0 = len0(f);
        let data = std::fs::read(f).unwrap();
        for x in if all_bytes { (l0..*l1).collect() } else { classes(&data, l0, *l1) } {
            cuts.push((Some((f.clone(), x)), false));
        }
    }
    for (cut, complete) in cuts {
        *images += 1;
        copy_dir(&dir, &img);
        if let Some((f, x)) = &cut {
            let g = std::fs::OpenOptions::new().write(true).open(img.join(f.file_name().unwrap())).unwrap();
            g.set_len(*x).unwrap();
        }
        let ok = caught(|| {
            let t = open(&img);
            if complete {
                differs(&t, allowed.last().unwrap())
            } else {
                // the composite trim + compacted index is only readable as a whole
                let d: Vec<Option<String>> = allowed.iter().map(|a| if a.base == a.compacted { differs(&t, a) } else { t.get_compacted_idx().err().map(|e| e.to_string()) }).collect();
                if d.iter().any(|x| x.is_none()) {
                    None
                } else {
                    d.into_iter().next_back().flatten()
                }
            }
        });
        let at = match &cut {
            None => "after it returned".to_string(),
            Some((f, x)) => format!("with {} of {} bytes it wrote to the log", x - len0(f), after.iter().find(|y| y.0 == *f).unwrap().1 - len0(f)),
        };
        match ok {
            Ok(None) => (),
            Ok(Some(d)) => return Err(format!("the process stops during {o:?}, {at}: after reopening the storage is in neither the state before nor after it ({d})")),
            Err(e) => return Err(format!("the process stops during {o:?}, {at}: reopening {e}")),
        }
    }
    Ok(())
}

fn text(h: &[Op]) -> Vec<String> {
    h.iter().enumerate().map(|(k, o)| format!("{}: {:?}", k + 1, o)).collect()
}

#[derive(Clone, Copy, PartialEq, Debug, Serialize, Deserialize)]
enum Mode {
    Mem,
    Per,
    Crash,
    CrashAll,
    Fail,
}

fn prefixes() -> Vec<(&'static str, Vec<Op>)> {
    let c = |x: Vec<Prim>| Op::Calls(x);
    let base = vec![c(vec![Promise(1)]), c(vec![Append(vec![1, 2, 3])]), c(vec![Decided(2)])];
    let mut trimmed = base.clone();
    trimmed.push(Op::Atomic(vec![Trim(2), Compacted(2)]));
    let mut snap = base.clone();
    snap.push(Op::Atomic(vec![Trim(1), Compacted(1), Snap(Some(vec![1]))]));
    snap.push(c(vec![Stop(Some(7))]));
    let mut all = base.clone();
    all.push(Op::Atomic(vec![Round(1), Decided(3), Trim(3), Compacted(3), Snap(Some(vec![1, 2, 3])), Prefix(3, vec![])]));
    let reop = vec![c(vec![Append(vec![1, 2, 3])]), Op::Reopen];
    // log indexes of more than one byte
    let long = vec![c(vec![Append((1..=253).collect())]), c(vec![Append(vec![254, 255])]), c(vec![Append(vec![256, 257, 258])]), c(vec![Decided(256)])];
    let mut longtrim = long.clone();
    longtrim.push(Op::Atomic(vec![Trim(255), Compacted(255)]));
    let mut longreop = long.clone();
    longreop.push(Op::Reopen);
    vec![("long", long), ("long-trimmed", longtrim), ("long-reopened", longreop), ("empty", vec![]), ("log", base), ("trimmed", trimmed), ("snapshot", snap), ("compacted", all), ("reopened", reop)]
}

fn run_one(mode: Mode, h: &[Op], sc: &Scratch, k: &mut usize, images: &mut usize) -> Result<(), String> {
    match mode {
        Mode::Mem => run_mem(h, false),
        Mode::Per | Mode::Fail => {
            *k += 1;
            let d = sc.db(&k.to_string());
            let r = run_per(h, &d);
            let _ = std::fs::remove_dir_all(&d);
            r
        }
        Mode::Crash => run_crash(h, sc, images, false),
        Mode::CrashAll => run_crash(h, sc, images, true),
    }
}

/// All histories prefix + first + (depth - 1 further operations).
fn task(mode: Mode, pname: &str, prefix: Vec<Op>, first: Op, depth: usize, wide: bool, idx: usize) -> Task {
    let name = format!("{mode:?}-{pname}-{idx}");
    let n2 = name.clone();
    Task {
        name,
        run: Box::new(move |deadline| {
            let start = Instant::now();
            let sc = Scratch::new();
            let mut out = Out {
                name: n2.clone(),
                bound: format!("{mode:?}: prefix {prefix:?}, first operation {first:?}, all continuations to {depth} operation(s)"),
                exhausted: true,
                ..Default::default()
            };
            let mut k = 0;
            let mut images = 0;
            let mut h = prefix.clone();
            h.push(first.clone());
            let mut stack: Vec<(Vec<Op>, usize)> = vec![(h, 1)];
            while let Some((h, d)) = stack.pop() {
                if Instant::now() > deadline {
                    out.exhausted = false;
                    break;
                }
                let mut r = Ref::default();
                r.next = 1;
                for o in &h {
                    let fails = match o {
                        Op::Calls(v) | Op::Atomic(v) => v.iter().any(|x| x.fails()),
                        _ => false,
                    };
                    if fails {
                        r.next += 3
                    } else {
                        r.apply(o)
                    }
                }
                // the persistent backend checks every prefix on the way, so only the leaves run
                let leaf = d >= depth;
                if leaf || matches!(mode, Mode::Mem) {
                    out.states += 1;
                    out.transitions += if leaf && !matches!(mode, Mode::Mem) { h.len() } else { 1 };
                    if out.sample.is_empty() && leaf {
                        out.sample = text(&h);
                    }
                    if let Err(m) = run_one(mode, &h, &sc, &mut k, &mut images) {
                        out.viol = Some(Bad { msg: m, text: text(&h), replay: json!({"kind": "storage", "mode": mode, "history": h}) });
                        break;
                    }
                }
                if !leaf {
                    for o in alphabet(&r, wide) {
                        let mut g = h.clone();
                        g.push(o);
                        stack.push((g, d + 1));
                    }
                }
            }
            out.closures = images;
            out.transitions += images;
            out.local_transitions = k;
            out.max_depth = depth as u32;
            out.validated = out.states;
            out.outcomes = out.states;
            out.wall_ms = start.elapsed().as_millis() as u64;
            out
        }),
    }
}

/// Every way to create, close and open a persistent storage, three times in a row.
fn ways() -> Task {
    Task {
        name: "Ways".into(),
        run: Box::new(|_| {
            let start = Instant::now();
            let mut out = Out { name: "Ways".into(), bound: "every sequence of three ways (with_path, with, setters on another configuration, new) to open the same path, an entry, a promise and a decided index written each time".into(), exhausted: true, ..Default::default() };
            let sc = Scratch::new();
            for k in 0..64usize {
                let seq = [k % 4, k / 4 % 4, k / 16];
                let d = sc.db(&format!("w{k}"));
                let path = d.to_str().unwrap().to_string();
                let mut r = Ref::default();
                let mut err = None;
                for (j, w) in seq.iter().enumerate() {
                    let o = PersistentStorageConfig::with_path(path.clone());
                    let conf = match w {
                        0 | 3 => o,
                        1 => PersistentStorageConfig::with(path.clone(), o.get_log_options(), o.get_database_options()),
                        _ => {
                            let mut c = PersistentStorageConfig::with_path(format!("{path}-never"));
                            c.set_path(path.clone());
                            c.set_log_options(o.get_log_options());
                            c.set_database_options(o.get_database_options());
                            c
                        }
                    };
                    if conf.get_path() != &path {
                        err = Some(format!("the configured path is {} instead of {path}", conf.get_path()));
                        break;
                    }
                    let opened = caught(|| if *w == 3 { PersistentStorage::<P>::new(conf) } else { PersistentStorage::open(conf) });
                    out.transitions += 1;
                    if *w == 3 && j > 0 {
                        if opened.is_ok() {
                            err = Some("new succeeds although there is a database in the path".into());
                            break;
                        }
                        continue;
                    }
                    let mut s = match opened {
                        Ok(s) => s,
                        Err(e) => {
                            err = Some(format!("opening fails: {e}"));
                            break;
                        }
                    };
                    if let Some(e) = differs(&s, &r) {
                        err = Some(format!("after opening for the {}. time: {e}", j + 1));
                        break;
                    }
                    let op = Op::Calls(vec![Append(vec![j as u32 + 1]), Promise(j as u32 + 1), Decided(j + 1)]);
                    let _ = call(&mut s, &op);
                    r.apply(&op);
                    if let Some(e) = differs(&s, &r) {
                        err = Some(e);
                        break;
                    }
                }
                out.states += 1;
                if let Some(e) = err {
                    out.exhausted = false;
                    out.viol = Some(Bad { msg: e, text: vec![format!("ways to open: {seq:?} (0 with_path, 1 with, 2 setters, 3 new)")], replay: json!({"kind": "ways"}) });
                    break;
                }
            }
            out.sample = vec!["with_path, with, setters".into()];
            out.validated = out.states;
            out.wall_ms = start.elapsed().as_millis() as u64;
            out
        }),
    }
}

fn tasks(prop: &str, thorough: bool) -> Vec<Task> {
    let mut v = vec![];
    if prop == "C14" {
        v.push(ways());
    }
    for kind in [0, 1] {
        for first in hist::events(kind == 1) {
            if prop == "C14" {
                v.push(hist::task(kind, 1, if thorough { 3 } else { 2 }, false, first));
                v.push(hist::task(kind, 3, if thorough { 3 } else { 2 }, false, first));
            } else {
                v.push(hist::task(kind, 1, if thorough { 3 } else { 2 }, true, first));
                if thorough {
                    v.push(hist::task(kind, 3, 3, true, first));
                }
            }
        }
    }
    for (pname, pre) in prefixes() {
        let mut r = Ref::default();
        r.next = 1;
        pre.iter().for_each(|o| r.apply(o));
        let wide = alphabet(&r, true);
        let narrow = alphabet(&r, false);
        if pname.starts_with("long") && !thorough {
            // quick: one further operation (in memory: two)
            for (i, o) in wide.iter().enumerate() {
                if prop == "C14" {
                    v.push(task(Mode::Per, pname, pre.clone(), o.clone(), 1, true, i));
                    v.push(task(Mode::Mem, pname, pre.clone(), o.clone(), 2, true, i));
                } else if pname != "long-reopened" {
                    v.push(task(Mode::Crash, pname, pre.clone(), o.clone(), 1, true, i));
                }
            }
            continue;
        }
        if prop == "C14" {
            for (i, o) in wide.iter().enumerate() {
                v.push(task(Mode::Per, pname, pre.clone(), o.clone(), 2, true, i));
            }
            for (i, o) in narrow.iter().enumerate() {
                v.push(task(Mode::Mem, pname, pre.clone(), o.clone(), if thorough { 5 } else { 4 }, false, 1000 + i));
                if thorough {
                    v.push(task(Mode::Per, pname, pre.clone(), o.clone(), 3, false, 1000 + i));
                }
            }
            for (i, o) in wide.iter().enumerate() {
                v.push(task(Mode::Mem, pname, pre.clone(), o.clone(), if thorough { 4 } else { 3 }, true, i));
            }
        }
        if prop == "C15" {
            for (i, o) in wide.iter().enumerate() {
                v.push(task(if thorough || pname == "log" { Mode::CrashAll } else { Mode::Crash }, pname, pre.clone(), o.clone(), 1, true, i));
            }
            for (i, o) in failing(&r).iter().enumerate() {
                v.push(task(Mode::Fail, pname, pre.clone(), o.clone(), if thorough { 3 } else { 2 }, false, i));
            }
            for (i, o) in narrow.iter().enumerate() {
                v.push(task(if thorough { Mode::CrashAll } else { Mode::Crash }, pname, pre.clone(), o.clone(), 2, thorough, 1000 + i));
            }
        }
    }
    v
}

fn main() {
    mc::node::install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let arg = |k: &str, d: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned()).unwrap_or(d.to_string());
            let prop = a[2].clone();
            let tier = a[3].clone();
            let thorough = tier == "thorough";
            let secs: u64 = arg("--secs", if thorough { "700" } else { "120" }).parse().unwrap();
            let start = Instant::now();
            let outs = run_all(tasks(&prop, thorough), secs);
            let _ = std::fs::remove_dir_all(scratch_root());
            let meta = Meta {
                prop: &prop,
                tier: &tier,
                level: "model_checking",
                rule: if prop == "C14" {
                    "every history of storage operations within the bounds is executed on both shipped backends and every getter is compared with a reference log after every operation; a state is a history, a transition an executed operation"
                } else {
                    "every history within the bounds is executed on the persistent backend; every byte position (Crash: one position per kind in every log record) of the log written by the last operation is a crash image that is reopened and compared with a reference log; a state is a history, a transition an executed operation or a reopened crash image"
                },
                assumptions: vec![
                    "a stopped process leaves a prefix of what it handed to the operating system (no torn sectors, no loss of the page cache)",
                    "histories use the operation shapes of the library and single calls of the storage interface, with small index and value ranges",
                ],
            };
            report(&meta, &outs, start.elapsed().as_secs_f64(), &arg("--evidence", &format!("/verif/evidence/{prop}.json")), &arg("--replays", "/verif/replays"))
        }
        Some("replay") => {
            let doc: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).expect("read replay file")).unwrap();
            if doc["replay"]["kind"] == "lib" {
                std::process::exit(hist::replay(&doc["replay"]));
            }
            if doc["replay"]["kind"] == "ways" {
                let o = (ways().run)(Instant::now() + Duration::from_secs(60));
                let _ = std::fs::remove_dir_all(scratch_root());
                println!("{}", o.viol.as_ref().map(|b| format!("reproduced: {}", b.msg)).unwrap_or("not reproduced".into()));
                std::process::exit(o.viol.is_some() as i32);
            }
            let h: Vec<Op> = serde_json::from_value(doc["replay"]["history"].clone()).unwrap();
            let mode: Mode = serde_json::from_value(doc["replay"]["mode"].clone()).unwrap();
            for l in text(&h) {
                println!("{l}");
            }
            let sc = Scratch::new();
            let r = run_one(mode, &h, &sc, &mut 0, &mut 0);
            drop(sc);
            let _ = std::fs::remove_dir_all(scratch_root());
            match r {
                Err(m) => {
                    println!("reproduced: {m}");
                    1
                }
                Ok(()) => {
                    println!("not reproduced");
                    0
                }
            }
        }
        _ => {
            eprintln!("usage: st check PROP TIER | st replay FILE");
            2
        }
    };
    std::process::exit(code);
}
