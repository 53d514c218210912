//! Explicit-state exploration of a cluster of real servers.
//!
//! A server's state is a deterministic function of its input history, so each distinct
//! (local state, input) pair is executed once on the real code (on a fresh server, by replaying
//! its history) and memoised. A global state is the tuple of local states, the FIFO contents of
//! every link, link cuts, the budgets used so far and the monitors' ghost state.
use crate::node::*;
use omnipaxos::{
    ballot_leader_election::Ballot,
    messages::{sequence_paxos::*, Message},
};
use omnipaxos_storage::memory_storage::MemoryStorage;
use std::{
    collections::{HashMap, VecDeque},
    hash::{BuildHasherDefault, Hasher},
    rc::Rc,
    time::Instant,
};

// ---------------------------------------------------------------- hashing
#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        let mut h = self.0;
        h ^= h >> 32;
        h = h.wrapping_mul(0x9E3779B97F4A7C15);
        h ^ (h >> 29)
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut a = [0u8; 8];
            a[..c.len()].copy_from_slice(c);
            self.write_u64(u64::from_le_bytes(a) ^ ((c.len() as u64) << 56));
        }
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0xff51afd7ed558ccd);
    }
    fn write_u32(&mut self, v: u32) {
        self.write_u64(v as u64)
    }
    fn write_u8(&mut self, v: u8) {
        self.write_u64(v as u64)
    }
    fn write_usize(&mut self, v: usize) {
        self.write_u64(v as u64)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}
pub fn fp128_u32(v: &[u32]) -> u128 {
    let (mut a, mut b) = (0x243F6A8885A308D3u64, 0x13198A2E03707344u64);
    for &x in v {
        a = mix(a ^ (x as u64).wrapping_add(0x9E3779B97F4A7C15));
        b = mix(b.rotate_left(17).wrapping_add(x as u64) ^ 0xA4093822299F31D0);
    }
    ((a as u128) << 64) | b as u128
}
pub fn fp128_bytes(v: &[u8]) -> u128 {
    let (mut a, mut b) = (0x243F6A8885A308D3u64, 0x13198A2E03707344u64);
    for c in v.chunks(8) {
        let mut x = [0u8; 8];
        x[..c.len()].copy_from_slice(c);
        let x = u64::from_le_bytes(x).wrapping_add((c.len() as u64) << 60);
        a = mix(a ^ x.wrapping_add(0x9E3779B97F4A7C15));
        b = mix(b.rotate_left(17).wrapping_add(x) ^ 0xA4093822299F31D0);
    }
    ((a as u128) << 64) | b as u128
}

// ---------------------------------------------------------------- scenarios
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Append,
    Reconf,
    Lead,
    Tick,
    Trim(Option<u32>),
    Snap(Option<u32>, bool),
    Reconn(u8),
    Crash,
    /// an election timeout; the heartbeat requests of the round it starts are answered at once by
    /// the servers in the mask, the other requests or their answers are lost or too late
    Beat(u8),
    Prio(u32),
}

#[derive(Clone, Debug)]
pub struct Group {
    pub max: u8,
    pub opts: Vec<(u8, Kind)>,
}

#[derive(Clone, Debug)]
pub enum Step {
    Do(u8, Kind),
    DoHold(u8, Kind),
    Restart(u8),
    /// deliver everything (restricted to messages between the listed nodes if not empty)
    Deliver,
    DeliverAmong(Vec<u8>),
    /// deliver `k` messages on a link
    DeliverN(u8, u8, u8),
    /// lose everything in flight on the link / everywhere
    Lose(u8, u8),
    LoseAll,
    Isolate(u8),
    Cut(u8, u8),
    HealAll,
    /// from now on the link is delivered message by message
    Slow(u8, u8),
}

#[derive(Clone, Debug)]
pub struct Scenario {
    pub name: String,
    pub cfg: Cfg,
    pub init: Vec<Step>,
    pub groups: Vec<Group>,
    pub drop: u8,
    pub cut: u8,
    pub heal: u8,
    pub hold: u8,
    pub crash_at: u8,
    /// nodes on which crash_at / hold apply (bitmask)
    pub fault_nodes: u8,
    pub closure: Closure,
    pub max_states: usize,
    /// the fault-free completeness oracle applies in quiescent states
    pub faultfree: bool,
    pub snap_entries: bool,
    pub uses_trim: bool,
    /// macro-step mode: links are synchronous (messages on them are delivered at once, in a
    /// fixed order) unless frozen; frozen links deliver one message per explicit action
    pub sync: bool,
    /// how many single links / whole in- or out-directions of a server may be frozen
    pub freeze: u8,
    pub freeze_node: u8,
    /// repairs mend all cut links at once
    pub heal_all: bool,
    /// continuations also with each single server unreachable
    pub minority: bool,
    /// round mode: number of rounds and the operations of a leader in a round
    pub rounds: u8,
    pub ops: Vec<Option<Kind>>,
    pub coming: Vec<u8>,
    /// values of the cached fields (only with UniCache), see types::PATTERN
    pub pattern: u64,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Closure {
    None,
    /// in states without messages in flight
    Quiescent,
    All,
}

impl Scenario {
    pub fn new(name: &str, cfg: Cfg) -> Self {
        Scenario {
            name: name.into(),
            cfg,
            init: vec![],
            groups: vec![],
            drop: 0,
            cut: 0,
            heal: 0,
            hold: 0,
            crash_at: 0,
            fault_nodes: 0xff,
            closure: Closure::None,
            max_states: 3_000_000,
            faultfree: false,
            snap_entries: false,
            uses_trim: false,
            sync: false,
            freeze: 0,
            freeze_node: 0,
            heal_all: false,
            minority: false,
            rounds: 0,
            ops: vec![],
            coming: vec![],
            pattern: 0,
        }
    }
    pub fn sync(mut self, links: u8, nodes: u8) -> Self {
        self.sync = true;
        self.freeze = links;
        self.freeze_node = nodes;
        self
    }
    pub fn rounds(mut self, k: u8, ops: &[Option<Kind>], coming: &[u8]) -> Self {
        self.coming = coming.to_vec();
        self.rounds = k;
        self.ops = ops.to_vec();
        self
    }
    pub fn minority(mut self) -> Self {
        self.minority = true;
        self
    }
    pub fn values(mut self, v: &[u8]) -> Self {
        self.pattern = v.iter().enumerate().map(|(i, x)| (*x as u64) << (2 * i)).sum();
        self
    }
    pub fn trims(mut self) -> Self {
        self.uses_trim = true;
        self
    }
    /// The complete bound in words.
    pub fn bound(&self) -> String {
        let c = &self.cfg;
        let mut v = vec![format!("{} servers, quorum {}/{}, batch {}", c.n(), c.read_q(), c.write_q(), c.batch)];
        if c.wire > 0 {
            v.push(format!("messages re-encoded ({})", if c.wire == 1 { "json" } else { "bincode" }));
        }
        if !self.init.is_empty() {
            v.push(format!("after {:?}", self.init));
        }
        for g in &self.groups {
            v.push(format!("<= {} of {:?}", g.max, g.opts));
        }
        if self.rounds > 0 {
            v.push(format!("<= {} rounds: every leader, every set of servers taking part in its election, one of {:?}, every set of servers receiving what it sends, and {:?} (0: nothing, 1: their answers, 2: everything further) arriving, the rest being lost (states that agree in everything observable, up to the names of servers, ballots and entries, count as one)", self.rounds, self.ops, self.coming));
        } else {
        v.push(if self.sync {
            format!("links synchronous except <= {} single link(s) and <= {} server direction(s) delivered message by message", self.freeze, self.freeze_node)
        } else {
            "every delivery order (FIFO per link)".into()
        });
        }
        for (n, x) in [("lost messages", self.drop), ("link cuts", self.cut), ("link repairs", self.heal), ("delayed message fetches", self.hold), ("crashes at any storage write of a step", self.crash_at)] {
            if x > 0 {
                v.push(format!("<= {x} {n}"));
            }
        }
        match self.closure {
            Closure::None => (),
            Closure::Quiescent => v.push("fault-free continuations from every quiescent state".into()),
            Closure::All => v.push("fault-free continuations from every state".into()),
        }
        if self.minority {
            v.push("and continuations with each single server unreachable".into());
        }
        v.join("; ")
    }
    pub fn init(mut self, s: Vec<Step>) -> Self {
        self.init = s;
        self
    }
    pub fn g(mut self, max: u8, opts: Vec<(u8, Kind)>) -> Self {
        self.groups.push(Group { max, opts });
        self
    }
    pub fn snaps(mut self) -> Self {
        self.snap_entries = true;
        self
    }
    pub fn drops(mut self, k: u8) -> Self {
        self.drop = k;
        self
    }
    pub fn cuts(mut self, c: u8, h: u8) -> Self {
        self.cut = c;
        self.heal = h;
        self
    }
    /// all cut links can be repaired at once, once
    pub fn mends(mut self) -> Self {
        self.heal = 1;
        self.heal_all = true;
        self
    }
    /// No message can be lost and no server restarted (or told that something was lost).
    pub fn lossless(&self) -> bool {
        self.drop == 0 && self.cut == 0 && self.crash_at == 0 && self.rounds == 0
            && self.init.iter().all(|s| matches!(s, Step::Do(_, k) | Step::DoHold(_, k) if *k != Kind::Crash) || matches!(s, Step::Deliver | Step::DeliverAmong(_) | Step::DeliverN(..)))
            && self.groups.iter().all(|g| g.opts.iter().all(|(_, k)| !matches!(k, Kind::Crash | Kind::Reconn(_) | Kind::Beat(_) | Kind::Prio(_))))
    }
    pub fn holds(mut self, k: u8) -> Self {
        self.hold = k;
        self
    }
    pub fn crash_ats(mut self, k: u8) -> Self {
        self.crash_at = k;
        self
    }
    pub fn on(mut self, nodes: &[u8]) -> Self {
        self.fault_nodes = nodes.iter().fold(0, |a, n| a | (1 << n));
        self
    }
    pub fn close(mut self, c: Closure) -> Self {
        self.closure = c;
        self
    }
    pub fn max(mut self, m: usize) -> Self {
        self.max_states = m;
        self
    }
    pub fn ff(mut self) -> Self {
        self.faultfree = true;
        self
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, serde::Serialize, serde::Deserialize)]
pub enum Act {
    Init,
    Deliver(u8, u8, Mode),
    Drop(u8, u8),
    Do(u8, u8, Mode),
    Restart(u8),
    Take(u8),
    Cut(u8, u8),
    Heal(u8, u8),
    /// repair all cut links
    HealAll,
    /// freeze link a->b
    Freeze(u8, u8),
    /// freeze all links into (true) or out of (false) a server
    FreezeNode(u8, bool),
    Thaw(u8, u8),
    ThawNode(u8, bool),
    /// a whole round: server x becomes leader with the servers p responding (bitmask), calls
    /// the operation `op`, the servers a receive what it sends then; c = 0: nothing comes back,
    /// 1: their answers arrive, 2: everything between them and x arrives; the rest is lost
    Round(u8, u8, u8, u8, u8),
    /// like the second half of a round, at the present leader
    More(u8, u8, u8, u8),
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub prop: &'static str,
    pub msg: String,
}

/// which monitors are active
#[derive(Clone, Debug)]
pub struct Props(pub Vec<&'static str>);
impl Props {
    pub fn on(&self, p: &str) -> bool {
        self.0.iter().any(|x| *x == p)
    }
}

// ---------------------------------------------------------------- local states
struct LState<T: HEntry> {
    parent: u32,
    via: Input,
    mode: Mode,
    node: u8,
    held: bool,
    digest: u128,
    obs: Rc<Obs>,
    /// highest ballot used for leader messages in earlier incarnations / in this one
    burned: Ballot,
    led: Ballot,
    /// highest own ballot in which it reported to have completed its prepare phase
    est: Ballot,
    base: Option<MemoryStorage<T>>,
    viol: Option<Rc<Viol>>,
}

#[derive(Clone)]
struct Trans {
    to: u32,
    out: Rc<[u32]>,
    writes: u8,
    ret: Ret,
    viols: Rc<[Viol]>,
    panicked: bool,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct G {
    pub l: Vec<u32>,
    pub cuts: u32,
    pub frozen: u32,
    pub used: Vec<u8>,
    /// interned ghost: (chosen log, append info)
    pub chosen: u32,
    pub ghost: u32,
    pub q: Vec<Vec<u32>>,
}

impl G {
    fn pack(&self) -> Vec<u32> {
        let mut v = Vec::with_capacity(32);
        v.extend(&self.l);
        v.push(self.cuts);
        v.push(self.frozen);
        for c in self.used.chunks(4) {
            let mut x = 0u32;
            for b in c {
                x = (x << 8) | *b as u32;
            }
            v.push(x);
        }
        v.push(self.chosen);
        v.push(self.ghost);
        for q in &self.q {
            v.push(q.len() as u32);
            v.extend(q);
        }
        v
    }
    fn unpack(v: &[u32], n: usize, nb: usize) -> G {
        let l = v[..n].to_vec();
        let cuts = v[n];
        let frozen = v[n + 1];
        let mut used = Vec::with_capacity(nb);
        let words = (nb + 3) / 4;
        for w in 0..words {
            let k = (nb - w * 4).min(4);
            for b in 0..k {
                used.push((v[n + 2 + w] >> (8 * (k - 1 - b))) as u8);
            }
        }
        let mut p = n + 2 + words;
        let chosen = v[p];
        let ghost = v[p + 1];
        p += 2;
        let mut q = Vec::with_capacity(n * n);
        for _ in 0..n * n {
            let len = v[p] as usize;
            q.push(v[p + 1..p + 1 + len].to_vec());
            p += 1 + len;
        }
        G {
            l,
            cuts,
            frozen,
            used,
            chosen,
            ghost,
            q,
        }
    }
    pub fn quiet(&self) -> bool {
        self.q.iter().all(|q| q.is_empty())
    }
}

/// One append / reconfigure call that happened.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
struct AppendInfo {
    node: u8,
    ok: bool,
    /// leader term: ballot (n, prio, pid) if the node believed to lead, else (0,0,0)
    term: (u32, u32, u64),
    /// the ballot the server had promised when the call was made
    prom: (u32, u32, u64),
    crashes: u8,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
struct Ghost {
    appends: Vec<AppendInfo>,
    reconfs: Vec<AppendInfo>,
    crashes: Vec<u8>,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub states: usize,
    pub transitions: usize,
    pub local_states: usize,
    pub local_transitions: usize,
    pub messages: usize,
    pub divides: usize,
    pub closures: usize,
    pub max_depth: u32,
    pub exhausted: bool,
    pub distinct_chosen: usize,
    pub validated: usize,
    pub quiescent: usize,
    pub wall_ms: u64,
    pub sample: Vec<String>,
    /// histories whose re-execution differed (uncontrolled nondeterminism in the code)
    pub mismatches: Vec<String>,
}

pub struct Found {
    pub viol: Viol,
    pub trace: Vec<Act>,
    pub text: Vec<String>,
    pub closure_leader: Option<u8>,
}

pub struct Engine<T: HEntry> {
    pub sc: Scenario,
    pub props: Props,
    cfg: Rc<Cfg>,
    ls: Vec<LState<T>>,
    lmap: FxMap<u128, u32>,
    memo: FxMap<(u32, Input, Mode), u32>,
    trans: Vec<Trans>,
    msgs: Vec<Message<T>>,
    mmap: HashMap<String, u32>,
    chosens: Vec<Vec<u32>>,
    chosen_map: HashMap<Vec<u32>, u32>,
    ghosts: Vec<Ghost>,
    ghost_map: HashMap<Ghost, u32>,
    deadline: Instant,
    pub stats: Stats,
    closure_ok: FxMap<u128, ()>,
    /// local steps of the path being re-executed
    rec: Option<Vec<(usize, Input, Mode)>>,
    /// heartbeat messages emitted by the current step
    ble_out: Vec<u32>,
}

const NONE: u32 = u32::MAX;

// indices in `used` for the generic budgets; groups follow
const B_DROP: usize = 0;
const B_CUT: usize = 1;
const B_HEAL: usize = 2;
const B_HOLD: usize = 3;
const B_CRASHAT: usize = 4;
const B_FREEZE: usize = 5;
const B_FREEZEN: usize = 6;
const B_ROUND: usize = 7;
const B_GROUP: usize = 8;

pub struct Opts {
    pub deadline: Instant,
    pub validate: usize,
}

impl<T: HEntry> Engine<T> {
    pub fn new(sc: Scenario, props: Props, deadline: Instant) -> Self {
        let cfg = Rc::new(sc.cfg.clone());
        crate::types::PATTERN.with(|p| p.set(sc.pattern));
        let mut e = Engine {
            sc,
            props,
            cfg,
            ls: vec![],
            lmap: Default::default(),
            memo: Default::default(),
            trans: vec![],
            msgs: vec![],
            mmap: Default::default(),
            chosens: vec![vec![]],
            chosen_map: [(vec![], 0)].into_iter().collect(),
            ghosts: vec![],
            ghost_map: Default::default(),
            deadline,
            stats: Default::default(),
            closure_ok: Default::default(),
            rec: None,
            ble_out: vec![],
        };
        let g0 = Ghost {
            appends: vec![],
            reconfs: vec![],
            crashes: vec![0; e.cfg.n()],
        };
        e.intern_ghost(g0);
        e
    }

    fn n(&self) -> usize {
        self.cfg.n()
    }

    fn idx_of(&self, pid: u64) -> Option<usize> {
        self.cfg.pids.iter().position(|p| *p == pid)
    }

    fn intern_ghost(&mut self, g: Ghost) -> u32 {
        if let Some(i) = self.ghost_map.get(&g) {
            return *i;
        }
        let i = self.ghosts.len() as u32;
        self.ghosts.push(g.clone());
        self.ghost_map.insert(g, i);
        i
    }
    fn intern_chosen(&mut self, c: Vec<u32>) -> u32 {
        if let Some(i) = self.chosen_map.get(&c) {
            return *i;
        }
        let i = self.chosens.len() as u32;
        self.chosens.push(c.clone());
        self.chosen_map.insert(c, i);
        i
    }
    fn intern_msg(&mut self, m: Message<T>) -> u32 {
        let s = format!("{:?}", m);
        if let Some(i) = self.mmap.get(&s) {
            return *i;
        }
        let i = self.msgs.len() as u32;
        self.msgs.push(m);
        self.mmap.insert(s, i);
        i
    }

    pub fn obs(&self, l: u32) -> &Rc<Obs> {
        &self.ls[l as usize].obs
    }

    // ------------------------------------------------------------ local execution
    fn node_digest(node: &Node<T>, _hist: u128) -> u128 {
        match &node.op {
            #[cfg(omnipaxos_mc)]
            Some(op) => fp128_bytes(format!("{} {:?}", node.idx, op).as_bytes()),
            #[cfg(not(omnipaxos_mc))]
            Some(_) => _hist,
            None => fp128_bytes(format!("{} down {:?}", node.idx, node.st).as_bytes()),
        }
    }

    /// Rebuild the live server of a local state by replaying its inputs on fresh real code.
    fn rebuild(&self, l: u32) -> Node<T> {
        let mut path = vec![];
        let mut cur = l;
        loop {
            let s = &self.ls[cur as usize];
            if s.base.is_some() {
                break;
            }
            path.push((s.via, s.mode));
            cur = s.parent;
        }
        let s = &self.ls[cur as usize];
        let mut node = Node::down(&self.cfg, s.node as usize, s.base.clone().unwrap());
        for (input, mode) in path.into_iter().rev() {
            let m = match input {
                Input::Deliver(m) => Some(&self.msgs[m as usize]),
                _ => None,
            };
            node.step(input, mode, m);
        }
        node
    }

    fn add_local(
        &mut self,
        node: &Node<T>,
        parent: u32,
        via: Input,
        mode: Mode,
        held: bool,
        burned: Ballot,
        led: Ballot,
        est: Ballot,
        viol: Option<Rc<Viol>>,
    ) -> u32 {
        let hist = if parent == NONE {
            fp128_u32(&[node.idx as u32])
        } else {
            let p = self.ls[parent as usize].digest;
            fp128_bytes(format!("{p} {via:?} {mode:?}").as_bytes())
        };
        let mut digest = Self::node_digest(node, hist);
        digest = fp128_bytes(
            format!("{digest} {held} {burned:?} {led:?} {est:?} {}", viol.is_some()).as_bytes(),
        );
        if let Some(i) = self.lmap.get(&digest) {
            return *i;
        }
        let i = self.ls.len() as u32;
        let obs = Rc::new(node.observe());
        let base = if node.op.is_none() {
            Some(node.st.0.borrow().mem.clone())
        } else {
            None
        };
        self.ls.push(LState {
            parent,
            via,
            mode,
            node: node.idx as u8,
            held,
            digest,
            obs,
            burned,
            led,
            est,
            base,
            viol,
        });
        self.lmap.insert(digest, i);
        i
    }

    fn local(&mut self, l: u32, input: Input, mode: Mode) -> Trans {
        if let Some(t) = self.memo.get(&(l, input, mode)) {
            return self.trans[*t as usize].clone();
        }
        let mut node = self.rebuild(l);
        let m = match input {
            Input::Deliver(m) => Some(&self.msgs[m as usize]),
            _ => None,
        };
        let mut r = node.step(input, mode, m);
        if self.cfg.prefill && mode == Mode::Normal && r.panic.is_none() {
            // the same step, with the messages fetched into an empty buffer
            let mut twin = self.rebuild(l);
            twin.cfg = Rc::new(Cfg { prefill: false, ..(*self.cfg).clone() });
            let t = twin.step(input, mode, m);
            let show = |v: &[Message<T>]| v.iter().map(|m| format!("{m:?}")).collect::<Vec<_>>();
            if show(&t.out) != show(&r.out) {
                r.take_err = Some(format!("fetching into an empty buffer gives {} message(s), into a non-empty buffer {}", t.out.len(), r.out.len()));
            }
        }
        let pre = self.ls[l as usize].obs.clone();
        let (mut burned, mut led) = (self.ls[l as usize].burned, self.ls[l as usize].led);
        let mut viols = vec![];
        if let Some(p) = &r.panic {
            for pr in &self.props.0 {
                viols.push(Viol {
                    prop: pr,
                    msg: format!(
                        "server {} panicked while handling {}: {}",
                        node.pid,
                        self.show_input(input, mode),
                        p
                    ),
                });
            }
            let t = Trans {
                to: l,
                out: Rc::from(vec![]),
                writes: 0,
                ret: Ret::None,
                viols: viols.into(),
                panicked: true,
            };
            self.memo
                .insert((l, input, mode), self.trans.len() as u32);
            self.trans.push(t.clone());
            return t;
        }
        if r.crashed {
            burned = burned.max(led);
            led = Ballot::default();
        }
        let post = node.observe();
        crate::monitor::local_checks(
            &self.props,
            &self.sc,
            &node,
            &pre,
            &post,
            input,
            m,
            mode,
            &r,
            burned,
            self.ls[l as usize].held,
            &mut viols,
        );
        if (self.props.on("C12") || ["C01", "C02", "C06"].contains(&self.props.0[0])) && mode == Mode::Normal {
            self.quorum_checks(l, input, &pre, &post, led, &r.out, &mut viols);
        }
        if self.props.on("C08") && mode == Mode::Normal {
            if let Input::Trim(i) = input {
                self.trim_checks(l, i, &pre, &post, r.ret, &mut viols);
            }
        }
        if self.props.on("C19") && mode == Mode::Normal && self.cfg.wire == 0 {
            if let Input::Deliver(mi) = input {
                self.wire_checks(l, mi, &node, &r, &mut viols);
            }
        }
        for m in &r.out {
            if let Message::SequencePaxos(p) = m {
                if let Some(b) = leader_ballot(&p.msg) {
                    led = led.max(b);
                }
            }
        }
        let out: Vec<u32> = r.out.into_iter().map(|m| self.intern_msg(m)).collect();
        let held = mode == Mode::Hold;
        let mut est = self.ls[l as usize].est;
        if self.props.on("C20") && post.leader == Some((node.pid, true)) {
            est = est.max(post.promise);
        }
        let to = self.add_local(&node, l, input, mode, held, burned, led, est, None);
        let t = Trans {
            to,
            out: out.into(),
            writes: r.writes.min(250) as u8,
            ret: r.ret,
            viols: viols.into(),
            panicked: false,
        };
        self.memo
            .insert((l, input, mode), self.trans.len() as u32);
        self.trans.push(t.clone());
        t
    }

    /// The same delivery with the message in its wire form must have the same effect.
    fn wire_checks(&self, l: u32, mi: u32, node: &Node<T>, r: &StepOut<T>, viols: &mut Vec<Viol>) {
        let show = |v: &[Message<T>]| v.iter().map(|m| format!("{m:?}")).collect::<Vec<_>>();
        let post = node.observe();
        for w in [1u8, 2] {
            let mut twin = self.rebuild(l);
            twin.cfg = Rc::new(Cfg { wire: w, ..(*self.cfg).clone() });
            let t = twin.step(Input::Deliver(mi), Mode::Normal, Some(&self.msgs[mi as usize]));
            let what = if t.panic.is_some() {
                Some(format!("fails: {}", t.panic.clone().unwrap()))
            } else if show(&t.out) != show(&r.out) {
                Some("makes the server send different messages".to_string())
            } else if twin.observe() != post {
                Some("leaves the server in a different state".to_string())
            } else {
                None
            };
            if let Some(x) = what {
                viols.push(Viol { prop: "C19", msg: format!("delivering {:?} after a round trip through {} {x}", self.msgs[mi as usize], if w == 1 { "json" } else { "bincode" }) });
            }
        }
    }

    /// A leader can trim decided entries that it knows to be accepted by every server (it was told
    /// so in the messages delivered since it was started).
    fn trim_checks(&self, l: u32, i: Option<u32>, pre: &Obs, post: &Obs, ret: Ret, viols: &mut Vec<Viol>) {
        let me = self.cfg.pids[self.ls[l as usize].node as usize];
        let b = pre.promise;
        if !pre.up || pre.leader != Some((me, true)) {
            return;
        }
        let mut acked: HashMap<u64, usize> = self.cfg.pids.iter().map(|p| (*p, 0)).collect();
        acked.insert(me, pre.len());
        let mut cur = l;
        while self.ls[cur as usize].base.is_none() {
            if let Input::Deliver(m) = self.ls[cur as usize].via {
                if let Message::SequencePaxos(p) = &self.msgs[m as usize] {
                    if let PaxosMsg::Accepted(x) = &p.msg {
                        if x.n == b {
                            let e = acked.entry(p.from).or_insert(0);
                            *e = (*e).max(x.accepted_idx);
                        }
                    }
                }
            }
            cur = self.ls[cur as usize].parent;
        }
        let known = acked.values().copied().min().unwrap_or(0);
        let want = match i {
            Some(i) if i as usize <= known.min(pre.decided) => i as usize,
            None if known <= pre.decided => known,
            _ => return,
        };
        let want = if pre.reconf.is_some() { want.min(pre.decided - 1) } else { want };
        let below = want < pre.st_compacted;
        if !below && (ret != Ret::Ok || post.st_compacted < want) {
            viols.push(Viol { prop: "C08", msg: format!("leader {me}: trim({i:?}) returned {ret:?} and left the compacted index at {}, although every server acknowledged {known} positions and {} are decided", post.st_compacted, pre.decided) });
        }
    }

    /// Exact quorum counting at a leader: who promised / accepted is recomputed from the messages
    /// delivered to this server since it was started.
    fn quorum_checks(
        &self,
        l: u32,
        input: Input,
        pre: &Obs,
        post: &Obs,
        led: Ballot,
        out: &[Message<T>],
        viols: &mut Vec<Viol>,
    ) {
        let me = self.cfg.pids[self.ls[l as usize].node as usize];
        let b = post.promise;
        if !post.up || b.pid != me {
            return;
        }
        let leads = post.leader == Some((me, true))
            || out.iter().any(|m| {
                matches!(m, Message::SequencePaxos(p) if leader_ballot(&p.msg) == Some(b) && !matches!(p.msg, PaxosMsg::Prepare(_)))
            });
        let led_before = pre.leader == Some((me, true)) && pre.promise == b;
        let starts = leads && !led_before;
        let decides = post.decided > pre.decided && leads;
        let (mut got_promise, mut got_accepted) = (false, None);
        if let Input::Deliver(m) = input {
            if let Message::SequencePaxos(p) = &self.msgs[m as usize] {
                match &p.msg {
                    PaxosMsg::Promise(x) if x.n == b => got_promise = true,
                    PaxosMsg::Accepted(x) if x.n == b => got_accepted = Some(x.accepted_idx),
                    _ => (),
                }
            }
        }
        if !(starts || decides || (got_promise && led == b) || (got_accepted.is_some() && led_before)) {
            return;
        }
        // evidence delivered so far
        let mut promised: Vec<u64> = vec![];
        let mut accepted: Vec<(u64, usize)> = vec![];
        let mut known_decided = 0;
        let mut see = |input: Input| {
            if let Input::Deliver(m) = input {
                if let Message::SequencePaxos(p) = &self.msgs[m as usize] {
                    match &p.msg {
                        PaxosMsg::Promise(x) if x.n == b => {
                            promised.push(p.from);
                            known_decided = known_decided.max(x.decided_idx);
                        }
                        PaxosMsg::Accepted(x) if x.n == b => accepted.push((p.from, x.accepted_idx)),
                        _ => (),
                    }
                }
            }
        };
        see(input);
        let mut cur = l;
        while self.ls[cur as usize].base.is_none() {
            see(self.ls[cur as usize].via);
            cur = self.ls[cur as usize].parent;
        }
        promised.sort();
        promised.dedup();
        let promises = promised.iter().filter(|p| **p != me).count() + 1;
        let acks = |idx: usize| {
            let mut a: Vec<u64> = accepted.iter().filter(|x| x.1 >= idx && x.0 != me).map(|x| x.0).collect();
            a.sort();
            a.dedup();
            a.len() + (post.len() >= idx) as usize
        };
        let (rq, wq) = (self.cfg.read_q(), self.cfg.write_q());
        let mut v = |m: String| {
            viols.push(Viol { prop: "C12", msg: format!("server {me}, ballot {b:?}: {m}") })
        };
        if starts && promises < rq {
            v(format!("started to lead with {promises} promises, the read quorum is {rq}"));
        }
        if got_promise && led == b && promises >= rq && !leads {
            v(format!("does not lead although {promises} servers promised, the read quorum is {rq}"));
        }
        if decides && acks(post.decided) < wq && post.decided > known_decided {
            v(format!("decided {} positions, accepted by {} servers, the write quorum is {wq}", post.decided, acks(post.decided)));
        }
        if let (Some(idx), true) = (got_accepted, led_before) {
            if acks(idx) >= wq && post.decided < idx {
                v(format!("{idx} positions are accepted by {} servers (write quorum {wq}) but only {} are decided", acks(idx), post.decided));
            }
        }
    }

    // ------------------------------------------------------------ global transitions
    fn cut_bit(a: usize, b: usize, n: usize) -> u32 {
        let (a, b) = (a.min(b), a.max(b));
        1 << (a * n + b)
    }
    fn is_cut(&self, g: &G, a: usize, b: usize) -> bool {
        g.cuts & Self::cut_bit(a, b, self.n()) != 0
    }

    /// Apply one local input in the global state. Returns the violations it exposes.
    fn apply_local(&mut self, g: &mut G, node: usize, input: Input, mode: Mode) -> (Vec<Viol>, Ret) {
        let pre_l = g.l[node];
        if let Some(r) = &mut self.rec {
            r.push((node, input, mode));
        }
        let t = self.local(pre_l, input, mode);
        let n = self.n();
        let mut viols: Vec<Viol> = t.viols.to_vec();
        if t.panicked {
            return (viols, t.ret);
        }
        g.l[node] = t.to;
        let pre = self.ls[pre_l as usize].obs.clone();
        let post = self.ls[t.to as usize].obs.clone();
        if pre.up && !post.up {
            // connections are gone: what was on its way to this server is lost
            for a in 0..n {
                g.q[a * n + node].clear();
            }
            let mut gh = self.ghosts[g.ghost as usize].clone();
            gh.crashes[node] += 1;
            g.ghost = self.intern_ghost(gh);
        }
        // ghost bookkeeping of proposals
        match input {
            Input::Append(_) | Input::Reconf(_) => {
                let is_lead = pre.promise.pid == self.cfg.pids[node];
                let mut gh = self.ghosts[g.ghost as usize].clone();
                let info = AppendInfo {
                    node: node as u8,
                    ok: t.ret == Ret::Ok && post.up,
                    term: if is_lead {
                        (pre.promise.n, pre.promise.priority, pre.promise.pid)
                    } else {
                        (0, 0, 0)
                    },
                    prom: (pre.promise.n, pre.promise.priority, pre.promise.pid),
                    // the incarnation in which the call was made
                    crashes: gh.crashes[node] - if pre.up && !post.up { 1 } else { 0 },
                };
                if let Input::Append(_) = input {
                    gh.appends.push(info);
                } else {
                    gh.reconfs.push(info);
                }
                g.ghost = self.intern_ghost(gh);
            }
            _ => (),
        }
        for &m in t.out.iter() {
            let to = self.msgs[m as usize].get_receiver();
            match self.idx_of(to) {
                Some(d) if d != node => {
                    if matches!(self.msgs[m as usize], Message::BLE(_)) {
                        self.ble_out.push(m);
                    } else if !self.is_cut(g, node, d) && self.ls[g.l[d] as usize].obs.up {
                        g.q[node * n + d].push(m);
                    }
                }
                _ => viols.push(Viol {
                    prop: "C19",
                    msg: format!(
                        "server {} emitted a message to {to}, which is not one of its peers",
                        self.cfg.pids[node]
                    ),
                }),
            }
        }
        if *pre != *post {
            self.global_checks(g, node, &mut viols);
        }
        if self.sc.uses_trim && !self.sc.snap_entries && post.st_compacted > pre.st_compacted && matches!(input, Input::Deliver(_)) {
            let other = (0..n).filter(|i| *i != node).map(|i| self.ls[g.l[i] as usize].obs.st_compacted).max().unwrap_or(0);
            if post.st_compacted > other {
                viols.push(Viol { prop: "C08", msg: format!("server {} trims up to {} for another server, but nobody was asked to trim further than {other}", self.cfg.pids[node], post.st_compacted) });
            }
        }
        (viols, t.ret)
    }

    /// Agreement, validity, order, finality and quorum durability against the chosen log.
    fn global_checks(&mut self, g: &mut G, node: usize, viols: &mut Vec<Viol>) {
        let post = self.ls[g.l[node] as usize].obs.clone();
        let pid = self.cfg.pids[node];
        let dec = post.dec();
        let chosen = self.chosens[g.chosen as usize].clone();
        for p in 0..dec.len().min(chosen.len()) {
            if dec[p] != 0 && chosen[p] != 0 && dec[p] != chosen[p] {
                viols.push(Viol {
                    prop: "C01",
                    msg: format!(
                        "server {pid} has decided {} at position {p}, but {} was decided there before (its decided log {:?}, decided before {:?})",
                        show_v(dec[p]), show_v(chosen[p]), show_log(&dec), show_log(&chosen)
                    ),
                });
                break;
            }
        }
        if self.props.on("C07") {
            if let Some(s) = &post.snap {
                let known = chosen.len().max(dec.len());
                let full: Vec<u32> = if dec.len() > chosen.len() { dec.clone() } else { chosen.clone() };
                if s.len() != post.st_compacted {
                    viols.push(Viol { prop: "C07", msg: format!("server {pid}: the snapshot covers {:?} but the compacted index is {}", show_log(s), post.st_compacted) });
                } else if s.len() > known || s[..].iter().zip(&full).any(|(a, b)| *b != 0 && a != b) {
                    viols.push(Viol { prop: "C07", msg: format!("server {pid}: the snapshot {:?} does not match the decided log {:?}", show_log(s), show_log(&full)) });
                }
            }
            for p in post.st_compacted..dec.len().min(chosen.len()) {
                if chosen[p] != 0 && dec[p] != chosen[p] {
                    viols.push(Viol { prop: "C07", msg: format!("server {pid}: snapshot plus log gives {:?}, the decided log is {:?}", show_log(&dec), show_log(&chosen)) });
                    break;
                }
            }
        }
        if self.props.on("C20") {
            self.status_checks(g, viols);
        }
        let gh = self.ghosts[g.ghost as usize].clone();
        if dec.len() > chosen.len() {
            let mut nc = chosen.clone();
            nc.extend(&dec[chosen.len()..]);
            // validity, at most once, order
            for (p, v) in nc.iter().enumerate().skip(chosen.len()) {
                if *v == 0 {
                    continue;
                }
                if *v >= SS_BASE {
                    let k = (*v - SS_BASE) as usize;
                    if k >= gh.reconfs.len() || !gh.reconfs[k].ok && gh.reconfs[k].crashes == gh.crashes[gh.reconfs[k].node as usize] {
                        viols.push(Viol { prop: "C05", msg: format!("decided stop-sign {} was never (successfully) proposed", show_v(*v)) });
                    }
                } else if *v == BAD || *v == 0 || *v as usize > gh.appends.len() {
                    viols.push(Viol { prop: if *v == BAD { "C02" } else { "C03" }, msg: format!("server {pid} decided position {p} with {} (log {:?}), which nobody proposed", show_v(*v), show_log(&nc)) });
                } else {
                    let a = &gh.appends[*v as usize - 1];
                    // `ok` is false also when the proposing server crashed inside the call
                    if !a.ok && a.crashes == gh.crashes[a.node as usize] {
                        viols.push(Viol { prop: "C03", msg: format!("entry {v} was decided although its append was rejected") });
                    }
                    if nc[..p].contains(v) {
                        viols.push(Viol { prop: "C03", msg: format!("entry {v} was decided twice: {:?}", show_log(&nc)) });
                    }
                    for (j, b) in gh.appends.iter().enumerate() {
                        let e = j as u32 + 1;
                        if e < *v && b.ok && b.term == a.term && a.term.2 != 0 && b.node == a.node && b.crashes == a.crashes && !nc[..p].contains(&e) && !nc[..p].contains(&0) {
                            viols.push(Viol { prop: "C03", msg: format!("entries {e} and {v} were appended in this order at server {} in the same term, but the decided log has {v} without {e} before it: {:?}", self.cfg.pids[a.node as usize], show_log(&nc)) });
                        }
                    }
                }
            }
            // finality of the stop-sign
            for (p, v) in nc.iter().enumerate() {
                if *v >= SS_BASE && p + 1 < nc.len() {
                    viols.push(Viol { prop: "C05", msg: format!("something was decided after the stop-sign: {:?}", show_log(&nc)) });
                    break;
                }
            }
            g.chosen = self.intern_chosen(nc);
        }
        let chosen = &self.chosens[g.chosen as usize];
        if let Some(r) = post.reconf {
            if chosen.last() != Some(&r) || post.decided != chosen.len() {
                viols.push(Viol { prop: "C05", msg: format!("server {pid} reports the configuration as stopped by {} with decided index {}, but the decided log is {:?}", show_v(r), post.decided, show_log(chosen)) });
            }
        }
        if post.up && post.decided == chosen.len() && chosen.last().map(|v| *v >= SS_BASE).unwrap_or(false) && post.reconf.is_none() {
            viols.push(Viol { prop: "C05", msg: format!("server {pid} has decided the stop-sign but does not report the reconfiguration") });
        }
        // compaction only of decided entries
        if post.st_compacted > post.st_decided {
            for pr in ["C07", "C08"] {
                viols.push(Viol { prop: pr, msg: format!("server {pid} compacted up to {} but decided only {}", post.st_compacted, post.st_decided) });
            }
        }
        // durable on a write quorum
        if self.props.on("C06") || self.props.on("C12") {
            let mut holders = 0;
            for i in 0..self.n() {
                let o = &self.ls[g.l[i] as usize].obs;
                let ok = o.log.len() >= chosen.len()
                    && chosen
                        .iter()
                        .zip(&o.log)
                        .all(|(a, b)| a == b || *a == 0 || *b == 0);
                if ok {
                    holders += 1;
                }
            }
            if holders < self.cfg.write_q() {
                let logs: Vec<_> = (0..self.n())
                    .map(|i| show_log(&self.ls[g.l[i] as usize].obs.log))
                    .collect();
                for pr in ["C06", "C12"] {
                    viols.push(Viol { prop: pr, msg: format!("the decided log {:?} is durable on only {holders} server(s), the write quorum is {}; durable logs: {:?}", show_log(chosen), self.cfg.write_q(), logs) });
                }
            }
        }
        // trimmed entries must be held by everyone
        if self.sc.uses_trim && self.props.on("C08") && post.snap.is_none() && post.st_compacted > 0 {
            for i in 0..self.n() {
                let o = &self.ls[g.l[i] as usize].obs;
                if o.log.len() < post.st_compacted {
                    viols.push(Viol { prop: "C08", msg: format!("server {pid} trimmed up to {} although server {} only has {:?}", post.st_compacted, self.cfg.pids[i], show_log(&o.log)) });
                }
            }
        }
    }

    /// What servers report about the leader and about each other's progress.
    fn status_checks(&self, g: &G, viols: &mut Vec<Viol>) {
        for i in 0..self.n() {
            let o = &self.ls[g.l[i] as usize].obs;
            let pid = self.cfg.pids[i];
            let b = o.promise;
            if let Some((l, true)) = o.leader {
                let est = self.idx_of(l).map(|k| self.ls[g.l[k] as usize].est);
                if !est.map(|e| e >= b).unwrap_or(false) {
                    viols.push(Viol { prop: "C20", msg: format!("server {pid} reports that leader {l} ({b:?}) is in the accept phase, but it never was") });
                }
            }
            if o.acks.is_empty() {
                continue;
            }
            for j in 0..self.n() {
                let p = &self.ls[g.l[j] as usize].obs;
                let q = self.cfg.pids[j];
                let a = match o.acks.get(q as usize) {
                    Some(a) => *a,
                    None => {
                        viols.push(Viol { prop: "C20", msg: format!("leader {pid} reports no accepted index of server {q}") });
                        continue;
                    }
                };
                if i == j && a != o.len() {
                    viols.push(Viol { prop: "C20", msg: format!("leader {pid} reports its own accepted index as {a}, its log has {} positions", o.len()) });
                }
                if a > 0 && (p.acc_round < b || p.acc_round == b && p.len() < a) {
                    viols.push(Viol { prop: "C20", msg: format!("leader {pid} ({b:?}) reports that server {q} accepted {a} positions, it has {:?} of {:?}", show_log(&p.log), p.acc_round) });
                }
            }
        }
    }

    pub fn do_kind(&mut self, g: &mut G, node: usize, k: Kind, mode: Mode) -> (Vec<Viol>, Ret) {
        let input = match k {
            Kind::Append => {
                let id = self.ghosts[g.ghost as usize].appends.len() as u32 + 1;
                Input::Append(id)
            }
            Kind::Reconf => {
                let id = self.ghosts[g.ghost as usize].reconfs.len() as u32;
                Input::Reconf(id)
            }
            Kind::Lead => Input::Lead,
            Kind::Tick => Input::Tick,
            Kind::Trim(i) => Input::Trim(i),
            Kind::Snap(i, l) => Input::Snap(i, l),
            Kind::Reconn(p) => Input::Reconn(p),
            Kind::Crash => Input::Crash,
            Kind::Prio(p) => Input::Prio(p),
            Kind::Beat(mask) => return self.beat(g, node, mask),
        };
        self.apply_local(g, node, input, mode)
    }

    fn beat(&mut self, g: &mut G, node: usize, mask: u8) -> (Vec<Viol>, Ret) {
        self.ble_out.clear();
        let (mut viols, ret) = self.apply_local(g, node, Input::Tick, Mode::Normal);
        let requests = std::mem::take(&mut self.ble_out);
        for m in requests {
            let d = match self.idx_of(self.msgs[m as usize].get_receiver()) {
                Some(d) if d != node => d,
                _ => continue,
            };
            if mask & (1 << d) == 0 || !self.up(g, d) || self.is_cut(g, node, d) || !self.up(g, node) {
                continue;
            }
            self.ble_out.clear();
            viols.extend(self.apply_local(g, d, Input::Deliver(m), Mode::Normal).0);
            for r in std::mem::take(&mut self.ble_out) {
                if self.idx_of(self.msgs[r as usize].get_receiver()) == Some(node) {
                    viols.extend(self.apply_local(g, node, Input::Deliver(r), Mode::Normal).0);
                }
            }
        }
        self.ble_out.clear();
        (viols, ret)
    }

    pub fn initial(&mut self) -> G {
        let n = self.n();
        let mut g = G {
            l: vec![],
            cuts: 0,
            frozen: 0,
            used: vec![0; B_GROUP + self.sc.groups.len()],
            chosen: 0,
            ghost: 0,
            q: vec![vec![]; n * n],
        };
        for i in 0..n {
            let node: Node<T> = Node::down(&self.cfg, i, MemoryStorage::default());
            let l = self.add_local(
                &node,
                NONE,
                Input::Crash,
                Mode::Normal,
                false,
                Ballot::default(),
                Ballot::default(),
                Ballot::default(),
                None,
            );
            g.l.push(l);
        }
        for i in 0..n {
            self.apply_local(&mut g, i, Input::Restart, Mode::Normal);
        }
        g
    }

    fn up(&self, g: &G, i: usize) -> bool {
        self.ls[g.l[i] as usize].obs.up
    }

    /// Deliver in a fixed fair order until nothing is in flight (or the step limit is reached).
    pub fn drain(&mut self, g: &mut G, among: &[u8], limit: usize) -> (Vec<Viol>, bool) {
        let n = self.n();
        let mut steps = 0;
        loop {
            let mut any = false;
            for a in 0..n {
                for b in 0..n {
                    if !among.is_empty() && (!among.contains(&(a as u8)) || !among.contains(&(b as u8))) {
                        continue;
                    }
                    if g.frozen & (1 << (a * n + b)) != 0 {
                        continue;
                    }
                    if !g.q[a * n + b].is_empty() {
                        any = true;
                        let m = g.q[a * n + b].remove(0);
                        let (v, _) = self.apply_local(g, b, Input::Deliver(m), Mode::Normal);
                        let v = self.filter(v);
                        if !v.is_empty() {
                            return (v, true);
                        }
                        steps += 1;
                        if steps > limit {
                            return (vec![], false);
                        }
                    }
                }
            }
            if !any {
                return (vec![], true);
            }
        }
    }

    pub fn filter(&self, v: Vec<Viol>) -> Vec<Viol> {
        v.into_iter().filter(|x| self.props.on(x.prop)).collect()
    }

    pub fn run_init(&mut self, g: &mut G) -> Vec<Viol> {
        let n = self.n();
        for s in self.sc.init.clone() {
            let v = match s {
                Step::Do(i, k) => self.do_kind(g, i as usize, k, Mode::Normal).0,
                Step::DoHold(i, k) => self.do_kind(g, i as usize, k, Mode::Hold).0,
                Step::Restart(i) => {
                    self.apply_local(g, i as usize, Input::Restart, Mode::Normal)
                        .0
                }
                Step::Deliver => self.drain(g, &[], 5000).0,
                Step::DeliverAmong(a) => self.drain(g, &a, 5000).0,
                Step::DeliverN(a, b, k) => {
                    let mut v = vec![];
                    for _ in 0..k {
                        let q = &mut g.q[a as usize * n + b as usize];
                        if q.is_empty() {
                            break;
                        }
                        let m = q.remove(0);
                        v.extend(
                            self.apply_local(g, b as usize, Input::Deliver(m), Mode::Normal)
                                .0,
                        );
                    }
                    v
                }
                Step::Lose(a, b) => {
                    g.q[a as usize * n + b as usize].clear();
                    vec![]
                }
                Step::LoseAll => {
                    g.q.iter_mut().for_each(|q| q.clear());
                    vec![]
                }
                Step::Isolate(a) => {
                    for b in 0..n {
                        if b != a as usize {
                            self.do_cut(g, a as usize, b);
                        }
                    }
                    vec![]
                }
                Step::Cut(a, b) => {
                    self.do_cut(g, a as usize, b as usize);
                    vec![]
                }
                Step::HealAll => {
                    g.cuts = 0;
                    vec![]
                }
                Step::Slow(a, b) => {
                    g.frozen |= 1 << (a as usize * n + b as usize);
                    vec![]
                }
            };
            let v = self.filter(v);
            if !v.is_empty() {
                return v;
            }
        }
        vec![]
    }

    fn do_cut(&mut self, g: &mut G, a: usize, b: usize) {
        let n = self.n();
        g.cuts |= Self::cut_bit(a, b, n);
        g.q[a * n + b].clear();
        g.q[b * n + a].clear();
    }

    /// Apply an action; None if it is not enabled.
    pub fn apply(&mut self, g: &G, act: Act) -> Option<(G, Vec<Viol>)> {
        let n = self.n();
        let mut s = g.clone();
        let mode_cost = |s: &mut G, e: &Self, node: usize, mode: Mode| -> bool {
            match mode {
                Mode::Normal => true,
                Mode::Hold => {
                    if e.sc.fault_nodes & (1 << node) == 0 || s.used[B_HOLD] >= e.sc.hold {
                        return false;
                    }
                    s.used[B_HOLD] += 1;
                    true
                }
                Mode::CrashAt(_) => {
                    if e.sc.fault_nodes & (1 << node) == 0 || s.used[B_CRASHAT] >= e.sc.crash_at {
                        return false;
                    }
                    s.used[B_CRASHAT] += 1;
                    true
                }
            }
        };
        let v = match act {
            Act::Init => return None,
            Act::Deliver(a, b, mode) => {
                let (a, b) = (a as usize, b as usize);
                if s.q[a * n + b].is_empty() || !self.up(&s, b) {
                    return None;
                }
                if !mode_cost(&mut s, self, b, mode) {
                    return None;
                }
                let m = s.q[a * n + b].remove(0);
                self.apply_local(&mut s, b, Input::Deliver(m), mode).0
            }
            Act::Drop(a, b) => {
                let (a, b) = (a as usize, b as usize);
                if s.q[a * n + b].is_empty() || s.used[B_DROP] >= self.sc.drop {
                    return None;
                }
                s.used[B_DROP] += 1;
                s.q[a * n + b].remove(0);
                vec![]
            }
            Act::Do(gr, o, mode) => {
                let (max, opt) = {
                    let gp = &self.sc.groups[gr as usize];
                    (gp.max, gp.opts[o as usize])
                };
                if s.used[B_GROUP + gr as usize] >= max || !self.up(&s, opt.0 as usize) {
                    return None;
                }
                if !mode_cost(&mut s, self, opt.0 as usize, mode) {
                    return None;
                }
                s.used[B_GROUP + gr as usize] += 1;
                let before = (s.l.clone(), s.q.clone(), s.ghost);
                let r = self.do_kind(&mut s, opt.0 as usize, opt.1, mode).0;
                if r.is_empty() && before.0 == s.l && before.1 == s.q && before.2 == s.ghost {
                    return None; // no effect
                }
                r
            }
            Act::Restart(i) => {
                if self.up(&s, i as usize) {
                    return None;
                }
                self.apply_local(&mut s, i as usize, Input::Restart, Mode::Normal)
                    .0
            }
            Act::Take(i) => {
                if !self.up(&s, i as usize) || !self.ls[s.l[i as usize] as usize].held {
                    return None;
                }
                self.apply_local(&mut s, i as usize, Input::Take, Mode::Normal)
                    .0
            }
            Act::Cut(a, b) => {
                if s.used[B_CUT] >= self.sc.cut || self.is_cut(&s, a as usize, b as usize) {
                    return None;
                }
                s.used[B_CUT] += 1;
                self.do_cut(&mut s, a as usize, b as usize);
                vec![]
            }
            Act::Heal(a, b) => {
                if s.used[B_HEAL] >= self.sc.heal || !self.is_cut(&s, a as usize, b as usize) {
                    return None;
                }
                s.used[B_HEAL] += 1;
                s.cuts &= !Self::cut_bit(a as usize, b as usize, n);
                let mut v = vec![];
                for (x, y) in [(a, b), (b, a)] {
                    if self.up(&s, x as usize) {
                        v.extend(
                            self.apply_local(&mut s, x as usize, Input::Reconn(y), Mode::Normal)
                                .0,
                        );
                    }
                }
                v
            }
            Act::HealAll => {
                if s.used[B_HEAL] >= self.sc.heal || s.cuts == 0 {
                    return None;
                }
                s.used[B_HEAL] += 1;
                let cuts = s.cuts;
                s.cuts = 0;
                let mut v = vec![];
                for x in 0..n {
                    for y in 0..n {
                        if x != y && cuts & Self::cut_bit(x, y, n) != 0 && self.up(&s, x) {
                            v.extend(self.apply_local(&mut s, x, Input::Reconn(y as u8), Mode::Normal).0);
                        }
                    }
                }
                v
            }
            Act::Freeze(a, b) => {
                let bit = 1 << (a as usize * n + b as usize);
                if a == b || s.used[B_FREEZE] >= self.sc.freeze || s.frozen & bit != 0 {
                    return None;
                }
                s.used[B_FREEZE] += 1;
                s.frozen |= bit;
                vec![]
            }
            Act::Thaw(a, b) => {
                let bit = 1 << (a as usize * n + b as usize);
                if s.frozen & bit == 0 {
                    return None;
                }
                s.frozen &= !bit;
                vec![]
            }
            Act::FreezeNode(i, inn) => {
                if s.used[B_FREEZEN] >= self.sc.freeze_node {
                    return None;
                }
                let m = self.node_mask(i as usize, inn);
                if s.frozen & m != 0 {
                    return None;
                }
                s.used[B_FREEZEN] += 1;
                s.frozen |= m;
                vec![]
            }
            Act::ThawNode(i, inn) => {
                let m = self.node_mask(i as usize, inn);
                if s.frozen & m != m {
                    return None;
                }
                s.frozen &= !m;
                vec![]
            }
            Act::Round(x, p, a, op, c) => {
                if s.used[B_ROUND] >= self.sc.rounds || !self.up(&s, x as usize) {
                    return None;
                }
                s.used[B_ROUND] += 1;
                self.round(&mut s, x as usize, Some(p), a, op, c)
            }
            Act::More(x, a, op, c) => {
                if s.used[B_ROUND] >= self.sc.rounds || !self.up(&s, x as usize) {
                    return None;
                }
                s.used[B_ROUND] += 1;
                self.round(&mut s, x as usize, None, a, op, c)
            }
        };
        if self.sc.rounds > 0 {
            s.q.iter_mut().for_each(|q| q.clear());
            return Some((s, v));
        }
        if self.sc.sync && v.is_empty() {
            let (v, ok) = self.drain(&mut s, &[], 3000);
            if !ok && v.is_empty() {
                return Some((s, self.props.0.iter().map(|p| Viol { prop: p, msg: "message exchange does not come to rest".into() }).collect()));
            }
            return Some((s, v));
        }
        Some((s, v))
    }

    fn round(&mut self, s: &mut G, x: usize, p: Option<u8>, a: u8, op: u8, c: u8) -> Vec<Viol> {
        let n = self.n();
        macro_rules! go {
            ($e:expr) => {{
                let v = $e.0;
                let v = self.filter(v);
                if !v.is_empty() {
                    return v;
                }
            }};
        }
        let set = |m: u8| -> Vec<usize> { (0..n).filter(|i| *i != x && m >> i & 1 == 1).collect() };
        macro_rules! link {
            ($f:expr, $t:expr) => {{
                let q = std::mem::take(&mut s.q[$f * n + $t]);
                for m in q {
                    if self.up(s, $t) {
                        go!(self.apply_local(s, $t, Input::Deliver(m), Mode::Normal));
                    }
                }
            }};
        }
        if let Some(p) = p {
            // an election ends with a ballot above everything its voters know
            for _ in 0..8 {
                s.q.iter_mut().for_each(|q| q.clear());
                go!(self.apply_local(s, x, Input::Lead, Mode::Normal));
                let mine = self.ls[s.l[x] as usize].obs.promise;
                if mine.pid == self.cfg.pids[x] && set(p).iter().all(|i| self.ls[s.l[*i] as usize].obs.promise < mine) {
                    break;
                }
            }
            for i in set(p) {
                link!(x, i);
            }
            for i in set(p) {
                link!(i, x);
            }
        }
        if let Some(k) = self.sc.ops[op as usize] {
            go!(self.do_kind(s, x, k, Mode::Normal));
        }
        for i in set(a) {
            link!(x, i);
        }
        if c >= 1 {
            for i in set(a) {
                link!(i, x);
            }
        }
        if c >= 2 {
            let mut m: Vec<u8> = set(a).into_iter().map(|i| i as u8).collect();
            m.push(x as u8);
            go!(self.drain(s, &m, 3000));
        }
        vec![]
    }

    /// Round mode: what can be observed of a state, up to renaming servers, ballots and entries
    /// consistently with their order.
    fn view(&self, g: &G) -> u128 {
        let n = self.n();
        let ls: Vec<&LState<T>> = (0..n).map(|i| &self.ls[g.l[i] as usize]).collect();
        let chosen = &self.chosens[g.chosen as usize];
        let mut bs: Vec<Ballot> = ls.iter().flat_map(|l| [l.obs.promise, l.obs.acc_round, l.obs.st_promise, l.led, l.est]).collect();
        bs.sort();
        bs.dedup();
        let mut vs: Vec<u32> = ls.iter().flat_map(|l| l.obs.log.iter().copied()).chain(chosen.iter().copied()).collect();
        vs.sort();
        vs.dedup();
        let br = |b: Ballot| bs.binary_search(&b).unwrap() as u32;
        let vr = |v: &u32| if *v == 0 { 0 } else if *v >= SS_BASE { *v } else { vs.binary_search(v).unwrap() as u32 + 1 };
        let mut t: Vec<Vec<u32>> = ls
            .iter()
            .enumerate()
            .map(|(i, l)| {
                let o = &l.obs;
                let mut v = vec![
                    o.up as u32 | (o.leader.map(|x| x.0 == self.cfg.pids[i]).unwrap_or(false) as u32) << 1 | (o.leader.map(|x| x.1).unwrap_or(false) as u32) << 2 | (l.held as u32) << 3 | (o.ss.is_some() as u32) << 4 | (o.reconf.is_some() as u32) << 5,
                    br(o.promise),
                    br(o.acc_round),
                    br(o.st_promise),
                    br(l.led),
                    br(l.est),
                    o.st_decided as u32,
                    o.decided as u32,
                    o.compacted as u32,
                    o.st_compacted as u32,
                    o.entries.len() as u32,
                ];
                v.extend(o.log.iter().map(vr));
                v.push(u32::MAX);
                v
            })
            .collect();
        t.sort();
        let mut key: Vec<u32> = t.concat();
        key.extend(chosen.iter().map(vr));
        key.push(u32::MAX - 1);
        key.extend(g.used[B_GROUP..].iter().map(|x| *x as u32));
        fp128_u32(&key)
    }

    fn round_acts(&mut self, g: &G) -> Vec<Act> {
        let n = self.n();
        let mut v = vec![];
        if g.used[B_ROUND] >= self.sc.rounds {
            return v;
        }
        let same = |e: &Self, i: usize, j: usize| {
            let (a, b) = (&e.ls[g.l[i] as usize], &e.ls[g.l[j] as usize]);
            a.obs == b.obs && a.led == b.led
        };
        for x in 0..n {
            if !self.up(g, x) || (0..x).any(|y| same(self, x, y)) {
                continue;
            }
            // levels: 0 not reached, 1 takes part in the election, 2 also receives the rest
            'asg: for code in 0..3usize.pow(n as u32 - 1) {
                let (mut p, mut a, mut k) = (1u8 << x, 0u8, code);
                let mut lv = vec![9usize; n];
                for i in (0..n).filter(|i| *i != x) {
                    lv[i] = k % 3;
                    k /= 3;
                    if lv[i] > 0 && !self.up(g, i) {
                        continue 'asg;
                    }
                    if (0..i).any(|j| j != x && same(self, i, j) && lv[j] < lv[i]) {
                        continue 'asg;
                    }
                    if lv[i] > 0 {
                        p |= 1 << i;
                    }
                    if lv[i] > 1 {
                        a |= 1 << i;
                    }
                }
                let (x8, q) = (x as u8, p.count_ones() as usize >= self.cfg.read_q());
                let leads = self.ls[g.l[x] as usize].obs.leader == Some((self.cfg.pids[x], true));
                if !q {
                    if a == 0 && p != 1 << x {
                        v.push(Act::Round(x8, p, 0, 0, 0));
                    }
                }
                for op in 0..self.sc.ops.len() as u8 {
                    for c in if a == 0 { vec![0] } else { self.sc.coming.clone() } {
                        if q {
                            v.push(Act::Round(x8, p, a, op, c));
                        }
                        if leads && p == a | 1 << x && (a != 0 || op != 0) {
                            v.push(Act::More(x8, a, op, c));
                        }
                    }
                }
            }
        }
        v
    }

    fn node_mask(&self, i: usize, inn: bool) -> u32 {
        let n = self.n();
        (0..n)
            .filter(|j| *j != i)
            .fold(0, |m, j| m | 1 << if inn { j * n + i } else { i * n + j })
    }

    fn acts(&mut self, g: &G) -> Vec<Act> {
        let n = self.n();
        let mut v = vec![];
        let hold = g.used[B_HOLD] < self.sc.hold;
        let crash = g.used[B_CRASHAT] < self.sc.crash_at;
        for a in 0..n {
            for b in 0..n {
                if g.q[a * n + b].is_empty() || !self.up(g, b) {
                    continue;
                }
                let (a8, b8) = (a as u8, b as u8);
                v.push(Act::Deliver(a8, b8, Mode::Normal));
                let f = self.sc.fault_nodes & (1 << b) != 0;
                if hold && f {
                    v.push(Act::Deliver(a8, b8, Mode::Hold));
                }
                if crash && f {
                    let t = self.local(g.l[b], Input::Deliver(g.q[a * n + b][0]), Mode::Normal);
                    let lo = if t.writes == 0 { 0 } else { 1 };
                    for k in lo..=t.writes {
                        v.push(Act::Deliver(a8, b8, Mode::CrashAt(k)));
                    }
                }
                if g.used[B_DROP] < self.sc.drop {
                    v.push(Act::Drop(a8, b8));
                }
            }
        }
        for i in 0..n {
            if !self.up(g, i) {
                v.push(Act::Restart(i as u8));
            } else if self.ls[g.l[i] as usize].held {
                v.push(Act::Take(i as u8));
            }
        }
        for gi in 0..self.sc.groups.len() {
            if g.used[B_GROUP + gi] >= self.sc.groups[gi].max {
                continue;
            }
            for oi in 0..self.sc.groups[gi].opts.len() {
                let (node, kind) = self.sc.groups[gi].opts[oi];
                if !self.up(g, node as usize) {
                    continue;
                }
                v.push(Act::Do(gi as u8, oi as u8, Mode::Normal));
                let f = self.sc.fault_nodes & (1 << node) != 0;
                if hold && f && !matches!(kind, Kind::Crash | Kind::Beat(_)) {
                    v.push(Act::Do(gi as u8, oi as u8, Mode::Hold));
                }
                if crash && f && !matches!(kind, Kind::Crash | Kind::Beat(_)) {
                    let mut probe = g.clone();
                    let input_writes = {
                        let l = probe.l[node as usize];
                        let input = match kind {
                            Kind::Append => Input::Append(
                                self.ghosts[g.ghost as usize].appends.len() as u32 + 1,
                            ),
                            Kind::Reconf => {
                                Input::Reconf(self.ghosts[g.ghost as usize].reconfs.len() as u32)
                            }
                            Kind::Lead => Input::Lead,
                            Kind::Tick => Input::Tick,
                            Kind::Trim(i) => Input::Trim(i),
                            Kind::Snap(i, l) => Input::Snap(i, l),
                            Kind::Reconn(p) => Input::Reconn(p),
                            Kind::Crash => Input::Crash,
                            Kind::Prio(p) => Input::Prio(p),
                            Kind::Beat(_) => Input::Tick,
                        };
                        probe.cuts = 0;
                        self.local(l, input, Mode::Normal).writes
                    };
                    if input_writes > 0 {
                        for k in 1..=input_writes {
                            v.push(Act::Do(gi as u8, oi as u8, Mode::CrashAt(k)));
                        }
                    }
                }
            }
        }
        if self.sc.sync {
            if g.used[B_FREEZE] < self.sc.freeze {
                for a in 0..n {
                    for b in 0..n {
                        if a != b && g.frozen & (1 << (a * n + b)) == 0 {
                            v.push(Act::Freeze(a as u8, b as u8));
                        }
                    }
                }
            }
            if g.used[B_FREEZEN] < self.sc.freeze_node {
                for a in 0..n {
                    v.push(Act::FreezeNode(a as u8, true));
                    v.push(Act::FreezeNode(a as u8, false));
                }
            }
            if g.frozen != 0 {
                for a in 0..n {
                    for inn in [true, false] {
                        let m = self.node_mask(a, inn);
                        if g.frozen & m == m {
                            v.push(Act::ThawNode(a as u8, inn));
                        }
                    }
                    for b in 0..n {
                        if g.frozen & (1 << (a * n + b)) != 0 {
                            v.push(Act::Thaw(a as u8, b as u8));
                        }
                    }
                }
            }
        }
        if g.used[B_CUT] < self.sc.cut {
            for a in 0..n {
                for b in a + 1..n {
                    if !self.is_cut(g, a, b) {
                        v.push(Act::Cut(a as u8, b as u8));
                    }
                }
            }
        }
        if self.sc.rounds > 0 {
            v.extend(self.round_acts(g));
        }
        if g.cuts != 0 && g.used[B_HEAL] < self.sc.heal && self.sc.heal_all {
            v.push(Act::HealAll);
        } else if g.cuts != 0 && g.used[B_HEAL] < self.sc.heal {
            for a in 0..n {
                for b in a + 1..n {
                    if self.is_cut(g, a, b) {
                        v.push(Act::Heal(a as u8, b as u8));
                    }
                }
            }
        }
        v
    }

    // ------------------------------------------------------------ exploration
    pub fn explore(&mut self, validate: usize) -> Option<Found> {
        let start = Instant::now();
        let n = self.n();
        let nb = B_GROUP + self.sc.groups.len();
        let mut g = self.initial();
        let v = self.run_init(&mut g);
        if let Some(v) = v.into_iter().next() {
            self.finish(start, 0, 0, false);
            return Some(Found {
                viol: v,
                trace: vec![],
                text: vec!["(while running the scenario's deterministic prefix)".into()],
                closure_leader: None,
            });
        }
        let mut seen: FxMap<u128, ()> = Default::default();
        let mut parents: Vec<(u32, Act)> = vec![];
        let mut depth: Vec<u16> = vec![];
        // something went wrong on the way to the state that another property forbids
        let mut suspect: Vec<bool> = vec![false];
        let mut frontier: VecDeque<(u32, Box<[u32]>)> = VecDeque::new();
        let p0 = g.pack();
        seen.insert(if self.sc.rounds > 0 { self.view(&g) } else { fp128_u32(&p0) }, ());
        parents.push((NONE, Act::Init));
        depth.push(0);
        frontier.push_back((0, p0.into_boxed_slice()));
        let mut transitions = 0usize;
        let mut exhausted = true;
        let mut chosen_seen: FxMap<u32, ()> = Default::default();
        let mut last = 0u32;
        // the initial state is checked too
        if let Some(f) = self.check_state(&g) {
            return Some(self.found(f.0, f.1, &parents, 0, None));
        }
        'outer: while let Some((id, packed)) = frontier.pop_front() {
            last = id;
            if transitions & 0x3ff == 0 || self.sc.closure != Closure::None {
                if Instant::now() > self.deadline {
                    exhausted = false;
                    break;
                }
            }
            let g = G::unpack(&packed, n, nb);
            let acts = self.acts(&g);
            for act in acts {
                let (s, viols) = match self.apply(&g, act) {
                    Some(x) => x,
                    None => continue,
                };
                transitions += 1;
                let sus = suspect[id as usize] || !viols.is_empty();
                let viols = self.filter(viols);
                if let Some(v) = viols.into_iter().next() {
                    self.finish(start, parents.len(), transitions, false);
                    return Some(self.found(v, None, &parents, id, Some(act)));
                }
                let p = s.pack();
                let f = if self.sc.rounds > 0 { self.view(&s) } else { fp128_u32(&p) };
                if seen.insert(f, ()).is_none() {
                    let nid = parents.len() as u32;
                    parents.push((id, act));
                    let d = depth[id as usize] + 1;
                    depth.push(d);
                    suspect.push(sus);
                    self.stats.max_depth = self.stats.max_depth.max(d as u32);
                    chosen_seen.insert(s.chosen, ());
                    if sus {
                        if let Some(f) = self.check_divide(&s) {
                            self.finish(start, parents.len(), transitions, false);
                            return Some(self.found(f.0, f.1, &parents, nid, None));
                        }
                    }
                    if let Some(f) = self.check_state(&s) {
                        self.finish(start, parents.len(), transitions, false);
                        return Some(self.found(f.0, f.1, &parents, nid, None));
                    }
                    frontier.push_back((nid, p.into_boxed_slice()));
                    if parents.len() >= self.sc.max_states {
                        exhausted = false;
                        break 'outer;
                    }
                }
            }
        }
        self.stats.distinct_chosen = chosen_seen.len();
        // conformance: re-execute complete global histories end to end on fresh live servers
        let total = parents.len();
        if validate > 0 && total > 1 {
            let k = validate.min(total - 1);
            for j in 0..k {
                let sid = (total - 1 - j * ((total - 1) / k)) as u32;
                let tr = Self::trace_of(&parents, sid);
                match self.validate(&tr) {
                    Ok(()) => self.stats.validated += 1,
                    Err(e) => self.stats.mismatches.push(format!("{}: {e}", self.sc.name)),
                }
            }
        }
        let tr = Self::trace_of(&parents, last);
        self.stats.sample = self.describe(&tr);
        self.finish(start, total, transitions, exhausted);
        None
    }

    fn finish(&mut self, start: Instant, states: usize, transitions: usize, exhausted: bool) {
        self.stats.states = states;
        self.stats.transitions = transitions;
        self.stats.local_states = self.ls.len();
        self.stats.local_transitions = self.trans.len();
        self.stats.messages = self.msgs.len();
        self.stats.exhausted = exhausted;
        self.stats.wall_ms = start.elapsed().as_millis() as u64;
    }

    fn trace_of(parents: &[(u32, Act)], id: u32) -> Vec<Act> {
        let mut t = vec![];
        let mut c = id;
        while parents[c as usize].0 != NONE {
            t.push(parents[c as usize].1);
            c = parents[c as usize].0;
        }
        t.reverse();
        t
    }

    fn found(
        &mut self,
        viol: Viol,
        closure_leader: Option<u8>,
        parents: &[(u32, Act)],
        id: u32,
        act: Option<Act>,
    ) -> Found {
        let mut trace = Self::trace_of(parents, id);
        trace.extend(act);
        let (text, _) = self.replay(&trace, closure_leader);
        Found {
            viol,
            trace,
            text,
            closure_leader,
        }
    }

    /// Follow a trace (and a continuation), describing it; returns what it violates.
    pub fn replay(&mut self, trace: &[Act], k: Option<u8>) -> (Vec<String>, Option<Viol>) {
        let mut text = self.describe(trace);
        let mut g = self.initial();
        let mut viol = self.run_init(&mut g).into_iter().next();
        for a in trace {
            if let Some((s, v)) = self.apply(&g, *a) {
                g = s;
                if viol.is_none() {
                    viol = self.filter(v).into_iter().next();
                }
            }
        }
        if let Some(k) = k {
            if k >= 128 {
                let (l, set, keep) = self.divisions()[k as usize - 128];
                let pids: Vec<u64> = (0..self.n()).filter(|i| set & (1 << i) != 0).map(|i| self.cfg.pids[i]).collect();
                text.push(format!(
                    "then only servers {pids:?} reach each other, {} {} and proposes; then all do, and it is elected again",
                    self.cfg.pids[l],
                    if keep { "still leads" } else { "is elected" }
                ));
            } else {
            text.push(format!(
                "then all faults stop, connections are re-established, leader choice: {}",
                self.show_k(k as usize)
            ));
            }
            self.rec = Some(vec![]);
            self.closure_ok.clear();
            let v = if k >= 128 { self.divide(g, k as usize - 128) } else { self.closure(g, k as usize) };
            if viol.is_none() {
                viol = v;
            }
            for (node, input, mode) in self.rec.take().unwrap() {
                text.push(format!(
                    "    server {}: {}",
                    self.cfg.pids[node],
                    self.show_input(input, mode)
                ));
            }
        } else if viol.is_none() && self.sc.faultfree {
            viol = self.check_faultfree(&g);
        }
        (text, viol)
    }

    /// State oracles: fault-free completeness in quiescent states and convergence closures.
    fn check_state(&mut self, g: &G) -> Option<(Viol, Option<u8>)> {
        let quiet = g.quiet() && (0..self.n()).all(|i| !self.ls[g.l[i] as usize].held);
        if quiet {
            self.stats.quiescent += 1;
        }
        if self.sc.faultfree && quiet {
            if let Some(v) = self.check_faultfree(g) {
                return Some((v, None));
            }
        }
        if g.chosen != 0 && (self.props.on("C01") || self.props.on("C02")) && self.holders(g) < self.cfg.write_q() {
            if let Some(f) = self.check_divide(g) {
                return Some(f);
            }
        }
        let run = match self.sc.closure {
            Closure::None => false,
            Closure::Quiescent => quiet,
            Closure::All => true,
        };
        // only for the property being checked, not for the monitors that support it
        if run && self.props.0.iter().take(if self.props.0.len() > 8 { 99 } else { 1 }).any(|p| ["C10", "C08", "C05", "C07", "C16", "C13"].contains(p)) {
            for k in self.continuations() {
                self.stats.closures += 1;
                if let Some(v) = self.closure(g.clone(), k) {
                    return Some((v, Some(k as u8)));
                }
            }
        }
        None
    }

    /// Codes of the fault-free continuations (see `closure`).
    /// Servers whose durable log contains everything decided.
    fn holders(&self, g: &G) -> usize {
        let chosen = &self.chosens[g.chosen as usize];
        (0..self.n())
            .filter(|i| {
                let o = &self.ls[g.l[*i] as usize].obs;
                o.log.len() >= chosen.len() && chosen.iter().zip(&o.log).all(|(a, b)| a == b || *a == 0 || *b == 0)
            })
            .count()
    }

    /// The continuations that can turn a decision without a quorum (or a broken promise) into a
    /// disagreement: only a read quorum is reachable, one of them leads (newly elected, or still)
    /// and proposes; then everybody is reachable again and the same server is elected once more.
    /// Nothing of this runs unless a state looks wrong, and only an actual disagreement counts.
    fn divisions(&self) -> Vec<(usize, u32, bool)> {
        let n = self.n();
        let mut v = vec![];
        for keep in [false, true] {
            for set in 0..1u32 << n {
                if set.count_ones() as usize != self.cfg.read_q().max(self.cfg.write_q()) {
                    continue;
                }
                v.extend((0..n).filter(|l| set & (1 << l) != 0).map(|l| (l, set, keep)));
            }
        }
        v.truncate(128);
        v
    }

    fn check_divide(&mut self, g: &G) -> Option<(Viol, Option<u8>)> {
        if !self.props.on("C01") && !self.props.on("C02") || self.stats.divides > 20_000 {
            return None;
        }
        for k in 0..self.divisions().len() {
            self.stats.divides += 1;
            if let Some(v) = self.divide(g.clone(), k) {
                return Some((v, Some(128 + k as u8)));
            }
        }
        None
    }

    fn divide(&mut self, mut s: G, k: usize) -> Option<Viol> {
        let n = self.n();
        let (l, set, keep) = self.divisions()[k];
        macro_rules! go {
            ($e:expr) => {{
                let v = $e.0;
                if let Some(v) = self.filter(v).into_iter().next() {
                    return Some(v);
                }
            }};
        }
        s.frozen = 0;
        s.cuts = 0;
        for a in 0..n {
            for b in 0..n {
                if a < b && (set & (1 << a) == 0 || set & (1 << b) == 0) {
                    self.do_cut(&mut s, a, b);
                }
            }
        }
        for part in 0..2 {
            let live: Vec<usize> = (0..n).filter(|i| part == 1 || set & (1 << i) != 0).collect();
            if part == 1 {
                s.cuts = 0;
            }
            for i in &live {
                if !self.up(&s, *i) {
                    go!(self.apply_local(&mut s, *i, Input::Restart, Mode::Normal));
                }
            }
            if !keep || part == 1 {
                for a in &live {
                    for b in &live {
                        if a != b {
                            go!(self.apply_local(&mut s, *a, Input::Reconn(*b as u8), Mode::Normal));
                        }
                    }
                }
                go!(self.drain(&mut s, &[], 20_000));
                for _ in 0..6 {
                    go!(self.apply_local(&mut s, l, Input::Lead, Mode::Normal));
                    go!(self.drain(&mut s, &[], 20_000));
                    let mine = self.ls[s.l[l] as usize].obs.promise;
                    if mine.pid == self.cfg.pids[l] && live.iter().all(|i| self.ls[s.l[*i] as usize].obs.promise <= mine) {
                        break;
                    }
                }
            }
            for _ in 0..2 {
                let id = self.ghosts[s.ghost as usize].appends.len() as u32 + 1;
                go!(self.apply_local(&mut s, l, Input::Append(id), Mode::Normal));
                go!(self.drain(&mut s, &[], 20_000));
            }
            for _ in 0..3 * self.cfg.flush.max(self.cfg.resend).min(10) {
                for i in &live {
                    go!(self.apply_local(&mut s, *i, Input::Tick, Mode::Normal));
                }
                go!(self.drain(&mut s, &[], 20_000));
            }
        }
        None
    }

    fn continuations(&self) -> Vec<usize> {
        let n = self.n();
        let mut v: Vec<usize> = (0..=n + 3).collect();
        if self.sc.minority {
            for out in 0..n {
                v.extend((0..n).filter(|k| *k != out).map(|k| k + 16 * (out + 1)));
                v.push(n + 16 * (out + 1));
            }
        }
        if self.sc.lossless() {
            v.push(n + 4);
            if self.sc.minority {
                v.extend((0..n).map(|out| n + 4 + 16 * (out + 1)));
            }
        }
        v
    }

    fn check_faultfree(&mut self, g: &G) -> Option<Viol> {
        let tag = self.props.0.first().copied().unwrap_or("C17");
        // flush timers may still be pending: tick every server and drain
        let mut s = g.clone();
        for _ in 0..4 * self.cfg.flush.max(self.cfg.resend) {
            for i in 0..self.n() {
                let v = self.apply_local(&mut s, i, Input::Tick, Mode::Normal).0;
                if let Some(v) = self.filter(v).into_iter().next() {
                    return Some(v);
                }
            }
            let (v, ok) = self.drain(&mut s, &[], 3000);
            if let Some(v) = v.into_iter().next() {
                return Some(v);
            }
            if !ok {
                return Some(Viol { prop: tag, msg: "message exchange does not come to rest in a fault-free run".into() });
            }
        }
        // is there a leader at all?
        let led = (0..self.n()).any(|i| {
            let o = &self.ls[s.l[i] as usize].obs;
            o.leader == Some((self.cfg.pids[i], true))
        });
        if !led {
            return None;
        }
        let gh = self.ghosts[s.ghost as usize].clone();
        let stopped = (0..self.n()).any(|i| self.ls[s.l[i] as usize].obs.ss.is_some());
        for i in 0..self.n() {
            let o = self.ls[s.l[i] as usize].obs.clone();
            let d = o.dec();
            if !stopped {
                for (j, a) in gh.appends.iter().enumerate() {
                    let e = j as u32 + 1;
                    let cnt = d.iter().filter(|x| **x == e).count();
                    if a.ok && cnt != 1 {
                        return Some(Viol { prop: tag, msg: format!("fault-free run at rest: entry {e} (append succeeded at server {}) is decided {cnt} times at server {}: {:?}", self.cfg.pids[a.node as usize], self.cfg.pids[i], show_log(&d)) });
                    }
                    for (j2, b) in gh.appends.iter().enumerate().skip(j + 1) {
                        let e2 = j2 as u32 + 1;
                        if a.ok && b.ok && a.node == b.node && a.prom == b.prom {
                            let (p1, p2) = (d.iter().position(|x| *x == e), d.iter().position(|x| *x == e2));
                            if p1 > p2 {
                                return Some(Viol { prop: tag, msg: format!("fault-free run at rest: entries {e} and {e2} were appended in this order at server {} but decided as {:?}", self.cfg.pids[a.node as usize], show_log(&d)) });
                            }
                        }
                    }
                }
            } else {
                // the log is sealed: everybody must know
                if o.reconf.is_none() {
                    return Some(Viol { prop: tag, msg: format!("fault-free run at rest: a stop-sign was accepted but server {} is not reconfigured", self.cfg.pids[i]) });
                }
            }
        }
        if !stopped && gh.reconfs.iter().any(|r| r.ok) {
            return Some(Viol { prop: tag, msg: "fault-free run at rest: an accepted reconfiguration request was lost".into() });
        }
        None
    }

    /// Fault-free continuation: restart everything, re-establish all connections, optionally
    /// elect server k (k = n: keep the current leader if there is one), let timers run, propose
    /// at every server, and require convergence.
    /// With `minority` the same while one server stays unreachable: code k + 16 * (server + 1).
    fn closure(&mut self, mut s: G, code: usize) -> Option<Viol> {
        let n = self.n();
        let (k, out) = (code % 16, (code / 16).checked_sub(1));
        let live: Vec<usize> = (0..n).filter(|i| Some(*i) != out).collect();
        let tags: Vec<&'static str> = ["C10", "C08", "C07", "C16", "C13", "C05"]
            .into_iter()
            .filter(|p| self.props.on(p))
            .collect();
        let tag = tags[0];
        macro_rules! go {
            ($e:expr) => {{
                let v = $e.0;
                if let Some(v) = self.filter(v).into_iter().next() {
                    return Some(v);
                }
            }};
        }
        let limit = 20_000;
        let rounds = 3 * self.cfg.flush.max(self.cfg.resend);
        macro_rules! drain {
            () => {{
                let (v, ok) = self.drain(&mut s, &[], limit);
                if let Some(v) = v.into_iter().next() {
                    return Some(v);
                }
                if !ok {
                    return Some(Viol { prop: tag, msg: "after healing, message exchange does not come to rest".into() });
                }
            }};
        }
        // k = n: keep the leader; n + 1: the same with everything in flight lost;
        // n + 2: the same without any report of re-established connections
        // n + 3: like n + 2, and only the leader proposes, one entry
        // n + 4: nothing was ever lost, and nobody proposes any more
        let keep = k >= n;
        let reconnect = k < n + 2;
        if k == n + 1 && s.quiet() || k >= n + 2 && s.cuts != 0 {
            return None;
        }
        if keep {
            // only meaningful if the highest promise belongs to a server that still leads
            let top = (0..n).map(|i| self.ls[s.l[i] as usize].obs.promise).max().unwrap();
            let i = match self.idx_of(top.pid) {
                Some(i) => i,
                None => return None,
            };
            let o = &self.ls[s.l[i] as usize].obs;
            let lead = self.ls[s.l[i] as usize].led;
            if !o.up || o.promise != top || lead != top || Some(i) == out {
                return None;
            }
            if out.is_some() && live.len() < self.cfg.read_q().max(self.cfg.write_q()) {
                return None;
            }
        }
        if k == n + 1 {
            s.q.iter_mut().for_each(|q| q.clear());
        }
        s.cuts = 0;
        s.frozen = 0;
        if let Some(o) = out {
            (0..n).filter(|b| *b != o).for_each(|b| self.do_cut(&mut s, o, b));
        }
        for i in live.clone() {
            if !self.up(&s, i) {
                go!(self.apply_local(&mut s, i, Input::Restart, Mode::Normal));
            }
        }
        for a in live.clone() {
            for b in live.clone() {
                if a != b && reconnect {
                    go!(self.apply_local(&mut s, a, Input::Reconn(b as u8), Mode::Normal));
                }
            }
        }
        drain!();
        if k < n {
            // an election ends with a ballot above everything promised; retry until it is
            for _ in 0..6 {
                go!(self.apply_local(&mut s, k, Input::Lead, Mode::Normal));
                drain!();
                let mine = self.ls[s.l[k] as usize].obs.promise;
                if mine.pid == self.cfg.pids[k]
                    && live.iter().all(|i| self.ls[s.l[*i] as usize].obs.promise <= mine)
                {
                    break;
                }
            }
        }
        for _ in 0..rounds {
            for i in live.clone() {
                go!(self.apply_local(&mut s, i, Input::Tick, Mode::Normal));
            }
            drain!();
        }
        // cached: the remainder depends only on this state
        let f = fp128_u32(&{
            let mut p = s.pack();
            p.push(code as u32);
            p
        });
        if self.closure_ok.contains_key(&f) {
            return None;
        }
        let before = self.chosens[s.chosen as usize].clone();
        let stopped = live.iter().any(|i| self.ls[s.l[*i] as usize].obs.ss.is_some());
        if k >= n + 2 && stopped && self.sc.rounds > 0 {
            // a lost acknowledgement of a stop-sign is repaired only with a reconnect report
            return None;
        }
        let mut fresh = vec![];
        // without reconnect reports a loss is noticed with the next message of the leader
        let extra = if k == n + 2 { 2 } else if k == n + 3 { 1 } else { 0 };
        for i in 0..n + extra {
            if k == n + 3 && i < n || k == n + 4 || Some(i) == out {
                continue;
            }
            let i = if i >= n {
                drain!();
                self.idx_of((0..n).map(|i| self.ls[s.l[i] as usize].obs.promise).max().unwrap().pid).unwrap()
            } else {
                i
            };
            let id = self.ghosts[s.ghost as usize].appends.len() as u32 + 1;
            let (v, r) = self.apply_local(&mut s, i, Input::Append(id), Mode::Normal);
            if let Some(v) = self.filter(v).into_iter().next() {
                return Some(v);
            }
            if r == Ret::Ok {
                fresh.push(id);
            } else if !stopped {
                return Some(Viol { prop: tag, msg: format!("after healing, append at server {} is rejected although no reconfiguration is in progress", self.cfg.pids[i]) });
            }
        }
        drain!();
        for _ in 0..rounds {
            for i in live.clone() {
                go!(self.apply_local(&mut s, i, Input::Tick, Mode::Normal));
            }
            drain!();
        }
        let chosen = self.chosens[s.chosen as usize].clone();
        let stopped_now = chosen.last().map(|v| *v >= SS_BASE).unwrap_or(false);
        let logs: Vec<String> = (0..n)
            .map(|i| {
                let o = &self.ls[s.l[i] as usize].obs;
                format!("{:?} decided {}", show_log(&o.log), o.decided)
            })
            .collect();
        if stopped && !stopped_now {
            return Some(Viol { prop: tag, msg: format!("after healing, the accepted stop-sign is never decided; servers: {logs:?}") });
        }
        for i in live.clone() {
            let o = self.ls[s.l[i] as usize].obs.clone();
            if o.decided != chosen.len() || o.len() != chosen.len() {
                return Some(Viol { prop: tag, msg: format!("after healing (leader choice {}), server {} does not converge: decided {} of {} (decided log {:?}); servers: {logs:?}", self.show_k(code), self.cfg.pids[i], o.decided, chosen.len(), show_log(&chosen)) });
            }
            let d = o.dec();
            if d.iter().zip(&chosen).any(|(a, b)| *a != 0 && a != b) {
                return Some(Viol { prop: tag, msg: format!("after healing, server {} decided {:?} instead of {:?}", self.cfg.pids[i], show_log(&d), show_log(&chosen)) });
            }
            if stopped_now && o.reconf.is_none() {
                return Some(Viol { prop: tag, msg: format!("after healing, server {} does not report the decided reconfiguration", self.cfg.pids[i]) });
            }
        }
        if !stopped {
            for e in fresh {
                if chosen.iter().filter(|x| **x == e).count() != 1 {
                    return Some(Viol { prop: tag, msg: format!("after healing (leader choice {}), new proposal {e} is not decided exactly once: {:?} (decided before: {:?})", self.show_k(code), show_log(&chosen), show_log(&before)) });
                }
            }
        }
        self.closure_ok.insert(f, ());
        None
    }

    fn show_k(&self, code: usize) -> String {
        let k = code % 16;
        if code >= 16 && k >= self.n() {
            format!("{}, server {} unreachable", self.show_k(k), self.cfg.pids[code / 16 - 1])
        } else if code >= 16 {
            format!("server {}, server {} unreachable", self.cfg.pids[k], self.cfg.pids[code / 16 - 1])
        } else if k == self.n() + 3 {
            "unchanged, no reconnect reports, one new proposal of the leader".into()
        } else if k == self.n() + 4 {
            "unchanged, nothing was lost and nothing more is proposed".into()
        } else if k == self.n() + 1 {
            "unchanged, everything in flight lost".into()
        } else if k == self.n() + 2 {
            "unchanged, no reconnect reports".into()
        } else if k < self.n() {
            format!("server {}", self.cfg.pids[k])
        } else {
            "unchanged".into()
        }
    }

    // ------------------------------------------------------------ conformance / replay
    /// Re-execute a global history on fresh servers without memoisation and compare every
    /// observation and emitted message with the explored graph.
    pub fn validate(&mut self, trace: &[Act]) -> Result<(), String> {
        self.rec = Some(vec![]);
        let mut g = self.initial();
        self.run_init(&mut g);
        for a in trace {
            match self.apply(&g, *a) {
                Some((s, _)) => g = s,
                None => {
                    self.rec = None;
                    return Err(format!("action {a:?} not enabled on re-execution"));
                }
            }
        }
        let rec = self.rec.take().unwrap();
        let mut live: Vec<Node<T>> = (0..self.n())
            .map(|i| Node::down(&self.cfg, i, MemoryStorage::default()))
            .collect();
        let mut sent: HashMap<String, usize> = HashMap::new();
        for (node, input, mode) in rec {
            let m = match input {
                Input::Deliver(m) => {
                    let s = format!("{:?}", self.msgs[m as usize]);
                    match sent.get_mut(&s) {
                        Some(c) if *c > 0 => *c -= 1,
                        _ => return Err(format!("re-execution never emitted {s}")),
                    }
                    Some(&self.msgs[m as usize])
                }
                _ => None,
            };
            for m in live[node].step(input, mode, m).out {
                *sent.entry(format!("{m:?}")).or_default() += 1;
            }
        }
        for i in 0..self.n() {
            let o = live[i].observe();
            if o != *self.ls[g.l[i] as usize].obs {
                return Err(format!(
                    "re-execution of server {} gives {:?}, explored state was {:?}",
                    live[i].pid, o, self.ls[g.l[i] as usize].obs
                ));
            }
        }
        Ok(())
    }

    fn show_input(&self, i: Input, m: Mode) -> String {
        let s = match i {
            Input::Deliver(x) => format!("{}", self.show_msg(x)),
            o => format!("{o:?}"),
        };
        if m == Mode::Normal {
            s
        } else {
            format!("{s} [{m:?}]")
        }
    }

    fn show_msg(&self, m: u32) -> String {
        match &self.msgs[m as usize] {
            Message::SequencePaxos(p) => format!("{}->{} {}", p.from, p.to, short(&p.msg)),
            Message::BLE(b) => format!("{}->{} {:?}", b.from, b.to, b.msg),
        }
    }

    pub fn describe(&mut self, trace: &[Act]) -> Vec<String> {
        let mut out = vec![format!("prefix: {:?}", self.sc.init)];
        let mut g = self.initial();
        self.run_init(&mut g);
        out.push(format!("state: {}", self.show_state(&g)));
        let n = self.n();
        for a in trace {
            let what = match a {
                Act::Deliver(x, y, m) => {
                    let q = &g.q[*x as usize * n + *y as usize];
                    match q.first() {
                        Some(h) => format!("deliver {} {:?}", self.show_msg(*h), m),
                        None => format!("{a:?}"),
                    }
                }
                Act::Drop(x, y) => {
                    let q = &g.q[*x as usize * n + *y as usize];
                    match q.first() {
                        Some(h) => format!("lose {}", self.show_msg(*h)),
                        None => format!("{a:?}"),
                    }
                }
                Act::Do(gr, o, m) => {
                    let (i, k) = self.sc.groups[*gr as usize].opts[*o as usize];
                    format!("server {}: {:?} {:?}", self.cfg.pids[i as usize], k, m)
                }
                o => format!("{o:?}"),
            };
            out.push(what);
            self.rec = Some(vec![]);
            let r = self.apply(&g, *a);
            let rec = self.rec.take().unwrap();
            if self.sc.sync || self.sc.rounds > 0 {
                for (node, input, mode) in rec.into_iter().skip(if matches!(a, Act::Deliver(..) | Act::Do(..)) { 1 } else { 0 }) {
                    out.push(format!("    then server {}: {}", self.cfg.pids[node], self.show_input(input, mode)));
                }
            }
            match r {
                Some((s, v)) => {
                    g = s;
                    for x in v {
                        out.push(format!("  !! {} {}", x.prop, x.msg));
                    }
                }
                None => out.push("  (not enabled)".into()),
            }
            out.push(format!("    => {}", self.show_state(&g)));
        }
        out
    }

    fn show_state(&self, g: &G) -> String {
        (0..self.n())
            .map(|i| {
                let o = &self.ls[g.l[i] as usize].obs;
                format!(
                    "S{}{} prom=({},{}) acc=({},{}) dec={} comp={} log={}",
                    self.cfg.pids[i],
                    if o.up { "" } else { "(down)" },
                    o.promise.n,
                    o.promise.pid,
                    o.acc_round.n,
                    o.acc_round.pid,
                    o.decided,
                    o.compacted,
                    show_log(&o.log)
                )
            })
            .collect::<Vec<_>>()
            .join(" | ")
    }
}

pub fn show_v(v: u32) -> String {
    match v {
        0 => "-".into(),
        BAD => "MISSING".into(),
        x if x >= SS_BASE => format!("SS{}", x - SS_BASE),
        x => format!("{x}"),
    }
}
pub fn show_log(l: &[u32]) -> String {
    format!(
        "[{}]",
        l.iter().map(|v| show_v(*v)).collect::<Vec<_>>().join(",")
    )
}

pub fn short<T: HEntry>(m: &PaxosMsg<T>) -> String {
    let b = |x: &Ballot| format!("({},{})", x.n, x.pid);
    match m {
        PaxosMsg::PrepareReq(p) => format!("PrepareReq{}", b(&p.n)),
        PaxosMsg::Prepare(p) => format!(
            "Prepare{} dec={} na={} acc={}",
            b(&p.n),
            p.decided_idx,
            b(&p.n_accepted),
            p.accepted_idx
        ),
        PaxosMsg::Promise(p) => format!(
            "Promise{} na={} dec={} acc={} sync={}",
            b(&p.n),
            b(&p.n_accepted),
            p.decided_idx,
            p.accepted_idx,
            p.log_sync
                .as_ref()
                .map(|l| format!(
                    "@{} {:?} snap={:?} ss={}",
                    l.sync_idx,
                    l.suffix.iter().map(|e| e.id()).collect::<Vec<_>>(),
                    l.decided_snapshot,
                    l.stopsign.is_some()
                ))
                .unwrap_or("none".into())
        ),
        PaxosMsg::AcceptSync(p) => format!(
            "AcceptSync{} seq={}.{} dec={} @{} {:?} snap={:?} ss={}",
            b(&p.n),
            p.seq_num.session,
            p.seq_num.counter,
            p.decided_idx,
            p.log_sync.sync_idx,
            p.log_sync.suffix.iter().map(|e| e.id()).collect::<Vec<_>>(),
            p.log_sync.decided_snapshot,
            p.log_sync.stopsign.is_some()
        ),
        PaxosMsg::AcceptDecide(p) => format!(
            "AcceptDecide{} seq={}.{} dec={} {:?}",
            b(&p.n),
            p.seq_num.session,
            p.seq_num.counter,
            p.decided_idx,
            p.entries
        ),
        PaxosMsg::Accepted(a) => format!("Accepted{} {}", b(&a.n), a.accepted_idx),
        PaxosMsg::NotAccepted(a) => format!("NotAccepted{}", b(&a.n)),
        PaxosMsg::Decide(d) => format!(
            "Decide{} seq={}.{} {}",
            b(&d.n),
            d.seq_num.session,
            d.seq_num.counter,
            d.decided_idx
        ),
        PaxosMsg::ProposalForward(v) => format!(
            "ProposalForward {:?}",
            v.iter().map(|e| e.id()).collect::<Vec<_>>()
        ),
        PaxosMsg::AcceptStopSign(a) => format!(
            "AcceptStopSign{} seq={}.{}",
            b(&a.n),
            a.seq_num.session,
            a.seq_num.counter
        ),
        o => format!("{o:?}"),
    }
}
