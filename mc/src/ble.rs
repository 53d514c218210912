//! Leader election: exhaustive enumeration of connectivity histories on real servers.
//!
//! A round is one election timeout at every server (in a given order) with all messages between
//! connected servers delivered. A history is a sequence of connectivity graphs, each held for a
//! number of rounds, optionally with a server restarted or a priority changed at the start.
use crate::{node::*, task::*, types::E};
use omnipaxos::{messages::Message, OmniPaxos};
use omnipaxos_storage::memory_storage::MemoryStorage;
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::{
    collections::{HashSet, VecDeque},
    time::Instant,
};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Style {
    /// everybody's timer expires, then messages are exchanged
    Together,
    /// messages are exchanged after every single timer
    Staggered,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Event {
    None,
    Restart(u8),
    Priority(u8, u32),
    /// try_become_leader
    Lead(u8),
    /// what the first sends to the second during this period is kept back; the heartbeats among it
    /// arrive much later
    Late(u8, u8),
    /// the server is replaced by a fresh one of another configuration (the servers' own is 3), with
    /// this priority; only heartbeats pass between it and the others. Its new configuration has two
    /// more servers that nobody else knows, or, if `alone`, the same servers as the old one
    Foreign { at: u8, prio: u32, conf: u32, alone: bool },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub n: usize,
    pub quorum: Option<(usize, usize)>,
    pub prio: Vec<u32>,
    pub order: Vec<u8>,
    pub style: Style,
    /// (graph, event at its start, rounds it lasts); the last one is checked
    pub phases: Vec<(u32, Event, u8)>,
    /// ticks per election timeout (0: one) and how many of them each server is ahead
    #[serde(default)]
    pub ticks: u8,
    #[serde(default)]
    pub ahead: Vec<u8>,
}

/// Rounds within which a leader must be established, and for which it must stay.
pub const BOUND: u32 = 14;
pub const STAY: u32 = 8;

pub fn bit(a: usize, b: usize, n: usize) -> u32 {
    let (a, b) = (a.min(b), a.max(b));
    let mut k = 0;
    for i in 0..n {
        for j in i + 1..n {
            if (i, j) == (a, b) {
                return 1 << k;
            }
            k += 1;
        }
    }
    0
}
pub fn full(n: usize) -> u32 {
    (1 << (n * (n - 1) / 2)) - 1
}
fn show_graph(g: u32, n: usize) -> String {
    let mut v = vec![];
    for i in 0..n {
        for j in i + 1..n {
            if g & bit(i, j, n) != 0 {
                v.push(format!("{}-{}", i + 1, j + 1));
            }
        }
    }
    if v.is_empty() {
        "no links".into()
    } else {
        v.join(" ")
    }
}

struct Sim {
    cfg: Cfg,
    ops: Vec<OmniPaxos<E, RecStorage<E>>>,
    sts: Vec<RecStorage<E>>,
    links: Vec<u32>,
    graph: u32,
    next: u32,
    steps: usize,
    seen: HashSet<(u32, Vec<(u32, u64, bool)>)>,
    buf: Vec<Message<E>>,
    hold: Option<(usize, usize)>,
    late: Vec<Message<E>>,
    foreign: Option<usize>,
    /// the other servers of the foreign server's configuration
    others: Vec<OmniPaxos<E, RecStorage<E>>>,
}

impl Sim {
    fn conf(cfg: &Cfg, i: usize) -> omnipaxos::OmniPaxosConfig {
        let mut c = cfg.op_config(i);
        c.cluster_config.configuration_id = 3;
        c
    }
    fn new(c: &Case) -> Self {
        let n = c.n;
        let cfg = Cfg { quorum: c.quorum, prio: c.prio.clone(), election: c.ticks.max(1) as u64, ..Cfg::majority(n) };
        let sts: Vec<RecStorage<E>> = (0..n).map(|_| RecStorage::new(MemoryStorage::default())).collect();
        let mut ops: Vec<_> = (0..n).map(|i| Self::conf(&cfg, i).build(sts[i].clone()).unwrap()).collect();
        for (i, k) in c.ahead.iter().enumerate() {
            for _ in 0..*k {
                ops[i].tick();
            }
        }
        let links = (0..n * n).map(|k| if k / n == k % n { 0 } else { bit(k / n, k % n, n) }).collect();
        Sim { cfg, ops, sts, links, graph: full(n), next: 1, steps: 0, seen: Default::default(), buf: vec![], hold: None, late: vec![], foreign: None, others: vec![] }
    }
    fn n(&self) -> usize {
        self.cfg.n()
    }
    fn conn(&self, a: usize, b: usize) -> bool {
        self.graph & self.links[a * self.n() + b] != 0
    }
    fn degree(&self, a: usize) -> usize {
        (0..self.n()).filter(|b| *b != a && Some(*b) != self.foreign && self.conn(a, *b)).count() + 1
    }
    fn drain(&mut self) -> Option<String> {
        let mut q: VecDeque<Message<E>> = VecDeque::new();
        let mut count = 0;
        loop {
            let n = self.ops.len();
            for i in 0..n + self.others.len() {
                let op = if i < n { &mut self.ops[i] } else { &mut self.others[i - n] };
                op.take_outgoing_messages(&mut self.buf);
                for m in self.buf.drain(..) {
                    if m.get_sender() != i as u64 + 1 {
                        return Some(format!("server {} sent a message in the name of {}", i + 1, m.get_sender()));
                    }
                    q.push_back(m);
                }
            }
            if q.is_empty() {
                return None;
            }
            while let Some(m) = q.pop_front() {
                let (a, b) = (m.get_sender() as usize - 1, m.get_receiver() as usize - 1);
                if a >= n || b >= n {
                    if b < n {
                        self.ops[b].handle_incoming(m);
                    } else if b - n < self.others.len() {
                        self.others[b - n].handle_incoming(m);
                    }
                    continue;
                }
                if self.hold == Some((a, b)) {
                    if matches!(m, Message::BLE(_)) && self.conn(a, b) {
                        self.late.push(m);
                    }
                    continue;
                }
                if self.foreign.is_some() && (self.foreign == Some(a) || self.foreign == Some(b)) && !matches!(m, Message::BLE(_)) {
                    continue;
                }
                if self.conn(a, b) {
                    self.ops[b].handle_incoming(m);
                    self.steps += 1;
                    count += 1;
                }
            }
            if count > 20_000 {
                return Some("message exchange does not come to rest".into());
            }
        }
    }
    fn round(&mut self, c: &Case) -> Option<String> {
        for _ in 0..c.ticks.max(1) {
            for o in &mut self.others {
                o.tick();
            }
            for &i in &c.order {
                self.ops[i as usize].tick();
                self.steps += 1;
                if c.style == Style::Staggered {
                    if let Some(e) = self.drain() {
                        return Some(e);
                    }
                }
            }
            if let Some(e) = self.drain() {
                return Some(e);
            }
        }
        let s = self.ops.iter().map(|o| {
            let p = o.get_promise();
            (p.n, p.pid, o.get_current_leader().map(|x| x.1).unwrap_or(false))
        });
        let s: Vec<_> = s.collect();
        self.seen.insert((self.graph, s));
        None
    }
    /// Heartbeats kept back earlier arrive now.
    fn deliver_late(&mut self) -> Option<String> {
        for m in std::mem::take(&mut self.late) {
            let b = m.get_receiver() as usize - 1;
            self.ops[b].handle_incoming(m);
            self.steps += 1;
        }
        self.drain()
    }
    fn set_graph(&mut self, g: u32) -> Option<String> {
        let n = self.n();
        let mut old = self.graph;
        self.graph = g;
        if let Some((a, b)) = self.hold.take() {
            old &= !self.links[a * n + b];
        }
        for a in 0..n {
            for b in 0..n {
                let l = self.links[a * n + b];
                if a != b && g & l != 0 && old & l == 0 {
                    self.ops[a].reconnected(b as u64 + 1);
                }
            }
        }
        self.drain()
    }
    fn event(&mut self, e: Event) -> Option<String> {
        match e {
            Event::None => None,
            Event::Restart(i) => {
                let i = i as usize;
                self.ops[i] = Self::conf(&self.cfg, i).build(self.sts[i].clone()).unwrap();
                let n = self.n();
                for b in 0..n {
                    if b != i && self.conn(i, b) {
                        self.ops[i].reconnected(b as u64 + 1);
                        self.ops[b].reconnected(i as u64 + 1);
                    }
                }
                self.drain()
            }
            Event::Priority(i, p) => {
                self.ops[i as usize].set_priority(p);
                None
            }
            Event::Lead(i) => {
                self.ops[i as usize].try_become_leader();
                self.drain()
            }
            Event::Late(a, b) => {
                self.hold = Some((a as usize, b as usize));
                None
            }
            Event::Foreign { at, prio, conf, alone } => {
                let (i, n) = (at as usize, self.n());
                self.foreign = Some(i);
                let mut c = self.cfg.op_config(i);
                c.cluster_config.configuration_id = conf;
                c.server_config.leader_priority = prio;
                if !alone {
                    c.cluster_config.flexible_quorum = None;
                    c.cluster_config.nodes = vec![i as u64 + 1, n as u64 + 1, n as u64 + 2];
                    for k in 1..=2 {
                        let mut d = c.clone();
                        d.server_config.pid = n as u64 + k;
                        d.server_config.leader_priority = 1;
                        self.others.push(d.build(RecStorage::new(MemoryStorage::default())).unwrap());
                    }
                }
                self.sts[i] = RecStorage::new(MemoryStorage::default());
                self.ops[i] = c.build(self.sts[i].clone()).unwrap();
                if let Some(e) = self.drain() {
                    return Some(e);
                }
                if !alone {
                    // its configuration has had a few leaders already
                    for _ in 0..if prio == 2 { 6 } else { 0 } {
                        self.ops[i].try_become_leader();
                        if let Some(e) = self.drain() {
                            return Some(e);
                        }
                    }
                }
                None
            }
        }
    }
    /// The server that can decide: in the accept phase with a write quorum of connected followers.
    fn effective(&self) -> Option<(usize, omnipaxos::ballot_leader_election::Ballot)> {
        let n = self.n();
        for i in 0..n {
            let p = self.ops[i].get_promise();
            if Some(i) != self.foreign && self.ops[i].get_current_leader() == Some((i as u64 + 1, true)) && p.pid == i as u64 + 1 {
                let f = (0..n).filter(|j| *j != i && Some(*j) != self.foreign && self.conn(i, *j) && self.ops[*j].get_promise() == p).count();
                if f + 1 >= self.cfg.write_q() {
                    return Some((i, p));
                }
            }
        }
        None
    }
    fn append(&mut self, i: usize) -> Result<u32, String> {
        let id = self.next;
        self.next += 1;
        match self.ops[i].append(E::mk(id)) {
            Ok(()) => Ok(id),
            Err(e) => Err(format!("append at server {} fails: {e:?}", i + 1)),
        }
    }
    fn has_decided(&self, i: usize, id: u32) -> bool {
        let d = self.ops[i].get_decided_idx();
        let st = self.sts[i].0.borrow();
        let log = raw_log(&st.mem);
        log.iter().take(d).any(|e| e.id() == id)
    }
}

pub struct Res {
    pub steps: usize,
    pub states: HashSet<(u32, Vec<(u32, u64, bool)>)>,
    pub rounds: u32,
    pub err: Option<String>,
}

pub fn run_case(c: &Case) -> Res {
    let mut rounds = 0;
    let mut s = Sim::new(c);
    let err = match guarded(|| drive(&mut s, c, &mut rounds)) {
        Guarded::Done(r) => r,
        Guarded::Panicked(p) => Some(format!("a server panicked: {p}")),
        Guarded::Crashed => None,
    };
    Res { steps: s.steps, states: std::mem::take(&mut s.seen), rounds, err }
}

fn drive(s: &mut Sim, c: &Case, rounds: &mut u32) -> Option<String> {
    let n = c.n;
    macro_rules! t {
        ($e:expr) => {
            if let Some(e) = $e {
                return Some(e);
            }
        };
    }
    for (k, (g, ev, r)) in c.phases.iter().enumerate() {
        // a server that goes away while everybody else stays connected to the leader
        let keep = match ev {
            Event::Foreign { at, .. } if *g == full(n) && s.graph == *g => s.effective().filter(|(l, _)| *l != *at as usize),
            _ => None,
        };
        t!(s.set_graph(*g));
        t!(s.event(*ev));
        if k + 1 == c.phases.len() {
            break;
        }
        for _ in 0..*r {
            t!(s.round(c));
        }
        if let Some((l, b)) = keep {
            if n - 1 >= s.cfg.read_q().max(s.cfg.write_q()) && s.effective() != Some((l, b)) {
                return Some(format!("leader {} ({b:?}) does not stay although all servers of the configuration but server {:?} are connected to it; now {:?}", l + 1, s.foreign.map(|x| x + 1), s.effective()));
            }
        }
        // decisions along the way
        if let Some((i, _)) = s.effective() {
            t!(s.append(i).err());
            t!(s.drain());
        }
    }
    let best = (0..n).filter(|i| Some(*i) != s.foreign).map(|i| s.degree(i)).max().unwrap();
    if best < s.cfg.write_q() {
        // nobody can decide anything
        let before: Vec<usize> = (0..n).map(|i| s.ops[i].get_decided_idx()).collect();
        let top = *before.iter().max().unwrap();
        for i in 0..n {
            t!(s.append(i).err());
        }
        for _ in 0..BOUND {
            t!(s.round(c));
        }
        let after = (0..n).map(|i| s.ops[i].get_decided_idx()).max().unwrap();
        if after > top {
            return Some(format!("something new was decided without a quorum-connected server ({top} -> {after})"));
        }
        return None;
    }
    if best < s.cfg.read_q() {
        return None; // an old leader may keep deciding, a new one cannot be elected
    }
    let mut est = s.effective();
    for k in 1..=BOUND {
        t!(s.round(c));
        let e = s.effective();
        if e != est {
            *rounds = k;
            est = e;
        }
    }
    let who = |s: &Sim| -> String {
        (0..n).map(|i| format!("server {}: {:?} promised {:?}", i + 1, s.ops[i].get_current_leader(), s.ops[i].get_promise())).collect::<Vec<_>>().join("; ")
    };
    let (l, b) = match est {
        Some(x) => x,
        None => return Some(format!("no leader with a connected quorum after {BOUND} election timeouts although the connectivity {} has a quorum-connected server; {}", show_graph(s.graph, n), who(s))),
    };
    for k in 0..STAY {
        if k == 1 {
            t!(s.deliver_late());
        }
        t!(s.round(c));
        if s.effective() != Some((l, b)) {
            return Some(format!("the established leader {} ({b:?}) is replaced after {} more election timeouts without any change of connectivity {}; {}", l + 1, k + 1, show_graph(s.graph, n), who(s)));
        }
    }
    // proposals are decided at the leader and everybody following it
    for p in 0..n {
        if Some(p) == s.foreign || p != l && !(s.conn(l, p) && s.ops[p].get_promise() == b) {
            continue; // not a follower
        }
        let id = match s.append(p) {
            Ok(id) => id,
            Err(e) => return Some(e),
        };
        t!(s.drain());
        t!(s.round(c));
        for i in 0..n {
            if Some(i) != s.foreign && (i == l || s.conn(l, i) && s.ops[i].get_promise() == b) && !s.has_decided(i, id) {
                return Some(format!("proposal of server {} is not decided at server {} although leader {} is connected to both; {}", p + 1, i + 1, l + 1, who(s)));
            }
        }
    }
    None
}

fn describe(c: &Case) -> Vec<String> {
    let mut v = vec![format!("{} servers, quorums {:?}, priorities {:?}, timer order {:?}, {:?}", c.n, c.quorum, c.prio, c.order, c.style)];
    for (i, (g, e, r)) in c.phases.iter().enumerate() {
        let l = if i + 1 == c.phases.len() { "from then on".to_string() } else { format!("for {r} election timeouts") };
        let e = match e {
            Event::None => String::new(),
            e => format!(", {e:?}"),
        };
        v.push(format!("connectivity {}{e} {l}", show_graph(*g, c.n)));
    }
    if c.ticks > 1 {
        v.push(format!("an election timeout is {} ticks; ticks ahead: {:?}", c.ticks, c.ahead));
    }
    v
}

/// Run every case of a family.
pub fn family(name: String, bound: String, cases: impl Fn() -> Box<dyn Iterator<Item = Case>> + Send + Sync + 'static) -> Task {
    let nm = name.clone();
    Task {
        name,
        run: Box::new(move |deadline| {
            let start = Instant::now();
            let mut out = Out { name: nm.clone(), bound: bound.clone(), exhausted: true, ..Default::default() };
            let mut states = HashSet::new();
            let mut worst = 0;
            for (k, c) in cases().enumerate() {
                if k & 63 == 0 && Instant::now() > deadline {
                    out.exhausted = false;
                    break;
                }
                let r = run_case(&c);
                out.transitions += r.steps;
                out.validated += 1;
                if r.rounds > worst || out.sample.is_empty() {
                    out.sample = describe(&c);
                    out.sample.push(format!("leader established after {} timeouts", r.rounds));
                }
                worst = worst.max(r.rounds);
                states.extend(r.states);
                if let Some(e) = r.err {
                    out.exhausted = false;
                    out.viol = Some(Bad { msg: e, text: describe(&c), replay: json!({"kind": "ble", "case": c}) });
                    break;
                }
            }
            out.states = states.len();
            out.max_depth = worst;
            out.wall_ms = start.elapsed().as_millis() as u64;
            out
        }),
    }
}

/// Tie breaking: all priorities, all servers start (or lose their leader) at the same time.
pub fn ties(n: usize) -> Task {
    let name = format!("L-ties{n}");
    let nm = name.clone();
    Task {
        name,
        run: Box::new(move |_| {
            let start = Instant::now();
            let mut out = Out { name: nm.clone(), bound: format!("{n} servers, every priority assignment from 0..=2, every timer order: leader after a simultaneous start and after the leader becomes unreachable"), exhausted: true, ..Default::default() };
            let total = 3usize.pow(n as u32);
            'all: for p in 0..total {
                let prio: Vec<u32> = (0..n).map(|i| (p / 3usize.pow(i as u32) % 3) as u32).collect();
                for order in perms(n) {
                    let c = Case { n, quorum: None, prio: prio.clone(), order, style: Style::Together, phases: vec![(full(n), Event::None, 0)], ticks: 0, ahead: vec![] };
                    let r = guarded(|| {
                        let mut s = Sim::new(&c);
                        // the servers' first heartbeats are exchanged before the first timeout
                        if let Some(e) = s.drain() {
                            return (s, Some(e));
                        }
                        let mut alive: Vec<usize> = (0..n).collect();
                        for kill in 0..=(n - (n / 2 + 1)) {
                            if kill > 0 {
                                let l = *alive.iter().max_by_key(|i| (prio[**i], **i)).unwrap();
                                alive.retain(|x| *x != l);
                                let mut g = s.graph;
                                for j in 0..n {
                                    if j != l {
                                        g &= !bit(l, j, n);
                                    }
                                }
                                if let Some(e) = s.set_graph(g) {
                                    return (s, Some(e));
                                }
                            }
                            for _ in 0..BOUND {
                                if let Some(e) = s.round(&c) {
                                    return (s, Some(e));
                                }
                            }
                            let want = *alive.iter().max_by_key(|i| (prio[**i], **i)).unwrap();
                            match s.effective() {
                                Some((l, _)) if l == want => (),
                                x => return (s, Some(format!("with priorities {prio:?} and simultaneous candidates {:?}, server {} should lead, but the leader is {:?}", alive.iter().map(|x| x + 1).collect::<Vec<_>>(), want + 1, x.map(|x| x.0 + 1)))),
                            }
                        }
                        (s, None)
                    });
                    out.validated += 1;
                    let (steps, states, err) = match r {
                        Guarded::Done((s, e)) => (s.steps, s.seen.len(), e),
                        Guarded::Panicked(p) => (0, 0, Some(format!("a server panicked: {p}"))),
                        Guarded::Crashed => (0, 0, None),
                    };
                    out.transitions += steps;
                    out.states += states;
                    if let Some(e) = err {
                        out.exhausted = false;
                        out.viol = Some(Bad { msg: e, text: describe(&c), replay: json!({"kind": "ties", "n": n}) });
                        break 'all;
                    }
                }
            }
            out.sample = vec![format!("{n} servers, {total} priority assignments, {} timer orders", perms(n).len())];
            out.wall_ms = start.elapsed().as_millis() as u64;
            out
        }),
    }
}

/// What servers report about their surroundings, after every history of two graphs.
pub fn status(n: usize, style: Style, late: bool, foreign: bool) -> Task {
    let name = format!("U-{n}-{style:?}{}{}", if late { "-late" } else { "" }, if foreign { "-foreign" } else { "" });
    let nm = name.clone();
    Task {
        name,
        run: Box::new(move |deadline| {
            let start = Instant::now();
            let all = full(n) + 1;
            let firsts: Vec<u32> = if n < 5 { (0..all).collect() } else { classes(n) };
            let mut out = Out { name: nm.clone(), bound: format!("{n} servers, every history of two graphs ({} x {all}): reported leader, ballot and heartbeats at every election timeout{}", firsts.len(), if late { ", with every direction of every link kept back during the first and its heartbeats delivered during the second" } else if foreign { ", with every server replaced by one of an older or newer configuration before the second" } else { "" }), exhausted: true, ..Default::default() };
            let mut states = HashSet::new();
            'all: for &g0 in &firsts {
                for g1 in 0..all {
                    if Instant::now() > deadline {
                        out.exhausted = false;
                        break 'all;
                    }
                    let dirs: Vec<(usize, usize)> = if late { (0..n * n).map(|k| (k / n, k % n)).filter(|(a, b)| a != b && g0 & bit(*a, *b, n) != 0).collect() } else if foreign { (0..n * 4).map(|k| (k / 4, k % 4)).collect() } else { vec![(0, 0)] };
                    for (a, b) in dirs {
                    let ev = if late { Event::Late(a as u8, b as u8) } else { Event::None };
                    let ev1 = if foreign { Event::Foreign { at: a as u8, prio: 2, conf: if b < 2 { 2 } else { 7 }, alone: b % 2 == 0 } } else { Event::None };
                    let c = Case { n, quorum: None, prio: vec![0; n], order: (0..n as u8).collect(), style, phases: vec![(g0, ev, 4), (g1, ev1, 6)], ticks: 0, ahead: vec![] };
                    let mut s = Sim::new(&c);
                    let r = guarded(|| status_case(&mut s, &c));
                    let err = match r {
                        Guarded::Done(e) => e,
                        Guarded::Panicked(p) => Some(format!("a server panicked: {p}")),
                        Guarded::Crashed => None,
                    };
                    out.transitions += s.steps;
                    out.validated += 1;
                    states.extend(std::mem::take(&mut s.seen));
                    if let Some(e) = err {
                        out.exhausted = false;
                        out.viol = Some(Bad { msg: e, text: describe(&c), replay: json!({"kind": "status", "n": n, "style": style, "late": late, "foreign": foreign}) });
                        break 'all;
                    }
                    }
                }
            }
            out.states = states.len();
            out.wall_ms = start.elapsed().as_millis() as u64;
            out
        }),
    }
}

fn status_case(s: &mut Sim, c: &Case) -> Option<String> {
    let n = c.n;
    for (g, ev, rounds) in &c.phases {
        if let Some(e) = s.set_graph(*g).or_else(|| s.event(*ev)) {
            return Some(e);
        }
        for k in 1..=*rounds {
            if k == 4 && s.hold.is_none() {
                if let Some(e) = s.deliver_late() {
                    return Some(e);
                }
            }
            if let Some(e) = s.round(c) {
                return Some(e);
            }
            for i in (0..n).filter(|i| Some(*i) != s.foreign) {
                let ui = s.ops[i].get_ui_states();
                let me = i as u64 + 1;
                if ui.current_ballot.pid != me || ui.decided_idx != s.ops[i].get_decided_idx() || ui.current_leader != s.ops[i].get_current_leader().map(|x| x.0) {
                    return Some(format!("server {me} reports ballot {:?}, decided {}, leader {:?}", ui.current_ballot, ui.decided_idx, ui.current_leader));
                }
                if k < 3 || s.hold.is_some() {
                    continue; // heartbeats may still be those of the earlier graph
                }
                for (what, list) in [("UI state", &ui.heartbeats), ("cluster state", &ui.cluster_state.heartbeats)] {
                    let mut got: Vec<u64> = list.iter().map(|h| h.ballot.pid).filter(|p| *p != me).collect();
                    got.sort();
                    let want: Vec<u64> = (0..n).filter(|j| *j != i && Some(*j) != s.foreign && s.conn(i, *j)).map(|j| j as u64 + 1).collect();
                    if got != want {
                        return Some(format!("server {me} is connected to {want:?} but its {what} reports heartbeats of {got:?}"));
                    }
                    for h in list.iter() {
                        let p = h.ballot.pid as usize - 1;
                        if h.ballot > s.ops[p].get_ui_states().current_ballot {
                            return Some(format!("server {me} reports the heartbeat {h:?} of server {}, which never had that ballot", p + 1));
                        }
                    }
                }
            }
        }
    }
    None
}

pub fn perms(n: usize) -> Vec<Vec<u8>> {
    if n == 1 {
        return vec![vec![0]];
    }
    let mut v = vec![];
    for p in perms(n - 1) {
        for k in 0..n {
            let mut q = p.clone();
            q.insert(k, n as u8 - 1);
            v.push(q);
        }
    }
    v
}

/// One representative per isomorphism class.
pub fn classes(n: usize) -> Vec<u32> {
    let ps = perms(n);
    let mut seen = HashSet::new();
    let mut v = vec![];
    for g in 0..=full(n) {
        if seen.contains(&g) {
            continue;
        }
        v.push(g);
        for p in &ps {
            let mut h = 0;
            for i in 0..n {
                for j in i + 1..n {
                    if g & bit(i, j, n) != 0 {
                        h |= bit(p[i] as usize, p[j] as usize, n);
                    }
                }
            }
            seen.insert(h);
        }
    }
    v
}

pub fn all(thorough: bool) -> Vec<Task> {
    let mut v = vec![];
    let styles = [Style::Together, Style::Staggered];
    // 3 servers: every history of four graphs
    for style in styles {
        for order in if style == Style::Together { vec![vec![0, 1, 2]] } else { perms(3) } {
            let o = order.clone();
            let d: &'static [u8] = if thorough { &[1, 2, 3, 6] } else { &[1, 2, 5] };
            let m = d.len();
            let hist = (8 * 8 * 8 * 8 * m * m * m) as u32;
            v.push(family(format!("L-3-{style:?}-{}", order.iter().map(|x| (x + 1).to_string()).collect::<String>()), "3 servers: every history of 4 connectivity graphs (8^4), the first three held for some of 1, 2, 3, 5, 6 timeouts".into(), move || {
                let o = o.clone();
                Box::new((0..hist).map(move |k| {
                    let (g, h) = (k % 4096, (k / 4096) as usize);
                    Case { n: 3, quorum: None, prio: vec![0; 3], order: o.clone(), style, phases: vec![
                        (g % 8, Event::None, d[h % m]), (g / 8 % 8, Event::None, d[h / m % m]), (g / 64 % 8, Event::None, d[h / m / m % m]), (g / 512, Event::None, 0)], ticks: 0, ahead: vec![] }
                }))
            }));
        }
        // restarts, priority changes and manual take-overs in between
        v.push(family(format!("L-3-events-{style:?}"), "3 servers: histories of 3 graphs with a restart, priority change or take-over of any server at the start of the second and third".into(), move || {
            let mut evs = vec![Event::None];
            for i in 0..3 {
                evs.extend([Event::Restart(i), Event::Priority(i, 5), Event::Priority(i, 0), Event::Lead(i)]);
            }
            let e = evs.len() as u32;
            Box::new((0..512 * e * e * 2).map(move |k| {
                let (g, h) = (k % 512, k / 512);
                Case { n: 3, quorum: None, prio: vec![1; 3], order: vec![0, 1, 2], style, phases: vec![
                    (g % 8, Event::None, 4), (g / 8 % 8, evs[(h % e) as usize], if h / e / e == 0 { 1 } else { 4 }), (g / 64, evs[(h / e % e) as usize], 0)], ticks: 0, ahead: vec![] }
            }))
        }));
        v.push(family(format!("L-3-late-{style:?}"), "3 servers: every history of 4 graphs (8^4) with any direction of any link kept back during the second or the third; the heartbeats arrive after the leader of the last is established".into(), move || {
            Box::new((0..4096u32 * 12 * 2).map(move |k| {
                let (g, h) = (k % 4096, k / 4096);
                let (l, at, d) = (h % 6, h / 6 % 2, if h / 12 == 0 { 1 } else { 3 });
                let (a, b) = [(0, 1), (0, 2), (1, 0), (1, 2), (2, 0), (2, 1)][l as usize];
                let e = |x| if x == at { Event::Late(a, b) } else { Event::None };
                Case { n: 3, quorum: None, prio: vec![0; 3], order: vec![0, 1, 2], style, phases: vec![(g % 8, Event::None, 4), (g / 8 % 8, e(0), d), (g / 64 % 8, e(1), 2), (g / 512, Event::None, 0)], ticks: 0, ahead: vec![] }
            }))
        }));
        for n in [3usize, 4] {
            v.push(family(format!("L-{n}-foreign-{style:?}"), format!("{n} servers: every history of 2 graphs{} after a connected start, in which any one server belongs to another (older or newer) configuration from the first or the second on, alone in it or with others, with a lower, equal or higher ballot", if n == 3 || thorough { "" } else { " (the first one of each class)" }), move || {
                let first = if n == 3 || thorough { (0..=full(n)).collect() } else { classes(n) };
                let (n, gs, m) = (n as u32, full(n) + 1, first.len() as u32);
                Box::new((0..gs * m * n * 3 * 2 * 2 * 2).map(move |k| {
                    let (g, h) = (k % (gs * m), k / (gs * m));
                    let f = Event::Foreign { at: (h % n) as u8, prio: h / n % 3, conf: if h / n / 3 % 2 == 0 { 2 } else { 7 }, alone: h / n / 6 % 2 == 0 };
                    let (e0, e1) = if h / n / 12 == 0 { (f, Event::None) } else { (Event::None, f) };
                    Case { n: n as usize, quorum: None, prio: vec![1; n as usize], order: (0..n as u8).collect(), style, phases: vec![(full(n as usize), Event::None, 3), (first[(g % m) as usize], e0, 3), (g / m, e1, 3), (g / m, Event::None, 0)], ticks: 0, ahead: vec![] }
                }))
            }));
        }
        for ticks in [2u8, 3] {
            v.push(family(format!("L-3-skew{ticks}-{style:?}"), format!("3 servers, {ticks} ticks per election timeout: every phase difference of their clocks, every history of 3 graphs (8^3)"), move || {
                let t = ticks as u32;
                Box::new((0..512 * t * t * 2).map(move |k| {
                    let (g, h) = (k % 512, k / 512);
                    Case { n: 3, quorum: None, prio: vec![0; 3], order: vec![0, 1, 2], style, phases: vec![(g % 8, Event::None, if h / t / t == 0 { 1 } else { 4 }), (g / 8 % 8, Event::None, 2), (g / 64, Event::None, 0)], ticks, ahead: vec![0, (h % t) as u8, (h / t % t) as u8] }
                }))
            }));
        }
        for q in [Some((3, 2)), Some((3, 3)), Some((2, 2))] {
            v.push(family(format!("L-3-{style:?}-q{}{}", q.unwrap().0, q.unwrap().1), "3 servers with flexible quorums: every history of 3 graphs".into(), move || {
                Box::new((0..512u32 * 9).map(move |k| {
                    let d = [1, 2, 5];
                    let (g, h) = (k % 512, k / 512);
                    Case { n: 3, quorum: q, prio: vec![0; 3], order: vec![0, 1, 2], style, phases: vec![(g % 8, Event::None, d[h as usize % 3]), (g / 8 % 8, Event::None, d[h as usize / 3]), (g / 64, Event::None, 0)], ticks: 0, ahead: vec![] }
                }))
            }));
        }
        // 4 servers: every history of 2 graphs after a fully connected start, and restarts
        for q in [None, Some((3, 2)), Some((4, 2))] {
            v.push(family(format!("L-4-{style:?}-q{q:?}"), "4 servers: after a connected start, every history of 2 graphs (64^2), the first held for 1 or 4 timeouts".into(), move || {
                Box::new((0..4096u32 * 2).map(move |k| {
                    let (g, h) = (k % 4096, k / 4096);
                    Case { n: 4, quorum: q, prio: vec![0; 4], order: vec![0, 1, 2, 3], style, phases: vec![(full(4), Event::None, 3), (g % 64, Event::None, if h == 0 { 1 } else { 4 }), (g / 64, Event::None, 0)], ticks: 0, ahead: vec![] }
                }))
            }));
        }
        // 5 servers: every graph after a connected start; every class in between
        v.push(family(format!("L-5-{style:?}"), "5 servers: after a connected start, every graph (1024)".into(), move || {
            Box::new((0..1024u32).map(move |g| Case { n: 5, quorum: None, prio: vec![0; 5], order: vec![0, 1, 2, 3, 4], style, phases: vec![(full(5), Event::None, 3), (g, Event::None, 0)], ticks: 0, ahead: vec![] }))
        }));
        for part in 0..8u32 {
            v.push(family(format!("L-5-2-{style:?}-{part}"), "5 servers: after a connected start, every class of graphs (34), then every graph (1024)".into(), move || {
                let cl = classes(5);
                let m = cl.len() as u32;
                Box::new((0..1024 * m).filter(move |k| k % 8 == part).map(move |k| Case { n: 5, quorum: None, prio: vec![0; 5], order: vec![0, 1, 2, 3, 4], style, phases: vec![(full(5), Event::None, 3), (cl[(k / 1024) as usize], Event::None, 4), (k % 1024, Event::None, 0)], ticks: 0, ahead: vec![] }))
            }));
            v.push(family(format!("L-4-3-{style:?}-{part}"), "4 servers: every history of 3 graphs (64 x 64 x 64)".into(), move || {
                Box::new((0..64u32 * 64 * 64).filter(move |k| k % 8 == part).map(move |k| Case { n: 4, quorum: None, prio: vec![0; 4], order: vec![0, 1, 2, 3], style, phases: vec![(k % 64, Event::None, 3), (k / 64 % 64, Event::None, 2), (k / 4096, Event::None, 0)], ticks: 0, ahead: vec![] }))
            }));
        }
        for part in 0..if thorough { 16 } else { 0u32 } {
            v.push(family(format!("L-5-pairs-{style:?}-{part}"), "5 servers, priorities 0 1 0 2 1: after a connected start, every pair of graphs (1024 x 1024), the first held for 1 or 4 timeouts".into(), move || {
                Box::new((0..1024u32 * 1024 * 2).filter(move |k| k % 16 == part).map(move |k| Case { n: 5, quorum: None, prio: vec![0, 1, 0, 2, 1], order: vec![0, 1, 2, 3, 4], style, phases: vec![(full(5), Event::None, 3), (k / 2 % 1024, Event::None, if k & 1 == 0 { 1 } else { 4 }), (k / 2048, Event::None, 0)], ticks: 0, ahead: vec![] }))
            }));
            v.push(family(format!("L-5-flex-{style:?}-{part}"), "5 servers, quorums 4/2: after a connected start, every class of graphs, then every graph".into(), move || {
                let cl = classes(5);
                let m = cl.len() as u32;
                Box::new((0..1024 * m).filter(move |k| k % 16 == part).map(move |k| Case { n: 5, quorum: Some((4, 2)), prio: vec![0; 5], order: vec![4, 1, 0, 2, 3], style, phases: vec![(full(5), Event::None, 3), (cl[(k / 1024) as usize], Event::None, 4), (k % 1024, Event::None, 0)], ticks: 0, ahead: vec![] }))
            }));
            v.push(family(format!("L-4-4-{style:?}-{part}"), "4 servers: every class of graphs, then every history of 3 graphs (11 x 64 x 64 x 64)".into(), move || {
                let cl = classes(4);
                Box::new((0..64u32 * 64 * 64 * cl.len() as u32).filter(move |k| k % 16 == part).map(move |k| Case { n: 4, quorum: None, prio: vec![0; 4], order: vec![2, 0, 3, 1], style, phases: vec![(cl[(k / 64 / 64 / 64) as usize], Event::None, 3), (k % 64, Event::None, 2), (k / 64 % 64, Event::None, 1), (k / 4096 % 64, Event::None, 0)], ticks: 0, ahead: vec![] }))
            }));
            v.push(family(format!("L-4-events-{style:?}-{part}"), "4 servers: after a connected start, every pair of graphs with a restart, priority change or take-over of any server at the start of each".into(), move || {
                let mut evs = vec![Event::None];
                for i in 0..4 {
                    evs.extend([Event::Restart(i), Event::Priority(i, 5), Event::Priority(i, 0), Event::Lead(i)]);
                }
                let e = evs.len() as u32;
                Box::new((0..4096 * e * e).filter(move |k| k % 16 == part).map(move |k| {
                    let (g, h) = (k % 4096, k / 4096);
                    Case { n: 4, quorum: None, prio: vec![1; 4], order: vec![0, 1, 2, 3], style, phases: vec![(full(4), Event::None, 4), (g % 64, evs[(h % e) as usize], 2), (g / 64, evs[(h / e) as usize], 0)], ticks: 0, ahead: vec![] }
                }))
            }));
        }
    }
    v.push(ties(3));
    v.push(ties(4));
    if thorough {
        v.push(ties(5));
    }
    v
}
