//! The dashboard, driven by the reported states of real servers on a real (pseudo) terminal.
use mc::task::{report, Bad, Meta, Out};
use omnipaxos::{messages::Message, storage::*, ClusterConfig, OmniPaxos, OmniPaxosConfig, ServerConfig};
use omnipaxos_storage::memory_storage::MemoryStorage;
use omnipaxos_ui::OmniPaxosUI;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::{
    collections::{HashSet, VecDeque},
    io::{Read, Write},
    os::fd::FromRawFd,
    os::unix::process::CommandExt,
    panic::{catch_unwind, AssertUnwindSafe},
    process::{Command, Stdio},
    sync::{Arc, Condvar, Mutex},
    time::{Duration, Instant},
};
mod term;
use term::Term;

#[derive(Clone, Debug, PartialEq)]
struct E(u32);
impl Entry for E {
    type Snapshot = NoSnapshot;
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Ev {
    /// an election timeout at every server, and everything delivered
    Round,
    Append(u8),
    Lead(u8),
    /// the server is cut off
    Cut(u8),
    Heal,
    /// nothing happens between two refreshes
    Idle,
    Key(u8),
    Resize(u16, u16),
    Stop,
    Start,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    pids: Vec<u64>,
    /// the server whose dashboard is shown
    at: u8,
    w: u16,
    h: u16,
    evs: Vec<Ev>,
}

// ---------------------------------------------------------------- servers
struct Sim {
    ops: Vec<OmniPaxos<E, MemoryStorage<E>>>,
    pids: Vec<u64>,
    cut: u32,
    next: u32,
}
fn config(pids: &[u64], i: usize) -> OmniPaxosConfig {
    OmniPaxosConfig {
        cluster_config: ClusterConfig { configuration_id: 1, nodes: pids.to_vec(), ..Default::default() },
        server_config: ServerConfig { pid: pids[i], election_tick_timeout: 1, custom_logger: Some(OmniPaxosUI::logger()), ..Default::default() },
    }
}
impl Sim {
    fn new(pids: &[u64]) -> Self {
        Sim { ops: (0..pids.len()).map(|i| config(pids, i).build(MemoryStorage::default()).unwrap()).collect(), pids: pids.to_vec(), cut: 0, next: 1 }
    }
    fn idx(&self, p: u64) -> usize {
        self.pids.iter().position(|x| *x == p).unwrap()
    }
    fn conn(&self, a: usize, b: usize) -> bool {
        self.cut & (1 << a | 1 << b) == 0
    }
    fn deliver(&mut self) {
        let mut q: VecDeque<Message<E>> = VecDeque::new();
        let mut buf = vec![];
        for _ in 0..10_000 {
            for o in &mut self.ops {
                o.take_outgoing_messages(&mut buf);
                q.extend(buf.drain(..));
            }
            match q.pop_front() {
                None => return,
                Some(m) => {
                    let (a, b) = (self.idx(m.get_sender()), self.idx(m.get_receiver()));
                    if self.conn(a, b) {
                        self.ops[b].handle_incoming(m);
                    }
                }
            }
        }
    }
    fn event(&mut self, e: Ev) {
        match e {
            Ev::Round => {
                for o in &mut self.ops {
                    o.tick();
                }
            }
            Ev::Append(i) => {
                let _ = self.ops[i as usize].append(E(self.next));
                self.next += 1;
            }
            Ev::Lead(i) => self.ops[i as usize].try_become_leader(),
            Ev::Cut(i) => self.cut |= 1 << i,
            Ev::Heal => {
                let old = std::mem::take(&mut self.cut);
                for a in 0..self.pids.len() {
                    for b in 0..self.pids.len() {
                        if a != b && old & (1 << a | 1 << b) != 0 {
                            let p = self.pids[b];
                            self.ops[a].reconnected(p);
                        }
                    }
                }
            }
            _ => return,
        }
        self.deliver();
    }
}

// ---------------------------------------------------------------- terminal
#[derive(Clone)]
struct Screen {
    buf: Arc<(Mutex<Vec<u8>>, Condvar)>,
    master: i32,
    marks: Arc<Mutex<u64>>,
}
impl Screen {
    fn new(master: i32) -> Self {
        let buf: Arc<(Mutex<Vec<u8>>, Condvar)> = Default::default();
        let b = buf.clone();
        std::thread::spawn(move || {
            let mut f = unsafe { std::fs::File::from_raw_fd(libc::dup(master)) };
            let mut a = [0u8; 65536];
            while let Ok(n) = f.read(&mut a) {
                if n == 0 {
                    break;
                }
                b.0.lock().unwrap().extend_from_slice(&a[..n]);
                b.1.notify_all();
            }
        });
        Screen { buf, master, marks: Default::default() }
    }
    fn size(&self, w: u16, h: u16) {
        let ws = libc::winsize { ws_row: h, ws_col: w, ws_xpixel: 0, ws_ypixel: 0 };
        unsafe { libc::ioctl(self.master, libc::TIOCSWINSZ, &ws) };
    }
    fn key(&self, k: u8) {
        unsafe { libc::write(self.master, &k as *const u8 as *const _, 1) };
        // the terminal passes it on later
        let mut p = libc::pollfd { fd: 0, events: libc::POLLIN, revents: 0 };
        let end = Instant::now() + Duration::from_secs(60);
        while unsafe { libc::poll(&mut p, 1, 1000) } != 1 {
            if Instant::now() > end {
                eprintln!("the terminal does not pass on a key");
                std::process::exit(2);
            }
        }
    }
    /// Everything written so far.
    fn take(&self) -> Vec<u8> {
        let k = {
            let mut m = self.marks.lock().unwrap();
            *m += 1;
            *m
        };
        let mark = format!("\x1b]9;mark{k}\x07").into_bytes();
        {
            let mut o = std::io::stdout();
            o.write_all(&mark).unwrap();
            o.flush().unwrap();
        }
        let mut g = self.buf.0.lock().unwrap();
        loop {
            if g.len() >= mark.len() && g.windows(mark.len()).rev().take(mark.len() + 64).any(|x| x == &mark[..]) {
                let at = g.windows(mark.len()).rposition(|x| x == &mark[..]).unwrap();
                let v = g[..at].to_vec();
                g.clear();
                return v;
            }
            let (g2, t) = self.buf.1.wait_timeout(g, Duration::from_secs(60)).unwrap();
            g = g2;
            if t.timed_out() {
                eprintln!("the terminal does not answer");
                std::process::exit(2);
            }
        }
    }
}

// ---------------------------------------------------------------- one case
static WHERE: Mutex<String> = Mutex::new(String::new());
struct Run {
    err: Option<String>,
    text: Vec<String>,
    frames: usize,
    seen: HashSet<Vec<String>>,
}

fn run(c: &Case, scr: &Screen) -> Run {
    let mut r = Run { err: None, text: vec![], frames: 0, seen: Default::default() };
    let res = catch_unwind(AssertUnwindSafe(|| drive(c, scr, &mut r)));
    r.err = match res {
        Ok(e) => e,
        Err(p) => {
            let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            Some(format!("the dashboard panicked: {m} ({})", WHERE.lock().unwrap()))
        }
    };
    // leave nothing behind for the next case
    scr.take();
    r
}

fn drive(c: &Case, scr: &Screen, r: &mut Run) -> Option<String> {
    let at = c.at as usize;
    let mut s = Sim::new(&c.pids);
    let mut t = Term::new(c.w as usize, c.h as usize);
    scr.size(c.w, c.h);
    // what earlier dashboards did not read
    unsafe { libc::tcflush(0, libc::TCIFLUSH) };
    while crossterm::event::poll(Duration::ZERO).unwrap_or(false) {
        let _ = crossterm::event::read();
    }
    let mut last = (Instant::now(), Instant::now());
    let mut period = (0.0, 0.0);
    let mut ui = OmniPaxosUI::with(config(&c.pids, at).into());
    last.1 = Instant::now();
    let mut on = false;
    let mut shown = 0; // decided index at the last refresh
    let mut bars: Vec<usize> = vec![];
    macro_rules! t {
        ($e:expr) => {
            if let Some(e) = $e {
                return Some(e);
            }
        };
    }
    let all: Vec<Ev> = [Ev::Start].into_iter().chain(c.evs.iter().copied()).collect();
    for (k, e) in all.iter().enumerate() {
        let mut key = None;
        match e {
            Ev::Start => {
                ui.start();
                on = true;
            }
            Ev::Stop => {
                ui.stop();
                on = false;
            }
            // without a dashboard, somebody else gets the key
            Ev::Key(k) if on => {
                scr.key(*k);
                key = Some(*k);
            }
            Ev::Resize(w, h) => {
                t.feed(&scr.take()).ok()?;
                scr.size(*w, *h);
                t.resize(*w as usize, *h as usize);
            }
            _ => s.event(*e),
        }
        if ui.is_started() != on {
            return Some(format!("is_started() is {} after {e:?}", ui.is_started()));
        }
        let b = scr.take();
        if t.feed(&b).is_err() {
            return None;
        }
        t!(restored(&t, on));
        if t.alt != on || t.cursor == on {
            return Some(format!("after {e:?} the terminal is {} the dashboard's screen and its cursor is {}", if t.alt { "in" } else { "not in" }, if t.cursor { "shown" } else { "hidden" }));
        }
        let st = s.ops[at].get_ui_states();
        let leave = matches!(key, Some(b'q' | 0x1b));
        // a refresh handles one input at most, and earlier ones come first
        for _ in 0..if leave { 6 } else { 1 } {
            if on {
                bars.insert(0, st.decided_idx - shown);
                shown = st.decided_idx;
            }
            let ui_states = s.ops[at].get_ui_states();
            let began = Instant::now();
            ui.tick(ui_states);
            if on {
                let ended = Instant::now();
                period = ((began - last.1).as_secs_f64(), (ended - last.0).as_secs_f64());
                last = (began, ended);
            }
            if leave && !ui.is_started() {
                break;
            }
        }
        let b = scr.take();
        if !on && !b.is_empty() {
            return Some("a dashboard that is not started writes to the terminal".into());
        }
        t.feed(&b).ok()?;
        if let Some(k) = key {
            if leave {
                on = false;
            }
            if ui.is_started() != on {
                return Some(format!("after the key {:?} the dashboard is {}", k as char, if ui.is_started() { "still running" } else { "stopped" }));
            }
            t!(restored(&t, on));
            if t.alt != on || t.cursor == on {
                return Some("the terminal is not restored when the dashboard is left with a key".into());
            }
        }
        if on {
            r.frames += 1;
            let lines = t.show();
            let bad = check(&t, c, at, &s, &st, &bars, period);
            if bad.is_some() || k + 1 == all.len() && r.text.is_empty() {
                r.text = lines.clone();
            }
            r.seen.insert(stable(&lines));
            t!(bad.map(|e| format!("after {:?}: {e}", &all[..=k])));
        }
    }
    if on {
        ui.stop();
        t.feed(&scr.take()).ok()?;
        t!(restored(&t, false));
        if t.alt || !t.cursor || ui.is_started() {
            return Some("stop() does not restore the terminal".into());
        }
    }
    None
}

/// Keys are read one by one while the dashboard runs; afterwards the terminal is as before.
fn restored(t: &Term, on: bool) -> Option<String> {
    let mut a: libc::termios = unsafe { std::mem::zeroed() };
    if unsafe { libc::tcgetattr(0, &mut a) } != 0 {
        return None;
    }
    let cooked = a.c_lflag & libc::ICANON != 0 && a.c_lflag & libc::ECHO != 0;
    if cooked == on {
        return Some(format!("the terminal's input is {} while the dashboard is {}", if cooked { "cooked" } else { "raw" }, if on { "running" } else { "stopped" }));
    }
    if !on && !t.modes.is_empty() {
        return Some(format!("modes {:?} of the terminal are still set when the dashboard is stopped", t.modes));
    }
    None
}

/// The screen without what depends on the clock.
fn stable(l: &[String]) -> Vec<String> {
    l.iter().filter(|x| !x.contains("req/s") && !x.contains('|')).cloned().collect()
}

/// Is the screen large enough to show everything?
fn roomy(c: &Case, t: &Term) -> bool {
    t.w >= 150 && t.h >= 26 + 2 * c.pids.len()
}

fn after(t: &Term, label: &str) -> Vec<String> {
    t.find(label).into_iter().map(|(x, y)| {
        let s = t.part(y, x + label.chars().count(), t.w);
        s.trim_start().split_whitespace().next().unwrap_or("").to_string()
    }).collect()
}

fn check(t: &Term, c: &Case, at: usize, s: &Sim, st: &omnipaxos::utils::ui::OmniPaxosStates, bars: &[usize], period: (f64, f64)) -> Option<String> {
    if !roomy(c, t) {
        return None;
    }
    // log lines may contain any text
    let mut t = t.clone();
    if !t.hide("System log") {
        return Some("there is no system log".into());
    }
    let t = &t;
    let me = c.pids[at];
    let op = &s.ops[at];
    let leader = op.get_current_leader().map(|x| x.0);
    let lead = leader == Some(me);
    let want = |label: &str, v: String| -> Option<String> {
        let got = after(t, label);
        if got.iter().any(|g| *g == v) && got.len() == 1 {
            None
        } else {
            Some(format!("the dashboard of server {me} shows {label:?} {got:?}, but it is {v}"))
        }
    };
    macro_rules! t {
        ($e:expr) => {
            if let Some(e) = $e {
                return Some(e);
            }
        };
    }
    t!(want("OmniPaxos node", me.to_string()));
    t!(want("Node Id:", me.to_string()));
    t!(want("Role:", if lead { "Leader" } else { "Follower" }.to_string()));
    t!(want(" Ballot:", st.current_ballot.n.to_string()).and_then(|e| if after(t, "Ballot:") == vec![st.current_ballot.n.to_string()] { None } else { Some(e) }));
    t!(want("Decided idx:", op.get_decided_idx().to_string()));
    let acks = &st.cluster_state.accepted_indexes;
    if lead {
        t!(want("Accepted idx:", acks[me as usize].to_string()));
    } else if !t.find("Accepted idx").is_empty() || !t.find("Progress").is_empty() {
        return Some("a follower's dashboard shows followers' progress".into());
    }
    match leader {
        None => {
            if t.find("No leader yet").len() != 1 || !t.find("Current Leader").is_empty() {
                return Some("no leader is known, but the dashboard does not say so".into());
            }
        }
        Some(l) => {
            t!(want("Current Leader:", l.to_string()));
            if !t.find("No leader yet").is_empty() {
                return Some("the dashboard says that there is no leader".into());
            }
        }
    }
    // all servers, each with its colour
    let (nx, ny) = match t.find("Nodes:")[..] {
        [p] => p,
        _ => return Some("the servers are not listed".into()),
    };
    let end = t.part(ny, 0, t.w / 2).chars().count();
    let got: Vec<u64> = t.part(ny, nx + 6, end.min(t.w / 2) - 1).split_whitespace().filter_map(|x| x.trim_matches('│').parse().ok()).collect();
    let mut all = c.pids.clone();
    all.sort();
    if got != all {
        return Some(format!("the dashboard lists the servers {got:?} instead of {all:?}"));
    }
    let mut colour = vec![];
    let mut x = nx + 6;
    for p in &all {
        let s = format!(" {p} ");
        while x < t.w && t.part(ny, x, x + s.len()) != s || t.cells[ny * t.w + x].bg == 0 {
            x += 1;
            if x >= t.w {
                return Some(format!("server {p} has no colour"));
            }
        }
        colour.push((*p, t.cells[ny * t.w + x + 1].bg));
        x += s.len();
    }
    let distinct: HashSet<u32> = colour.iter().map(|x| x.1).collect();
    if distinct.len() != all.len().min(8) {
        return Some("two servers have the same colour".into());
    }
    if let Some(l) = leader {
        let (x, y) = t.find("Current Leader:")[0];
        let bg = t.cells[y * t.w + x + "Current Leader:  ".len()].bg;
        if colour.iter().find(|x| x.0 == l).map(|x| x.1) != Some(bg) {
            return Some(format!("leader {l} is shown in another colour than the server"));
        }
    }
    // peers
    let (hx, hy) = match t.find("PID")[..] {
        [p] => p,
        _ => return Some("there is no table of the peers".into()),
    };
    let peers: Vec<u64> = all.iter().copied().filter(|p| *p != me).collect();
    let cols: Vec<usize> = ["PID", "Connected", "Ballot", "Leader", "Accepted idx"].iter().filter_map(|h| {
        let v: Vec<_> = t.find(h).into_iter().filter(|(x, y)| *y == hy && *x >= hx).collect();
        v.first().map(|x| x.0)
    }).collect();
    if cols.len() != if lead { 5 } else { 4 } {
        return Some("the table of the peers lacks a column".into());
    }
    let mut want_pct = vec![];
    for (k, p) in peers.iter().enumerate() {
        let y = hy + 2 * (k + 1);
        let cell = |i: usize| t.part(y, cols[i], cols.get(i + 1).copied().unwrap_or(t.w)).split(|c: char| c.is_whitespace() || c == '│').find(|x| !x.is_empty()).unwrap_or("").to_string();
        let hb = st.cluster_state.heartbeats.iter().find(|h| h.ballot.pid == *p);
        let mut w = vec![p.to_string()];
        match hb {
            Some(h) => w.extend(["\u{2705}".to_string(), h.ballot.n.to_string(), h.leader.pid.to_string()]),
            None => w.extend(["\u{274C}".to_string(), "\u{2753}".to_string(), "\u{2753}".to_string()]),
        }
        if lead {
            w.push(acks[*p as usize].to_string());
            let total = acks[me as usize];
            want_pct.push(if total == 0 { "0%".to_string() } else { format!("{}%", (acks[*p as usize] as f64 / total as f64 * 100.0).round()) });
        }
        let g: Vec<String> = (0..w.len()).map(cell).collect();
        if g != w {
            return Some(format!("the row of server {p} shows {g:?} instead of {w:?}"));
        }
        if colour.iter().find(|x| x.0 == *p).map(|x| x.1) != Some(t.cells[y * t.w + hx + 1].bg) {
            return Some(format!("server {p} has another colour in the table"));
        }
    }
    if lead {
        // each percentage in the line of its peer
        let mut pct = vec![];
        for y in 0..t.h {
            for w in t.line(y).split(|c: char| !(c.is_ascii_digit() || c == '%')) {
                if w.len() > 1 && w.ends_with('%') {
                    pct.push((y, w.to_string()));
                }
            }
        }
        let want: Vec<_> = want_pct.into_iter().enumerate().map(|(k, w)| (hy + 2 * (k + 1), w)).collect();
        if pct != want {
            return Some(format!("the progress of the peers is shown (line, percentage) as {pct:?} instead of {want:?}"));
        }
    }
    // throughput per refresh, the latest first
    let y = match t.find("Throughput")[..] {
        [(_, y)] => y + 8,
        _ => return Some("there is no throughput chart".into()),
    };
    let n = bars.len().min(8);
    let got: Vec<String> = (0..n).map(|k| t.part(y, 1 + 4 * k, 4 + 4 * k).trim().to_string()).collect();
    let w: Vec<String> = bars.iter().take(n).map(|x| if *x == 0 { String::new() } else { x.to_string() }).collect();
    if got != w {
        return Some(format!("the throughput of the last refreshes is shown as {got:?} instead of {w:?}"));
    }
    for (k, x) in bars.iter().take(n).enumerate() {
        if (t.part(y - 1, 1 + 4 * k, 2 + 4 * k) == " ") != (*x == 0) {
            return Some(format!("the bar of a refresh with {x} decided entries is {}", if *x == 0 { "drawn" } else { "empty" }));
        }
    }
    let rate = after(t, "Throughput:");
    // entries per second since the last refresh; the clock is read somewhere between ours
    let shown: u64 = match &rate[..] {
        [r] if r.parse::<u64>().is_ok() => r.parse().unwrap(),
        _ => return Some(format!("the throughput is shown as {rate:?}")),
    };
    let (lo, hi) = (bars[0] as f64 / period.1, bars[0] as f64 / period.0);
    if bars[0] == 0 && shown != 0 || (shown as f64 + 1.0) < lo || shown as f64 > hi + 1.0 {
        return Some(format!("the throughput is shown as {shown} per second, but {} entries were decided since the last refresh ({lo:.0} to {hi:.0} per second)", bars[0]));
    }
    None
}

// ---------------------------------------------------------------- cases
fn family(name: &str, thorough: bool) -> (String, Vec<Case>) {
    let mut v = vec![];
    let seqs = |evs: &[Ev], k: usize| -> Vec<Vec<Ev>> {
        let mut v = vec![vec![]];
        for _ in 0..k {
            v = v.into_iter().flat_map(|p: Vec<Ev>| evs.iter().map(move |e| { let mut q = p.clone(); q.push(*e); q })).collect();
        }
        v
    };
    let cluster = |n: u8| -> Vec<Ev> {
        let mut e = vec![Ev::Round, Ev::Heal];
        for i in 0..n {
            e.extend([Ev::Append(i), Ev::Lead(i), Ev::Cut(i)]);
        }
        e
    };
    let text;
    match name {
        "D-3" | "D-gap" => {
            let pids = if name == "D-3" { vec![1, 2, 3] } else { vec![9, 2, 5] };
            let k = if thorough { 4 } else { 3 };
            text = format!("servers {pids:?}: every history of {k} events (election timeout, proposal at or election of any server, isolation of any server, repair) after each of 3 prefixes, the dashboard of each server refreshed after every event");
            let pre = [vec![], vec![Ev::Lead(2)], vec![Ev::Lead(1), Ev::Append(1), Ev::Cut(2), Ev::Append(1)]];
            for p in &pre {
                for s in seqs(&cluster(3), k) {
                    for at in 0..3 {
                        v.push(Case { pids: pids.clone(), at, w: 160, h: 40, evs: p.iter().chain(&s).copied().collect() });
                    }
                }
            }
        }
        "D-2" => {
            let k = if thorough { 5 } else { 3 };
            text = format!("2 servers: every history of {k} events");
            for s in seqs(&cluster(2), k) {
                for at in 0..2 {
                    v.push(Case { pids: vec![1, 2], at, w: 150, h: 34, evs: s.clone() });
                }
            }
        }
        "D-5" => {
            let k = if thorough { 3 } else { 2 };
            text = format!("5 servers: every history of {k} events after an election");
            for s in seqs(&cluster(5), k) {
                for at in [0, 4] {
                    v.push(Case { pids: vec![1, 2, 3, 4, 5], at, w: 170, h: 44, evs: [Ev::Lead(4), Ev::Append(4)].into_iter().chain(s.clone()).collect() });
                }
            }
        }
        "D-keys" => {
            let k = if thorough { 5 } else { 4 };
            text = format!("3 servers: every history of {k} of: proposal, election, keys q, Esc and x, start, stop, resize");
            let e = [Ev::Append(0), Ev::Lead(1), Ev::Key(b'q'), Ev::Key(0x1b), Ev::Key(b'x'), Ev::Start, Ev::Stop, Ev::Resize(180, 33)];
            for s in seqs(&e, k) {
                v.push(Case { pids: vec![1, 2, 3], at: 0, w: 160, h: 40, evs: [Ev::Lead(0)].into_iter().chain(s).collect() });
            }
        }
        "D-size" => {
            text = "3 and 9 servers: every terminal size of a grid, leader and follower; then every other size of it".into();
            let ws = [1, 2, 5, 10, 20, 40, 80, 100, 200];
            let hs = [1, 2, 3, 5, 8, 13, 21, 24, 30, 50];
            for n in [3u64, 9] {
                for at in 0..2 {
                    for w in ws {
                        for h in hs {
                            for (w2, h2) in ws.iter().zip(hs) {
                                v.push(Case { pids: (1..=n).collect(), at, w, h, evs: vec![Ev::Lead(0), Ev::Append(0), Ev::Resize(*w2, h2), Ev::Append(0), Ev::Resize(w, h), Ev::Lead(1), Ev::Round] });
                            }
                        }
                    }
                }
            }
        }
        "D-long" => {
            text = "3 servers: long runs of refreshes with a proposal before every other, every second other, … up to eight at a time, starting with or without".into();
            for k in 0..16u32 {
                for at in 0..2 {
                    let mut evs = vec![Ev::Lead(0)];
                    for j in 0..if thorough { 400 } else { 90u32 } {
                        evs.push(if (j >> (k % 4)) & 1 == k / 4 % 2 { Ev::Append((k / 8) as u8) } else { Ev::Idle });
                    }
                    v.push(Case { pids: vec![1, 2, 3], at, w: 160, h: 40, evs });
                }
            }
        }
        _ => text = String::new(),
    }
    (text, v)
}
const FAMILIES: [&str; 7] = ["D-size", "D-keys", "D-long", "D-2", "D-5", "D-3", "D-gap"];

// ---------------------------------------------------------------- processes
fn arg(a: &[String], k: &str, d: &str) -> String {
    a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned().unwrap_or(d.into())
}

/// Runs cases in a session of its own, with a pseudo terminal as its controlling terminal.
fn worker(fam: &str, tier: &str, part: usize, parts: usize, secs: u64, only: Option<String>) -> Option<Value> {
    let (mut master, mut slave) = (0, 0);
    let r = unsafe { libc::openpty(&mut master, &mut slave, std::ptr::null_mut(), std::ptr::null_mut(), std::ptr::null_mut()) };
    if r != 0 {
        eprintln!("no pseudo terminal");
        return None;
    }
    let file = |fd| unsafe { Stdio::from_raw_fd(libc::dup(fd)) };
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.args(["worker", fam, tier, &part.to_string(), &parts.to_string(), &secs.to_string(), &master.to_string()]);
    if let Some(o) = only {
        c.arg(o);
    }
    c.env("TERM", "xterm-256color").stdin(file(slave)).stdout(file(slave)).stderr(Stdio::piped());
    unsafe {
        c.pre_exec(|| {
            libc::setsid();
            libc::ioctl(0, libc::TIOCSCTTY as _, 0);
            Ok(())
        });
    }
    let ch = c.spawn().ok()?;
    unsafe {
        libc::close(slave);
    }
    let o = ch.wait_with_output().ok()?;
    unsafe {
        libc::close(master);
    }
    let s = String::from_utf8_lossy(&o.stderr).to_string();
    let l = s.lines().rev().find(|l| l.starts_with('{'));
    match l.and_then(|l| serde_json::from_str(l).ok()) {
        Some(v) => Some(v),
        None => {
            eprintln!("worker {fam} {part} gave no result ({}): {}", o.status, s.lines().rev().take(5).collect::<Vec<_>>().join(" / "));
            None
        }
    }
}

fn work(a: &[String]) {
    let (fam, tier) = (&a[2], &a[3]);
    let (part, parts): (usize, usize) = (a[4].parse().unwrap(), a[5].parse().unwrap());
    let end = Instant::now() + Duration::from_secs(a[6].parse().unwrap());
    let scr = Screen::new(a[7].parse().unwrap());
    std::panic::set_hook(Box::new(|i| *WHERE.lock().unwrap() = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default()));
    let cases = match a.get(8) {
        Some(c) => vec![serde_json::from_str(c).unwrap()],
        None => family(fam, tier == "thorough").1,
    };
    let (mut n, mut frames, mut seen, mut sample, mut done) = (0, 0, HashSet::new(), vec![], true);
    let mut viol = Value::Null;
    for (k, c) in cases.iter().enumerate() {
        if k % parts != part {
            continue;
        }
        if Instant::now() > end {
            done = false;
            break;
        }
        let r = run(c, &scr);
        n += 1;
        frames += r.frames;
        seen.extend(r.seen);
        if sample.is_empty() {
            sample = r.text.clone();
        }
        if let Some(e) = r.err {
            done = false;
            viol = json!({"msg": e, "case": c, "text": r.text});
            break;
        }
    }
    eprintln!("\n{}", json!({"cases": n, "frames": frames, "seen": seen.len(), "sample": sample, "done": done, "viol": viol}));
}

fn check_all(a: &[String]) -> i32 {
    let (prop, tier) = (a[2].clone(), a[3].clone());
    let thorough = tier == "thorough";
    let secs: u64 = arg(a, "--secs", if thorough { "700" } else { "150" }).parse().unwrap();
    let start = Instant::now();
    let parts = 8;
    let mut outs = vec![];
    for fam in FAMILIES {
        let t0 = Instant::now();
        let left = secs.saturating_sub(start.elapsed().as_secs()).max(1);
        let (bound, _) = family(fam, thorough);
        let tier2 = &tier;
        let rs: Vec<Option<Value>> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..parts).map(|p| s.spawn(move || worker(fam, tier2, p, parts, left, None))).collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        if rs.iter().any(|r| r.is_none()) {
            return 2;
        }
        let rs: Vec<Value> = rs.into_iter().flatten().collect();
        let sum = |k: &str| rs.iter().map(|r| r[k].as_u64().unwrap_or(0) as usize).sum::<usize>();
        let mut o = Out { name: fam.into(), bound, states: sum("seen"), transitions: sum("frames"), local_transitions: sum("frames"), validated: sum("cases"), exhausted: rs.iter().all(|r| r["done"] == true), wall_ms: t0.elapsed().as_millis() as u64, ..Default::default() };
        o.sample = rs[0]["sample"].as_array().map(|v| v.iter().map(|x| x.as_str().unwrap_or("").to_string()).collect()).unwrap_or_default();
        for (p, r) in rs.iter().enumerate().filter(|(_, r)| !r["viol"].is_null()) {
            let v = &r["viol"];
            let lines = |v: &Value| v.as_array().map(|t| t.iter().map(|x| x.as_str().unwrap_or("").to_string()).collect()).unwrap_or_default();
            let msg = v["msg"].as_str().unwrap_or("").to_string();
            let replay = json!({"kind": "ui", "family": fam, "case": v["case"]});
            // it counts if it happens again in a fresh process, alone or after the histories before it
            let alone = match worker(fam, &tier, 0, 1, 60, Some(v["case"].to_string())) {
                Some(x) => x,
                None => return 2,
            };
            if !alone["viol"].is_null() {
                o.viol = Some(Bad { msg, text: lines(&v["text"]), replay });
                break;
            }
            let again = match worker(fam, &tier, p, parts, left, None) {
                Some(x) => x,
                None => return 2,
            };
            if !again["viol"].is_null() {
                o.viol = Some(Bad { msg: format!("{msg} (after other dashboards in the same process)"), text: lines(&v["text"]), replay });
                break;
            }
            eprintln!("{fam}: happened once only: {v}");
            o.exhausted = again["done"] == true && rs.iter().enumerate().all(|(q, r)| q == p || r["done"] == true);
        }
        let stop = o.viol.is_some();
        outs.push(o);
        if stop {
            break;
        }
    }
    let meta = Meta {
        prop: &prop,
        tier: &tier,
        level: "model_checking",
        rule: "every refresh of the dashboard is executed on a pseudo terminal and the screen contents are compared with what the server's own API reports; a screen is counted once if it is distinct (ignoring what depends on the clock)",
        assumptions: vec!["an xterm-like terminal; contents are compared on terminals of at least 150 columns and 26 + 2n lines, smaller ones only must not fail"],
    };
    report(&meta, &outs, start.elapsed().as_secs_f64(), &arg(a, "--evidence", &format!("/verif/evidence/{prop}.json")), &arg(a, "--replays", "/verif/replays"))
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => check_all(&a),
        Some("worker") => {
            work(&a);
            0
        }
        Some("replay") => {
            let d: Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).unwrap()).unwrap();
            let r = &d["replay"];
            match worker(r["family"].as_str().unwrap(), "quick", 0, 1, 60, Some(r["case"].to_string())) {
                Some(v) if v["viol"].is_null() => {
                    println!("no violation");
                    0
                }
                Some(v) => {
                    println!("{}", v["viol"]["msg"]);
                    for l in v["viol"]["text"].as_array().unwrap() {
                        println!("  {}", l.as_str().unwrap());
                    }
                    1
                }
                None => 2,
            }
        }
        _ => {
            eprintln!("usage: ui check PROP TIER | ui replay FILE");
            2
        }
    };
    std::process::exit(code);
}
