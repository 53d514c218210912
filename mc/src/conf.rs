//! Exhaustive enumeration of configurations against the documented validity rule.
use crate::{node::*, task::*, types::E};
use omnipaxos::{
    messages::Message, util::FlexibleQuorum, errors::ConfigError, ClusterConfig, OmniPaxos,
    OmniPaxosConfig, ProposeErr, ServerConfig,
};
use omnipaxos_storage::memory_storage::MemoryStorage;
use serde_json::json;
use std::time::Instant;

fn cluster_ok(c: &ClusterConfig) -> bool {
    let n = c.nodes.len();
    n >= 2
        && c.configuration_id != 0
        && match c.flexible_quorum {
            None => true,
            Some(q) => {
                let (r, w) = (q.read_quorum_size as u128, q.write_quorum_size as u128);
                let n = n as u128;
                r >= 2 && w >= 2 && r <= n && w <= n && r + w > n && r >= w
            }
        }
}
fn server_ok(s: &ServerConfig) -> bool {
    s.pid != 0
        && s.election_tick_timeout != 0
        && s.resend_message_tick_timeout != 0
        && s.buffer_size != 0
        && s.batch_size != 0
}
fn ok(c: &OmniPaxosConfig) -> bool {
    cluster_ok(&c.cluster_config)
        && server_ok(&c.server_config)
        && c.cluster_config.nodes.contains(&c.server_config.pid)
}

const BIG: usize = usize::MAX;

fn clusters(max_n: usize) -> Vec<ClusterConfig> {
    let mut v = vec![];
    let mut node_lists: Vec<Vec<u64>> = (0..=max_n as u64).map(|n| (1..=n).collect()).collect();
    node_lists.push(vec![2]);
    node_lists.push(vec![2, 7]);
    node_lists.push(vec![9, 2, 4]);
    for id in [0u32, 1, 5, u32::MAX] {
        for nodes in &node_lists {
            let n = nodes.len();
            let mut sizes: Vec<usize> = (0..=n + 1).collect();
            sizes.extend([100, BIG - 1, BIG]);
            let mut qs = vec![None];
            for r in &sizes {
                for w in &sizes {
                    qs.push(Some(FlexibleQuorum { read_quorum_size: *r, write_quorum_size: *w }));
                }
            }
            for q in qs {
                v.push(ClusterConfig { configuration_id: id, nodes: nodes.clone(), flexible_quorum: q });
            }
        }
    }
    v
}

fn servers() -> Vec<ServerConfig> {
    let mut v = vec![];
    for pid in [0u64, 1, 2, 3, 7, 100] {
        for election in [0u64, 1, 10] {
            for resend in [0u64, 1, 100] {
                for buffer in [0usize, 1, 1000] {
                    for batch in [0usize, 1, 2] {
                        for flush in [1u64, 200] {
                            for prio in [0u32, 3] {
                                v.push(ServerConfig {
                                    pid,
                                    election_tick_timeout: election,
                                    resend_message_tick_timeout: resend,
                                    buffer_size: buffer,
                                    batch_size: batch,
                                    flush_batch_tick_timeout: flush,
                                    leader_priority: prio,
                                    ..Default::default()
                                });
                            }
                        }
                    }
                }
            }
        }
    }
    v
}

fn same(a: &OmniPaxosConfig, b: &OmniPaxosConfig) -> bool {
    let (x, y) = (&a.server_config, &b.server_config);
    a.cluster_config == b.cluster_config
        && x.pid == y.pid
        && x.election_tick_timeout == y.election_tick_timeout
        && x.resend_message_tick_timeout == y.resend_message_tick_timeout
        && x.buffer_size == y.buffer_size
        && x.batch_size == y.batch_size
        && x.flush_batch_tick_timeout == y.flush_batch_tick_timeout
        && x.leader_priority == y.leader_priority
}

struct Run {
    out: Out,
    start: Instant,
}
impl Run {
    fn new(name: &str, bound: &str) -> Self {
        Run {
            out: Out { name: name.into(), bound: bound.into(), exhausted: true, ..Default::default() },
            start: Instant::now(),
        }
    }
    /// true: stop
    fn case(&mut self, nontrivial: bool, what: impl Fn() -> String, f: impl FnOnce() -> Option<String>) -> bool {
        self.out.transitions += 1;
        if nontrivial {
            self.out.states += 1;
        }
        let r = match guarded(f) {
            Guarded::Done(r) => r,
            Guarded::Panicked(p) => Some(format!("panicked: {p}")),
            Guarded::Crashed => None,
        };
        if let Some(m) = r {
            self.out.exhausted = false;
            self.out.viol = Some(Bad {
                msg: format!("{}: {m}", what()),
                text: vec![what()],
                replay: json!({"kind": "config", "task": self.out.name}),
            });
            return true;
        }
        false
    }
    fn done(mut self, sample: String) -> Out {
        self.out.sample = vec![sample];
        self.out.wall_ms = self.start.elapsed().as_millis() as u64;
        self.out
    }
}

fn verdict<R>(r: &Result<R, ConfigError>, want: bool) -> Option<String> {
    match r {
        Ok(_) if want => None,
        Err(ConfigError::InvalidConfig(_)) if !want => None,
        Ok(_) => Some("accepted although it is invalid".into()),
        Err(e) => Some(format!("rejected with {e:?} although it is {}", if want { "valid" } else { "merely invalid" })),
    }
}

fn try_build(c: &OmniPaxosConfig, via_cluster: bool) -> Option<String> {
    let st: RecStorage<E> = RecStorage::new(MemoryStorage::default());
    let want = ok(c);
    let r: Result<OmniPaxos<E, RecStorage<E>>, ConfigError> = if via_cluster {
        c.cluster_config.clone().build_for_server(c.server_config.clone(), st.clone())
    } else {
        c.clone().build(st.clone())
    };
    if let Some(m) = verdict(&r, want) {
        return Some(format!("building a server: {m}"));
    }
    if r.is_err() && st.0.borrow().writes > 0 {
        return Some("a rejected configuration wrote to the storage".into());
    }
    None
}

/// All cluster configurations with a fixed set of server settings, and all server settings with
/// a fixed set of cluster configurations.
pub fn validation(max_n: usize) -> Task {
    Task {
        name: "K-validate".into(),
        run: Box::new(move |_| {
            let mut r = Run::new("K-validate", &format!("validate, build and build_for_server for every cluster configuration (ids 0,1,5,max; 0..={max_n} servers; no, and every read/write quorum size 0..=n+1, 100, max-1, max) with 4 server settings, and every server setting (1944) with 40 cluster configurations"));
            let cs = clusters(max_n);
            let ss = servers();
            let few_s: Vec<ServerConfig> = [0u64, 1, 2, 7].iter().map(|p| ServerConfig { pid: *p, ..Default::default() }).collect();
            let few_c: Vec<ClusterConfig> = cs.iter().step_by((cs.len() / 40).max(1)).cloned().chain((2..=3).map(|n| ClusterConfig { configuration_id: 1, nodes: (1..=n).collect(), flexible_quorum: None })).collect();
            let mut go = |c: &ClusterConfig, s: &ServerConfig| -> bool {
                let oc = OmniPaxosConfig { cluster_config: c.clone(), server_config: s.clone() };
                r.case(ok(&oc), || format!("configuration {oc:?}"), || {
                    verdict(&c.validate(), cluster_ok(c))
                        .map(|m| format!("ClusterConfig::validate: {m}"))
                        .or_else(|| verdict(&s.validate(), server_ok(s)).map(|m| format!("ServerConfig::validate: {m}")))
                        .or_else(|| verdict(&oc.validate(), ok(&oc)).map(|m| format!("OmniPaxosConfig::validate: {m}")))
                        .or_else(|| try_build(&oc, false))
                        .or_else(|| try_build(&oc, true))
                })
            };
            'all: {
                for c in &cs {
                    for s in &few_s {
                        if go(c, s) {
                            break 'all;
                        }
                    }
                }
                for c in &few_c {
                    for s in &ss {
                        if go(c, s) {
                            break 'all;
                        }
                    }
                }
            }
            r.done(format!("{:?}", few_c.last()))
        }),
    }
}

struct Cluster {
    ops: Vec<OmniPaxos<E, MemoryStorage<E>>>,
}
impl Cluster {
    fn new() -> Self {
        let ops = (1..=3)
            .map(|p| {
                OmniPaxosConfig {
                    cluster_config: ClusterConfig { configuration_id: 1, nodes: vec![1, 2, 3], flexible_quorum: None },
                    server_config: ServerConfig { pid: p, ..Default::default() },
                }
                .build(MemoryStorage::default())
                .unwrap()
            })
            .collect();
        let mut c = Cluster { ops };
        c.ops[0].try_become_leader();
        c.run();
        c
    }
    fn run(&mut self) -> usize {
        let mut total = 0;
        loop {
            let mut ms: Vec<Message<E>> = vec![];
            for o in &mut self.ops {
                o.take_outgoing_messages(&mut ms);
            }
            if ms.is_empty() {
                return total;
            }
            total += ms.len();
            for m in ms {
                let i = m.get_receiver() as usize - 1;
                self.ops[i].handle_incoming(m);
            }
        }
    }
}

/// reconfigure() with every cluster configuration, at the leader and at a follower.
pub fn reconfigure(max_n: usize) -> Task {
    Task {
        name: "K-reconfigure".into(),
        run: Box::new(move |deadline| {
            let mut r = Run::new("K-reconfigure", "reconfigure with every cluster configuration of K-validate, at the leader and at a follower, with and without metadata");
            'all: for c in clusters(max_n) {
                for at in 0..2usize {
                    for meta in [None, Some(vec![]), Some(vec![1u8, 2])] {
                        if Instant::now() > deadline {
                            r.out.exhausted = false;
                            break 'all;
                        }
                        let bad = r.case(cluster_ok(&c), || format!("reconfigure({c:?}, {meta:?}) at server {}", at + 1), || {
                            let mut cl = Cluster::new();
                            let want = cluster_ok(&c);
                            match cl.ops[at].reconfigure(c.clone(), meta.clone()) {
                                Ok(()) if !want => return Some("accepted although it is invalid".into()),
                                Err(ProposeErr::ConfigError(_, c2, m2)) if !want => {
                                    if c2 != c || m2 != meta {
                                        return Some("the error does not carry the rejected proposal".into());
                                    }
                                    if cl.run() > 0 || cl.ops.iter().any(|o| o.get_decided_idx() > 0) {
                                        return Some("a rejected reconfiguration had an effect".into());
                                    }
                                    if cl.ops[at].append(E::mk(1)).is_err() {
                                        return Some("after a rejected reconfiguration appends are refused".into());
                                    }
                                }
                                Ok(()) => {
                                    cl.run();
                                    for o in &cl.ops {
                                        match o.is_reconfigured() {
                                            Some(ss) if ss.next_config == c && ss.metadata == meta => (),
                                            x => return Some(format!("servers report {x:?} as the decided reconfiguration")),
                                        }
                                    }
                                }
                                Err(e) => return Some(format!("rejected with {e:?}")),
                            }
                            None
                        });
                        if bad {
                            break 'all;
                        }
                    }
                }
            }
            r.done("reconfigure(ClusterConfig { configuration_id: 5, nodes: [1, 2, 3, 4], .. }, None) at server 2".into())
        }),
    }
}

/// TOML files: every combination of present and absent fields, with valid and invalid values.
pub fn toml() -> Task {
    Task {
        name: "K-toml".into(),
        run: Box::new(|_| {
            let mut r = Run::new("K-toml", "TOML files with every combination of present/absent server settings (2^7) for valid values and each single invalid value, every cluster configuration with <= 3 servers, and missing and malformed files");
            let dir = std::env::temp_dir().join(format!("omnipaxos-mc-{}", std::process::id()));
            std::fs::create_dir_all(&dir).expect("scratch directory");
            let path = dir.join("c.toml");
            let p = path.to_str().unwrap().to_string();
            // documented defaults
            let def = ServerConfig { pid: 0, election_tick_timeout: 1, resend_message_tick_timeout: 100, buffer_size: 100_000, batch_size: 1, flush_batch_tick_timeout: 200, leader_priority: 0, ..Default::default() };
            let check = |text: &str, want: &OmniPaxosConfig| -> Option<String> {
                std::fs::write(&path, text).expect("write toml");
                let got = OmniPaxosConfig::with_toml(&p);
                verdict(&got, ok(want)).or_else(|| match got {
                    Ok(g) if !same(&g, want) => Some(format!("gives {g:?}")),
                    _ => None,
                })
            };
            let text_of = |c: &ClusterConfig, s: &ServerConfig, mask: u32, cmask: u32| -> String {
                let mut t = String::from("[cluster_config]\n");
                if cmask & 1 == 0 {
                    t += &format!("configuration_id = {}\n", c.configuration_id);
                }
                if cmask & 2 == 0 {
                    t += &format!("nodes = {:?}\n", c.nodes);
                }
                if let Some(q) = c.flexible_quorum {
                    t += &format!("flexible_quorum = {{ read_quorum_size = {}, write_quorum_size = {} }}\n", q.read_quorum_size, q.write_quorum_size);
                }
                t += "[server_config]\n";
                let f = [("pid", s.pid), ("election_tick_timeout", s.election_tick_timeout), ("resend_message_tick_timeout", s.resend_message_tick_timeout), ("buffer_size", s.buffer_size as u64), ("batch_size", s.batch_size as u64), ("flush_batch_tick_timeout", s.flush_batch_tick_timeout), ("leader_priority", s.leader_priority as u64)];
                for (i, (n, v)) in f.iter().enumerate() {
                    if mask & (1 << i) == 0 {
                        t += &format!("{n} = {v}\n");
                    }
                }
                t
            };
            let base = ServerConfig { pid: 2, election_tick_timeout: 7, resend_message_tick_timeout: 8, buffer_size: 9, batch_size: 10, flush_batch_tick_timeout: 11, leader_priority: 12, ..Default::default() };
            let c0 = ClusterConfig { configuration_id: 3, nodes: vec![1, 2, 3], flexible_quorum: Some(FlexibleQuorum { read_quorum_size: 3, write_quorum_size: 2 }) };
            let mut variants = vec![base.clone()];
            for i in 0..5 {
                let mut b = base.clone();
                match i {
                    0 => b.pid = 0,
                    1 => b.election_tick_timeout = 0,
                    2 => b.resend_message_tick_timeout = 0,
                    3 => b.buffer_size = 0,
                    _ => b.batch_size = 0,
                }
                variants.push(b);
            }
            'all: {
                for b in &variants {
                    for mask in 0..128u32 {
                        for cmask in 0..4u32 {
                            let mut want = OmniPaxosConfig { cluster_config: c0.clone(), server_config: b.clone() };
                            let s = &mut want.server_config;
                            if mask & 1 != 0 { s.pid = def.pid }
                            if mask & 2 != 0 { s.election_tick_timeout = def.election_tick_timeout }
                            if mask & 4 != 0 { s.resend_message_tick_timeout = def.resend_message_tick_timeout }
                            if mask & 8 != 0 { s.buffer_size = def.buffer_size }
                            if mask & 16 != 0 { s.batch_size = def.batch_size }
                            if mask & 32 != 0 { s.flush_batch_tick_timeout = def.flush_batch_tick_timeout }
                            if mask & 64 != 0 { s.leader_priority = def.leader_priority }
                            if cmask & 1 != 0 { want.cluster_config.configuration_id = 0 }
                            if cmask & 2 != 0 { want.cluster_config.nodes = vec![] }
                            let t = text_of(&c0, b, mask, cmask);
                            if r.case(ok(&want), || format!("file:\n{t}"), || check(&t, &want)) {
                                break 'all;
                            }
                        }
                    }
                }
                for c in clusters(3) {
                    if c.flexible_quorum.map(|q| q.read_quorum_size > 1000 || q.write_quorum_size > 1000).unwrap_or(false) {
                        continue; // TOML integers are i64
                    }
                    let want = OmniPaxosConfig { cluster_config: c.clone(), server_config: base.clone() };
                    let t = text_of(&c, &base, 0, 0);
                    if r.case(ok(&want), || format!("file:\n{t}"), || check(&t, &want)) {
                        break 'all;
                    }
                }
                for t in ["[cluster_config\n", "[cluster_config]\nnodes = 3\n", "[server_config]\npid = \"x\"\n"] {
                    let stop = r.case(false, || format!("file:\n{t}"), || {
                        std::fs::write(&path, t).expect("write toml");
                        match OmniPaxosConfig::with_toml(&p) {
                            Err(ConfigError::Parse(_)) => None,
                            x => Some(format!("gives {x:?}")),
                        }
                    });
                    if stop {
                        break 'all;
                    }
                }
                r.case(false, || "missing file".into(), || match OmniPaxosConfig::with_toml("/nonexistent/omnipaxos.toml") {
                    Err(ConfigError::ReadFile(_)) => None,
                    x => Some(format!("gives {x:?}")),
                });
                r.case(false, || "ServerConfig::default()".into(), || {
                    let d = OmniPaxosConfig { cluster_config: ClusterConfig::default(), server_config: ServerConfig::default() };
                    let w = OmniPaxosConfig { cluster_config: ClusterConfig { configuration_id: 0, nodes: vec![], flexible_quorum: None }, server_config: def.clone() };
                    if same(&d, &w) { None } else { Some(format!("is {d:?}")) }
                });
            }
            let _ = std::fs::remove_file(&path);
            let _ = std::fs::remove_dir(&dir);
            r.done(text_of(&c0, &base, 0b1010, 0))
        }),
    }
}

pub fn all(thorough: bool) -> Vec<Task> {
    let n = if thorough { 9 } else { 6 };
    vec![reconfigure(n), validation(n), toml()]
}
