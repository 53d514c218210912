//! UniCache: all short histories of one encoder and two decoders, and cluster scenarios in which
//! the cached fields follow every value pattern.
use crate::{
    engine::{Closure, Kind::*, Scenario, Step, Step::*},
    node::*,
    task::*,
    types::E,
};
use omnipaxos::unicache::{lfu_cache::LFUniCache, lru_cache::LRUniCache, FieldCache};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_json::json;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    /// the encoder encodes the value, every attached decoder decodes the result
    Enc(u8),
    Long(u16),
    /// decoder gets the encoder's current cache
    Join(u8),
}

/// The default cache (255 values, encoded in a byte): cyclic histories of every period.
fn long(policy: &'static str, wire: u8) -> Task {
    let name = format!("U-{policy}-255-{}", ["direct", "json", "bincode"][wire as usize]);
    let nm = name.clone();
    Task {
        name,
        run: Box::new(move |_| {
            let start = std::time::Instant::now();
            let mut out = Out {
                name: nm.clone(),
                bound: format!("{policy} cache of size 255 with one-byte encodings: 620 encodings of values cycling with every period 250..=260, a follower joining at the start, one before and one after the cache is full"),
                exhausted: true,
                ..Default::default()
            };
            for period in 250..=260u32 {
                for join in [100usize, 400] {
                    let mut ops = vec![Op::Join(0)];
                    for i in 0..620u32 {
                        if i as usize == join {
                            ops.push(Op::Join(1));
                        }
                        ops.push(Op::Long((i % period) as u16));
                    }
                    out.states += 1;
                    out.transitions += ops.len();
                    out.validated += 1;
                    if let Err(m) = one(policy, 255, wire, &ops) {
                        out.viol = Some(Bad {
                            msg: format!("values cycling with period {period}: {m}"),
                            text: vec![format!("period {period}, second follower joins at {join}")],
                            replay: json!({"kind": "unicache", "policy": policy, "size": 255, "wire": wire, "ops": ops}),
                        });
                        out.exhausted = false;
                        return out;
                    }
                }
            }
            out.wall_ms = start.elapsed().as_millis() as u64;
            out
        }),
    }
}

fn copy<T: Serialize + DeserializeOwned + Clone>(t: &T, wire: u8) -> T {
    let c = t.clone();
    match wire {
        1 => serde_json::from_str(&serde_json::to_string(&c).expect("cache must serialise to JSON")).expect("cache must deserialise from JSON"),
        2 => bincode::deserialize(&bincode::serialize(&c).expect("cache must serialise to bincode")).expect("cache must deserialise from bincode"),
        _ => c,
    }
}

/// Run one history; Err is what is wrong.
fn history<C: FieldCache<String, u8> + Serialize + DeserializeOwned + Clone>(size: usize, wire: u8, ops: &[Op]) -> Result<(), String> {
    let run = || -> Result<(), String> {
        let mut enc = C::new(size);
        let mut dec: Vec<Option<C>> = vec![None, None];
        for (i, op) in ops.iter().enumerate() {
            match op {
                Op::Join(d) => dec[*d as usize] = Some(copy(&enc, wire)),
                Op::Enc(_) | Op::Long(_) => {
                    let val = format!("{}", match op { Op::Enc(v) => *v as u16, Op::Long(v) => *v, _ => 0 });
                    let r = enc.try_encode(&val);
                    for (d, c) in dec.iter_mut().enumerate() {
                        if let Some(c) = c {
                            let got = c.decode(r.clone());
                            if got != val {
                                return Err(format!("step {i}: decoder {d} decoded {got} where the leader encoded {val}"));
                            }
                        }
                    }
                }
            }
        }
        Ok(())
    };
    match guarded(run) {
        Guarded::Done(r) => r,
        Guarded::Panicked(p) => Err(format!("the cache panicked: {p}")),
        Guarded::Crashed => Ok(()),
    }
}

/// The same with the cache of a whole entry, as the derive macro makes it.
#[cfg(feature = "unicache")]
fn derived<T, F>(wire: u8, ops: &[Op], mk: F) -> Result<(), String>
where
    T: omnipaxos::storage::Entry + PartialEq + std::fmt::Debug,
    T::UniCache: Serialize + DeserializeOwned,
    T::EncodeResult: Serialize + DeserializeOwned + Clone,
    F: Fn(u32, u32) -> T,
    <T as omnipaxos::storage::Entry>::UniCache: omnipaxos::unicache::UniCache<T = T>,
{
    use omnipaxos::unicache::UniCache;
    let run = || -> Result<(), String> {
        let mut enc = T::UniCache::new();
        let mut dec: Vec<Option<T::UniCache>> = vec![None, None];
        for (i, op) in ops.iter().enumerate() {
            match op {
                Op::Join(d) => dec[*d as usize] = Some(copy(&enc, wire)),
                Op::Enc(_) | Op::Long(_) => {
                    let val = mk(match op { Op::Enc(v) => *v as u32, Op::Long(v) => *v as u32, _ => 0 }, i as u32);
                    let r = enc.try_encode(&val);
                    for (d, c) in dec.iter_mut().enumerate() {
                        if let Some(c) = c {
                            let got = c.decode(copy(&r, wire));
                            if got != val {
                                return Err(format!("step {i}: decoder {d} decoded {got:?} where the leader encoded {val:?}"));
                            }
                        }
                    }
                }
            }
        }
        Ok(())
    };
    match guarded(run) {
        Guarded::Done(r) => r,
        Guarded::Panicked(p) => Err(format!("the cache panicked: {p}")),
        Guarded::Crashed => Ok(()),
    }
}

pub fn one(policy: &str, size: usize, wire: u8, ops: &[Op]) -> Result<(), String> {
    #[cfg(feature = "unicache")]
    match policy {
        "many" => return derived(wire, ops, crate::types::uni::many),
        "plain" => return derived(wire, ops, crate::types::uni::plain),
        _ => (),
    }
    if policy == "lru" {
        history::<LRUniCache<String, u8>>(size, wire, ops)
    } else {
        history::<LFUniCache<String, u8>>(size, wire, ops)
    }
}

fn component(policy: &'static str, size: usize, wire: u8, len: usize) -> Task {
    let name = format!("U-{policy}-{size}-{}-{len}", ["direct", "json", "bincode"][wire as usize]);
    let nm = name.clone();
    Task {
        name,
        run: Box::new(move |deadline| {
            let start = std::time::Instant::now();
            let mut out = Out {
                name: nm.clone(),
                bound: format!("{policy} cache of size {size}: every history of <= {len} steps of encoding one of {} values (named in order of first use) and copying the leader's cache to one of 2 followers ({})", size + 2, ["in memory", "via JSON", "via bincode"][wire as usize]),
                exhausted: true,
                ..Default::default()
            };
            // histories are prefix closed, and a maximal history checks all its prefixes
            let mut stack: Vec<Vec<Op>> = vec![vec![]];
            while let Some(h) = stack.pop() {
                if out.states & 0xfff == 0 && std::time::Instant::now() > deadline {
                    out.exhausted = false;
                    break;
                }
                out.states += 1;
                out.max_depth = out.max_depth.max(h.len() as u32);
                if h.len() == len {
                    out.transitions += len;
                    out.local_transitions += len;
                    out.validated += 1;
                    if let Err(m) = one(policy, size, wire, &h) {
                        let mut k = 1;
                        while one(policy, size, wire, &h[..k]).is_ok() {
                            k += 1;
                        }
                        out.exhausted = false;
                        out.viol = Some(Bad {
                            msg: m,
                            text: h[..k].iter().map(|o| format!("{o:?}")).collect(),
                            replay: json!({"kind": "unicache", "policy": policy, "size": size, "wire": wire, "ops": h[..k]}),
                        });
                        break;
                    }
                    if out.sample.is_empty() {
                        out.sample = h.iter().map(|o| format!("{o:?}")).collect();
                    }
                    continue;
                }
                let used = h.iter().filter_map(|o| if let Op::Enc(v) = o { Some(*v + 1) } else { None }).max().unwrap_or(0);
                for v in 0..(used + 1).min(size as u8 + 2) {
                    let mut n = h.clone();
                    n.push(Op::Enc(v));
                    stack.push(n);
                }
                // decoder 1 only after decoder 0 (they are interchangeable)
                let d1 = h.contains(&Op::Join(0));
                for d in 0..if d1 { 2u8 } else { 1 } {
                    if h.last() != Some(&Op::Join(d)) {
                        let mut n = h.clone();
                        n.push(Op::Join(d));
                        stack.push(n);
                    }
                }
            }
            out.outcomes = out.validated;
            out.wall_ms = start.elapsed().as_millis() as u64;
            out
        }),
    }
}

/// All value sequences of the given length, named in order of first use.
fn patterns(len: usize, max: u8) -> Vec<Vec<u8>> {
    let mut v = vec![vec![]];
    for _ in 0..len {
        v = v
            .into_iter()
            .flat_map(|p: Vec<u8>| {
                let used = p.iter().map(|x| x + 1).max().unwrap_or(0);
                (0..(used + 1).min(max)).map(move |x| {
                    let mut q = p.clone();
                    q.push(x);
                    q
                })
            })
            .collect();
    }
    v
}

fn elect(i: u8) -> Vec<Step> {
    vec![Do(i, Lead), Deliver]
}

pub fn scenarios(thorough: bool) -> Vec<Scenario> {
    let mut v = vec![];
    let m3 = |wire, batch| Cfg { wire, batch, ..Cfg::majority(3) };
    let any = |k| vec![(0u8, k), (1, k), (2, k)];
    let len = if thorough { 6 } else { 5 };
    for p in patterns(len, 4) {
        let tag: String = p.iter().map(|x| x.to_string()).collect();
        let l = len as u8;
        v.push(Scenario::new(&format!("U-change-{tag}"), m3(2, 1)).init(elect(0)).g(l, vec![(0, Append), (1, Append)]).g(1, vec![(1, Reconn(0)), (2, Reconn(0))]).g(1, any(Lead)).sync(0, 0).values(&p));
        v.push(Scenario::new(&format!("U-batched-{tag}"), m3(1, 2)).init(elect(0)).g(l, vec![(0, Append)]).g(1, vec![(1, Reconn(0)), (2, Reconn(0))]).g(1, vec![(0, Tick), (1, Tick)]).g(1, vec![(1, Crash), (1, Lead)]).sync(0, 0).values(&p));
    }
    // with a loss or delay and every continuation; the last values are used by the continuation
    let few: &[&[u8]] = &[&[0, 1, 2, 0, 1, 2], &[0, 0, 1, 2, 0, 1], &[0, 1, 0, 2, 1, 0]];
    let all = patterns(5, 4);
    let list: Vec<Vec<u8>> = if thorough { all } else { few.iter().map(|x| x.to_vec()).collect() };
    for p in list {
        let tag: String = p.iter().map(|x| x.to_string()).collect();
        v.push(Scenario::new(&format!("U-sync-{tag}"), m3(2, 1)).init(elect(0)).g(3, vec![(0, Append)]).g(1, any(Lead)).drops(1).sync(1, 0).close(Closure::Quiescent).values(&p));
        v.push(Scenario::new(&format!("U-ss-{tag}"), m3(2, 2)).init(elect(0)).g(3, vec![(0, Append), (1, Append)]).g(1, vec![(0, Reconf), (1, Reconf)]).g(1, any(Lead)).g(1, vec![(1, Reconn(0)), (2, Reconn(0))]).sync(0, 0).close(Closure::All).values(&p));
        v.push(Scenario::new(&format!("U-trim-{tag}"), m3(1, 1)).init(elect(0)).g(3, vec![(0, Append)]).g(1, vec![(0, Trim(None))]).g(1, any(Lead)).g(1, vec![(1, Reconn(0)), (2, Reconn(0))]).trims().sync(0, 0).close(Closure::All).values(&p));
        v.push(Scenario::new(&format!("U-crash-{tag}"), m3(2, 1)).init(elect(0)).g(3, vec![(0, Append)]).g(1, any(Lead)).crash_ats(1).sync(0, 0).close(Closure::All).values(&p));
        v.push(Scenario::new(&format!("U-lead-{tag}"), m3(2, 1)).init(elect(0)).g(3, vec![(0, Append), (1, Append)]).g(2, any(Lead)).sync(0, 0).close(Closure::All).values(&p));
        v.push(Scenario::new(&format!("U-batch-{tag}"), m3(1, 2)).init(elect(0)).g(3, vec![(0, Append)]).g(1, vec![(1, Reconn(0)), (2, Reconn(0))]).g(1, vec![(0, Tick)]).g(1, vec![(1, Crash)]).sync(0, 0).close(Closure::All).values(&p));
    }
    v.reverse();
    v
}

pub fn all(thorough: bool) -> Vec<Task> {
    let mut v = vec![];
    for sc in scenarios(thorough) {
        v.push(scenario_task_props::<E>(sc, vec!["C16", "C01", "C02", "C03"], if thorough { 20 } else { 3 }));
    }
    for wire in 0..3 {
        v.push(component("many", 2, wire, if thorough { 9 } else { 8 }));
        v.push(component("many", 3, wire, if thorough { 9 } else { 7 }));
        v.push(component("plain", 2, wire, if thorough { 8 } else { 6 }));
        v.push(long("plain", wire));
    }
    for policy in ["lru", "lfu"] {
        for wire in 0..3 {
            for (size, len) in [(1, 9), (2, 9), (3, 9)] {
                v.push(component(policy, size, wire, if thorough { len + 2 } else { len }));
            }
            v.push(long(policy, wire));
        }
    }
    v
}
