//! Exhaustive enumeration of cluster sizes, quorum sizes, leaders and responsive server sets.
use crate::{engine::*, node::*, task::*, types::E};
use serde_json::json;
use std::time::Instant;

pub fn configs(max_n: usize) -> Vec<(usize, Option<(usize, usize)>)> {
    let mut v = vec![];
    for n in 2..=max_n {
        v.push((n, None));
        for r in 2..=n {
            for w in 2..=n {
                if r + w > n && r >= w {
                    v.push((n, Some((r, w))));
                }
            }
        }
    }
    v
}

fn set(n: usize, mask: usize) -> Vec<u8> {
    (0..n as u8).filter(|i| mask & (1 << i) != 0).collect()
}

pub fn task(n: usize, quorum: Option<(usize, usize)>, only: Option<(usize, usize, usize, usize)>) -> Task {
    let name = match quorum {
        None => format!("Q-{n}-majority"),
        Some((r, w)) => format!("Q-{n}-{r}-{w}"),
    };
    let nm = name.clone();
    Task {
        name,
        run: Box::new(move |deadline| run(&nm, n, quorum, only, deadline)),
    }
}

fn run(name: &str, n: usize, quorum: Option<(usize, usize)>, only: Option<(usize, usize, usize, usize)>, deadline: Instant) -> Out {
    let start = Instant::now();
    let cfg = Cfg { quorum, ..Cfg::majority(n) };
    let (r, w) = (cfg.read_q(), cfg.write_q());
    let mut e: Engine<E> = Engine::new(Scenario::new(name, cfg), Props(vec!["C12"]), deadline);
    let mut out = Out {
        name: name.into(),
        bound: format!("{n} servers, read quorum {r}, write quorum {w}: every leader, every set of servers responsive to its election, every set responsive to its proposal, every next leader, every set responsive to that election"),
        exhausted: true,
        ..Default::default()
    };
    let full = (1usize << n) - 1;
    // the engine's states of the current case; a Err is the violated expectation
    let case = |e: &mut Engine<E>, a: usize, s1: usize, s2: usize, b: usize, s3: usize| -> Result<u32, String> {
        let mut steps = 0;
        let mut g = e.initial();
        macro_rules! ok {
            ($v:expr) => {{
                steps += 1;
                let v = $v;
                let v = e.filter(v);
                if let Some(v) = v.into_iter().next() {
                    return Err(v.msg);
                }
            }};
        }
        macro_rules! only_among {
            ($m:expr) => {{
                ok!(e.drain(&mut g, &set(n, $m), 20000).0);
                g.q.iter_mut().for_each(|q| q.clear());
            }};
        }
        ok!(e.do_kind(&mut g, a, Kind::Lead, Mode::Normal).0);
        only_among!(s1);
        let leads = e.obs(g.l[a]).leader == Some((a as u64 + 1, true));
        let should = s1.count_ones() as usize >= r;
        if leads != should {
            return Err(format!("server {} {} with the servers {:?} responsive, the read quorum is {r}", a + 1, if leads { "leads" } else { "does not lead" }, set(n, s1)));
        }
        if !leads {
            return Ok(steps);
        }
        ok!(e.do_kind(&mut g, a, Kind::Append, Mode::Normal).0);
        // only servers that took part in the election accept
        let acc = s1 & s2;
        only_among!(s2);
        let should = acc.count_ones() as usize >= w;
        for i in set(n, acc) {
            let d = e.obs(g.l[i as usize]).decided;
            if (d == 1) != should {
                return Err(format!("server {} has decided {d} of 1 entries accepted by {} servers, the write quorum is {w}", i + 1, acc.count_ones()));
            }
        }
        // a later leader knows it
        ok!(e.do_kind(&mut g, b, Kind::Lead, Mode::Normal).0);
        only_among!(s3);
        if e.obs(g.l[b]).promise.pid == b as u64 + 1 {
            let leads = e.obs(g.l[b]).leader == Some((b as u64 + 1, true));
            let lost = (0..n).any(|i| e.obs(g.l[i]).promise > e.obs(g.l[b]).promise && s3 & (1 << i) != 0);
            let should2 = s3.count_ones() as usize >= r;
            if leads && !should2 || !leads && should2 && !lost {
                return Err(format!("server {} {} with the servers {:?} responsive, the read quorum is {r}", b + 1, if leads { "leads" } else { "does not lead" }, set(n, s3)));
            }
            if leads && should && e.obs(g.l[b]).len() != 1 {
                return Err(format!("server {} leads without the decided entry", b + 1));
            }
        }
        Ok(steps)
    };
    let _ = full;
    'all: for a in 0..n {
        for s1 in 0..=full {
            if s1 & (1 << a) == 0 {
                continue;
            }
            for s2 in 0..=full {
                if s2 & (1 << a) == 0 || (s1.count_ones() as usize) < r && s2 != full {
                    continue;
                }
                for b in 0..n {
                    // beyond the first responsive sets, enumerate the later election only from
                    // complete first elections
                    let s3s: Vec<usize> = if s1 == full { (0..=full).filter(|s| s & (1 << b) != 0).collect() } else { vec![full] };
                    if a == b || (s1.count_ones() as usize) < r && b != (a + 1) % n {
                        continue;
                    }
                    for s3 in s3s {
                        if only.map(|o| o != (a, s1 * 64 + s2, b, s3)).unwrap_or(false) {
                            continue;
                        }
                        if Instant::now() > deadline {
                            out.exhausted = false;
                            break 'all;
                        }
                        out.states += 1;
                        match case(&mut e, a, s1, s2, b, s3) {
                            Ok(k) => out.transitions += k as usize,
                            Err(m) => {
                                out.viol = Some(Bad {
                                    msg: m,
                                    text: vec![format!("server {} becomes candidate, servers {:?} respond; it appends an entry, servers {:?} respond; server {} becomes candidate, servers {:?} respond", a + 1, set(n, s1), set(n, s2), b + 1, set(n, s3))],
                                    replay: json!({"kind": "quorum", "n": n, "quorum": quorum, "case": [a, s1 * 64 + s2, b, s3]}),
                                });
                                out.exhausted = false;
                                break 'all;
                            }
                        }
                    }
                }
            }
        }
    }
    out.sample = vec![format!("last of {} cases with {n} servers", out.states)];
    out.wall_ms = start.elapsed().as_millis() as u64;
    out
}
