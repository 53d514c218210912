use mc::{ble, conf, engine::*, node::*, quorum, scen, task::*, types::*};
#[cfg(feature = "unicache")]
use mc::uni;
use std::time::{Duration, Instant};

fn arg(a: &[String], k: &str, d: &str) -> String {
    a.iter()
        .position(|x| x == k)
        .and_then(|i| a.get(i + 1).cloned())
        .unwrap_or(d.to_string())
}

fn main() {
    install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => check(&a),
        Some("bench") => {
            bench(&a);
            0
        }
        Some("replay") => replay(&a[2]),
        _ => {
            eprintln!("usage: mc check PROP TIER [--secs N] [--evidence F] [--replays D] | mc replay FILE | mc bench SECS [names]");
            2
        }
    };
    std::process::exit(code);
}

fn leak(s: &str) -> &'static str {
    Box::leak(s.to_string().into_boxed_str())
}

fn tasks(prop: &'static str, thorough: bool) -> Vec<Task> {
    let mut v = vec![];
    #[cfg(feature = "unicache")]
    if prop == "C16" {
        return uni::all(thorough);
    }
    for t in scen::registry() {
        if !t.props.split(' ').any(|p| p == prop) || t.thorough && !thorough {
            continue;
        }
        let validate = if thorough { 200 } else { 25 };
        v.push(mk(t.sc, prop, validate));
    }
    if prop == "C11" {
        v.extend(ble::all(thorough));
    }
    if prop == "C20" {
        for n in [3, 4] {
            v.push(ble::status(n, ble::Style::Together, false, true));
            v.push(ble::status(n, ble::Style::Together, false, false));
            v.push(ble::status(n, ble::Style::Staggered, false, false));
        }
        for n in [3, 4] {
            v.push(ble::status(n, ble::Style::Together, true, false));
            v.push(ble::status(n, ble::Style::Staggered, true, false));
        }
        if thorough {
            v.push(ble::status(5, ble::Style::Together, true, false));
            v.push(ble::status(5, ble::Style::Together, false, false));
        }
    }
    if prop == "C18" {
        v.extend(conf::all(thorough));
    }
    if prop == "C12" {
        for (n, q) in quorum::configs(if thorough { 6 } else { 5 }) {
            v.push(quorum::task(n, q, None));
        }
    }
    v
}

/// The monitors that decide a property: what it shares with others counts for it as well.
fn monitors(prop: &'static str) -> Vec<&'static str> {
    let more: &[&'static str] = match prop {
        "C05" => &["C01", "C02"],
        "C06" => &["C01", "C02", "C03", "C07"],
        "C07" => &["C01", "C02", "C09"],
        "C08" => &["C01", "C02", "C09"],
        "C10" => &["C01", "C02"],
        "C12" => &["C01"],
        "C13" => &["C01", "C02", "C03", "C06"],
        "C16" => &["C01", "C02", "C03"],
        "C17" => &["C01", "C03"],
        _ => &[],
    };
    let mut v = vec![prop];
    v.extend(more);
    v
}

fn mk(mut sc: Scenario, prop: &'static str, validate: usize) -> Task {
    sc.max_states = sc.max_states.max(1);
    if sc.snap_entries {
        scenario_task_props::<S>(sc, monitors(prop), validate)
    } else {
        scenario_task_props::<E>(sc, monitors(prop), validate)
    }
}

fn check(a: &[String]) -> i32 {
    let prop = leak(&a[2]);
    let tier = a[3].clone();
    let thorough = tier == "thorough";
    let secs: u64 = arg(a, "--secs", if thorough { "700" } else { "150" }).parse().unwrap();
    let ev = arg(a, "--evidence", &format!("/verif/evidence/{prop}.json"));
    let rp = arg(a, "--replays", "/verif/replays");
    let start = Instant::now();
    let list = tasks(prop, thorough);
    if list.is_empty() {
        eprintln!("no exploration registered for {prop}");
        return 2;
    }
    let outs = run_all(list, secs);
    if prop == "C18" {
        let meta = Meta {
            prop,
            tier: &tier,
            level: "exploration",
            rule: "every configuration of a finite grid around all validity limits, judged by an independent statement of the validity rule; a case is non-trivial if the configuration is valid, so that something is built, started or decided",
            assumptions: vec!["node lists without duplicates and without the id 0; values outside the grid behave like their neighbours"],
        };
        return report(&meta, &outs, start.elapsed().as_secs_f64(), &ev, &rp);
    }
    let meta = Meta {
        prop,
        tier: &tier,
        level: "model_checking",
        rule: "explicit-state search over real servers: every distinct (server state, input) pair is executed on the real code; a state is the tuple of server states, link contents, cuts, used budgets and ghost history",
        assumptions: vec![
            "links are FIFO; messages can be delayed, lost or cut off but not duplicated or forged",
            "a crash loses everything except completed storage writes; write_atomically is one write",
        ],
    };
    report(&meta, &outs, start.elapsed().as_secs_f64(), &ev, &rp)
}

fn replay(file: &str) -> i32 {
    let doc: serde_json::Value =
        serde_json::from_str(&std::fs::read_to_string(file).expect("read replay file")).unwrap();
    let prop = leak(doc["property"].as_str().unwrap());
    let r = &doc["replay"];
    if r["kind"] == "config" {
        let t = conf::all(doc["tier"] == "thorough").into_iter().find(|t| t.name == r["task"].as_str().unwrap());
        return other(t.expect("task of the replay file"));
    }
    if r["kind"] == "ties" {
        return other(ble::ties(r["n"].as_u64().unwrap() as usize));
    }
    if r["kind"] == "status" {
        return other(ble::status(r["n"].as_u64().unwrap() as usize, serde_json::from_value(r["style"].clone()).unwrap(), r["late"] == true, r["foreign"] == true));
    }
    if r["kind"] == "ble" {
        let c: ble::Case = serde_json::from_value(r["case"].clone()).unwrap();
        return other(ble::family("replay".into(), String::new(), move || Box::new(vec![c.clone()].into_iter())));
    }
    if r["kind"] == "quorum" {
        let q: Option<(usize, usize)> = serde_json::from_value(r["quorum"].clone()).unwrap();
        let c: (usize, usize, usize, usize) = serde_json::from_value(r["case"].clone()).unwrap();
        let t = quorum::task(r["n"].as_u64().unwrap() as usize, q, Some(c));
        return other(t);
    }
    #[cfg(feature = "unicache")]
    if r["kind"] == "unicache" {
        let ops: Vec<uni::Op> = serde_json::from_value(r["ops"].clone()).unwrap();
        return match uni::one(r["policy"].as_str().unwrap(), r["size"].as_u64().unwrap() as usize, r["wire"].as_u64().unwrap() as u8, &ops) {
            Ok(()) => {
                println!("not reproduced");
                0
            }
            Err(m) => {
                println!("{ops:?}\nreproduced: {m}");
                1
            }
        };
    }
    let name = r["scenario"].as_str().unwrap().to_string();
    let mut list: Vec<Scenario> = scen::registry().into_iter().map(|t| t.sc).collect();
    #[cfg(feature = "unicache")]
    list.extend(uni::scenarios(doc["tier"] == "thorough"));
    let sc = list.drain(..).find(|s| s.name == name).expect("scenario of the replay file");
    let trace: Vec<Act> = serde_json::from_value(r["trace"].clone()).unwrap();
    let k = r["closure"].as_u64().map(|x| x as u8);
    fn go<T: HEntry>(sc: Scenario, prop: &'static str, trace: &[Act], k: Option<u8>) -> i32 {
        let props = monitors(prop);
        let mut e: Engine<T> = Engine::new(sc, Props(props), Instant::now() + Duration::from_secs(600));
        let (text, viol) = e.replay(trace, k);
        for l in text {
            println!("{l}");
        }
        match viol {
            Some(v) => {
                println!("reproduced: {} {}", v.prop, v.msg);
                1
            }
            None => {
                println!("not reproduced");
                0
            }
        }
    }
    if sc.snap_entries {
        go::<S>(sc, prop, &trace, k)
    } else {
        go::<E>(sc, prop, &trace, k)
    }
}

fn other(t: Task) -> i32 {
    let o = (t.run)(Instant::now() + Duration::from_secs(600));
    match o.viol {
        Some(b) => {
            for l in b.text {
                println!("{l}");
            }
            println!("reproduced: {}", b.msg);
            1
        }
        None => {
            println!("not reproduced");
            0
        }
    }
}

fn bench(a: &[String]) {
    let secs: u64 = a[2].parse().unwrap();
    let props = vec![
        "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C12", "C13", "C17", "C20",
    ];
    // only this property, if the environment says so
    let only = std::env::var("MC_PROP").map(|p| monitors(leak(&p))).ok();
    let next = std::sync::atomic::AtomicUsize::new(0);
    let list: Vec<scen::Tagged> = scen::registry()
        .into_iter()
        .filter(|t| a.len() <= 3 || a[3..].iter().any(|x| t.sc.name.starts_with(x.as_str())))
        .collect();
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                if i >= list.len() {
                    break;
                }
                fn go<T: HEntry>(sc: Scenario, props: Vec<&'static str>, secs: u64) {
                    let mut e: Engine<T> = Engine::new(sc, Props(props), Instant::now() + Duration::from_secs(secs));
                    let f = e.explore(20);
                    let s = &e.stats;
                    let mut t = format!("{:16} st {:8} tr {:8} loc {:7}/{:7} clo {:7} depth {} ch {} quiet {} exh {} {} ms div {} mism {}\n", e.sc.name, s.states, s.transitions, s.local_states, s.local_transitions, s.closures, s.max_depth, s.distinct_chosen, s.quiescent, s.exhausted, s.wall_ms, s.divides, s.mismatches.len());
                    if let Some(f) = f {
                        t += &format!("VIOL {} {}\n", f.viol.prop, f.viol.msg);
                        for l in f.text {
                            t += &format!("  {l}\n");
                        }
                        t += &format!("closure {:?}\n", f.closure_leader);
                    }
                    print!("{t}");
                }
                let sc = list[i].sc.clone();
                let mut p = props.clone();
                // properties the scenario is registered for come first (they tag continuations)
                p.sort_by_key(|x| !list[i].props.contains(x));
                let p = only.clone().unwrap_or(p);
                if sc.snap_entries {
                    go::<S>(sc, p, secs)
                } else {
                    go::<E>(sc, p, secs)
                }
            });
        }
    });
}
