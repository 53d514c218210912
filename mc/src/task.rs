//! Running many independent explorations in parallel and reporting on them.
use crate::engine::*;
use crate::node::*;
use serde_json::{json, Value};
use std::{
    sync::{
        atomic::{AtomicBool, AtomicUsize, Ordering},
        Arc, Mutex,
    },
    time::{Duration, Instant},
};

#[derive(Default, Clone)]
pub struct Out {
    pub name: String,
    pub bound: String,
    pub states: usize,
    pub transitions: usize,
    pub local_states: usize,
    pub local_transitions: usize,
    pub closures: usize,
    pub validated: usize,
    pub outcomes: usize,
    pub max_depth: u32,
    pub exhausted: bool,
    pub wall_ms: u64,
    pub sample: Vec<String>,
    pub mismatches: Vec<String>,
    pub viol: Option<Bad>,
}

#[derive(Clone)]
pub struct Bad {
    pub msg: String,
    pub text: Vec<String>,
    pub replay: Value,
}

pub type Job = Box<dyn Fn(Instant) -> Out + Send + Sync>;
pub struct Task {
    pub name: String,
    pub run: Job,
}

pub fn scenario_task<T: HEntry>(sc: Scenario, prop: &'static str, validate: usize) -> Task {
    scenario_task_props::<T>(sc, vec![prop], validate)
}

/// Several monitors at once; whatever they find counts for the property being checked.
pub fn scenario_task_props<T: HEntry>(sc: Scenario, props: Vec<&'static str>, validate: usize) -> Task {
    Task {
        name: sc.name.clone(),
        run: Box::new(move |deadline| {
            let mut e: Engine<T> = Engine::new(sc.clone(), Props(props.clone()), deadline);
            let f = e.explore(validate);
            let s = e.stats.clone();
            let mut mism = s.mismatches.clone();
            let viol = f.and_then(|f| {
                // a counterexample counts only if a live end-to-end re-execution follows it
                let ok = if f.viol.msg.contains("panicked") {
                    Ok(())
                } else {
                    e.validate(&f.trace)
                };
                if let Err(m) = ok {
                    mism.push(format!(
                        "a counterexample ({}) did not re-execute: {m}",
                        f.viol.msg
                    ));
                    return None;
                }
                Some(Bad {
                    msg: f.viol.msg.clone(),
                    text: f.text,
                    replay: json!({"kind": "scenario", "scenario": sc.name, "trace": f.trace, "closure": f.closure_leader}),
                })
            });
            Out {
                name: sc.name.clone(),
                bound: sc.bound(),
                states: s.states,
                transitions: s.transitions,
                local_states: s.local_states,
                local_transitions: s.local_transitions,
                closures: s.closures,
                validated: s.validated,
                outcomes: s.distinct_chosen,
                max_depth: s.max_depth,
                exhausted: s.exhausted,
                wall_ms: s.wall_ms,
                sample: s.sample,
                mismatches: mism,
                viol,
            }
        }),
    }
}

/// Run the tasks on all cores; stops early once a violation is found.
pub fn run_all(tasks: Vec<Task>, secs: u64) -> Vec<Out> {
    let deadline = Instant::now() + Duration::from_secs(secs);
    let threads = std::thread::available_parallelism()
        .map(|n| n.get())
        .unwrap_or(4)
        .min(8);
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let outs: Mutex<Vec<(usize, Out)>> = Mutex::new(vec![]);
    let tasks = Arc::new(tasks);
    std::thread::scope(|s| {
        for _ in 0..threads {
            s.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= tasks.len() {
                    break;
                }
                let o = if stop.load(Ordering::SeqCst) || Instant::now() > deadline {
                    Out {
                        name: tasks[i].name.clone(),
                        bound: "not started".into(),
                        ..Default::default()
                    }
                } else {
                    (tasks[i].run)(deadline)
                };
                if o.viol.is_some() {
                    stop.store(true, Ordering::SeqCst);
                }
                outs.lock().unwrap().push((i, o));
            });
        }
    });
    let mut v = outs.into_inner().unwrap();
    v.sort_by_key(|x| x.0);
    v.into_iter().map(|x| x.1).collect()
}

pub struct Meta<'a> {
    pub prop: &'a str,
    pub tier: &'a str,
    pub level: &'a str,
    pub rule: &'a str,
    pub assumptions: Vec<&'a str>,
}

/// Report, write the evidence file and the replay file; returns the exit code.
pub fn report(meta: &Meta, outs: &[Out], wall: f64, evidence: &str, replays: &str) -> i32 {
    let sum = |f: fn(&Out) -> usize| outs.iter().map(f).sum::<usize>();
    let (states, transitions) = (sum(|o| o.states), sum(|o| o.transitions));
    let exhaustive = outs.iter().all(|o| o.exhausted);
    let viols: Vec<&Out> = outs.iter().filter(|o| o.viol.is_some()).collect();
    for o in outs {
        println!(
            "{:24} states {:9} transitions {:9} real-steps {:8} continuations {:8} outcomes {:4} depth {:3} {} {} ms",
            o.name, o.states, o.transitions, o.local_transitions, o.closures, o.outcomes, o.max_depth,
            if o.exhausted { "exhausted" } else if o.viol.is_some() { "stopped" } else { "CAPPED" },
            o.wall_ms
        );
        for m in &o.mismatches {
            println!("WARNING uncontrolled nondeterminism in the code under test: {m}");
        }
    }
    println!(
        "{} {}: {} configurations, {} states, {} transitions, exhaustive within bounds: {}, {:.1} s",
        meta.prop, meta.tier, outs.len(), states, transitions, exhaustive, wall
    );
    // numbered parts of one enumeration are reported together
    let stem = |n: &str| match n.rsplit_once('-') {
        Some((a, b)) if outs.len() > 150 && b.parse::<u32>().is_ok() => a.to_string(),
        _ => n.to_string(),
    };
    let mut groups: Vec<(String, Vec<&Out>)> = vec![];
    for o in outs {
        let k = stem(&o.name);
        match groups.iter_mut().find(|g| g.0 == k) {
            Some(g) => g.1.push(o),
            None => groups.push((k, vec![o])),
        }
    }
    let mut coverage = json!({
        "configurations": groups.iter().map(|(name, os)| {
            let sum = |f: fn(&Out) -> usize| os.iter().map(|o| f(o)).sum::<usize>();
            json!({
                "name": name, "parts": os.len(), "bound": os[0].bound, "states": sum(|o| o.states), "transitions": sum(|o| o.transitions),
                "real_local_states": sum(|o| o.local_states), "real_local_steps": sum(|o| o.local_transitions),
                "continuations_checked": sum(|o| o.closures), "distinct_outcomes": sum(|o| o.outcomes),
                "max_depth": os.iter().map(|o| o.max_depth).max(), "exhausted": os.iter().all(|o| o.exhausted), "wall_ms": os.iter().map(|o| o.wall_ms).sum::<u64>(),
            })
        }).collect::<Vec<_>>(),
        "exhaustive": exhaustive,
        "samples": outs.iter().filter(|o| !o.sample.is_empty()).take(3)
            .map(|o| json!({"configuration": o.name, "case": o.sample})).collect::<Vec<_>>(),
        "nondeterminism": outs.iter().flat_map(|o| o.mismatches.clone()).collect::<Vec<_>>(),
        "rule": meta.rule,
    });
    let c = coverage.as_object_mut().unwrap();
    if meta.level == "model_checking" {
        c.insert("states".into(), json!(states));
        c.insert("transitions".into(), json!(transitions));
        c.insert("traces_validated_against_impl".into(), json!(sum(|o| o.validated)));
        c.insert("continuations_checked".into(), json!(sum(|o| o.closures)));
        c.insert("real_local_steps".into(), json!(sum(|o| o.local_transitions)));
    } else {
        c.insert("evaluations".into(), json!(transitions));
        c.insert("distinct_nontrivial".into(), json!(states));
    }
    let ev = json!({
        "property": meta.prop,
        "tier": meta.tier,
        "seed": std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(0),
        "level": meta.level,
        "coverage": coverage,
        "assumptions": meta.assumptions,
        "wall_s": wall,
        "violations": viols.len(),
    });
    if let Some(d) = std::path::Path::new(evidence).parent() {
        let _ = std::fs::create_dir_all(d);
    }
    std::fs::write(evidence, serde_json::to_string_pretty(&ev).unwrap()).expect("write evidence");
    if let Some(o) = viols.first() {
        let b = o.viol.as_ref().unwrap();
        let _ = std::fs::create_dir_all(replays);
        let path = format!("{replays}/{}-{}.json", meta.prop, o.name);
        let doc = json!({"property": meta.prop, "tier": meta.tier, "message": b.msg, "replay": b.replay, "history": b.text});
        std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap()).expect("write replay");
        println!("{}: {}", o.name, b.msg);
        let skip = b.text.len().saturating_sub(60);
        for l in &b.text[skip..] {
            println!("  {l}");
        }
        println!("VIOLATION property={} replay={}", meta.prop, path);
        return 1;
    }
    0
}
