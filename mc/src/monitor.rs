//! Oracles on a single real step of one server.
use crate::{engine::*, node::*};
use omnipaxos::{
    ballot_leader_election::Ballot,
    messages::{sequence_paxos::*, Message},
};

pub fn local_checks<T: HEntry>(
    props: &Props,
    sc: &Scenario,
    node: &Node<T>,
    pre: &Obs,
    post: &Obs,
    input: Input,
    msg: Option<&Message<T>>,
    mode: Mode,
    r: &StepOut<T>,
    burned: Ballot,
    // messages of earlier calls have not been fetched yet
    held: bool,
    viols: &mut Vec<Viol>,
) {
    let pid = node.pid;
    let mut v = |prop: &'static str, msg: String| {
        if props.on(prop) {
            viols.push(Viol {
                prop,
                msg: format!("server {pid}: {msg}"),
            })
        }
    };
    if let Some(e) = &r.take_err {
        v("C17", e.clone());
    }
    // ---- C02 stability of the decided log
    if post.decided < pre.decided {
        v("C02", format!("decided index went from {} to {}", pre.decided, post.decided));
        v("C06", format!("decided index went from {} to {}", pre.decided, post.decided));
    }
    if post.decided > post.len() {
        v("C02", format!("decided index {} exceeds the log {}", post.decided, show_log(&post.log)));
    }
    if post.up && post.st_decided < post.decided {
        v("C02", format!("reported decided index {} is not durable ({})", post.decided, post.st_decided));
        v("C06", format!("reported decided index {} is not durable ({})", post.decided, post.st_decided));
    }
    {
        let a = pre.dec();
        let b = post.dec();
        for p in 0..a.len().min(b.len()) {
            if a[p] != 0 && b[p] != 0 && a[p] != b[p] {
                let m = format!(
                    "decided position {p} changed from {} to {} (log {} -> {})",
                    show_v(a[p]), show_v(b[p]), show_log(&pre.log), show_log(&post.log)
                );
                v("C02", m.clone());
                v("C06", m);
                break;
            }
        }
    }
    // ---- C04 promises
    if post.promise < pre.promise {
        v("C04", format!("promise went from {:?} to {:?}", pre.promise, post.promise));
    }
    if post.st_promise < post.promise {
        v("C04", format!("promise {:?} is not durable ({:?})", post.promise, post.st_promise));
        v("C06", format!("promise {:?} is not durable ({:?})", post.promise, post.st_promise));
    }
    if post.acc_round < pre.acc_round {
        v("C04", format!("accepted round went from {:?} to {:?}", pre.acc_round, post.acc_round));
    }
    if post.acc_round > post.st_promise {
        v("C04", format!("accepted round {:?} above the promise {:?}", post.acc_round, post.st_promise));
    }
    // a server never takes entries of a ballot lower than its promise
    if let Input::Deliver(_) = input {
        if post.acc_round != pre.acc_round && post.acc_round < pre.promise {
            v("C04", format!("accepted in {:?} after promising {:?}", post.acc_round, pre.promise));
        }
    }
    // ---- compaction
    if post.st_compacted < pre.st_compacted {
        let m = format!("compacted index went from {} to {}", pre.st_compacted, post.st_compacted);
        v("C07", m.clone());
        v("C08", m);
    }
    if post.up && post.compacted != post.st_compacted {
        let m = format!("reported compacted index {} differs from storage {}", post.compacted, post.st_compacted);
        v("C07", m.clone());
        v("C08", m.clone());
        v("C09", m);
    }
    // compaction must not drop or invent log positions
    if post.st_compacted > pre.st_compacted && post.acc_round == pre.acc_round && post.len() < pre.len() {
        let m = format!("compaction shortened the log from {} to {}", show_log(&pre.log), show_log(&post.log));
        v("C07", m.clone());
        v("C08", m);
    }
    // ---- results of API calls
    let crashed = matches!(mode, Mode::CrashAt(_));
    if !crashed {
        match input {
            Input::Append(id) => {
                match r.ret {
                    Ret::Ok => {
                        if pre.ss.is_some() {
                            v("C05", format!("append({id}) succeeded although a stop-sign is in the log"));
                        }
                    }
                    Ret::Err(E_PENDING, _) => {
                        if pre.ss.is_none() {
                            let m = format!("append({id}) was rejected without a pending reconfiguration");
                            v("C05", m.clone());
                            v("C17", m.clone());
                            v("C10", m);
                        }
                        if pre.log != post.log || !held && !r.out.is_empty() {
                            v("C05", format!("rejected append({id}) had an effect"));
                            v("C03", format!("rejected append({id}) had an effect"));
                        }
                    }
                    _ => {
                        v("C05", format!("append({id}) returned a wrong error or a different entry ({:?})", r.ret));
                        v("C03", format!("append({id}) returned a wrong error or a different entry ({:?})", r.ret));
                    }
                }
            }
            Input::Reconf(k) => match r.ret {
                Ret::Ok => {
                    if pre.ss.is_some() {
                        v("C05", format!("reconfigure({k}) succeeded although a stop-sign is in the log"));
                    }
                }
                Ret::Err(E_PENDING, _) => {
                    if pre.ss.is_none() {
                        v("C05", format!("reconfigure({k}) was rejected without a pending reconfiguration"));
                    }
                    if pre.log != post.log || !held && !r.out.is_empty() {
                        v("C05", format!("rejected reconfigure({k}) had an effect"));
                    }
                }
                _ => v("C05", format!("reconfigure({k}) returned a wrong error or different proposal ({:?})", r.ret)),
            },
            Input::Trim(i) => {
                check_trim(pre, post, i, r, node, &mut v);
            }
            Input::Snap(i, local) => {
                let d = pre.decided;
                let dl = if pre.reconf.is_some() { d - 1 } else { d };
                let target = match i {
                    None => Some(dl),
                    Some(i) if (i as usize) < d => Some(i as usize),
                    Some(i) if i as usize == d => Some(dl),
                    _ => None,
                };
                match (target, r.ret) {
                    (None, Ret::Err(E_UNDECIDED, x)) if x as usize == d => {
                        if post.st_compacted != pre.st_compacted || post.snap != pre.snap {
                            v("C07", format!("failed snapshot({i:?}) had an effect"));
                        }
                    }
                    (None, x) => v("C07", format!("snapshot({i:?}) with decided index {d} returned {x:?}")),
                    (Some(t), Ret::Ok) => {
                        let want = t.max(pre.st_compacted);
                        if post.st_compacted != want {
                            v("C07", format!("snapshot({i:?}) with decided index {d} left the compacted index at {} instead of {want}", post.st_compacted));
                        }
                        if want > 0 && post.snap.is_none() && want > pre.st_compacted {
                            v("C07", format!("snapshot({i:?}) compacted without storing a snapshot"));
                        }
                        if mode == Mode::Normal {
                            let msgs = r.out.iter().filter(|m| matches!(m, Message::SequencePaxos(p) if matches!(p.msg, PaxosMsg::Compaction(_)))).count();
                            let want = if local { 0 } else { node.cfg.n() - 1 };
                            if msgs < want || (local && msgs != 0 && !sc.groups.is_empty() && sc.hold == 0) {
                                v("C07", format!("snapshot({i:?}, local_only={local}) sent {msgs} snapshot requests"));
                            }
                        }
                    }
                    (Some(t), Ret::Err(E_TRIMMED, _)) if t < pre.st_compacted => (),
                    (Some(_), x) => v("C07", format!("snapshot({i:?}) with decided index {d} returned {x:?}")),
                }
                if pre.len() != post.len() {
                    v("C07", format!("snapshot({i:?}) changed the log length from {} to {}", pre.len(), post.len()));
                }
            }
            _ => (),
        }
    }
    // ---- messages leave only after what they claim is durable
    for m in &r.out {
        let p = match m {
            Message::SequencePaxos(p) => p,
            _ => continue,
        };
        if p.from != pid || m.get_sender() != p.from || m.get_receiver() != p.to {
            v("C19", format!("emitted a message with sender {} / {} to {}", p.from, m.get_sender(), m.get_receiver()));
        }
        if let Some(b) = leader_ballot(&p.msg) {
            if b.pid != pid {
                v("C04", format!("sent a leader message with the ballot {b:?} of another server"));
            }
            if b <= burned && burned != Ballot::default() {
                v("C04", format!("after a restart sent a leader message with ballot {b:?}, which it used before the crash ({burned:?})"));
            }
            if post.st_promise < b {
                v("C04", format!("led ballot {b:?} before promising it durably ({:?})", post.st_promise));
                v("C06", format!("led ballot {b:?} before promising it durably ({:?})", post.st_promise));
            }
        }
        match &p.msg {
            PaxosMsg::Promise(pr) => {
                if post.st_promise < pr.n {
                    v("C04", format!("sent a promise for {:?} but durably promised {:?}", pr.n, post.st_promise));
                    v("C06", format!("sent a promise for {:?} but durably promised {:?}", pr.n, post.st_promise));
                }
                if pr.n.pid != p.to {
                    v("C04", format!("sent the promise for {:?} to server {}", pr.n, p.to));
                }
                if post.acc_round == pr.n_accepted && mode == Mode::Normal && post.st_promise == pr.n && pr.accepted_idx > post.len() {
                    v("C06", format!("promise claims {} accepted positions, durable are {}", pr.accepted_idx, post.len()));
                }
            }
            PaxosMsg::Accepted(a) => {
                if post.acc_round < a.n {
                    let m = format!("acknowledged in round {:?} but durably accepted only in {:?}", a.n, post.acc_round);
                    v("C06", m.clone());
                    v("C13", m);
                } else if post.acc_round == a.n && a.accepted_idx > post.len() {
                    let m = format!("acknowledged {} log positions but only {} are durable", a.accepted_idx, post.len());
                    v("C06", m.clone());
                    v("C13", m);
                }
                if post.st_promise < a.n {
                    v("C04", format!("accepted {:?} below own promise", a.n));
                }
            }
            _ => (),
        }
        // the wire form must carry the same message
        if props.on("C19") {
            for w in [1u8, 2] {
                let want = format!("{:?}", m);
                match guarded(|| format!("{:?}", reencode(m, w))) {
                    Guarded::Done(got) if got == want => (),
                    Guarded::Done(got) => v("C19", format!("{want} becomes {got} on the wire")),
                    Guarded::Panicked(e) => v("C19", format!("{want} cannot be sent over the wire: {e}")),
                    Guarded::Crashed => (),
                }
            }
        }
    }
    // ---- status reports
    if props.on("C20") {
        if let Some(op) = &node.op {
            let before = node.observe();
            let lead = op.get_current_leader();
            match lead {
                Some((l, _)) if l != post.promise.pid || l == 0 => {
                    v("C20", format!("get_current_leader reports {l}, promised {:?}", post.promise))
                }
                None if post.promise.pid != 0 => {
                    v("C20", format!("get_current_leader reports nobody, promised {:?}", post.promise))
                }
                _ => (),
            }
            if post.promise != post.st_promise {
                v("C20", format!("get_promise reports {:?}, durably promised is {:?}", post.promise, post.st_promise));
            }
            let ui = op.get_ui_states();
            if ui.decided_idx != post.decided || ui.current_leader != lead.map(|x| x.0) || ui.current_ballot.pid != pid {
                v("C20", format!("the UI state (decided {}, leader {:?}, ballot {:?}) disagrees with the server (decided {}, leader {lead:?})", ui.decided_idx, ui.current_leader, ui.current_ballot, post.decided));
            }
            if let (Input::Deliver(_), Some(Message::SequencePaxos(p)), Some((l, true))) = (input, msg, lead) {
                if let PaxosMsg::Accepted(a) = &p.msg {
                    let got = post.acks.get(p.from as usize).copied();
                    if l == pid && a.n == post.promise && pre.leader == lead && got < Some(a.accepted_idx) {
                        v("C20", format!("server {} acknowledged {} positions, the leader reports {got:?}", p.from, a.accepted_idx));
                    }
                }
            }
            if node.observe() != before {
                v("C20", "asking for the status changed the state".into());
            }
        }
    }
    // ---- reads
    if props.on("C09") {
        if let Some(op) = &node.op {
            let before = node.observe();
            if let Some(e) = check_reads(op, post) {
                v("C09", e);
            }
            if node.observe() != before {
                v("C09", "reading changed the state".into());
            }
        }
    }
}

fn check_trim<T: HEntry>(
    pre: &Obs,
    post: &Obs,
    i: Option<u32>,
    r: &StepOut<T>,
    node: &Node<T>,
    v: &mut impl FnMut(&'static str, String),
) {
    let d = pre.decided;
    match r.ret {
        Ret::Ok => {
            if pre.promise.pid != node.pid {
                v("C08", format!("trim({i:?}) succeeded at a server that follows {:?}", pre.promise));
            }
            if let Some(i) = i {
                let i = i as usize;
                if i > d {
                    v("C08", format!("trim({i}) succeeded beyond the decided index {d}"));
                }
                let t = if i == d && pre.reconf.is_some() { d - 1 } else { i };
                let want = t.max(pre.st_compacted);
                if post.st_compacted != want {
                    v("C08", format!("trim({i}) left the compacted index at {} instead of {want}", post.st_compacted));
                }
            } else if post.st_compacted > d {
                v("C08", format!("trim(None) trimmed to {} beyond the decided index {d}", post.st_compacted));
            }
        }
        Ret::Err(k, x) => {
            if post.st_compacted != pre.st_compacted || post.log != pre.log {
                v("C08", format!("failed trim({i:?}) changed the log {} -> {}", show_log(&pre.log), show_log(&post.log)));
            }
            match k {
                E_NOTLEADER => {
                    if x as u64 != pre.promise.pid {
                        v("C08", format!("trim error names server {x} as leader, it follows {:?}", pre.promise));
                    }
                }
                E_UNDECIDED => {
                    if x as usize != d || i.map(|i| i as usize <= d).unwrap_or(false) {
                        v("C08", format!("trim({i:?}) reports undecided index {x}, decided is {d}"));
                    }
                }
                E_NOTALL => {
                    if i.is_none() || i.unwrap() <= x {
                        v("C08", format!("trim({i:?}) reports that only {x} is accepted by all"));
                    }
                }
                _ => v("C08", format!("trim({i:?}) returned an unexpected error {:?}", r.ret)),
            }
        }
        _ => v("C08", format!("trim({i:?}) returned {:?}", r.ret)),
    }
}
