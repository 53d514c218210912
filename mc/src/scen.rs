//! The explored scenarios. Every scenario states its complete bound: the deterministic prefix,
//! the client calls and elections (budget per group), and the fault budgets.
use crate::engine::{Closure, Kind, Kind::*, Scenario, Step, Step::*};
use crate::node::Cfg;

fn elect(i: u8) -> Vec<Step> {
    vec![Do(i, Lead), Deliver]
}
fn app(i: u8) -> Vec<Step> {
    vec![Do(i, Append), Deliver]
}
fn cat(v: Vec<Vec<Step>>) -> Vec<Step> {
    v.into_iter().flatten().collect()
}
fn any(k: Kind) -> Vec<(u8, Kind)> {
    vec![(0, k), (1, k), (2, k)]
}
fn at(nodes: &[u8], k: Kind) -> Vec<(u8, Kind)> {
    nodes.iter().map(|n| (*n, k)).collect()
}
fn five(k: Kind) -> Vec<(u8, Kind)> {
    at(&[0, 1, 2, 3, 4], k)
}
fn m3() -> Cfg {
    Cfg::majority(3)
}
fn batch(b: usize) -> Cfg {
    Cfg { batch: b, ..m3() }
}
/// one tick is an election timeout, nothing else times out
fn hb() -> Cfg {
    Cfg { beat: true, election: 1, resend: 1000, flush: 1000, ..m3() }
}
fn beats() -> Vec<(u8, Kind)> {
    (0..3u8).flat_map(|i| (0..8u8).filter(move |m| m & (1 << i) == 0).map(move |m| (i, Beat(m)))).collect()
}
fn prios() -> Vec<(u8, Kind)> {
    (0..3u8).flat_map(|i| [(i, Prio(0)), (i, Prio(5))]).collect()
}
fn flex(n: usize, r: usize, w: usize) -> Cfg {
    Cfg {
        quorum: Some((r, w)),
        ..Cfg::majority(n)
    }
}

pub struct Tagged {
    pub sc: Scenario,
    pub props: &'static str,
    pub thorough: bool,
}

const SAFE: &str = "C01 C02 C03 C04 C06 C09 C12 C19 C20";

pub fn registry() -> Vec<Tagged> {
    let mut v: Vec<Tagged> = vec![];
    quick(&mut v);
    families(&mut v);
    thorough(&mut v);
    v
}

fn sn(x: &[u8]) -> Vec<(u8, Kind)> {
    x.iter().flat_map(|n| vec![(*n, Snap(None, true)), (*n, Snap(Some(1), true)), (*n, Snap(None, false))]).collect()
}
fn tr(x: &[u8]) -> Vec<(u8, Kind)> {
    x.iter().flat_map(|n| vec![(*n, Trim(None)), (*n, Trim(Some(1))), (*n, Trim(Some(2)))]).collect()
}

fn apps(i: u8, k: usize) -> Vec<Step> {
    (0..k).flat_map(|_| app(i)).collect()
}
fn reconns() -> Vec<(u8, Kind)> {
    let mut v = vec![];
    for a in 0..3u8 {
        for b in 0..3u8 {
            if a != b {
                v.push((a, Reconn(b)));
            }
        }
    }
    v
}
/// Situations from which all short continuations are explored.
/// `x` is the proposal that is left in an unusual place (an entry or a stop-sign).
fn situations(x: Kind) -> Vec<(&'static str, Vec<Step>)> {
    let put = |i: u8| vec![Do(i, x)];
    let put_all = |i: u8| vec![Do(i, x), Deliver];
    let mut v = vec![
        // accepted by the leader only
        ("own", cat(vec![elect(0), app(0), put(0), vec![LoseAll]])),
        // accepted by the leader and one follower, the acknowledgement is lost
        ("acc", cat(vec![elect(0), app(0), put(0), vec![DeliverN(0, 1, 1), LoseAll]])),
        // decided at the leader only
        ("dec", cat(vec![elect(0), app(0), put(0), vec![DeliverN(0, 1, 1), DeliverN(1, 0, 1), LoseAll]])),
        // one follower missed it
        ("lag", cat(vec![elect(0), app(0), vec![Isolate(2)], put_all(0), vec![HealAll]])),
        // a deposed leader holds it, the others decided something else
        ("stale", cat(vec![elect(0), app(0), vec![Isolate(0)], put(0), elect(1), app(1), vec![HealAll]])),
        // a deposed leader holds it, the new leader has another proposal that nobody else knows
        ("div", cat(vec![elect(0), vec![Isolate(0)], put(0), elect(1), vec![Do(1, Append), LoseAll, HealAll]])),
        // like stale, and the new leader has nothing
        ("over", cat(vec![elect(0), app(0), vec![Isolate(0)], put(0), elect(1), vec![HealAll]])),
        // a follower restarted and missed it
        ("fdown", cat(vec![elect(0), app(0), vec![Do(2, Crash)], put_all(0), vec![Restart(2), LoseAll]])),
        // the leader restarted after deciding it
        ("ldown", cat(vec![elect(0), app(0), put_all(0), vec![Do(0, Crash), Restart(0), LoseAll]])),
        // the leader restarted before telling anybody
        ("lost", cat(vec![elect(0), app(0), put(0), vec![LoseAll, Do(0, Crash), Restart(0), LoseAll]])),
        // a candidate is waiting for promises
        ("cand", cat(vec![elect(0), put_all(0), vec![Do(1, Lead), LoseAll]])),
        // a follower was only synchronised by the second leader
        ("late", cat(vec![vec![Isolate(2)], elect(0), app(0), put_all(0), elect(1), vec![HealAll]])),
    ];
    if x == Reconf {
        v.push(("done", cat(vec![elect(0), app(0), put_all(0)])));
    } else {
        v.push(("fresh", vec![]));
        v.push(("led", elect(0)));
        v.push(("two", cat(vec![elect(0), apps(0, 2)])));
    }
    v
}

/// Situations of five servers.
fn situations5() -> Vec<(&'static str, Vec<Step>)> {
    // links between the two groups are cut
    let split = |a: &[u8], b: &[u8]| -> Vec<Step> { a.iter().flat_map(|x| b.iter().map(move |y| Cut(*x, *y))).collect() };
    vec![
        ("acc", cat(vec![elect(0), app(0), vec![Do(0, Append), DeliverN(0, 1, 1), LoseAll]])),
        ("lag", cat(vec![elect(0), vec![Isolate(3), Isolate(4)], app(0), app(0), vec![HealAll]])),
        ("stale", cat(vec![elect(0), app(0), split(&[0, 1], &[2, 3, 4]), app(0), elect(2), app(2), vec![HealAll]])),
        ("over", cat(vec![elect(0), split(&[0, 1], &[2, 3, 4]), app(0), app(0), elect(2), vec![HealAll]])),
        // three different undecided logs
        ("div", cat(vec![elect(0), split(&[0], &[1, 2, 3, 4]), vec![Do(0, Append)], elect(1), split(&[1], &[2, 3, 4]), vec![Do(1, Append), LoseAll, HealAll]])),
        // a round in between whose leader has an entry that nobody else knows
        ("mid", cat(vec![elect(0), split(&[0, 1], &[2, 3, 4]), app(0), vec![Do(4, Lead), DeliverN(4, 2, 1), DeliverN(4, 3, 1), DeliverN(2, 4, 1), DeliverN(3, 4, 1), Do(4, Append), LoseAll, HealAll]])),
        // the majority decided without the group of the old leader, then one of them went down
        ("down", cat(vec![elect(0), split(&[0, 1], &[2, 3, 4]), app(0), elect(2), app(2), vec![Do(4, Crash), HealAll, Restart(4), LoseAll]])),
    ]
}

fn families(v: &mut Vec<Tagged>) {
    let mut q = |props: &'static str, sc: Scenario| {
        v.push(Tagged { sc, props, thorough: false })
    };
    for (n, pre) in situations(Append) {
        q("C01 C02 C03 C04 C06", Scenario::new(&format!("Sa-{n}"), m3()).init(pre.clone()).g(2, any(Lead)).g(1, any(Append)).g(1, reconns()).sync(1, 0));
        q("C01 C02 C03 C04 C06 C09 C19 C20", Scenario::new(&format!("Sb-{n}"), m3()).init(pre.clone()).g(1, any(Lead)).g(2, any(Append)).g(1, reconns()).sync(1, 0));
        q("C10 C06", Scenario::new(&format!("Sr-{n}"), m3()).init(pre.clone()).g(1, any(Lead)).g(1, any(Append)).g(1, reconns()).crash_ats(1).sync(1, 0).close(Closure::All));
        let mut c = sn(&[0, 1]);
        c.extend(at(&[0, 1], Snap(Some(2), false)));
        q("C07 C02 C09", Scenario::new(&format!("Ss-{n}"), m3()).init(pre.clone()).g(2, c.clone()).g(1, any(Lead)).g(1, at(&[0, 1], Append)).snaps().sync(1, 0).close(Closure::All));
        q("C07 C02 C09", Scenario::new(&format!("Su-{n}"), m3()).init(pre.clone()).g(1, c).g(1, any(Lead)).g(1, at(&[0, 1], Append)).g(1, reconns()).snaps().sync(1, 0).close(Closure::All));
        let mut c = tr(&[0, 1]);
        c.extend(at(&[0], Trim(Some(3))));
        q("C08 C02 C09", Scenario::new(&format!("St-{n}"), m3()).init(pre.clone()).g(2, c).g(1, any(Lead)).g(1, at(&[0, 1], Append)).g(1, reconns()).trims().sync(1, 0).close(Closure::All));
    }
    // ---- partial connectivity: every graph on 4 servers (one per mask of cut links)
    let pairs: Vec<(u8, u8)> = (0..4u8).flat_map(|a| (a + 1..4).map(move |b| (a, b))).collect();
    for mask in 1..64u32 {
        let mut pre = elect(0);
        pre.extend(pairs.iter().enumerate().filter(|(i, _)| mask >> i & 1 == 1).map(|(_, (a, b))| Cut(*a, *b)));
        let all = |k| at(&[0, 1, 2, 3], k);
        q("C12 C01 C06", Scenario::new(&format!("G4-{mask:02}"), Cfg::majority(4)).init(pre.clone()).g(2, all(Lead)).g(1, all(Append)).sync(1, 0).mends());
    }
    // ---- five servers
    for (n, pre) in situations5() {
        let m5 = || Cfg::majority(5);
        let rc: Vec<(u8, Kind)> = vec![(0, Reconn(2)), (1, Reconn(2)), (4, Reconn(2)), (2, Reconn(0)), (2, Reconn(4))];
        q("C01 C02 C06 C12 C20", Scenario::new(&format!("V-{n}"), m5()).init(pre.clone()).g(1, five(Lead)).g(1, at(&[0, 2], Append)).g(1, rc.clone()).sync(1, 0));
        q("C01 C02 C12", Scenario::new(&format!("W-{n}"), m5()).init(pre.clone()).g(2, five(Lead)).g(2, at(&[0, 2], Append)).sync(1, 0));
        q("C01 C06 C12", Scenario::new(&format!("Y-{n}"), m5()).init(pre.clone()).g(2, five(Lead)).g(1, at(&[0, 2, 4], Append)).cuts(2, 0).sync(0, 0));
        q("C01 C02 C04 C06", Scenario::new(&format!("Z-{n}"), m5()).init(pre.clone()).g(1, five(Lead)).g(1, at(&[0, 2], Append)).crash_ats(1).sync(1, 0));
    }
    // ---- five servers: an old message of each kind is still on its way, and a competing proposal is known to one server
    let votes = |l: u8, a: u8, b: u8| vec![Do(l, Lead), DeliverN(l, a, 1), DeliverN(l, b, 1), DeliverN(a, l, 1), DeliverN(b, l, 1)];
    let lose = |a: u8| (0..5u8).filter(|b| *b != a).map(|b| Lose(a, b)).collect::<Vec<_>>();
    let old: Vec<(&str, Vec<Step>)> = vec![
        // server 1's acknowledgement to server 0
        ("ack", cat(vec![elect(0), vec![Do(0, Append), DeliverN(0, 1, 1)], lose(0), votes(3, 2, 4), vec![Do(3, Append)], lose(3), vec![Do(0, Lead)], lose(0), vec![Slow(1, 0), Slow(0, 1)]])),
        // server 1's promise to server 0, which led without it
        ("prom", cat(vec![votes(0, 1, 2), vec![Do(0, Append)], lose(0), vec![Do(0, Lead), DeliverN(0, 1, 1)], lose(0), votes(3, 2, 4), vec![Do(3, Append)], lose(3), vec![Slow(1, 0), Slow(0, 1)]])),
        // what the first leader sent to server 1
        ("acc", cat(vec![elect(0), vec![Do(0, Append), Lose(0, 2), Lose(0, 3), Lose(0, 4)], votes(3, 2, 4), vec![Do(3, Append)], lose(3), vec![Do(0, Lead), Lose(0, 2), Lose(0, 3), Lose(0, 4), Slow(0, 1), Slow(1, 0)]])),
        // the first leader's synchronisation of server 1
        ("sync", cat(vec![vec![Do(0, Lead), DeliverN(0, 1, 1), DeliverN(0, 2, 1), DeliverN(1, 0, 1), DeliverN(2, 0, 1), Do(0, Append), Lose(0, 2), Lose(0, 3), Lose(0, 4)], votes(3, 2, 4), vec![Do(3, Append)], lose(3), vec![Do(0, Lead), Lose(0, 2), Lose(0, 3), Lose(0, 4), Slow(0, 1), Slow(1, 0)]])),
    ];
    for (n, pre) in old {
        q("C01 C02 C06 C12", Scenario::new(&format!("U-{n}"), Cfg::majority(5)).init(pre.clone()).g(1, five(Lead)).g(1, at(&[0, 1], Append)).sync(1, 0));
        q("C01 C02 C06 C12", Scenario::new(&format!("Uf-{n}"), Cfg::majority(5)).init(pre.clone()).g(1, five(Lead)).sync(2, 0));
    }
    // ---- histories of whole rounds
    let wr = [None, Some(Append)];
    q("C01 C02 C04 C06 C12", Scenario::new("R5", Cfg::majority(5)).rounds(3, &wr, &[2]));
    q("C01 C02 C04 C06 C12", Scenario::new("R4", Cfg::majority(4)).rounds(3, &wr, &[0, 1, 2]));
    q("C01 C02 C04 C06 C12", Scenario::new("R3", m3()).rounds(4, &wr, &[0, 1, 2]));
    for (n, pre) in situations5() {
        q("C01 C02 C06 C12", Scenario::new(&format!("R5-{n}"), Cfg::majority(5)).init(pre.clone()).rounds(2, &wr, &[0, 1, 2]));
    }
    for (n, pre) in situations(Append) {
        q("C01 C02 C03 C06 C09 C20", Scenario::new(&format!("R3-{n}"), m3()).init(pre.clone()).rounds(3, &wr, &[0, 1, 2]));
        q("C04 C06 C02", Scenario::new(&format!("R3c-{n}"), m3()).init(pre.clone()).rounds(2, &wr, &[0, 1, 2]).g(2, any(Crash)));
        q("C10", Scenario::new(&format!("R3r-{n}"), m3()).init(pre.clone()).rounds(2, &wr, &[0, 2]).close(Closure::All).minority());
        q("C13", Scenario::new(&format!("R3b-{n}"), batch(2)).init(pre.clone()).rounds(2, &[None, Some(Append), Some(Tick)], &[0, 2]).close(Closure::All).minority());
        q("C07 C09", Scenario::new(&format!("R3s-{n}"), m3()).init(pre.clone()).rounds(2, &[Some(Append), Some(Snap(None, true)), Some(Snap(Some(1), true)), Some(Snap(None, false))], &[0, 2]).snaps().close(Closure::All));
        q("C08 C09", Scenario::new(&format!("R3t-{n}"), m3()).init(pre.clone()).rounds(2, &[Some(Append), Some(Trim(None)), Some(Trim(Some(1)))], &[0, 2]).trims().close(Closure::All));
    }
    for (n, pre) in situations(Reconf) {
        q("C05 C02 C06 C09", Scenario::new(&format!("R3x-{n}"), m3()).init(pre.clone()).rounds(2, &[None, Some(Append), Some(Reconf)], &[0, 1, 2]).close(Closure::All));
        q("C05 C20", Scenario::new(&format!("R3y-{n}"), m3()).init(pre.clone()).rounds(3, &[None, Some(Append)], &[0, 2]));
    }
    // ---- batching
    for (n, pre) in situations(Append) {
        q("C13", Scenario::new(&format!("Sq-{n}"), batch(2)).init(pre.clone()).g(1, any(Lead)).g(2, at(&[0, 1], Append)).g(1, any(Tick)).g(1, at(&[0], Reconf)).sync(0, 0).close(Closure::All));
        q("C13", Scenario::new(&format!("So-{n}"), batch(2)).init(pre.clone()).g(1, any(Lead)).g(2, at(&[0, 1], Append)).g(1, any(Tick)).sync(1, 0).close(Closure::All));
        q("C13 C06", Scenario::new(&format!("Sp-{n}"), batch(3)).init(pre.clone()).g(1, any(Lead)).g(2, at(&[0, 1], Append)).g(1, any(Tick)).g(1, reconns()).crash_ats(1).sync(0, 0).close(Closure::All));
    }
    // entries waiting in somebody's batch, and messages that the leader sends later, merged
    let flushed = |i: u8, k: usize| cat(vec![(0..k).map(|_| Do(i, Append)).collect(), vec![Do(0, Tick), Deliver]]);
    for (n, b, pre) in [
        ("half", 2usize, cat(vec![elect(0), flushed(0, 1)])),
        ("half1", 2, cat(vec![elect(0), apps(0, 2), flushed(0, 1)])),
        ("third", 3, cat(vec![elect(0), flushed(0, 1)])),
        ("thirds", 3, cat(vec![elect(0), flushed(0, 2)])),
        ("own", 2, cat(vec![elect(0), apps(0, 3)])),
    ] {
        q("C13", Scenario::new(&format!("Bh-{n}"), batch(b)).init(pre.clone()).g(if b == 2 { 2 } else { 3 }, at(&[0], Append)).g(2, any(Tick)).holds(3).on(&[0]).close(Closure::All).minority());
        q("C13", Scenario::new(&format!("Bi-{n}"), batch(b)).init(pre.clone()).g(2, at(&[0], Append)).g(1, any(Tick)).g(1, at(&[0], Reconf)).holds(1).on(&[0]).close(Closure::All).minority());
    }
    for f in [2u64, 3] {
        for b in [2usize, 4] {
            let c = Cfg { flush: f, ..batch(b) };
            q("C13", Scenario::new(&format!("M-flush{f}-{b}"), c.clone()).init(elect(0)).g(3, at(&[0, 1], Append)).g(2 * f as u8, at(&[0, 1], Tick)).sync(1, 0).close(Closure::All));
            q("C13", Scenario::new(&format!("F-flush{f}-{b}"), c).init(elect(0)).g(2, at(&[0, 1], Append)).g(f as u8, at(&[0], Tick)).ff());
        }
    }
    // ---- messages are sent again only at every second or third tick
    for (n, pre) in situations(Append) {
        if ["cand", "acc", "lag", "fdown"].contains(&n) {
            for r in [2u64, 3] {
                let c = Cfg { resend: r, ..m3() };
                q("C10", Scenario::new(&format!("Sn{r}-{n}"), c).init(pre.clone()).g(1, any(Lead)).g(2, any(Tick)).g(1, any(Append)).drops(1).sync(1, 0).close(Closure::All));
            }
        }
    }
    // ---- server ids with gaps
    let gap = || Cfg { pids: vec![2, 5, 9], ..m3() };
    for (n, pre) in situations(Append) {
        if ["stale", "lag", "fdown", "led", "two"].contains(&n) {
            q("C01 C02 C03 C04 C06 C12 C17 C19 C20", Scenario::new(&format!("N-{n}"), gap()).init(pre.clone()).g(1, any(Lead)).g(2, any(Append)).g(1, reconns()).sync(1, 0));
            q("C10", Scenario::new(&format!("Nr-{n}"), gap()).init(pre.clone()).g(1, any(Lead)).g(1, any(Append)).crash_ats(1).sync(1, 0).close(Closure::All));
            q("C08", Scenario::new(&format!("Nt-{n}"), gap()).init(pre.clone()).g(1, tr(&[0, 1, 2])).g(1, any(Lead)).g(1, at(&[0, 1], Append)).trims().sync(1, 0).close(Closure::All));
            q("C07", Scenario::new(&format!("Ns-{n}"), gap()).init(pre.clone()).g(1, sn(&[0, 1, 2])).g(1, any(Lead)).g(1, at(&[0, 1], Append)).snaps().sync(1, 0).close(Closure::All));
        }
    }
    // ---- fetching: messages pile up in a server and are fetched into a non-empty buffer
    let pf = || Cfg { prefill: true, ..m3() };
    for (n, pre) in situations(Append) {
        q("C17 C01", Scenario::new(&format!("Sf-{n}"), pf()).init(pre.clone()).g(1, any(Lead)).g(2, any(Append)).g(2, reconns()).holds(3).sync(0, 0));
    }
    q("C17 C03", Scenario::new("F-any", m3()).g(1, any(Lead)).g(2, any(Append)).ff().max(1_000_000));
    q("C17 C03", Scenario::new("F-any-hold", pf()).g(1, at(&[0], Lead)).g(2, any(Append)).holds(2).ff().max(1_000_000));
    q("C17 C03", Scenario::new("F-led-hold", pf()).init(elect(0)).g(2, any(Append)).holds(2).ff().max(1_000_000));
    q("C17 C03", Scenario::new("M-ff", m3()).g(1, any(Lead)).g(3, any(Append)).holds(2).sync(1, 0).ff());
    for (n, pre) in situations(Reconf) {
        q("C05 C02 C06 C09", Scenario::new(&format!("Sx-{n}"), m3()).init(pre.clone()).g(1, any(Lead)).g(1, any(Append)).g(1, any(Reconf)).g(1, reconns()).sync(1, 0).close(Closure::All));
        q("C05 C06 C02", Scenario::new(&format!("Sy-{n}"), m3()).init(pre.clone()).g(2, any(Lead)).g(1, any(Append)).crash_ats(1).sync(1, 0));
    }
    // ---- compaction around a stop-sign
    let ss_situations = || {
        let mut s = situations(Reconf);
        s.push(("one", cat(vec![elect(0), vec![Do(0, Reconf), Deliver]])));
        s.push(("long", cat(vec![elect(0), apps(0, 2), vec![Isolate(2)], app(0), vec![Do(0, Reconf), Deliver, HealAll]])));
        s
    };
    for (n, pre) in ss_situations() {
        let mut c = sn(&[0, 1]);
        c.extend(at(&[0, 1, 2], Snap(Some(2), false)));
        q("C05 C07 C02 C09", Scenario::new(&format!("Xs-{n}"), m3()).init(pre.clone()).g(2, c.clone()).g(1, any(Lead)).g(1, at(&[0], Append)).snaps().sync(1, 0).close(Closure::All));
        q("C05", Scenario::new(&format!("Xu-{n}"), m3()).init(pre.clone()).g(1, c.clone()).g(1, any(Lead)).g(1, at(&[0, 1], Reconf)).g(1, reconns()).snaps().sync(1, 0).close(Closure::All));
        q("C05 C07 C06", Scenario::new(&format!("Xv-{n}"), m3()).init(pre.clone()).g(1, c).g(1, any(Lead)).crash_ats(1).snaps().sync(0, 0).close(Closure::All));
        let mut c = tr(&[0, 1]);
        c.extend(at(&[0], Trim(Some(3))));
        q("C05 C08 C02 C09", Scenario::new(&format!("Xt-{n}"), m3()).init(pre.clone()).g(2, c.clone()).g(1, any(Lead)).g(1, reconns()).trims().sync(1, 0).close(Closure::All));
        q("C05 C08 C06", Scenario::new(&format!("Xw-{n}"), m3()).init(pre.clone()).g(1, c).g(1, any(Lead)).crash_ats(1).trims().sync(0, 0).close(Closure::All));
    }
    // ---- compaction with crashes, batches and five servers
    for (n, pre) in situations(Append) {
        q("C08 C06", Scenario::new(&format!("Sv-{n}"), m3()).init(pre.clone()).g(1, tr(&[0, 1, 2])).g(1, any(Lead)).g(1, at(&[0, 1], Append)).crash_ats(1).trims().sync(0, 0).close(Closure::All));
        q("C07 C06", Scenario::new(&format!("Sw-{n}"), m3()).init(pre.clone()).g(1, sn(&[0, 1, 2])).g(1, any(Lead)).g(1, at(&[0, 1], Append)).crash_ats(1).snaps().sync(0, 0).close(Closure::All));
        q("C07 C13", Scenario::new(&format!("Bs-{n}"), batch(2)).init(pre.clone()).g(1, sn(&[0, 1])).g(1, any(Lead)).g(2, at(&[0, 1], Append)).g(1, at(&[0, 1], Tick)).snaps().sync(0, 0).close(Closure::All));
        q("C08 C13", Scenario::new(&format!("Bt-{n}"), batch(2)).init(pre.clone()).g(1, tr(&[0, 1])).g(1, any(Lead)).g(2, at(&[0, 1], Append)).g(1, at(&[0, 1], Tick)).trims().sync(0, 0).close(Closure::All));
    }
    for (n, pre) in situations5() {
        let m5 = || Cfg::majority(5);
        q("C07", Scenario::new(&format!("Vs-{n}"), m5()).init(pre.clone()).g(1, sn(&[0, 2, 4])).g(1, five(Lead)).g(1, at(&[0, 2], Append)).snaps().sync(0, 0).close(Closure::All));
        q("C08", Scenario::new(&format!("Vt-{n}"), m5()).init(pre.clone()).g(1, tr(&[0, 2])).g(1, five(Lead)).g(1, at(&[0, 2], Append)).trims().sync(0, 0).close(Closure::All));
    }
}

fn quick(v: &mut Vec<Tagged>) {
    let mut q = |props: &'static str, sc: Scenario| {
        v.push(Tagged { sc, props, thorough: false })
    };
    // ---- large ones first, for load balance
    q("C01 C02 C03 C04 C06", Scenario::new("M-lead2-f2", m3()).init(elect(0)).g(2, any(Lead)).g(2, at(&[0, 1], Append)).sync(2, 0));
    q(SAFE, Scenario::new("M-lead3", m3()).g(3, any(Lead)).g(2, any(Append)).sync(1, 0));
    q("C01 C02 C03 C04 C06 C12", Scenario::new("M-node", m3()).init(elect(0)).g(2, any(Lead)).g(2, at(&[0, 1], Append)).sync(0, 1).max(1_500_000));
    q(SAFE, Scenario::new("M-crash", m3()).init(elect(0)).g(2, any(Lead)).g(1, at(&[0, 1], Append)).crash_ats(1).g(1, at(&[0], Crash)).sync(1, 0).max(1_500_000));
    q(SAFE, Scenario::new("M-crash2", m3()).init(elect(0)).g(1, any(Lead)).g(3, at(&[0, 1], Append)).crash_ats(1).sync(1, 0).max(1_500_000));
    // ---- full interleaving of all deliveries
    q(SAFE, Scenario::new("F-elect2", m3()).g(1, at(&[0], Lead)).g(1, at(&[1], Lead)).g(1, at(&[0], Append)));
    q(SAFE, Scenario::new("F-elect2-late", m3()).init(cat(vec![elect(0), app(0)])).g(1, at(&[1], Lead)).g(1, at(&[2], Lead)));
    q("C01 C03 C17 C13", Scenario::new("F-repl", m3()).init(elect(0)).g(2, at(&[0], Append)).g(1, at(&[1], Append)).ff());
    q(SAFE, Scenario::new("F-change", m3()).init(cat(vec![elect(0), app(0)])).g(1, at(&[1], Lead)).g(1, at(&[0], Append)).drops(1));
    q(SAFE, Scenario::new("F-crash", m3()).init(elect(0)).g(1, at(&[0], Append)).g(1, at(&[1], Lead)).crash_ats(1));
    // ---- macro steps
    q(SAFE, Scenario::new("M-drop", m3()).init(elect(0)).g(1, any(Lead)).g(3, at(&[0, 1], Append)).drops(2).sync(1, 0));
    q(SAFE, Scenario::new("M-cut", m3()).init(elect(0)).g(2, any(Lead)).g(2, any(Append)).cuts(2, 2).sync(0, 0));
    q(SAFE, Scenario::new("M-hold", m3()).init(vec![Do(0, Lead), DeliverN(0, 1, 1), DeliverN(0, 2, 1), DeliverN(1, 0, 1), DeliverN(2, 0, 1), Lose(0, 1), Deliver])
        .g(3, at(&[0], Append)).g(1, at(&[1], Tick)).holds(2).on(&[0]).sync(1, 0));
    q(SAFE, Scenario::new("M-reconn", m3()).init(cat(vec![elect(0), app(0)])).g(2, at(&[0, 1], Append)).g(2, vec![(0, Reconn(1)), (1, Reconn(0)), (2, Reconn(0)), (1, Reconn(2))]).g(1, any(Tick)).sync(1, 0));
    // ---- recovery
    q("C10", Scenario::new("M-rec-crash2", m3()).init(cat(vec![elect(0), app(0)])).g(2, any(Crash)).g(1, any(Lead)).g(1, at(&[0, 1], Append)).sync(1, 0).close(Closure::All));
    q("C10", Scenario::new("M-rec-tick", m3()).g(2, any(Lead)).g(1, at(&[0, 1], Append)).g(1, any(Tick)).drops(1).sync(1, 0).close(Closure::All));
    q("C10", Scenario::new("M-rec-slow", m3()).g(1, at(&[0, 1], Lead)).g(2, at(&[0, 1], Append)).g(2, any(Tick)).sync(1, 0).close(Closure::All));
    q("C10", Scenario::new("M-rec-slow2", m3()).init(elect(0)).g(1, any(Lead)).g(2, at(&[0, 1], Append)).g(1, any(Tick)).g(1, reconns()).sync(1, 0).close(Closure::All));
    q("C10", Scenario::new("M-rec-minor", m3()).init(elect(0)).g(1, any(Lead)).g(1, any(Append)).cuts(2, 1).sync(0, 0).close(Closure::All).minority());
    q("C10", Scenario::new("M-rec-drop", m3()).init(elect(0)).g(1, any(Lead)).g(2, at(&[0, 1], Append)).drops(1).sync(1, 0).close(Closure::All));
    q("C10 C06", Scenario::new("M-rec-crash", m3()).init(elect(0)).g(1, any(Lead)).g(2, at(&[0, 1], Append)).crash_ats(1).sync(1, 0).close(Closure::All));
    q("C10", Scenario::new("M-rec-cut", m3()).init(elect(0)).g(1, any(Lead)).g(2, at(&[0, 1], Append)).cuts(2, 1).sync(0, 0).close(Closure::All));
    // ---- stop-sign
    q("C05 C01 C02 C03 C06 C09 C10 C19 C20", Scenario::new("M-ss", m3()).init(elect(0)).g(1, any(Lead)).g(2, any(Reconf)).g(1, at(&[0, 1], Append)).sync(1, 0).close(Closure::All));
    q("C05 C01 C02 C06 C09 C19", Scenario::new("M-ss-lead2", m3()).init(elect(0)).g(2, any(Lead)).g(1, at(&[0, 1], Reconf)).g(1, at(&[0, 1], Append)).sync(1, 0));
    q("C05 C02 C06", Scenario::new("M-ss-crash", m3()).init(elect(0)).g(1, any(Lead)).g(1, any(Reconf)).g(1, at(&[0, 1], Append)).crash_ats(1).sync(1, 0).close(Closure::All));
    q("C05 C10", Scenario::new("M-ss-drop", m3()).init(elect(0)).g(1, any(Lead)).g(1, any(Reconf)).g(1, at(&[0], Append)).g(1, any(Tick)).drops(1).sync(1, 0).close(Closure::All));
    // ---- snapshots
    q("C07 C01 C02 C09 C19 C20", Scenario::new("M-snap", m3()).init(elect(0)).g(3, at(&[0], Append)).g(2, sn(&[0, 1])).g(1, any(Lead)).snaps().sync(1, 0));
    q("C07 C02 C09 C19", Scenario::new("M-snap-cut", m3()).init(cat(vec![elect(0), app(0)])).g(1, at(&[0, 1], Append)).g(2, sn(&[0, 1, 2])).g(1, any(Lead)).cuts(2, 1).snaps().sync(0, 0).close(Closure::All));
    q("C07 C02 C06 C09", Scenario::new("M-snap-crash", m3()).init(cat(vec![elect(0), app(0)])).g(1, at(&[0, 1], Append)).g(1, sn(&[0, 1, 2])).g(1, any(Lead)).crash_ats(1).snaps().sync(1, 0).close(Closure::All));
    q("C07 C06", Scenario::new("M-snap-crash2", m3()).init(cat(vec![elect(0), apps(0, 2)])).g(1, at(&[0, 1], Append)).g(2, sn(&[0, 1])).g(1, at(&[1], Lead)).crash_ats(1).snaps().sync(0, 0).close(Closure::All));
    // ---- trim
    q("C08 C01 C02 C09 C19 C20", Scenario::new("M-trim", m3()).init(elect(0)).g(2, at(&[0], Append)).g(1, tr(&[0, 1])).g(1, any(Lead)).sync(1, 0).trims().close(Closure::All));
    q("C08 C02 C06", Scenario::new("M-trim-lead2", m3()).init(elect(0)).g(1, at(&[0], Append)).g(1, tr(&[0])).g(2, any(Lead)).sync(1, 0).trims().close(Closure::All));
    // ---- batching
    q("C13 C03 C06 C20", Scenario::new("M-batch2", batch(2)).init(elect(0)).g(3, at(&[0, 1], Append)).g(2, any(Tick)).sync(1, 0).close(Closure::All));
    q("C13 C01 C03 C06", Scenario::new("M-batch3-lead", batch(3)).init(elect(0)).g(3, at(&[0, 1], Append)).g(1, any(Tick)).g(1, any(Lead)).sync(1, 0).close(Closure::All));
    q("C13", Scenario::new("M-batch2-ss", batch(2)).init(elect(0)).g(2, at(&[0, 1], Append)).g(1, any(Tick)).g(1, at(&[0, 1], Reconf)).g(1, any(Lead)).sync(1, 0).close(Closure::All));
    q("C13", Scenario::new("M-batch2-minor", batch(2)).init(elect(0)).g(2, any(Append)).g(1, any(Tick)).g(1, any(Lead)).sync(0, 0).close(Closure::All).minority());
    q("C13", Scenario::new("M-batch3-minor", batch(3)).init(elect(0)).g(3, at(&[0, 1], Append)).g(2, at(&[0, 1], Tick)).cuts(1, 0).sync(0, 0).close(Closure::All).minority());
    q("C13", Scenario::new("F-batch2", batch(2)).init(elect(0)).g(2, at(&[0], Append)).g(1, at(&[1], Append)).g(1, any(Tick)).ff());
    // ---- quorums
    for (n, r, w) in [(3, 3, 2), (3, 2, 2)] {
        q("C12 C01 C06", Scenario::new(&format!("M-flex{n}{r}{w}"), flex(n, r, w)).g(2, at(&[0, 1], Lead)).g(2, at(&[0, 1], Append)).sync(0, 1));
    }
    for (n, r, w) in [(4, 3, 2), (4, 3, 3), (5, 4, 2), (5, 3, 3)] {
        let last = n as u8 - 1;
        q("C12 C01 C06", Scenario::new(&format!("M-flex{n}{r}{w}"), flex(n, r, w)).init(elect(0)).g(1, at(&[1, last], Lead)).g(1, at(&[0, 1], Append)).sync(0, 1));
        q("C12 C01 C06", Scenario::new(&format!("M-flexcut{n}{r}{w}"), flex(n, r, w)).init(elect(0)).g(1, at(&[1, last], Lead)).g(2, at(&[0, 1, last], Append)).cuts(if n == 4 { 3 } else { 2 }, 0).sync(0, 0));
    }
    // ---- elections by heartbeats, taking place in the middle of everything else
    for (n, pre) in situations(Append) {
        q("C01 C02 C03 C04 C12 C20", Scenario::new(&format!("Hs-{n}"), hb()).init(pre.clone()).g(5, beats()).g(1, any(Append)).sync(0, 0));
        if ["fresh", "led", "own"].contains(&n) {
            q("C01 C02 C04", Scenario::new(&format!("Hc-{n}"), hb()).init(pre.clone()).g(4, beats()).g(1, any(Crash)).g(1, any(Append)).sync(0, 0));
            q("C04 C12", Scenario::new(&format!("Hp-{n}"), hb()).init(pre.clone()).g(4, beats()).g(1, prios()).g(1, any(Lead)).sync(0, 0));
        }
    }
}

fn thorough(v: &mut Vec<Tagged>) {
    let mut q = |props: &'static str, sc: Scenario| {
        v.push(Tagged { sc, props, thorough: true })
    };
    // (kept small in the quick runs)
    for (n, pre) in situations(Append) {
        q("C01 C02 C03 C04 C20", Scenario::new(&format!("T-Hf-{n}"), hb()).init(pre.clone()).g(5, beats()).sync(1, 0).max(8_000_000));
        q("C01 C02 C04", Scenario::new(&format!("T-Hc-{n}"), hb()).init(pre.clone()).g(4, beats()).g(1, any(Crash)).g(1, any(Append)).sync(0, 0));
        q("C01 C04 C12", Scenario::new(&format!("T-Hp-{n}"), hb()).init(pre.clone()).g(4, beats()).g(1, prios()).g(1, any(Lead)).sync(0, 0));
    }
    let wr = [None, Some(Append)];
    q("C01 C02 C04 C06 C12", Scenario::new("T-R5", Cfg::majority(5)).rounds(3, &wr, &[0, 1, 2]));
    q("C01 C12", Scenario::new("T-R5a", Cfg::majority(5)).rounds(4, &wr[1..], &[2]));
    q("C01 C02 C04 C06 C12", Scenario::new("T-R3", m3()).rounds(5, &wr, &[0, 2]));
    q("C01 C02 C04 C06 C12", Scenario::new("T-R4", Cfg::majority(4)).rounds(4, &wr, &[0, 2]));
    for (n, pre) in situations5() {
        let m5 = || Cfg::majority(5);
        q("C01 C02 C06 C12", Scenario::new(&format!("T-V-{n}"), m5()).init(pre.clone()).g(2, five(Lead)).g(2, at(&[0, 2], Append)).g(1, vec![(0, Reconn(2)), (1, Reconn(2)), (4, Reconn(2)), (2, Reconn(0)), (2, Reconn(4))]).sync(1, 0).max(8_000_000));
        q("C01 C02 C06 C12", Scenario::new(&format!("T-W-{n}"), m5()).init(pre.clone()).g(2, five(Lead)).g(1, at(&[0, 2], Append)).sync(2, 0).max(8_000_000));
        q("C01 C06 C12", Scenario::new(&format!("T-Y-{n}"), m5()).init(pre.clone()).g(2, five(Lead)).g(2, at(&[0, 2, 4], Append)).cuts(2, 0).sync(0, 0).max(8_000_000));
        q("C01 C02 C12", Scenario::new(&format!("T-X-{n}"), m5()).init(pre.clone()).g(1, five(Lead)).g(1, at(&[0, 2], Append)).sync(0, 1).max(8_000_000));
    }
    for (n, r, w) in [(3, 3, 2), (3, 2, 2), (4, 3, 2), (4, 3, 3), (5, 4, 2), (5, 3, 3)] {
        q("C12 C01 C06", Scenario::new(&format!("T-flex{n}{r}{w}"), flex(n, r, w)).g(2, at(&[0, 1], Lead)).g(2, at(&[0, 1], Append)).sync(1, 1).max(5_000_000));
    }
    q("C01 C02 C03 C04 C06 C12", Scenario::new("T-node", m3()).init(elect(0)).g(2, any(Lead)).g(2, any(Append)).sync(0, 1).max(8_000_000));
    q("C01 C02 C03 C04 C06 C12", Scenario::new("T-crash", m3()).g(2, any(Lead)).g(2, at(&[0, 1], Append)).crash_ats(1).g(1, any(Crash)).sync(1, 0).max(8_000_000));
    q("C01 C02 C03 C04 C06", Scenario::new("T-lead2-f2", m3()).init(elect(0)).g(2, any(Lead)).g(2, at(&[0, 1], Append)).sync(2, 0).max(8_000_000));
    q("C01 C02 C03 C04 C06", Scenario::new("T-elect3", m3()).g(1, at(&[0], Lead)).g(1, at(&[1], Lead)).g(1, at(&[2], Lead)).g(1, at(&[0], Append)).max(8_000_000));
    q("C07 C02 C09", Scenario::new("T-snap-cut", m3()).init(cat(vec![elect(0), app(0)])).g(2, at(&[0, 1], Append)).g(2, sn(&[0, 1, 2])).g(1, any(Lead)).cuts(2, 1).snaps().sync(0, 0).close(Closure::All));
    for (n, pre) in situations5() {
        let m5 = || Cfg::majority(5);
        q("C07", Scenario::new(&format!("T-Vs-{n}"), m5()).init(pre.clone()).g(1, sn(&[0, 2, 4])).g(1, five(Lead)).g(1, at(&[0, 2], Append)).snaps().sync(1, 0).close(Closure::All));
        q("C08", Scenario::new(&format!("T-Vt-{n}"), m5()).init(pre.clone()).g(1, tr(&[0, 2])).g(1, five(Lead)).g(1, at(&[0, 2], Append)).trims().sync(1, 0).close(Closure::All));
    }
    q("C13", Scenario::new("T-batch2-ss", batch(2)).init(elect(0)).g(2, at(&[0, 1], Append)).g(1, any(Tick)).g(1, any(Reconf)).g(1, any(Lead)).sync(1, 0).close(Closure::All));
}
