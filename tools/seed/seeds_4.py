# The dashboard.
UI = "omnipaxos_ui/src/lib.rs"
RENDER = "omnipaxos_ui/src/render.rs"
DASH = {
    "Cargo.lock": None,
    "deps": 'omnipaxos_ui = { path = "@REPO@/omnipaxos_ui" }\nlibc = "0.2"\nunicode-width = "0.1"\n',
    "features": ', "logging"',
    "dash.rs": open(f"{here}/dash.rs").read(),
    "term.rs": open(f"{here}/term.rs").read(),
}
seed("s46-dashboard-stale-progress", "C21",
  [(UI, "                    self.app.followers_accepted_idx[idx] = accepted_idx;\n", "                    if accepted_idx > 0 {\n                        self.app.followers_accepted_idx[idx] = accepted_idx;\n                    }\n")],
  '''
mod dash;
mod term;
use dash::*;
fn main() {
    on_terminal(|| {
        let mut c = config(3);
        c.server_config.election_tick_timeout = 1000;
        c.server_config.custom_logger = Some(omnipaxos_ui::OmniPaxosUI::logger());
        let mut s: Sim<E> = Sim::with(c.clone());
        c.server_config.pid = 1;
        let mut d = Dash::new(c);
        s.lead(1);
        s.deliver();
        s.append(1, 10);
        s.append(1, 11);
        s.deliver();
        d.tick(s.op(1).get_ui_states());
        assert_eq!(d.row(3).get(3).map(|x| x.as_str()), Some("2"));
        // server 2 takes over, then server 1 again; server 3 is not reachable any more
        s.lead(2);
        s.deliver();
        d.tick(s.op(1).get_ui_states());
        s.cut(1, 3);
        s.cut(2, 3);
        s.lead(1);
        s.deliver();
        let st = s.op(1).get_ui_states();
        assert_eq!(st.cluster_state.accepted_indexes[3], 0);
        d.tick(st);
        assert_eq!(d.after("Role:"), "Leader");
        assert_eq!(d.row(2).get(3).map(|x| x.as_str()), Some("2"));
        assert_eq!(d.row(3).get(3).map(|x| x.as_str()), Some("0"), "the leader has no acknowledgement of server 3");
    });
}
''',
  "a server that leads again while a follower has not acknowledged anything in its new ballot",
  "the dashboard shows what the follower acknowledged to an earlier leader ballot", DASH)

seed("s47-dashboard-isolated", "C21",
  [(UI, "    fn update_active_peers(&mut self, op_states: &OmniPaxosStates) {\n", "    fn update_active_peers(&mut self, op_states: &OmniPaxosStates) {\n        if op_states.cluster_state.heartbeats.is_empty() {\n            // no heartbeat round has ended yet\n            return;\n        }\n")],
  '''
mod dash;
mod term;
use dash::*;
fn main() {
    on_terminal(|| {
        let mut c = config(3);
        c.server_config.election_tick_timeout = 1;
        c.server_config.custom_logger = Some(omnipaxos_ui::OmniPaxosUI::logger());
        let mut s: Sim<E> = Sim::with(c.clone());
        s.ble = true;
        c.server_config.pid = 1;
        let mut d = Dash::new(c);
        for _ in 0..4 {
            for i in 1..=3 {
                s.tick(i);
            }
            s.deliver();
        }
        d.tick(s.op(1).get_ui_states());
        assert_eq!(d.row(2)[0], "\\u{2705}");
        assert_eq!(d.row(3)[0], "\\u{2705}");
        // server 1 is isolated
        s.cut(1, 2);
        s.cut(1, 3);
        for _ in 0..4 {
            for i in 1..=3 {
                s.tick(i);
            }
            s.deliver();
        }
        d.tick(s.op(1).get_ui_states());
        assert_eq!(d.row(2)[0], "\\u{274C}", "server 2 is not reachable");
        assert_eq!(d.row(3)[0], "\\u{274C}", "server 3 is not reachable");
    });
}
''',
  "a server that loses all its peers at once",
  "the dashboard of an isolated server shows its peers as connected, with their last ballots and leaders", DASH)

seed("s48-dashboard-progress-order", "C21",
  [(RENDER, "                app.followers_progress[node_id.pid as usize],\n", "                app.followers_progress[1 + app\n                    .nodes\n                    .iter()\n                    .position(|n| n.pid == node_id.pid)\n                    .unwrap()],\n")],
  '''
mod dash;
mod term;
use dash::*;
fn main() {
    on_terminal(|| {
        let mut c = config(3);
        c.cluster_config.nodes = vec![2, 4, 5];
        c.server_config.election_tick_timeout = 1000;
        c.server_config.custom_logger = Some(omnipaxos_ui::OmniPaxosUI::logger());
        let mut s: Sim<E> = Sim::with(c.clone());
        c.server_config.pid = 2;
        let mut d = Dash::new(c);
        s.lead(2);
        s.deliver();
        s.append(2, 10);
        s.deliver();
        d.tick(s.op(2).get_ui_states());
        assert_eq!(d.row(4)[3..5], ["1", "100%"]);
        assert_eq!(d.row(5)[3..5], ["1", "100%"]);
    });
}
''',
  "server identifiers that are not 1, 2, 3, …",
  "the leader's dashboard shows the progress of the wrong servers", DASH)

seed("s49-trim-others-further", "C08",
  [("omnipaxos/src/sequence_paxos/mod.rs", "                        let msg = PaxosMsg::Compaction(Compaction::Trim(trimmed_idx));", "                        // everybody has this much\n                        let msg = PaxosMsg::Compaction(Compaction::Trim(min_all_accepted_idx));")],
  '''
fn main() {
    let mut c = config(3);
    c.server_config.election_tick_timeout = 1000;
    let mut s: Sim<E> = Sim::with(c);
    s.lead(1);
    s.deliver();
    for v in [10, 11, 12] {
        s.append(1, v);
        s.deliver();
    }
    s.op(1).trim(Some(1)).unwrap();
    s.pump(1);
    s.deliver();
    for i in 1..=3 {
        assert_eq!(s.op(i).get_compacted_idx(), 1, "server {i}");
        match s.op(i).read(1) {
            Some(omnipaxos::util::LogEntry::Decided(E(11))) => (),
            x => panic!("server {i} has {x:?} at index 1, which nobody trimmed"),
        }
    }
}
''',
  "a trim below what every server has accepted",
  "the other servers trim entries that nobody asked to trim")
