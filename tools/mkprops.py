import json
SP="omnipaxos/src/sequence_paxos/"
def P(id,title,st,over,qt,why,files,mech,state=None,obs=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=hook
    return {"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a}
HK="state digest only: cfg(omnipaxos_mc) derives Debug on the server's internal structs so that equal states can be merged; verdicts use the public API only"
ps=[
P("C01","Agreement: no two servers decide different values at a log position",
 "If one server reports position i of the log as decided with some value (a client entry or the reconfiguration stop-sign), every server that ever reports position i as decided reports that same value, at any later or earlier time. This holds whatever messages are delayed or lost, however leaders compete, and whichever servers crash and recover from their storage.",
 ["schedules","fault_sequences","crash_points","histories"],"all message delivery orders (FIFO per link), losses, link cuts, competing leaders, crashes and restarts, server API calls",
 "The tests run a handful of wall-clock schedules on kompact; in this sandbox only 15 tests (mostly of the LFU cache) run at all. Agreement is a statement about all interleavings of concurrent ballots and of recovery.",
 [SP+"leader.rs",SP+"follower.rs",SP+"mod.rs","omnipaxos/src/storage/internal_storage.rs","omnipaxos/src/util.rs"],
 [("prepare phase adopts the log of the highest accepted round",SP+"leader.rs handle_majority_promises; util.rs LeaderState::set_promise"),("followers reject lower ballots and out-of-sequence accepts",SP+"follower.rs check_valid_ballot, handle_sequence_num"),("log synchronisation overwrites only the non-common suffix",SP+"leader.rs send_accsync; mod.rs create_log_sync; internal_storage.rs sync_log"),("an index is decided only when an accept quorum reported it","util.rs LeaderState::is_chosen; leader.rs handle_accepted")],
 [("decided_idx","length of the decided log","storage"),("accepted_round","ballot in which the log was last synchronised","storage")],
 ["OmniPaxos::get_decided_idx","read_entries","read_decided_suffix"],HK),
P("C02","Decided log is stable: never shrinks or changes, even across restarts",
 "Once a server has reported an index as decided it never reports a smaller decided index, and the decided values (read as entries, as part of a snapshot, or as trimmed) never change, through leader changes, log synchronisation, compaction, and crash and recovery from its storage. The decided index never exceeds the length of the server's log.",
 ["schedules","crash_points","fault_sequences","histories"],"all interleavings of leader changes, re-synchronisation from any other server, loss, crash and restart",
 "Regression happens only in particular orders of re-synchronisation (a leader that knows less than the follower, a duplicate promise, a restart in between) that no test schedules.",
 ["omnipaxos/src/storage/internal_storage.rs",SP+"follower.rs",SP+"leader.rs"],
 [("sync_log writes decided index and log in one transaction","internal_storage.rs sync_log"),("decide handlers ignore lower indexes",SP+"follower.rs update_decided_idx_and_get_accepted_idx"),("cache reload on recovery","internal_storage.rs load_cache")],None,
 ["OmniPaxos::get_decided_idx","read_entries","read_decided_suffix"],HK),
P("C03","Validity: only proposals, each at most once, in their leader's order",
 "The decided log contains only entries that some client passed to append (with their exact content), each append contributes at most one log position, and an append that returned an error contributes none. Two entries appended at the same server during the same leadership term are decided in the order they were appended, and the later one never without the earlier one.",
 ["schedules","fault_sequences","crash_points"],"all schedules with proposals at leaders, candidates and followers, forwarding, buffering, leader change, loss and crashes",
 "Duplication or reordering needs a proposal to be buffered, forwarded or batched exactly around a leader change; tests propose in quiet periods.",
 [SP+"mod.rs",SP+"leader.rs",SP+"follower.rs","omnipaxos/src/storage/state_cache.rs"],
 [("proposals are forwarded or buffered, never both",SP+"mod.rs propose_entry, forward_proposals"),("buffered proposals are taken once on becoming leader or on sync",SP+"leader.rs handle_majority_promises; follower.rs forward_buffered_proposals"),("pending entries are merged into the unsent accept message",SP+"leader.rs send_acceptdecide")],None,
 ["OmniPaxos::append","read_entries"],HK),
P("C04","Promises are kept: ballots only grow and are durable before they are used",
 "The ballot a server has promised never decreases, including across crashes, and is durable before any message that relies on it leaves the server; a server that promised a ballot never accepts entries of a lower one. No ballot is ever led twice: a restarted server never sends leader messages with a ballot it used before the crash, and only the ballot's own server leads it.",
 ["schedules","crash_points","fault_sequences"],"all schedules of competing candidates with crashes at every storage write",
 "A promise that is not durable, or a ballot that is reused, shows only if the crash hits between the write and the message and a competing leader exists; tests never crash inside a handler.",
 [SP+"follower.rs",SP+"leader.rs","omnipaxos/src/ballot_leader_election.rs","omnipaxos/src/omni_paxos.rs"],
 [("set_promise before Promise/Prepare are queued",SP+"follower.rs handle_prepare; leader.rs handle_leader"),("ballots lower than the promise are refused",SP+"follower.rs check_valid_ballot"),("recovered servers start with a recovery ballot and must be re-prepared","ballot_leader_election.rs with; sequence_paxos/mod.rs with")],None,
 ["OmniPaxos::get_promise","outgoing messages","Storage::get_promise"],HK),
P("C05","Reconfiguration seals the log with one stop-sign",
 "At most one stop-sign is ever decided and it is the last decided position: nothing is decided after it, every server that reports the configuration as stopped reports the same next configuration and metadata, exactly as some client proposed them, and reports it only if the stop-sign is decided. A server that holds a stop-sign refuses further append and reconfigure calls and returns the rejected proposal; an invalid new configuration is always refused.",
 ["schedules","fault_sequences","crash_points"],"all schedules with reconfigure and append racing at every server, leader change while the stop-sign is undecided, loss, crash and restart",
 "The interesting cases are a stop-sign that is accepted by a minority when the leader changes, two competing stop-signs, and recovery with a stored stop-sign.",
 [SP+"mod.rs",SP+"leader.rs",SP+"follower.rs","omnipaxos/src/storage/internal_storage.rs","omnipaxos/src/omni_paxos.rs"],
 [("stop-sign counted as last log position","internal_storage.rs stopsign_is_decided, load_cache"),("append/reconfigure check accepted_reconfiguration",SP+"mod.rs append, reconfigure"),("sync transfers or removes the stop-sign","internal_storage.rs sync_log")],None,
 ["OmniPaxos::is_reconfigured","append","reconfigure","read_entries"],HK),
P("C06","Acknowledged and decided entries survive a crash at any storage write",
 "Whenever an entry is decided at any server, the durable storage of at least a write quorum of servers holds the log up to and including it, and keeps holding it from then on; a server acknowledges a log position or a promise only after it is durable. A server that crashes before, between or after any of its individual storage writes can be restarted from what was written and continues without losing or inventing decided entries.",
 ["crash_points","schedules","fault_sequences"],"a crash at every individual storage write (write_atomically being one write) of every handler and API call, in every schedule within the bounds, followed by restart",
 "Tests only kill servers between handlers and use storages that never stop in the middle of an operation.",
 ["omnipaxos/src/storage/internal_storage.rs",SP+"follower.rs",SP+"leader.rs",SP+"mod.rs"],
 [("log is written before the acknowledgement is queued",SP+"follower.rs handle_acceptdecide, handle_acceptsync"),("multi-field updates are one atomic transaction","internal_storage.rs sync_log, try_trim, try_snapshot"),("recovery re-prepares with the leader",SP+"mod.rs with, follower.rs send_preparereq_to_all_peers")],None,
 ["Storage trait calls","outgoing messages","OmniPaxos::read_decided_suffix after rebuild"],HK),
P("C07","Snapshots are equivalent to the decided entries they replace",
 "At every server and at all times, the stored snapshot combined with the remaining log equals exactly the decided sequence: every decided entry is reflected once, in order, and no undecided entry is ever part of a snapshot. This holds for snapshots taken locally, requested for the whole cluster, and received as complete or incremental state while catching up, in any order; a snapshot call beyond the decided index or below the compacted index fails or does nothing.",
 ["schedules","fault_sequences","histories"],"all schedules mixing snapshot calls (every index) at every server with appends, leader change, catching up from any state, and crash",
 "Whether an incremental snapshot composes with the receiver's state depends on both servers' decided and compacted indexes; tests use one path.",
 ["omnipaxos/src/storage/internal_storage.rs",SP+"mod.rs"],
 [("create_snapshot / create_diff_snapshot","internal_storage.rs"),("merge of delta into decided prefix on sync","internal_storage.rs sync_log"),("log_sync carries snapshot up to decided index",SP+"mod.rs create_log_sync")],None,
 ["OmniPaxos::snapshot","read_entries","LogEntry::Snapshotted"],HK),
P("C08","Trim removes only what every server has, and never blocks recovery",
 "Trimming removes only a prefix of decided entries that every server in the cluster has accepted, at every server no further than somebody asked for: a trim that would go further, is called at a non-leader, or targets undecided entries fails with the documented error and removes nothing, while a leader can trim decided entries that every server has acknowledged to it. After any trim, lagging, disconnected and restarted servers can still be synchronised by any later leader without a server failing or missing an entry, and compacted index and reads stay consistent on every server.",
 ["schedules","fault_sequences","inputs"],"all trim indexes at every server in every schedule with lagging followers, leader change, loss and restart",
 "The failing situations need a follower that accepted but did not yet decide the trimmed prefix together with a leader change or reconnect.",
 [SP+"mod.rs","omnipaxos/src/storage/internal_storage.rs","omnipaxos/src/util.rs"],
 [("minimum accepted index over all servers","util.rs get_min_all_accepted_idx"),("try_trim bounds by decided index","internal_storage.rs try_trim"),("create_log_sync starts at the common prefix",SP+"mod.rs create_log_sync")],None,
 ["OmniPaxos::trim","get_compacted_idx","read_entries"],HK),
P("C09","Reads return exactly the log, correctly classified, for every range",
 "In every reachable state, every read call (single index, any non-empty range in any bound form, decided suffix) returns exactly the server's log for that range: entries before the decided index as decided, later ones as undecided, a compacted prefix as one snapshot or trimmed marker carrying the compacted index, the stop-sign last with its decided flag, and nothing when the range is out of bounds. Reads never fail and never change state.",
 ["inputs","histories"],"all index ranges and bound kinds in all explored local states of all other checks' scenarios",
 "Range classification has one branch per combination of compacted / entry / stop-sign ends; tests read full or single ranges in a few states.",
 ["omnipaxos/src/storage/internal_storage.rs","omnipaxos/src/omni_paxos.rs"],
 [("read / get_entry_type / create_read_log_entries","internal_storage.rs"),("read_decided_suffix","internal_storage.rs")],None,
 ["OmniPaxos::read","read_entries","read_decided_suffix","get_decided_idx","get_compacted_idx"],HK),
P("C10","Recovery: after faults stop, all servers converge and make progress",
 "From every state reachable through message loss, disconnections, leader changes and crashes, once servers are restarted, connections are reported as re-established and a leader is elected, timers and message delivery alone bring every server to the same decided log containing everything decided before, and new proposals from any server are decided everywhere; the same holds among the remaining servers while a minority stays unreachable. Under a leader that stays, one more proposal is enough for servers that missed messages to notice and catch up. In particular lost messages are detected and repaired, and no server fails or stays stuck.",
 ["fault_sequences","schedules","crash_points"],"every explored reachable state of the fault scenarios, each continued by a fair fault-free run for every choice of elected leader",
 "Being stuck is a property of the state reached, not of the test's own happy continuation; tests sample one fault at one point.",
 [SP+"follower.rs",SP+"leader.rs",SP+"mod.rs"],
 [("sequence numbers detect dropped accepts",SP+"follower.rs handle_sequence_num; util.rs SequenceNumber"),("resend timers",SP+"leader.rs resend_messages_leader; follower.rs resend_messages_follower"),("reconnected / PrepareReq",SP+"mod.rs reconnected; leader.rs handle_preparereq")],None,
 ["OmniPaxos::reconnected","tick","get_decided_idx"],HK),
P("C11","Leader election: a quorum-connected server leads; stable leaders stay",
 "Under every network connectivity in which at least one server is connected to a quorum, including partial partitions, and after any earlier connectivity, within a bounded number of election timeouts a server that is connected to a quorum leads and new proposals reach decision; without a quorum-connected server nothing new is decided. While connectivity does not change, the leader does not change once established, late heartbeats and heartbeats of servers in another configuration do not count, and a server's priority breaks ties among simultaneous candidates.",
 ["configurations","fault_sequences","schedules"],"all connectivity graphs for 3, 4 and 5 servers, sequences of graphs, per-round tick and delivery orders for small clusters, restarts and priorities",
 "The tests cover a few fixed topologies of five servers with wall-clock timeouts.",
 ["omnipaxos/src/ballot_leader_election.rs","omnipaxos/src/omni_paxos.rs"],
 [("heartbeat rounds with happiness and leader gossip","ballot_leader_election.rs update_leader, update_happiness, check_takeover"),("promise fed back into election","ballot_leader_election.rs hb_timeout")],None,
 ["OmniPaxos::tick","get_current_leader","get_decided_idx"],None),
P("C12","Quorum sizes are respected exactly",
 "With majority or configured flexible quorums, an entry is decided only when at least the write-quorum number of servers (the leader included) have accepted it, and a candidate starts to lead only after promises from at least the read-quorum number of servers; with exactly that many servers responsive, decisions and leadership do happen. Overlap makes every decided entry known to every later leader.",
 ["configurations","schedules","fault_sequences"],"every valid quorum configuration for 2 to 5 servers, every set of responsive servers, plus full interleavings for selected configurations",
 "Tests use one or two flexible configurations and never count acceptors.",
 ["omnipaxos/src/util.rs",SP+"leader.rs","omnipaxos/src/ballot_leader_election.rs"],
 [("is_prepare_quorum / is_accept_quorum","util.rs Quorum"),("set_promise, is_chosen counting","util.rs LeaderState")],None,
 ["OmniPaxosConfig","get_decided_idx","durable logs of all servers"],HK),
P("C13","Batching only delays entries: none lost, duplicated, reordered or acked early",
 "With any batch size and flush timeout, the log that is decided is one that unbatched operation could have produced: batched entries keep their order, are acknowledged only once written, are flushed when the batch is full or when the flush timer expires, and are never dropped or duplicated by a flush, a decide, a stop-sign or a leader change on a live server. After a flush timeout at every server and delivery of all messages under a stable leader, every accepted proposal is decided at every reachable server, also when only a quorum is reachable.",
 ["schedules","inputs","configurations"],"batch sizes 1 to 4, all placements of appends, flush ticks, decides, stop-signs and leader changes within the bounds",
 "Flush races with decide / stop-sign / leader change exist only in specific orders; existing tests use large uniform workloads.",
 ["omnipaxos/src/storage/state_cache.rs","omnipaxos/src/storage/internal_storage.rs",SP+"leader.rs",SP+"follower.rs","omnipaxos/src/util.rs"],
 [("take_entries_if_batch_is_full / flush_batch","state_cache.rs, internal_storage.rs"),("flush before promise, stop-sign and decide",SP+"follower.rs, leader.rs"),("logical clocks","util.rs LogicalClock")],None,
 ["OmniPaxos::append","tick","read_entries"],HK),
P("C14","Storage backends implement the storage contract identically",
 "For every sequence of storage operations that the library issues, both shipped backends (in-memory and persistent) return exactly what a simple reference log returns for every getter: promise, rounds, decided and compacted index, log length, entries and suffixes from any index, stop-sign and snapshot. The persistent backend returns the same after being closed and reopened at any point.",
 ["histories","inputs"],"all operation sequences up to the bound over a small alphabet that includes atomic groups, overwriting from a prefix, trimming and reopening",
 "Backends are exercised by tests through whole clusters only, so few index combinations are reached.",
 ["omnipaxos_storage/src/memory_storage.rs","omnipaxos_storage/src/persistent_storage.rs","omnipaxos/src/storage/mod.rs"],
 [("index translation by trimmed index","memory_storage.rs"),("ordered big-endian log keys and next_log_key","persistent_storage.rs")],None,
 ["Storage trait"],None),
P("C15","Persistent storage is atomic and durable at every crash point",
 "If the process stops at any point, reopening the persistent storage yields the state after some prefix of the issued write operations that includes every operation that had returned; an atomic group of operations is either completely present or completely absent, and a failed group leaves no trace in later operations.",
 ["crash_points","histories"],"every truncation point of the write-ahead log after every operation of every history within the bound, and every single-operation encoding failure",
 "Tests reopen only cleanly closed databases.",
 ["omnipaxos_storage/src/persistent_storage.rs"],
 [("single RocksDB write batch per atomic group","persistent_storage.rs write_atomically"),("commit log directory","persistent_storage.rs PersistentStorageConfig")],None,
 ["PersistentStorage::open","Storage trait getters"],None),
P("C16","UniCache is transparent: followers decode exactly what the leader encoded",
 "With the cache enabled, for every cache policy and size, the decided logs of all servers contain exactly the proposed entries, as they would without the cache, whatever values repeat or evict each other and whenever servers are synchronised, promoted to leader, disconnected or restarted, with or without batching.",
 ["inputs","schedules","fault_sequences"],"all short value sequences over a small alphabet with cache sizes below the alphabet, interleaved with resynchronisation and leader change",
 "A desynchronised cache only shows when an evicted or renumbered value is proposed again after the resynchronisation.",
 ["omnipaxos/src/unicache/lru_cache.rs","omnipaxos/src/unicache/lfu_cache.rs","omnipaxos/src/unicache/lfu/mod.rs","omnipaxos/src/unicache/mod.rs","omnipaxos/src/storage/state_cache.rs",SP+"follower.rs",SP+"leader.rs"],
 [("leader encodes, followers decode in the same order","state_cache.rs append_entry(s); follower.rs handle_acceptdecide"),("cache transferred with AcceptSync",SP+"leader.rs send_accsync; follower.rs handle_acceptsync")],None,
 ["OmniPaxos::append","read_entries","UniCache::try_encode / decode"],HK),
P("C17","Fault-free operation: every proposal from every server is decided once",
 "With a stable elected leader and no message loss or crash, every entry whose append returned success at any server (leader, candidate or follower, before or after the leader is known to it) is decided exactly once at every server once all messages are delivered, and entries proposed at one server while it follows the same leader are decided in the order proposed. Fetching outgoing messages hands out every message exactly once, however often and with whatever buffer it is called, and does not change the outcome.",
 ["schedules","inputs"],"all placements of proposals and message fetches relative to one leader's election, all delivery orders",
 "Tests let the election settle and then propose; forwarding, buffering and message merging between fetches depend on the order.",
 [SP+"mod.rs",SP+"leader.rs",SP+"follower.rs","omnipaxos/src/omni_paxos.rs"],
 [("forward / buffer proposals",SP+"mod.rs"),("merge into unsent accept and accepted messages",SP+"leader.rs get_latest_accdec_message; follower.rs get_latest_accepted_message"),("take_outgoing_messages swap or extend","mod.rs take_outgoing_msgs; omni_paxos.rs")],None,
 ["OmniPaxos::append","take_outgoing_messages","read_decided_suffix"],HK),
P("C18","Configuration validation accepts exactly the valid configurations",
 "Building a server, validating a configuration and proposing a reconfiguration accept a configuration if and only if it has at least two servers, a non-zero configuration id and server id, the server itself among the nodes, non-zero election and resend timeouts, buffer and batch sizes, and quorum sizes between 2 and the cluster size that overlap with the read quorum no smaller than the write quorum; otherwise they return an error and nothing is started or proposed. The same values given in a TOML file produce the same configuration, with documented defaults for what is left out.",
 ["inputs","configurations"],"all combinations of boundary values of all fields for up to 6 servers",
 "Tests validate a few hand-picked configurations.",
 ["omnipaxos/src/omni_paxos.rs","omnipaxos/src/errors.rs"],
 [("validate()","omni_paxos.rs ClusterConfig::validate, ServerConfig::validate, OmniPaxosConfig::validate"),("with_toml","omni_paxos.rs")],None,
 ["OmniPaxosConfig::validate","build","build_for_server","with_toml","OmniPaxos::reconfigure"],None),
P("C19","Messages survive serialization: the wire form preserves behaviour",
 "Every message a server emits can be serialised and deserialised with self-describing and non-self-describing serde formats, and delivering the deserialised message has exactly the effect of delivering the original, so that a cluster communicating over a wire behaves as one in a single process. Sender and receiver reported for a message are the servers that produced it and must receive it.",
 ["inputs","histories"],"every distinct message produced in the explored scenarios, in JSON and bincode",
 "Tests pass messages as in-process objects.",
 ["omnipaxos/src/messages.rs","omnipaxos/src/util.rs","omnipaxos/src/unicache/lru_cache.rs","omnipaxos/src/unicache/lfu/serialization.rs"],
 [("derived and hand-written serde implementations","messages.rs, util.rs, storage/mod.rs, unicache"),("get_sender / get_receiver","messages.rs")],None,
 ["Message serde","OmniPaxos::handle_incoming"],HK),
P("C20","Status reports are truthful: leader, phase, progress and heartbeats",
 "What a server reports about itself and its cluster is true at all times. get_promise is the ballot it has durably promised; get_current_leader names the server of that ballot (nobody before any promise), with the flag set only if that leader has really completed its prepare phase in that ballot. At an established leader, the accepted index that get_ui_states gives for a server id is one that this server durably holds in the leader's ballot: its own is exactly its log length, a follower's includes everything it acknowledged. The decided index, leader and ballot in the UI state are the server's own, and the heartbeats listed are exactly those of the peers it could exchange messages with in the previous round. Asking for a status never changes anything.",
 ["schedules","fault_sequences","crash_points","histories"],"every state reached by any schedule of elections, appends, stop-signs, loss, crash and restart, and every history of connectivity graphs",
 "The tests only look at the leader after waiting for a quiet moment; a wrong phase or progress report needs a re-election, a restart or a re-synchronisation to be in flight.",
 ["omnipaxos/src/omni_paxos.rs","omnipaxos/src/utils/ui.rs","omnipaxos/src/util.rs","omnipaxos/src/ballot_leader_election.rs",SP+"mod.rs",SP+"leader.rs",SP+"follower.rs"],
 [("promise and phase reported as (leader, accepted)","omni_paxos.rs get_current_leader"),("accepted indexes kept by the leader, indexed by server id","util.rs LeaderState; utils/ui.rs ClusterState"),("heartbeat replies of the previous round","ballot_leader_election.rs new_hb_round, get_ballots")],None,
 ["OmniPaxos::get_current_leader","get_promise","get_ui_states","get_decided_idx"],HK),
P("C21","The dashboard shows the server's current state, and restores the terminal",
 "After every refresh, the terminal dashboard of omnipaxos_ui shows the state it was given, on any terminal of at least 150 columns and 26 + 2n lines (n servers): the server's id, role, ballot and decided index; the current leader or that there is none; all servers, each in a colour of its own (up to eight) that is used wherever the server appears; for every peer whether it is connected and, if so, its ballot and leader; at a leader also every server's accepted index and its percentage of the leader's, and at a follower none of those; and how many entries were decided between the last refreshes, latest first, with the rate per second since the previous one. Smaller terminals and resizing never make it fail. start, stop, is_started, and the keys q and Esc do what they say in any order, any number of times: a stopped dashboard writes nothing and leaves the terminal as before, a restarted one is complete again.",
 ["histories","inputs","schedules"],"every bounded history of elections, proposals, isolation and repair with a refresh after every event, for the dashboard of every server, with contiguous and non-contiguous server ids; every bounded history of start, stop, keys and resizes; a grid of terminal sizes",
 "There are no tests of the dashboard; stale or wrong cells need a change of leader, an isolated server, unusual server ids or a restart of the dashboard.",
 ["omnipaxos_ui/src/lib.rs","omnipaxos_ui/src/app.rs","omnipaxos_ui/src/render.rs","omnipaxos_ui/src/util.rs"],
 [("state taken over on every refresh","omnipaxos_ui/src/lib.rs tick, update_leader, update_progress, update_active_peers; app.rs set_decided_idx"),("screen for leader and follower","omnipaxos_ui/src/render.rs"),("terminal modes and keys","omnipaxos_ui/src/lib.rs start, stop, update_ui")],None,
 ["OmniPaxosUI::tick","start","stop","is_started","the terminal's screen"],None),
]
with open("/verif/properties.jsonl","w") as f:
    for p in ps:
        assert len(p["title"])<=80,(p["id"],len(p["title"]))
        f.write(json.dumps(p)+"\n")
