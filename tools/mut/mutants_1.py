# (id, properties whose checks should notice, edits)
LEAD = "omnipaxos/src/sequence_paxos/leader.rs"
FOL = "omnipaxos/src/sequence_paxos/follower.rs"
SP = "omnipaxos/src/sequence_paxos/mod.rs"
IST = "omnipaxos/src/storage/internal_storage.rs"
SC = "omnipaxos/src/storage/state_cache.rs"
UT = "omnipaxos/src/util.rs"
BLE = "omnipaxos/src/ballot_leader_election.rs"
OP = "omnipaxos/src/omni_paxos.rs"
MSG = "omnipaxos/src/messages.rs"

# --- C01
m("longest-log", "C01 C06", (UT, """        } else if self.n_accepted > other.n_accepted
            || (self.n_accepted == other.n_accepted && self.accepted_idx > other.accepted_idx)
""", """        } else if self.accepted_idx > other.accepted_idx
            || (self.n_accepted > other.n_accepted && self.accepted_idx == other.accepted_idx)
"""))
m("prom-sync-acc", "C01 C06", (FOL, "Some(self.create_log_sync(prep.decided_idx, prep.decided_idx))", "Some(self.create_log_sync(prep.accepted_idx, prep.decided_idx))"))
m("prom-sync-acc-min", "C01", (FOL, "Some(self.create_log_sync(prep.decided_idx, prep.decided_idx))", "Some(self.create_log_sync(prep.accepted_idx.min(self.internal_storage.get_decided_idx()), prep.decided_idx))"))
m("accepted-any-ballot", "C06 C02 C01 C12", (LEAD, "if accepted.n == self.leader_state.n_leader && self.state", "if accepted.n <= self.leader_state.n_leader && self.state"))
m("carry-accepted", "C01 C12 C06 C08", (LEAD, """            self.leader_state =
                LeaderState::with(n, self.leader_state.max_pid, self.leader_state.quorum);
""", """            let accepted = std::mem::take(&mut self.leader_state.accepted_indexes);
            self.leader_state =
                LeaderState::with(n, self.leader_state.max_pid, self.leader_state.quorum);
            self.leader_state.accepted_indexes = accepted;
"""))
m("promise-any-ballot", "C01 C12", (LEAD, """        if prom.n == self.leader_state.n_leader {
            let received_majority""", """        if prom.n <= self.leader_state.n_leader {
            let received_majority"""))
m("accsync-acc-phase", "C01 C02 C06", (FOL, "if self.check_valid_ballot(accsync.n) && self.state == (Role::Follower, Phase::Prepare) {", "if self.check_valid_ballot(accsync.n) && self.state.0 == Role::Follower {"))
m("promise-cmp-no-idx", "C01 C06", (UT, """            || (self.n_accepted == other.n_accepted && self.accepted_idx > other.accepted_idx)
""", """            || (self.n_accepted == other.n_accepted && self.decided_idx > other.decided_idx)
"""))
m("no-sync-same-round", "C01 C06", (FOL, "} else if na == prep.n_accepted && accepted_idx > prep.accepted_idx {", "} else if na == prep.n_accepted && self.internal_storage.get_decided_idx() > prep.accepted_idx {"))
m("late-check-max", "C01 C02", (LEAD, "self.leader_state.set_promise(prom, from, false);", "self.leader_state.set_promise(prom, from, true);"))
m("accsync-follower-valid", "C01", (LEAD, """        let followers_valid_entries_idx = if *followers_promise_n == current_n {
            *followers_accepted_idx
""", """        let followers_valid_entries_idx = if *followers_promise_n >= *prev_round_max_promise_n
            && *followers_promise_n < current_n
        {
            *followers_accepted_idx
"""))
m("accdecide-any-phase", "C01 C06", (FOL, """        if self.check_valid_ballot(acc_dec.n)
            && self.state == (Role::Follower, Phase::Accept)
""", """        if self.check_valid_ballot(acc_dec.n)
            && self.state.0 == Role::Follower
"""))
m("seq-ignore-session", "C01 C10", (UT, "if msg_seq_num.session == self.session && msg_seq_num.counter == self.counter + 1 {", "if msg_seq_num.counter == self.counter + 1 {"))
m("seq-outdated-eq", "C01 C03", (UT, "if msg_seq_num.session == self.session && msg_seq_num.counter == self.counter + 1 {", "if msg_seq_num.session == self.session && msg_seq_num.counter >= self.counter {"))
m("recover-keeps-seq", "C01", (FOL, "            self.current_seq_num = SequenceNumber::default();\n", ""))
m("preparereq-no-reset", "C01 C10", (LEAD, "            self.leader_state.reset_promise(from);\n            self.leader_state.set_latest_accept_meta(from, None);\n", "            self.leader_state.set_latest_accept_meta(from, None);\n"))
m("preparereq-keep-meta", "C01 C10", (LEAD, "            self.leader_state.reset_promise(from);\n            self.leader_state.set_latest_accept_meta(from, None);\n", "            self.leader_state.reset_promise(from);\n"))
m("accmeta-not-reset", "C01 C03 C17", (SP, "        self.leader_state.reset_latest_accept_meta();\n", "        if buffer.len() > 1 {\n            self.leader_state.reset_latest_accept_meta();\n        }\n"))
m("acceptedmeta-not-reset", "C06 C17 C10", (SP, "        self.latest_accepted_meta = None;\n    }", "        if buffer.len() > 1 {\n            self.latest_accepted_meta = None;\n        }\n    }"))
# --- C02
m("maj-decided-own", "C02", (LEAD, "let decided_idx = self.leader_state.get_max_decided_idx();", "let decided_idx = self.leader_state.get_max_promise_meta().decided_idx;"))
m("follower-decide-back", "C02", (FOL, """        if new_decided_idx <= self.internal_storage.get_decided_idx() {
            return None;
        }
""", """        if new_decided_idx == self.internal_storage.get_decided_idx() {
            return None;
        }
"""))
m("decide-no-min", "C02 C13", (FOL, ".set_decided_idx(new_decided_idx.min(new_accepted_idx))", ".set_decided_idx(new_decided_idx)"))
m("decide-cache-only", "C02", (IST, """        self.state_cache.decided_idx = idx;
        self.storage.set_decided_idx(idx)
""", """        let old = std::mem::replace(&mut self.state_cache.decided_idx, idx);
        if self.state_cache.stopsign.is_some() && old + 1 == idx {
            return Ok(());
        }
        self.storage.set_decided_idx(idx)
"""))
# --- C03
m("buffer-twice", "C03 C17", (LEAD, "                let entries = std::mem::take(&mut self.buffered_proposals);\n", "                let entries = self.buffered_proposals.clone();\n"))
m("forward-and-buffer", "C03 C17", (SP, "            self.outgoing.push(msg);\n        } else {\n            self.buffered_proposals.append(&mut entries);\n        }\n", "            self.outgoing.push(msg);\n        } else {\n            entries.append(&mut self.buffered_proposals);\n            self.buffered_proposals = entries;\n        }\n"))
m("fwd-reverse", "C03 C17", (LEAD, "(Role::Leader, Phase::Prepare) => self.buffered_proposals.append(&mut entries),", "(Role::Leader, Phase::Prepare) => {\n                    entries.append(&mut self.buffered_proposals);\n                    self.buffered_proposals = entries;\n                }"))
m("accdec-extend-wrong", "C03 C01", (LEAD, "                    accdec.entries.extend(accepted.entries.iter().cloned());\n                    accdec.decided_idx = decided_idx;\n", "                    accdec.entries.splice(0..0, accepted.entries.iter().cloned());\n                    accdec.decided_idx = decided_idx;\n"))
# --- C04
m("promise-same-leader", "C04 C06", (IST, """        self.state_cache.promise = n_prom;
        self.storage.set_promise(n_prom)
""", """        let old = std::mem::replace(&mut self.state_cache.promise, n_prom);
        if old.pid == n_prom.pid && old.n > 0 {
            return Ok(());
        }
        self.storage.set_promise(n_prom)
"""))
m("leader-promise-lazy", "C04 C01", (LEAD, "            self.internal_storage.set_promise(n).expect(WRITE_ERROR_MSG);\n            /* insert my promise */\n", "            /* insert my promise */\n"))
m("handle-leader-promise-check", "C04 C01", (LEAD, "if n <= self.leader_state.n_leader || n <= self.internal_storage.get_promise() {", "if n <= self.leader_state.n_leader {"))
m("ble-recover-initial", "C04 C11", (BLE, "            Some(b) if b != Ballot::default() => {\n", "            Some(b) if b != Ballot::default() && b.pid != pid => {\n"))
m("tbl-own-n", "C04 C01", (OP, "        my_ballot.n = promise.n + 1;\n", "        my_ballot.n += 1;\n"))
m("accept-lower", "C04 C01 C06", (FOL, "            std::cmp::Ordering::Equal => true,\n            std::cmp::Ordering::Greater => {\n", "            std::cmp::Ordering::Equal => true,\n            std::cmp::Ordering::Greater if my_promise.n == message_ballot.n && self.state.1 == Phase::Accept => true,\n            std::cmp::Ordering::Greater => {\n"))
m("prepare-geq", "C04 C01", (FOL, "if old_promise < prep.n || (old_promise == prep.n && self.state.1 == Phase::Recover) {", "if old_promise.n <= prep.n.n && old_promise != prep.n || (old_promise == prep.n && self.state.1 == Phase::Recover) {"))
m("promise-after-send", "C04 C06", (FOL, """            self.internal_storage
                .set_promise(prep.n)
                .expect(WRITE_ERROR_MSG);
            self.state = (Role::Follower, Phase::Prepare);
""", """            if self.internal_storage.get_accepted_idx() > 0 || old_promise.n == 0 {
                self.internal_storage
                    .set_promise(prep.n)
                    .expect(WRITE_ERROR_MSG);
            }
            self.state = (Role::Follower, Phase::Prepare);
"""))
# --- C05
m("load-ss-decided", "C05 C06", (IST, "        if self.state_cache.stopsign.is_some() {\n            self.state_cache.accepted_idx += 1;\n        }\n    }", "        if self.state_cache.stopsign.is_some()\n            && self.state_cache.decided_idx > self.state_cache.accepted_idx\n        {\n            self.state_cache.accepted_idx += 1;\n        }\n    }"))
m("ss-keep-on-sync", "C05 C01", (IST, """                    self.state_cache.stopsign = None;
                    sync_txn.push(StorageOp::SetStopsign(None));
""", """                    self.state_cache.stopsign = None;
"""))
m("ss-forward-no-check", "C05", (LEAD, """        if self.accepted_reconfiguration() {
            return;
        }
        match self.state {""", """        match self.state {"""))
m("entries-after-ss", "C05 C01", (LEAD, "        if !self.accepted_reconfiguration() {\n            match self.state {\n                (Role::Leader, Phase::Prepare) => self.buffered_proposals.append(&mut entries),", "        if self.is_reconfigured().is_none() {\n            match self.state {\n                (Role::Leader, Phase::Prepare) => self.buffered_proposals.append(&mut entries),"))
m("append-after-ss", "C05", (SP, "        if self.accepted_reconfiguration() {\n            Err(ProposeErr::PendingReconfigEntry(entry))", "        if self.is_reconfigured().is_some() {\n            Err(ProposeErr::PendingReconfigEntry(entry))"))
m("maj-ss-check", "C05 C01", (LEAD, "        if !self.accepted_reconfiguration() {\n            if !self.buffered_proposals.is_empty() {", "        if self.is_reconfigured().is_none() {\n            if !self.buffered_proposals.is_empty() {"))
m("ss-decided-early", "C05", (SC, "self.stopsign.is_some() && self.decided_idx == self.accepted_idx", "self.stopsign.is_some() && self.decided_idx + 1 >= self.accepted_idx"))
m("ss-metadata", "C05", (SP, "let ss = StopSign::with(new_config, metadata);", "let ss = StopSign::with(new_config, metadata.filter(|m| !m.is_empty()));"))
m("reconf-buffer-first", "C05 C17", (SP, "(Role::Leader, Phase::Prepare) => self.buffered_stopsign = Some(ss),\n            (Role::Leader, Phase::Accept) => self.accept_stopsign_leader(ss),\n            _ => self.forward_stopsign(ss),\n        }\n        Ok(())", "(Role::Leader, Phase::Prepare) => (),\n            (Role::Leader, Phase::Accept) => self.accept_stopsign_leader(ss),\n            _ => self.forward_stopsign(ss),\n        }\n        Ok(())"))
m("accsync-ss-only-new", "C05 C10", (SP, "            stopsign: self.internal_storage.get_stopsign(),\n", "            stopsign: self.internal_storage.get_stopsign().filter(|_| decided_idx <= common_prefix_idx),\n"))
# --- C06
m("sync-two-writes", "C06 C01", (IST, """        let mut sync_txn: Vec<StorageOp<T>> = vec![
            StorageOp::SetAcceptedRound(accepted_round),
            StorageOp::SetDecidedIndex(decided_idx),
        ];
""", """        self.storage.set_accepted_round(accepted_round)?;
        let mut sync_txn: Vec<StorageOp<T>> = vec![StorageOp::SetDecidedIndex(decided_idx)];
"""))
m("sync-decided-first", "C06 C02", (IST, """        let mut sync_txn: Vec<StorageOp<T>> = vec![
            StorageOp::SetAcceptedRound(accepted_round),
            StorageOp::SetDecidedIndex(decided_idx),
        ];
""", """        self.storage.set_decided_idx(decided_idx)?;
        let mut sync_txn: Vec<StorageOp<T>> = vec![StorageOp::SetAcceptedRound(accepted_round)];
"""))
m("sync-log-after", "C06", (IST, """            sync_txn.push(StorageOp::AppendOnPrefix(sync.sync_idx, sync.suffix));
""", """            if sync.decided_snapshot_none {
                self.storage.append_on_prefix(sync.sync_idx, sync.suffix)?;
            }
""")) if False else None
m("ss-cache-first", "C06 C05", (IST, "        self.storage.set_stopsign(Some(ss))?;\n        self.state_cache.accepted_idx += 1;\n", "        self.state_cache.accepted_idx += 1;\n        if accepted_entries_metadata.is_none() {\n            self.storage.set_stopsign(Some(ss))?;\n        }\n"))
m("snapshot-not-atomic", "C06 C07", (IST, """            self.storage.write_atomically(vec![
                StorageOp::Trim(new_compacted_idx),
                StorageOp::SetCompactedIdx(new_compacted_idx),
                StorageOp::SetSnapshot(Some(snapshot)),
            ])?;
""", """            self.storage.set_snapshot(Some(snapshot))?;
            self.storage.write_atomically(vec![
                StorageOp::Trim(new_compacted_idx),
                StorageOp::SetCompactedIdx(new_compacted_idx),
            ])?;
"""))
m("trim-not-atomic", "C06 C08", (IST, """            self.storage.write_atomically(vec![
                StorageOp::Trim(new_compacted_idx),
                StorageOp::SetCompactedIdx(new_compacted_idx),
            ])?;
""", """            self.storage.set_compacted_idx(new_compacted_idx)?;
            self.storage.trim(new_compacted_idx)?;
"""))
m("decide-before-flush", "C06 C13 C02", (FOL, """            let new_accepted_idx = self.internal_storage.flush_batch().expect(WRITE_ERROR_MSG);
            self.internal_storage
                .set_decided_idx(new_decided_idx.min(new_accepted_idx))
                .expect(WRITE_ERROR_MSG);
            Some(new_accepted_idx)
""", """            self.internal_storage
                .set_decided_idx(new_decided_idx)
                .expect(WRITE_ERROR_MSG);
            let new_accepted_idx = self.internal_storage.flush_batch().expect(WRITE_ERROR_MSG);
            Some(new_accepted_idx)
"""))
m("prepare-ss-sync", "C06 C01", (FOL, "            let accepted_idx = self.internal_storage.get_accepted_idx();\n            let log_sync", "            let accepted_idx = self.internal_storage.get_accepted_idx_without_stopsign();\n            let log_sync"))
# --- C07
m("snap-eq-decided", "C07 C05", (IST, """            Some(i) => match i.cmp(&decided_idx) {
                Ordering::Less => i,
                Ordering::Equal => log_decided_idx,
""", """            Some(i) => match i.cmp(&decided_idx) {
                Ordering::Less | Ordering::Equal => i,
"""))
m("snap-none-accepted", "C07", (IST, "            None => log_decided_idx,\n        };", "            None => self.get_accepted_idx_without_stopsign(),\n        };"))
m("snap-merge-swap", "C07", (IST, "            Some(mut s) => {\n                s.merge(delta);\n                Ok(s)\n            }", "            Some(_) if entries.is_empty() => Ok(delta),\n            Some(mut s) => {\n                s.merge(delta);\n                Ok(s)\n            }"))
m("diff-from-compacted", "C07", (IST, "        let snapshot = if from_idx <= compacted_idx {", "        let snapshot = if from_idx < compacted_idx || compacted_idx == 0 {"))
m("diff-lt", "C07", (IST, "            let diff_entries = self.get_entries(from_idx, log_decided_idx)?;", "            let diff_entries = self.get_entries(from_idx, self.get_decided_idx())?;"))
m("sync-snap-suffix", "C07 C01", (SP, "                    .get_suffix(decided_idx)\n", "                    .get_suffix(compacted_idx.max(common_prefix_idx))\n"))
m("delta-own-compacted", "C07", (IST, "        let log_decided_idx = self.get_decided_idx_without_stopsign();\n        self.create_snapshot(log_decided_idx)\n", "        self.create_snapshot(self.get_compacted_idx())\n"))
m("snap-remote-none", "C07", (SP, "                let msg = PaxosMsg::Compaction(Compaction::Snapshot(idx));", "                let msg = PaxosMsg::Compaction(Compaction::Snapshot(None));"))
m("snap-err-all", "C07", (SP, "        if !local_only && result.is_ok() {", "        if !local_only {"))
# --- C08
m("trim-quorum-acc", "C08", (SP, "                    Some(idx) if idx <= min_all_accepted_idx => idx,", "                    Some(idx) if idx <= min_all_accepted_idx || self.leader_state.is_chosen(idx) && idx < self.internal_storage.get_decided_idx() => idx,"))
m("trim-none-decided", "C08", (SP, "                            min_all_accepted_idx\n                        );\n                        min_all_accepted_idx\n", "                            min_all_accepted_idx\n                        );\n                        min_all_accepted_idx.max(self.internal_storage.get_decided_idx())\n"))
m("trim-eq-ss", "C08 C05", (IST, """            Ordering::Less => idx,
            Ordering::Equal => log_decided_idx,
            Ordering::Greater => Err(CompactionErr::UndecidedIndex(decided_idx))?,
        };
        if new_compacted_idx > self.get_compacted_idx() {
            self.storage.write_atomically(vec![
                StorageOp::Trim(new_compacted_idx),
                StorageOp::SetCompactedIdx(new_compacted_idx),
            ])?;""", """            Ordering::Less | Ordering::Equal => idx,
            Ordering::Greater => Err(CompactionErr::UndecidedIndex(log_decided_idx))?,
        };
        if new_compacted_idx > self.get_compacted_idx() {
            self.storage.write_atomically(vec![
                StorageOp::Trim(new_compacted_idx),
                StorageOp::SetCompactedIdx(new_compacted_idx),
            ])?;"""))
m("trim-remote-undecided", "C08", (SP, "                let _ = self.internal_storage.try_trim(idx);\n", "                let decided = self.internal_storage.get_decided_idx();\n                let _ = self.internal_storage.try_trim(idx.min(decided));\n"))
m("trim-remote-accepted", "C08 C02", (SP, "                let _ = self.internal_storage.try_trim(idx);\n", "                if idx <= self.internal_storage.get_accepted_idx_without_stopsign() && idx > self.internal_storage.get_decided_idx() {\n                    let _ = self.internal_storage.set_decided_idx(idx);\n                }\n                let _ = self.internal_storage.try_trim(idx);\n"))
m("trim-follower", "C08", (SP, "            (Role::Leader, _) => {\n                let min_all", "            (Role::Leader, _) | (_, Phase::Recover) => {\n                let min_all"))
m("trim-err-idx", "C08", (SP, "                        return Err(CompactionErr::NotAllDecided(min_all_accepted_idx));", "                        return Err(CompactionErr::NotAllDecided(self.internal_storage.get_decided_idx()));"))
m("accepted-min-only-up", "C08", (UT, "        self.accepted_indexes[Self::pid_to_idx(pid)] = idx;", "        let e = &mut self.accepted_indexes[Self::pid_to_idx(pid)];\n        *e = idx.max(*e);"))
