MEM = "omnipaxos_storage/src/memory_storage.rs"
PER = "omnipaxos_storage/src/persistent_storage.rs"
LRU = "omnipaxos/src/unicache/lru_cache.rs"
LFU = "omnipaxos/src/unicache/lfu_cache.rs"
LFM = "omnipaxos/src/unicache/lfu/mod.rs"
# --- C09
m("read-incl-end", "C09", (IST, "            Bound::Included(i) => *i + 1,\n            Bound::Excluded(e) => *e,\n            Bound::Unbounded => self.get_accepted_idx(),", "            Bound::Included(i) => (*i + 1).min(self.get_accepted_idx()),\n            Bound::Excluded(e) => *e,\n            Bound::Unbounded => self.get_accepted_idx(),"))
m("read-unb-decided", "C09", (IST, "            Bound::Unbounded => self.get_accepted_idx(),", "            Bound::Unbounded => self.get_decided_idx().max(self.get_accepted_idx_without_stopsign()),"))
m("read-ss-undec", "C09 C05", (IST, "                let mut e = self.create_read_log_entries(compacted_idx, to_idx - 1)?;\n                entries.append(&mut e);\n                entries.push(LogEntry::StopSign(ss, self.stopsign_is_decided()));", "                let mut e = self.create_read_log_entries(compacted_idx, to_idx - 1)?;\n                entries.append(&mut e);\n                entries.push(LogEntry::StopSign(ss, true));"))
m("read-class", "C09", (IST, "                if log_idx < decided_idx {\n", "                if log_idx <= decided_idx && decided_idx > 0 {\n"))
m("read-class-rel", "C09", (IST, "                let log_idx = idx + from;\n", "                let log_idx = idx + from.max(self.get_compacted_idx());\n"))
m("compacted-entry-idx", "C09", (IST, "                return Ok(Some(vec![self.create_compacted_entry(compacted_idx)?]))", "                return Ok(Some(vec![self.create_compacted_entry(to_idx)?]))"))
m("suffix-le", "C09", (IST, "        if from_idx < decided_idx {\n            self.read(from_idx..decided_idx)", "        if from_idx <= decided_idx {\n            self.read(from_idx..decided_idx)"))
m("entrytype-compacted", "C09", (IST, "        if idx < compacted_idx {\n            Ok(Some(IndexEntry::Compacted))", "        if idx <= compacted_idx && compacted_idx > 0 && compacted_idx < accepted_idx {\n            Ok(Some(IndexEntry::Compacted))"))
# --- C10
m("drop-no-reconnect", "C10", (FOL, "            MessageStatus::DroppedPreceding => self.reconnected(from),", "            MessageStatus::DroppedPreceding => self.current_seq_num = seq_num,"))
m("recover-resend-leader", "C10", (FOL, "            Phase::Recover => {\n                // Resend PrepareReq\n                self.send_preparereq_to_all_peers();\n            }", "            Phase::Recover => {\n                let prepreq = PrepareReq {\n                    n: self.get_promise(),\n                };\n                let to = self.get_current_leader();\n                if to != self.pid {\n                    self.outgoing.push(Message::SequencePaxos(PaxosMessage {\n                        from: self.pid,\n                        to,\n                        msg: PaxosMsg::PrepareReq(prepreq),\n                    }));\n                }\n            }"))
m("accept-no-resend-prep", "C10", (LEAD, "                // Resend Prepare\n                let preparable_peers = self.leader_state.get_preparable_peers(&self.peers);\n                for peer in preparable_peers {\n                    self.send_prepare(peer);\n                }\n            }\n            Phase::Recover => (),", "            }\n            Phase::Recover => (),"))
m("accept-resend-else", "C10 C05", (LEAD, "                // Resend Prepare\n                let preparable_peers = self.leader_state.get_preparable_peers(&self.peers);\n                for peer in preparable_peers {\n                    self.send_prepare(peer);\n                }\n            }\n            Phase::Recover => (),", "                else {\n                // Resend Prepare\n                let preparable_peers = self.leader_state.get_preparable_peers(&self.peers);\n                for peer in preparable_peers {\n                    self.send_prepare(peer);\n                }\n                }\n            }\n            Phase::Recover => (),"))
m("preparereq-lt", "C10", (LEAD, "if self.state.0 == Role::Leader && prepreq.n <= self.leader_state.n_leader {", "if self.state == (Role::Leader, Phase::Accept) && prepreq.n <= self.leader_state.n_leader {"))
m("preparereq-eqonly", "C10", (LEAD, "if self.state.0 == Role::Leader && prepreq.n <= self.leader_state.n_leader {", "if self.state.0 == Role::Leader && prepreq.n == self.leader_state.n_leader {"))
m("recon-no-recover", "C10", (SP, "        } else if pid == self.get_current_leader() {\n            self.state = (Role::Follower, Phase::Recover);\n        }", "        } else if pid == self.get_current_leader() && self.state.1 == Phase::Accept {\n            self.state = (Role::Follower, Phase::Recover);\n        }"))
m("recon-only-leader", "C10 C11", (SP, "        } else if pid == self.get_current_leader() {\n            self.state = (Role::Follower, Phase::Recover);\n        }", "        } else if pid == self.get_current_leader() {\n            self.state = (Role::Follower, Phase::Recover);\n        } else if self.state.0 == Role::Follower {\n            return;\n        }"))
m("notaccepted-all", "C10 C11", (LEAD, "        if self.state.0 == Role::Leader && self.leader_state.n_leader < not_acc.n {\n            self.leader_state.lost_promise(from);", "        if self.state.0 == Role::Leader && self.leader_state.n_leader < not_acc.n {\n            self.state = (Role::Follower, Phase::Recover);\n            self.leader_state.lost_promise(from);"))
m("cached-promise-lost", "C10", (FOL, "            self.cached_promise_message = Some(promise.clone());\n", "            if promise.log_sync.is_none() {\n                self.cached_promise_message = Some(promise.clone());\n            }\n"))
m("resend-promise-cur", "C10", (FOL, "                            to: promise.n.pid,\n", "                            to: promise.n_accepted.pid,\n"))
m("ss-resend-decided", "C10 C05", (LEAD, "                        if self.internal_storage.stopsign_is_decided() {\n                            self.send_decide(follower, decided_idx, true);\n                        } else if", "                        if self.internal_storage.stopsign_is_decided() {\n                        } else if"))
m("ss-resend-newseq", "C10 C05", (LEAD, "                            self.send_accept_stopsign(follower, ss.clone(), true);", "                            self.send_accept_stopsign(follower, ss.clone(), false);"))
m("recovery-none", "C10 C06", (SP, "            Some(b) => {\n                let state = (Role::Follower, Phase::Recover);", "            Some(b) if b.pid != pid => {\n                let state = (Role::Follower, Phase::Recover);"), (SP, "            None => ((Role::Follower, Phase::None), Ballot::default()),", "            Some(b) => ((Role::Follower, Phase::None), b),\n            None => ((Role::Follower, Phase::None), Ballot::default()),"))
m("accsync-no-meta", "C10 C17", (FOL, "            self.latest_accepted_meta = Some((accsync.n, cached_idx));\n            self.outgoing", "            self.latest_accepted_meta = Some((accsync.n, cached_idx + 1));\n            self.outgoing"))
# --- C11
m("happy-any-larger", "C11", (BLE, ".any(|r| r.leader > self.current_ballot && r.happy);", ".any(|r| r.leader > self.current_ballot);"))
m("happy-chain", "C11", (BLE, ".any(|r| r.ballot == self.leader && r.happy)", ".any(|r| r.leader == self.leader && r.happy)"))
m("happy-ballot-only", "C11", (BLE, ".any(|r| r.ballot == self.leader && r.happy)", ".any(|r| r.ballot == self.leader)"))
m("takeover-any", "C11", (BLE, "self.heartbeat_replies.iter().all(|r| !r.happy);", "self.heartbeat_replies.is_empty() || self.heartbeat_replies.iter().any(|r| !r.happy);"))
m("takeover-write-quorum", "C11 C12", (BLE, "                .is_prepare_quorum(self.heartbeat_replies.len() + 1);", "                .is_accept_quorum(self.heartbeat_replies.len() + 1);"))
m("takeover-no-incr", "C11", (BLE, "                self.current_ballot.n = self.leader.n + 1;", "                self.current_ballot.n += 1;"))
m("accept-happy-read", "C11 C12", (BLE, "                    self.quorum.is_accept_quorum(potential_followers + 1)\n", "                    self.quorum.is_prepare_quorum(potential_followers + 1)\n"))
m("prep-happy-write", "C11 C12", (BLE, "                _ => self.quorum.is_prepare_quorum(potential_followers + 1),", "                _ => self.quorum.is_accept_quorum(potential_followers + 1),"))
m("old-replies", "C11", (BLE, "        if rep.round == self.hb_round && rep.ballot", "        if rep.round <= self.hb_round && rep.ballot"))
m("sync-promise-nohappy", "C11", (BLE, "            if seq_paxos_promise.pid == self.pid {\n                self.current_ballot = seq_paxos_promise;\n            }\n", ""))
m("sync-promise-none", "C11", (BLE, "        if seq_paxos_promise > self.leader {\n", "        if seq_paxos_promise > self.leader && seq_paxos_promise.pid != self.pid {\n"))
m("prio-order", "C11 C04", (BLE, "(self.n, self.priority, self.pid).cmp(&(other.n, other.priority, other.pid))", "(self.n, self.pid, self.priority).cmp(&(other.n, other.pid, other.priority))"))
m("followers-all", "C11", (BLE, ".filter(|hb_reply| hb_reply.leader <= self.current_ballot)", ".filter(|hb_reply| hb_reply.leader <= self.current_ballot || hb_reply.happy)"))
m("followers-eq", "C11", (BLE, ".filter(|hb_reply| hb_reply.leader <= self.current_ballot)", ".filter(|hb_reply| hb_reply.leader == self.current_ballot)"))
m("handle-leader-become", "C11 C10", (LEAD, "if n <= self.leader_state.n_leader || n <= self.internal_storage.get_promise() {", "if n <= self.leader_state.n_leader || n.n <= self.internal_storage.get_promise().n {"))
m("happy-stale-leader", "C11", (BLE, "            self.happy = true;\n        }\n        if self.leader == self.current_ballot {", "        }\n        if self.leader == self.current_ballot {"))
m("config-id-reply", "C11", (BLE, "rep.round == self.hb_round && rep.ballot.config_id == self.configuration_id {", "rep.round == self.hb_round && rep.leader.config_id == self.configuration_id {"))
# --- C12
m("majority-even", "C12 C01", (UT, "None => Quorum::Majority(num_nodes / 2 + 1),", "None => Quorum::Majority((num_nodes + 1) / 2),"))
m("majority-even-hi", "C12", (UT, "None => Quorum::Majority(num_nodes / 2 + 1),", "None => Quorum::Majority((num_nodes + 3) / 2),"))
m("flex-swap", "C12", (UT, "Quorum::Flexible(flex_quorum) => num_nodes >= flex_quorum.write_quorum_size,", "Quorum::Flexible(flex_quorum) => num_nodes >= flex_quorum.read_quorum_size,"))
m("flex-read-write", "C12 C01", (UT, "Quorum::Flexible(flex_quorum) => num_nodes >= flex_quorum.read_quorum_size,", "Quorum::Flexible(flex_quorum) => num_nodes >= flex_quorum.write_quorum_size,"))
m("chosen-gt", "C12", (UT, "            .filter(|la| **la >= idx)\n", "            .filter(|la| **la + 1 >= idx)\n"))
m("lost-counts", "C12", (UT, "            .filter(|p| matches!(p, PromiseState::Promised(_)))\n", "            .filter(|p| !matches!(p, PromiseState::NotPromised))\n"))
m("decide-on-any", "C12", (LEAD, "                && self.leader_state.is_chosen(accepted.accepted_idx)\n", "                && self.leader_state.is_chosen(accepted.accepted_idx.min(self.internal_storage.get_decided_idx() + 1))\n"))
# --- C13
m("prep-no-flush", "C13 C01", (FOL, "            let _ = self.internal_storage.flush_batch().expect(WRITE_ERROR_MSG);\n            self.internal_storage\n                .set_promise(prep.n)", "            self.internal_storage\n                .set_promise(prep.n)"))
m("lead-no-flush", "C13", (LEAD, "            let _ = self.internal_storage.flush_batch().expect(WRITE_ERROR_MSG);\n            // The cache", "            // The cache"))
m("flush-no-reply", "C13", (FOL, "        if new_accepted_idx > accepted_idx {\n", "        if new_accepted_idx > accepted_idx + 1 {\n"))
m("flush-leader-noidx", "C13", (LEAD, "            .flush_batch_and_get_entries()\n            .expect(WRITE_ERROR_MSG);\n        if let Some(metadata) = accepted_metadata {\n            self.leader_state\n                .set_accepted_idx(self.pid, metadata.accepted_idx);\n", "            .flush_batch_and_get_entries()\n            .expect(WRITE_ERROR_MSG);\n        if let Some(metadata) = accepted_metadata {\n"))
m("batch-full-gt", "C13", (SC, "        if self.batched_entries.len() >= self.batch_size {", "        if self.batched_entries.len() == self.batch_size {"))
m("batch-take-some", "C13", (SC, "        if self.batched_entries.len() >= self.batch_size {\n            Some(self.take_batched_entries())", "        if self.batched_entries.len() >= self.batch_size {\n            let rest = self.batched_entries.split_off(self.batch_size);\n            Some(std::mem::replace(&mut self.batched_entries, rest))"))
m("ss-no-flush-follower", "C13 C05", (FOL, "            let _ = self.internal_storage.flush_batch().expect(WRITE_ERROR_MSG);\n            let new_accepted_idx = self\n                .internal_storage\n                .set_stopsign", "            let new_accepted_idx = self\n                .internal_storage\n                .set_stopsign"))
m("early-ack", "C13 C06", (IST, "            let accepted_idx = self.append_entries_without_batching(flushed_entries)?;\n            Ok(Some(accepted_idx))\n        } else {\n            Ok(None)\n        }", "            let accepted_idx = self.append_entries_without_batching(flushed_entries)?;\n            Ok(Some(accepted_idx))\n        } else {\n            Ok(Some(self.state_cache.accepted_idx + self.state_cache.batched_entries.len()))\n        }"))
m("flush-clock-leader-only", "C13", (SP, "            (Role::Follower, Phase::Accept) => self.flush_batch_follower(),\n", ""))
m("late-sync-batched", "C13 C01", (LEAD, "            self.leader_state.set_promise(prom, from, false);\n            self.send_accsync(from);", "            self.leader_state.set_promise(prom, from, false);\n            let _ = self.internal_storage.flush_batch().expect(WRITE_ERROR_MSG);\n            self.send_accsync(from);"))
m("decide-flush-noack", "C13", (FOL, "            let flushed_after_decide =\n                self.update_decided_idx_and_get_accepted_idx(acc_dec.decided_idx);\n            if flushed_after_decide.is_some() {\n                new_accepted_idx = flushed_after_decide;\n            }", "            let flushed_after_decide =\n                self.update_decided_idx_and_get_accepted_idx(acc_dec.decided_idx);\n            if flushed_after_decide.is_some() && new_accepted_idx.is_some() {\n                new_accepted_idx = flushed_after_decide;\n            }"))
m("decide-first", "C13 C02", (FOL, "            let mut new_accepted_idx = self\n                .internal_storage\n                .append_entries_and_get_accepted_idx(entries)\n                .expect(WRITE_ERROR_MSG);\n            let flushed_after_decide =\n                self.update_decided_idx_and_get_accepted_idx(acc_dec.decided_idx);\n", "            let flushed_after_decide =\n                self.update_decided_idx_and_get_accepted_idx(acc_dec.decided_idx);\n            let mut new_accepted_idx = self\n                .internal_storage\n                .append_entries_and_get_accepted_idx(entries)\n                .expect(WRITE_ERROR_MSG);\n"))
# --- C14 / C15
m("mem-prefix", "C14", (MEM, "        self.log.truncate(from_idx - self.trimmed_idx);\n", "        self.log.truncate(from_idx - self.compacted_idx);\n"))
m("mem-trim-len", "C14", (MEM, "        let to_trim = (trimmed_idx - self.trimmed_idx).min(self.log.len());\n", "        let to_trim = trimmed_idx.min(self.log.len());\n"))
m("per-prefix-del", "C14", (PER, "        if delete_idx < self.next_log_key {", "        if delete_idx + 1 < self.next_log_key {"))
m("per-next-key", "C14", (PER, "                Some(bytes) => usize::read_from(bytes.as_bytes())\n                    .expect(\"Couldn't recover storage: Commpacted index has unexpected format.\"),\n                None => 0,", "                Some(_) => 0,\n                None => 0,"))
m("per-le-key", "C14", (PER, "        let from_key = 0_usize.to_be_bytes();\n        let to_key = trimmed_idx.to_be_bytes();\n        self.db\n", "        let from_key = 0_usize.to_be_bytes();\n        let to_key = (trimmed_idx + 1).to_be_bytes();\n        self.db\n"))
m("per-entries-short", "C14", (PER, "        if to > self.next_log_key || from >= to {", "        if to >= self.next_log_key && from + 1 < to || from >= to {"))
m("per-trim-order", "C15 C14", (PER, "                StorageOp::Trim(idx) => self.batch_trim(idx)?,", "                StorageOp::Trim(idx) => self.trim(idx)?,"))
m("per-ss-direct", "C15", (PER, "                StorageOp::SetStopsign(ss) => self.batch_set_stopsign(ss)?,", "                StorageOp::SetStopsign(ss) => self.set_stopsign(ss)?,"))
m("per-no-wal", "C15", (PER, "        self.db.put(NPROM, prom_bytes)?;\n        Ok(())", "        let mut o = rocksdb::WriteOptions::default();\n        o.disable_wal(true);\n        self.db.put_opt(NPROM, prom_bytes, &o)?;\n        Ok(())"))
m("per-ss-none", "C14", (PER, "        let stopsign = bincode::serialize(&s)?;\n        self.db.put(STOPSIGN, stopsign)?;", "        if s.is_some() {\n            let stopsign = bincode::serialize(&s)?;\n            self.db.put(STOPSIGN, stopsign)?;\n        }"))
m("per-batch-loop", "C15", (PER, "        let old_next_log_key = self.next_log_key;\n        let mut result = self.batch_ops(ops);\n", "        let old_next_log_key = self.next_log_key;\n        if ops.len() > 4 {\n            let mut ops = ops;\n            let rest = ops.split_off(3);\n            self.write_atomically(ops)?;\n            return self.write_atomically(rest);\n        }\n        let mut result = self.batch_ops(ops);\n"))
# --- C16
m("uni-follower-encode", "C16", (SC, "            if self.promise.pid == self.pid {\n", "            if self.promise.pid == self.pid || self.batch_size > 1 {\n"))
m("uni-lru-peek", "C16", (LRU, "                self.lru_cache_decoder.get(&encoding).unwrap().clone()", "                self.lru_cache_decoder.peek(&encoding).unwrap().clone()"))
m("uni-lfu-set", "C16", (LFU, "                    let popped_encoded = self.lfu_cache_decoder.evict_and_return_key().unwrap();", "                    let popped_encoded = self.lfu_cache_decoder.evict_and_return_key().unwrap();\n                    let _ = self.lfu_cache_decoder.get(&popped_encoded);")) if False else None
m("uni-lru-clone-order", "C16", (LRU, "        self.lru_cache_encoder\n            .0\n            .iter()\n            .rev()\n", "        self.lru_cache_encoder\n            .0\n            .iter()\n"))
m("uni-lru-ser-order", "C16 C19", (LRU, "            self.0.iter().rev().for_each(|item| {", "            self.0.iter().for_each(|item| {"))
m("uni-clone-encoding", "C16", (LRU, "            lru_cache_decoder: LruWrapper(cloned_decoder),\n            encoding: self.encoding.clone(),", "            lru_cache_decoder: LruWrapper(cloned_decoder),\n            encoding: Encoded::default(),"))
m("uni-lfu-clone-encoding", "C16", (LFU, "            lfu_cache_decoder: self.lfu_cache_encoder.inverse(),\n            encoding: self.encoding.clone(),", "            lfu_cache_decoder: self.lfu_cache_encoder.inverse(),\n            encoding: Encoded::default(),"))
m("uni-lfu-minfreq", "C16", (LFM, "            if count == self.min_frequency && bin.0.is_empty() {\n                self.min_frequency += 1;", "            if count == self.min_frequency && bin.0.is_empty() && self.capacity > 2 {\n                self.min_frequency += 1;"))
m("uni-flush-noclear", "C16", (IST, "            self.state_cache.batched_processed_by_leader.clear();\n", ""))
m("uni-set-order", "C16", (FOL, "            #[cfg(feature = \"unicache\")]\n            self.internal_storage.set_unicache(accsync.unicache);", "            #[cfg(feature = \"unicache\")]\n            if self.internal_storage.get_decided_idx() < new_accepted_idx {\n                self.internal_storage.set_unicache(accsync.unicache);\n            }"))
# --- C17
m("out-swap-when", "C17", (SP, "        if buffer.is_empty() {\n            std::mem::swap(buffer, &mut self.outgoing);", "        if buffer.len() <= 1 {\n            std::mem::swap(buffer, &mut self.outgoing);"))
m("ble-drain", "C17 C11", (OP, "        buffer.extend(self.ble.outgoing_mut().drain(..).map(|b| Message::BLE(b)));", "        if buffer.is_empty() {\n            buffer.extend(self.ble.outgoing_mut().drain(..).map(|b| Message::BLE(b)));\n        }"))
m("fwd-drop-recover", "C17 C10", (SP, "        if leader > 0 && self.pid != leader {\n            let pf", "        if leader > 0 && self.pid != leader && self.state.1 != Phase::Recover {\n            let pf"))
m("fwd-buf-not-sent", "C17", (FOL, "            if self.internal_storage.get_stopsign().is_none() {\n                self.forward_buffered_proposals();\n            }\n", ""))
m("fwd-once", "C17", (LEAD, "                _ => self.forward_proposals(entries),\n            }\n        }\n    }", "                (Role::Follower, Phase::Accept) => self.forward_proposals(entries),\n                _ => self.buffered_proposals.append(&mut entries),\n            }\n        }\n    }"))
m("accepted-coalesce-stale", "C17 C06", (FOL, "            if *ballot == n {\n", "            if ballot.n == n.n {\n"))
m("accdec-coalesce-bal", "C01 C17", (LEAD, "            if bal == self.leader_state.n_leader {\n", "            if bal.pid == self.leader_state.n_leader.pid {\n"))
m("clock-ge", "C13 C10", (UT, "        if self.time == self.timeout {\n            self.time = 0;", "        if self.time == self.timeout {\n            self.time = 1;"))
# --- C18
m("cfg-nodes", "C18", (OP, "valid_config!(num_nodes > 1, \"Need more than 1 node\");", "valid_config!(num_nodes > 0, \"Need more than 1 node\");"))
m("cfg-rq", "C18 C12", (OP, "                read_quorum_size + write_quorum_size > num_nodes,", "                read_quorum_size + write_quorum_size >= num_nodes,"))
m("cfg-default", "C18", (UT, "    pub(crate) const RESEND_MESSAGE_TIMEOUT: u64 = 100;", "    pub(crate) const RESEND_MESSAGE_TIMEOUT: u64 = 1000;"))
m("cfg-own", "C18", (OP, "            self.cluster_config.nodes.contains(&self.server_config.pid),", "            self.cluster_config.nodes.iter().any(|n| *n >= self.server_config.pid),"))
m("cfg-flush-zero", "C18", (OP, "            self.resend_message_tick_timeout != 0,", "            self.resend_message_tick_timeout + self.flush_batch_tick_timeout != 0,"))
m("cfg-reconf", "C18 C05", (OP, "        if let Err(config_error) = new_configuration.validate() {", "        if let (Err(config_error), None) = (new_configuration.validate(), new_configuration.flexible_quorum) {"))
m("cfg-toml-novalidate", "C18", (OP, "        config.validate()?;\n        Ok(config)", "        config.cluster_config.validate()?;\n        Ok(config)"))
# --- C19
m("wire-skip-seq", "C19", (UT, "    /// The sequence number with respect to a session\n    pub counter: u64,", "    /// The sequence number with respect to a session\n    #[cfg_attr(feature = \"serde\", serde(default, skip_serializing_if = \"is_zero\"))]\n    pub counter: u64,"), (UT, "impl SequenceNumber {\n", "#[cfg(feature = \"serde\")]\nfn is_zero(x: &u64) -> bool {\n    *x == 0\n}\n\nimpl SequenceNumber {\n"))
m("wire-prio", "C19", (BLE, "    /// Custom priority parameter\n    pub priority: u32,", "    /// Custom priority parameter\n    #[cfg_attr(feature = \"serde\", serde(skip))]\n    pub priority: u32,"))
m("wire-meta-skip", "C19", ("omnipaxos/src/storage/mod.rs", "    /// Metadata for the reconfiguration.\n    pub metadata", "    /// Metadata for the reconfiguration.\n    #[cfg_attr(feature = \"serde\", serde(skip_serializing_if = \"Option::is_none\"))]\n    pub metadata"))
m("wire-recv", "C19", (LEAD, "    pub(crate) fn send_prepare(&mut self, to: NodeId) {\n", "    pub(crate) fn send_prepare(&mut self, to: NodeId) {\n        let to = if self.state.1 == Phase::Accept && !self.peers.contains(&to) { self.peers[0] } else { to };\n"))
m("wire-ble-from", "C19 C11", (MSG, "            Message::BLE(b) => b.from,", "            Message::BLE(b) => match b.msg {\n                crate::messages::ballot_leader_election::HeartbeatMsg::Reply(_) => b.to,\n                _ => b.from,\n            },"))
