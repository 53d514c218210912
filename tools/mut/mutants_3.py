# --- further variants, written from the property texts
# C01/C06
m("r3-accsync-no-min", "C01 C06", (LEAD, "            *prev_round_max_accepted_idx.min(followers_accepted_idx)\n", "            *followers_accepted_idx\n"))
m("r3-accsync-decided", "C01 C02", (LEAD, "        } else {\n            followers_decided_idx\n        };", "        } else {\n            (*followers_accepted_idx).min(self.internal_storage.get_decided_idx()).max(followers_decided_idx)\n        };"))
m("r3-accsync-ge", "C01 C06", (LEAD, "        } else if *followers_promise_n == *prev_round_max_promise_n {", "        } else if followers_promise_n.n == prev_round_max_promise_n.n {"))
m("r3-sync-none-round", "C01 C06", (IST, "        self.state_cache.accepted_round = accepted_round;\n        self.state_cache.decided_idx = decided_idx;\n", "        if self.state_cache.accepted_idx > 0 {\n            self.state_cache.accepted_round = accepted_round;\n        }\n        self.state_cache.decided_idx = decided_idx;\n"))
m("r3-na-pid", "C01 C06", (FOL, "let log_sync = if na > prep.n_accepted {", "let log_sync = if na.n > prep.n_accepted.n {"))
m("r3-maj-own-acc", "C01 C12", (LEAD, "        self.leader_state\n            .set_accepted_idx(self.pid, new_accepted_idx);\n        for pid in self.leader_state.get_promised_followers() {\n            self.send_accsync(pid);", "        for pid in self.leader_state.get_promised_followers() {\n            self.leader_state.set_accepted_idx(self.pid, new_accepted_idx);\n            let acc = self.leader_state.get_promise_meta(pid).accepted_idx.min(new_accepted_idx);\n            self.leader_state.set_accepted_idx(pid, acc);\n            self.send_accsync(pid);"))
m("r3-decide-role", "C01 C02", (FOL, "            && self.state.1 == Phase::Accept\n            && self.handle_sequence_num(dec.seq_num", "            && self.state.1 != Phase::Prepare\n            && self.handle_sequence_num(dec.seq_num"))
m("r3-preparereq-keeps-state", "C01 C10", (SP, "        } else if pid == self.get_current_leader() {\n            self.state = (Role::Follower, Phase::Recover);\n        }", "        }"))
m("r3-seqnum-expected-late", "C01 C10", (FOL, "            MessageStatus::DroppedPreceding => self.reconnected(from),", "            MessageStatus::DroppedPreceding => {\n                self.current_seq_num = seq_num;\n                self.reconnected(from)\n            }"))
m("r3-seq-first", "C10 C01", (UT, "        } else if msg_seq_num <= *self {\n", "        } else if msg_seq_num <= *self || msg_seq_num.session > self.session {\n")) if False else None
m("r3-accsync-seq", "C10 C01", (FOL, "            self.current_seq_num = accsync.seq_num;\n", "            self.current_seq_num = accsync.seq_num.max(self.current_seq_num);\n")) if False else None
m("r3-cached-promise-stale", "C10 C01", (FOL, "            self.cached_promise_message = Some(promise.clone());\n", "            if self.cached_promise_message.is_none() || promise.log_sync.is_some() {\n                self.cached_promise_message = Some(promise.clone());\n            }\n"))
m("r3-lost-promise-never", "C08 C10", (LEAD, "            self.leader_state.lost_promise(from);", "            if self.state.1 == Phase::Prepare {\n                self.leader_state.lost_promise(from);\n            }"))
m("r3-become-follower", "C01 C17 C10", (LEAD, "        } else {\n            self.become_follower();\n        }\n    }", "        }\n    }"))
m("r3-leader-no-flush-sync", "C13 C01", (LEAD, "    fn handle_majority_promises(&mut self) {\n        let max_promise_sync = self.leader_state.take_max_promise_sync();", "    fn handle_majority_promises(&mut self) {\n        let max_promise_sync = self.leader_state.take_max_promise_sync().filter(|s| !s.suffix.is_empty() || s.stopsign.is_some());"))
m("r3-prom-sync-ss", "C05 C01", (SP, "            stopsign: self.internal_storage.get_stopsign(),\n", "            stopsign: self.internal_storage.get_stopsign().filter(|_| common_prefix_idx <= self.internal_storage.get_accepted_idx_without_stopsign() && (sync_idx < self.internal_storage.get_accepted_idx() || decided_idx > 0)),\n"))
m("r3-ss-buffer-after-sync", "C05 C17", (LEAD, "            if let Some(ss) = self.buffered_stopsign.take() {\n                self.internal_storage", "            if let Some(ss) = self.buffered_stopsign.clone() {\n                self.internal_storage"))
m("r3-buffered-survive", "C05 C03", (FOL, "            if self.internal_storage.get_stopsign().is_none() {\n                self.forward_buffered_proposals();\n            }\n", "            self.forward_buffered_proposals();\n"))
m("r3-stop-on-propose", "C05", (SP, "            _ => self.forward_stopsign(ss),\n        }\n        Ok(())", "            _ if self.buffered_stopsign.is_some() => return Ok(()),\n            _ => self.forward_stopsign(ss),\n        }\n        Ok(())"))
m("r3-err-content", "C05", (SP, "return Err(ProposeErr::PendingReconfigConfig(new_config, metadata));", "let _ = metadata;\n            return Err(ProposeErr::PendingReconfigConfig(new_config, None));"))
# C02
m("r3-sync-decided-max", "C02", (IST, "            StorageOp::SetDecidedIndex(decided_idx),\n        ];", "            StorageOp::SetDecidedIndex(decided_idx.min(self.state_cache.accepted_idx.max(self.state_cache.decided_idx))),\n        ];"))
m("r3-decided-ss-restart", "C02 C05", (IST, "        if self.state_cache.stopsign.is_some() {\n            self.state_cache.accepted_idx += 1;\n        }\n    }", "        if self.state_cache.stopsign.is_some() {\n            self.state_cache.accepted_idx += 1;\n        }\n        self.state_cache.decided_idx = self\n            .state_cache\n            .decided_idx\n            .min(self.storage.get_log_len().unwrap() + self.state_cache.compacted_idx);\n    }"))
# C03/C17
m("r3-forward-own", "C03 C17", (SP, "        if leader > 0 && self.pid != leader {\n            let pf = PaxosMsg::ProposalForward(entries);", "        if leader > 0 && self.pid != leader && self.state.1 != Phase::None {\n            entries.splice(0..0, std::mem::take(&mut self.buffered_proposals));\n            let pf = PaxosMsg::ProposalForward(entries);"))
m("r3-forward-resend", "C03", (FOL, "        let proposals = std::mem::take(&mut self.buffered_proposals);\n", "        let proposals = self.buffered_proposals.clone();\n        if self.state.1 == Phase::Accept {\n            self.buffered_proposals.clear();\n        }\n"))
m("r3-accmeta-session", "C01 C03", (LEAD, "        self.leader_state.set_latest_accept_meta(to, None);\n        let acc_sync", "        let acc_sync"))
m("r3-accdec-decided-stale", "C13 C17 C10", (LEAD, "                    accdec.entries.extend(accepted.entries.iter().cloned());\n                    accdec.decided_idx = decided_idx;\n", "                    accdec.entries.extend(accepted.entries.iter().cloned());\n                    let _ = decided_idx;\n"))
m("r3-decide-merge-ss", "C05 C17", (LEAD, "                        Some(accdec) => accdec.decided_idx = decided_idx,\n", "                        Some(accdec) if accdec.decided_idx == 0 => accdec.decided_idx = decided_idx,\n                        Some(_) => (),\n"))
# C04
m("r3-set-promise-order", "C04 C06", (IST, "        self.state_cache.promise = n_prom;\n        self.storage.set_promise(n_prom)\n", "        self.state_cache.promise = n_prom;\n        if n_prom.pid == self.state_cache.accepted_round.pid && n_prom.n == self.state_cache.accepted_round.n + 1 {\n            return Ok(());\n        }\n        self.storage.set_promise(n_prom)\n"))
m("r3-recover-promise", "C04 C20", (SP, "            .set_promise(leader)\n            .expect(WRITE_ERROR_MSG);\n        #[cfg(feature = \"logging\")]\n        {\n            info!(paxos", "            .set_promise(leader.max(paxos.internal_storage.get_accepted_round()))\n            .expect(WRITE_ERROR_MSG);\n        if paxos.internal_storage.get_accepted_round() < leader {\n            let na = paxos.internal_storage.get_accepted_round();\n            paxos.internal_storage.set_promise(na).expect(WRITE_ERROR_MSG);\n        }\n        #[cfg(feature = \"logging\")]\n        {\n            info!(paxos"))
# C07
m("r3-snap-remote-idx", "C07", (SP, "                let msg = PaxosMsg::Compaction(Compaction::Snapshot(idx));", "                let msg = PaxosMsg::Compaction(Compaction::Snapshot(idx.or(Some(self.internal_storage.get_compacted_idx()))));"))
m("r3-delta-cached", "C07", (LEAD, "            0 => followers_decided_idx,\n            _ => 0,\n", "            0 | 1 => followers_decided_idx,\n            _ => 0,\n"))
m("r3-delta-merge-base", "C07", (IST, "                    let mut snapshot = self.create_decided_snapshot()?;\n", "                    let mut snapshot = self.create_snapshot(decided_idx.min(self.get_accepted_idx_without_stopsign()))?;\n"))
m("r3-complete-trim", "C07 C06", (IST, "                Some(SnapshotType::Complete(c)) => {\n                    self.state_cache.compacted_idx = sync.sync_idx;\n                    sync_txn.push(StorageOp::Trim(sync.sync_idx));\n", "                Some(SnapshotType::Complete(c)) => {\n                    self.state_cache.compacted_idx = sync.sync_idx;\n                    if sync.sync_idx <= self.state_cache.accepted_idx {\n                        sync_txn.push(StorageOp::Trim(sync.sync_idx));\n                    }\n"))
m("r3-snap-lt-compacted", "C07", (IST, "            let snapshot = self.create_snapshot(new_compacted_idx)?;\n            self.storage.write_atomically(vec![", "            let mut snapshot = self.create_snapshot(new_compacted_idx)?;\n            if new_compacted_idx < log_decided_idx && self.get_compacted_idx() > 0 {\n                snapshot = self.create_snapshot(log_decided_idx)?;\n            }\n            self.storage.write_atomically(vec!["))
# C08
m("r3-trim-leader-phase", "C08", (SP, "            (Role::Leader, _) => {\n                let min_all", "            (Role::Leader, Phase::Accept) => {\n                let min_all"))
m("r3-trim-msg-idx", "C08", (SP, "                        let msg = PaxosMsg::Compaction(Compaction::Trim(trimmed_idx));", "                        let msg = PaxosMsg::Compaction(Compaction::Trim(min_all_accepted_idx));"))
m("r3-min-all-promised", "C08", (UT, "    pub fn get_min_all_accepted_idx(", "    #[allow(dead_code)]\n    pub fn get_min_promised(&self) -> usize { 0 }\n\n    pub fn get_min_all_accepted_idx(")) if False else None
m("r3-reset-promise-accepted", "C08 C20", (LEAD, "            self.leader_state.reset_promise(from);\n            self.leader_state.set_latest_accept_meta(from, None);\n", "            self.leader_state.reset_promise(from);\n            let d = self.internal_storage.get_decided_idx();\n            self.leader_state.set_accepted_idx(from, d);\n            self.leader_state.set_latest_accept_meta(from, None);\n"))
m("r3-promise-sets-acc", "C08 C12 C20", (LEAD, "            self.leader_state.set_promise(prom, from, false);\n            self.send_accsync(from);", "            let acc = prom.accepted_idx;\n            self.leader_state.set_promise(prom, from, false);\n            self.leader_state.set_accepted_idx(from, acc);\n            self.send_accsync(from);"))
m("r3-sync-after-trim", "C08", (SP, "                    common_prefix_idx.max(self.internal_storage.get_compacted_idx());", "                    common_prefix_idx.max(other_logs_decided_idx.min(self.internal_storage.get_compacted_idx()));"))
# C09
m("r3-read-excl-start", "C09", (IST, "            Bound::Excluded(e) => *e + 1,\n            Bound::Unbounded => 0,", "            Bound::Excluded(e) => *e,\n            Bound::Unbounded => 0,"))
m("r3-read-unb-compacted", "C09", (IST, "            Bound::Excluded(e) => *e + 1,\n            Bound::Unbounded => 0,", "            Bound::Excluded(e) => *e + 1,\n            Bound::Unbounded => self.get_compacted_idx(),"))
m("r3-suffix-ss", "C09 C05", (IST, "            self.read(from_idx..decided_idx)", "            self.read(from_idx..self.get_decided_idx_without_stopsign().max(from_idx + 1))"))
m("r3-op-read", "C09", (OP, "            Some(mut v) => v.pop(),", "            Some(v) => v.into_iter().next(),")) if False else None
# C10
m("r3-resend-prep-once", "C10", (UT, "                PromiseState::NotPromised => Some(", "                PromiseState::NotPromised => Some(")) if False else None
m("r3-preparable-lost", "C10 C12", (UT, "    pub fn lost_promise(&mut self, pid: NodeId) {\n", "    pub fn lost_promise(&mut self, pid: NodeId) {\n        self.accepted_indexes[Self::pid_to_idx(pid)] = usize::MAX / 2;\n"))
m("r3-resend-clock", "C10", (OP, "            self.seq_paxos.resend_message_timeout();", "            if self.seq_paxos.get_promise().pid != self.ble.get_current_ballot().pid {\n                self.seq_paxos.resend_message_timeout();\n            }"))
m("r3-recover-own-leader", "C10", (SP, "        let prepreq = PrepareReq {\n            n: self.get_promise(),\n        };\n        self.outgoing.push(Message::SequencePaxos(PaxosMessage {\n            from: self.pid,\n            to: pid,", "        if self.state == (Role::Leader, Phase::Accept) {\n            return;\n        }\n        let prepreq = PrepareReq {\n            n: self.get_promise(),\n        };\n        self.outgoing.push(Message::SequencePaxos(PaxosMessage {\n            from: self.pid,\n            to: pid,"))
# C11
m("r3-no-config-check", "C11", (BLE, "        if rep.round == self.hb_round && rep.ballot.config_id == self.configuration_id {", "        if rep.round == self.hb_round {"))
m("r3-reply-same-round-mod", "C11 C20", (BLE, "        if rep.round == self.hb_round && rep.ballot.config_id", "        if rep.round + 1 >= self.hb_round && rep.ballot.config_id"))
m("r3-keep-replies", "C11 C20", (BLE, "        self.prev_replies = std::mem::take(&mut self.heartbeat_replies);\n", "        self.prev_replies = self.heartbeat_replies.clone();\n        if !self.happy {\n            self.heartbeat_replies.clear();\n        } else {\n            let leader = self.leader;\n            self.heartbeat_replies.retain(|r| r.ballot == leader);\n        }\n"))
m("r3-takeover-keep-happy", "C11", (BLE, "                self.leader = self.current_ballot;\n                self.happy = true;\n", "                self.leader = self.current_ballot;\n"))
m("r3-election-only-new", "C11", (OP, "        if self.election_clock.tick_and_check_timeout() {", "        if self.election_clock.tick_and_check_timeout() && (self.seq_paxos.get_state().1 != crate::sequence_paxos::Phase::Prepare || self.seq_paxos.get_state().0 == crate::sequence_paxos::Role::Follower) {"))
# C12
m("r3-chosen-promised", "C12", (UT, "            .filter(|la| **la >= idx)\n", "            .filter(|la| **la >= idx.saturating_sub(self.batch_accept_meta.len() / 5))\n"))
m("r3-set-promise-dup", "C12", (UT, "            .filter(|p| matches!(p, PromiseState::Promised(_)))\n            .count();", "            .filter(|p| matches!(p, PromiseState::Promised(_)))\n            .count()\n            + (check_max_prom && self.max_promise_sync.is_some()) as usize;")) if False else None
# C13
m("r3-flush-leader-acc", "C13 C12", (LEAD, "            .append_stopsign(ss.clone())\n            .expect(WRITE_ERROR_MSG);\n        if let Some(metadata) = accepted_metadata {\n            self.send_acceptdecide(metadata);\n        }", "            .append_stopsign(ss.clone())\n            .expect(WRITE_ERROR_MSG);\n        if let Some(metadata) = accepted_metadata {\n            if metadata.entries.len() > 1 || metadata.accepted_idx > 1 {\n                self.send_acceptdecide(metadata);\n            }\n        }"))
m("r3-acceptsync-batch", "C13 C01", (LEAD, "            #[cfg(feature = \"unicache\")]\n            self.flush_batch_leader();\n            self.leader_state.set_promise(prom, from, false);", "            self.leader_state.set_promise(prom, from, false);\n            self.flush_batch_leader();"))
m("r3-reply-batched", "C13 C06", (FOL, "            if let Some(idx) = new_accepted_idx {\n                self.reply_accepted(acc_dec.n, idx);\n            }", "            if let Some(idx) = new_accepted_idx {\n                self.reply_accepted(acc_dec.n, idx.max(acc_dec.decided_idx));\n            }"))
m("r3-batch-drop-on-role", "C13", (SP, "            (Role::Leader, Phase::Accept) => self.flush_batch_leader(),\n            (Role::Follower, Phase::Accept) => self.flush_batch_follower(),", "            (Role::Leader, Phase::Accept) if self.leader_state.get_promised_followers().len() == self.peers.len() => self.flush_batch_leader(),\n            (Role::Follower, Phase::Accept) => self.flush_batch_follower(),"))
# C14 / C15
m("r3-per-le-put", "C14", (PER, "            self.write_batch.put_cf(\n                self.db.cf_handle(LOG).unwrap(),\n                self.next_log_key.to_be_bytes(),\n                bincode::serialize(&entry)?,\n            );\n            self.next_log_key += 1;\n        }\n        Ok(())", "            self.write_batch.put_cf(\n                self.db.cf_handle(LOG).unwrap(),\n                (self.next_log_key as u8 as usize | self.next_log_key & !0xff).to_be_bytes(),\n                bincode::serialize(&entry)?,\n            );\n            self.next_log_key += 1;\n        }\n        Ok(())")) if False else None
m("r3-per-u8-key", "C14", (PER, "        let to_key = trimmed_idx.to_be_bytes();\n        let log = self.db.cf_handle(LOG).unwrap();", "        let to_key = ((trimmed_idx as u8) as usize).to_be_bytes();\n        let log = self.db.cf_handle(LOG).unwrap();"))
m("r3-per-swap-opts", "C14", (PER, "            path,\n            log_options,\n            rocksdb_options,\n        }\n    }", "            path,\n            log_options: rocksdb_options,\n            rocksdb_options: log_options,\n        }\n    }"))
m("r3-per-new-open", "C14", (PER, "        std::fs::metadata(storage_config.path.clone()).expect_err(&format!(\n            \"Cannot create new instance, database already exists in {}\",\n            storage_config.path\n        ));\n", ""))
# C16
m("r3-uni-batch-stale", "C16", (LEAD, "            #[cfg(feature = \"unicache\")]\n            self.flush_batch_leader();\n", ""))
m("r3-uni-new-leader", "C16", (LEAD, "            #[cfg(feature = \"unicache\")]\n            self.internal_storage.set_unicache(crate::unicache::UniCache::new());\n", ""))
# C18
m("r3-cfg-batch", "C18", (OP, "valid_config!(self.batch_size != 0, \"Batch size must be greater than 0\");", "valid_config!(self.batch_size != 0 || self.buffer_size > 1, \"Batch size must be greater than 0\");"))
# C20
m("r3-ui-leader-role", "C20", (OP, "            self.seq_paxos.get_state().1 == Phase::Accept", "            self.seq_paxos.get_state().1 != Phase::Prepare")) if False else None
