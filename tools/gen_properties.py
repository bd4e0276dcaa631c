#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": " ".join(statement.split()),
              "quantifier": {"over": over, "text": " ".join(text.split())},
              "why_tests_cant": " ".join(why.split()),
              "anchors": {"files": files,
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": list(observe), "hook_needed": None}})
RQ, RS, RV = "src/raft_server_req_handlers.cxx", "src/raft_server_resp_handlers.cxx", "src/raft_server.cxx"
FS, AS, BF = "src/fs_log_store.cxx", "src/asio_service.cxx", "src/buffer.cxx"

prop("C01", "One vote per term, and only for an up-to-date candidate",
 """A server grants a vote only to a request that carries the server's own current term, only if it has not
 voted for a different candidate in that term, and only if the candidate's log is at least as up to date as its
 own (higher last term, or equal last term and last index not smaller). Its own last entry is judged correctly
 even when the log has been compacted into a snapshot. Vote and prevote requests describe the requester's own term and last entry truthfully.""",
 ["inputs", "histories"], "every vote request, in every server state (any term, vote, role, log, snapshot)",
 "tests start 3 fresh servers and see one or two elections with equal logs; a stale, duplicate or behind candidate is never sampled",
 [RQ], [("the grant decision and the vote it records", RQ + " handle_vote_req")],
 [("voted_for", "vote in the current term", "include/srv_state.hxx")], ["the accepted flag of a vote response"])

prop("C02", "Term and vote are durable before anyone can learn of them",
 """Whenever a server changes its current term or its vote, it hands the new values to the durable state store
 before it sends any message, returns the reply of the request, or ends the processing step that changed them.
 What is handed over is the state after the change, not before it.""",
 ["crash_points", "histories"], "every path of every request, response and timer handler that changes term or vote, and every crash point after it",
 "the test state manager ignores saves and no test restarts a server",
 [RV, RQ], [("saving of server state", RV + " update_term, become_candidate, request_vote; " + RQ + " handle_vote_req, handle_join_cluster_req")],
 [("term/vote", "persistent election state", "include/srv_state.hxx")], ["calls of the durable state store"])

prop("C03", "Terms only move forward, and a higher term dethrones",
 """A server's term never decreases (except that a server invited into a cluster adopts the inviting leader's term),
 and every move to another term starts with no vote recorded for it. A server that receives a vote, append or
 snapshot request, or a peer response, with a higher term adopts that term and becomes a follower before it acts on
 the message; a response from an older term is never counted.""",
 ["inputs", "histories", "schedules"], "every message with any term against any server state",
 "test clusters live for seconds in one or two terms; stale-term messages do not occur",
 [RV, RQ, RS], [("term adoption", RV + " update_term"), ("request and response entry", RQ + " process_req; " + RS + " handle_peer_resp")])

prop("C04", "Leadership needs a strict majority of distinct current-term votes",
 """A candidate becomes leader only when strictly more than half of all cluster members, itself included, granted it
 a vote in its current term. Each member is counted at most once per election, refusals are not counted as grants, and
 counting starts from zero with each new term.""",
 ["inputs", "histories", "configurations"], "every sequence of vote responses (duplicated, late, from strangers) and every cluster size",
 "tests only ever have 3 members and no duplicated or late responses",
 [RS, RV], [("vote counting", RS + " handle_voting_resp"), ("self vote and single-server election", RV + " request_vote"), ("reset", RV + " become_candidate, update_term")],
 [("votes", "grants counted", "include/raft_server.hxx"), ("voters", "members heard", "include/raft_server.hxx")])

prop("C05", "A leader commits only what a majority stores, and commit never goes back",
 """A leader advances its commit point only to an index that it and enough members to form a strict majority are known,
 from acceptances given in its present leadership, to store, and whose entry was made in its present term. The commit point never moves
 backwards except when a server is re-initialised by an invitation to join or has just installed a newer snapshot; only the leader of a cluster with no other member commits alone.""",
 ["histories", "schedules", "configurations"], "every interleaving of append responses, for every cluster size",
 "tests only have 3 members that are always in step",
 [RS, RV], [("quorum index", RS + " handle_append_entries_resp"), ("commit advance", RV + " commit, request_append_entries, become_leader")],
 [("commit index", "highest index known committed", "include/raft_server.hxx"), ("match index", "highest index known stored by a peer", "include/peer.hxx")])

prop("C06", "Followers accept entries only on a matching prefix",
 """A follower accepts an append request only if the request is not from an older term and its own log holds, at the
 position preceding the new entries, an entry of the same term (or that position is the log's beginning). It replaces an
 entry of its own only when the terms differ at that index, stores every entry of the request at its index, and what it
 acknowledges and marks committed never exceeds the prefix verified by that request.""",
 ["inputs", "histories"], "every append request against every follower log",
 "test followers always have the leader's prefix; divergent logs never occur",
 [RQ], [("consistency check, overlap skip, overwrite, append, ack", RQ + " handle_append_entries")])

prop("C07", "Committed entries reach the state machine once, in order, never early",
 """The state machine is given application entries in strictly increasing index order without gaps or repeats,
 each only after its index is known committed and stored in the local log, with the bytes and index stored for it. Entries that are not
 application entries are never given to it, and only the background applier or a snapshot installation or an invitation to join moves
 the applied position.""",
 ["schedules", "histories"], "every history of commits, configuration entries and snapshots",
 "tests commit a handful of entries and check only the final sum",
 [RV, RQ], [("background applier", RV + " commit_in_bg"), ("snapshot installation", RQ + " handle_snapshot_sync_req")],
 [("applied index", "last index given to the state machine", "include/raft_server.hxx")])

prop("C08", "Pre-commit and rollback notifications follow the log",
 """Every application entry that a server adds to its log is announced to its state machine as a pre-commit with the index it got, after it
 was stored; every application entry removed because it conflicts with the leader's log is announced as a rollback with its index, before it is replaced.
 Entries of other kinds are never announced.""",
 ["inputs", "histories"], "every client request, replicated entry and conflicting suffix",
 "tests never produce conflicting suffixes and their state machines ignore these calls",
 [RQ, RV], [("follower", RQ + " handle_append_entries"), ("leader", RQ + " handle_cli_req; " + RV + " replicate_log")])

prop("C09", "One membership change at a time, effective only once committed",
 """A leader starts a configuration change only while no earlier one is pending in the log, and each new
 configuration differs from the committed one by exactly the one server being added or removed (the first leader may log the
 initial configuration as it is). Servers start and stop treating a server as a member, and save a configuration, only when the
 configuration entry commits or arrives in a snapshot or invitation (besides: a leave request unheard of afterwards lets a server
 take itself out, and the leader of a two-member cluster drops the other member when it cannot be reached for its removal); then
 exactly the servers of that configuration are members. The pending mark is set whenever a configuration entry is appended or
 overwritten into the log and is cleared only when it commits or is overwritten.""",
 ["inputs", "histories", "schedules"], "every interleaving of add and remove requests, retries and responses",
 "tests never add or remove servers",
 [RQ, RS, RV], [("add/remove handling", RQ + " handle_add_srv_req, handle_rm_srv_req, sync_log_to_new_srv, rm_srv_from_cluster"), ("commit of configuration", RV + " commit_in_bg, reconfigure")],
 [("pending mark", "a configuration entry is in the log and not committed", "include/raft_server.hxx")])

prop("C10", "Compaction and snapshots never lose committed history",
 """The log is compacted only up to an index covered by a snapshot the state machine has completed (its own, minus the reserved
 items, or one just received in full), and never below its present start. A snapshot describes an applied index with the term and the configuration in force there, at
 most one is being made at a time, and the ability to make the next one is regained however the attempt ends.""",
 ["histories", "fault_sequences"], "every commit history, every outcome of snapshot creation",
 "tests never enable snapshots",
 [RV, RQ], [("snapshot creation and compaction", RV + " snapshot_and_compact, on_snapshot_completed"), ("installation", RQ + " handle_snapshot_sync_req")])

prop("C11", "Snapshot transfer is gapless and takes effect exactly at its end",
 """The sender transmits a snapshot from the offset last acknowledged, never past its end, marks exactly the block that reaches the end as
 last, and treats the peer as caught up to the snapshot only when the whole size is acknowledged. The receiver refuses snapshots from
 older terms or not newer than what it has applied, hands every accepted block to the state machine at its offset, replaces its log only once the last
 block has arrived, and its configuration and applied position only after the snapshot was applied successfully.""",
 ["inputs", "histories", "fault_sequences"], "every snapshot size, block size and acknowledgement order",
 "tests never transfer a snapshot",
 [RV, RQ, RS], [("sender", RV + " create_sync_snapshot_req"), ("receiver", RQ + " handle_install_snapshot_req, handle_snapshot_sync_req"), ("acknowledgement", RS + " handle_install_snapshot_resp, handle_ext_resp")])

prop("C12", "Prevote never disturbs a healthy cluster",
 """Asking for, answering or counting prevotes changes no server's term or vote. A server in prevote starts a real election only
 after a strict majority of members, itself included and each counted once, accepted; a server accepts a prevote only for an up-to-date log and a term not behind its own, and in defensive mode only while it has itself lost its leader (its election timer fired and it has not heard from the leader of its term since).""",
 ["inputs", "histories", "configurations"], "every prevote request and response sequence, both modes, every cluster size",
 "one test elects a leader once with prevote on",
 [RQ, RS, RV], [("answer", RQ + " handle_prevote_req"), ("count", RS + " handle_prevote_resp"), ("start", RV + " request_prevote, handle_election_timeout")])

prop("C13", "Followers and candidates always keep an election timer running",
 """Every processing step that leaves a server a follower or candidate that is a member and not shutting down leaves an election
 timer scheduled, hearing from the current leader postpones it, and becoming leader stops it. A leader keeps a
 heartbeat scheduled for every peer for as long as it leads and stops them when it steps down or the peer is removed.""",
 ["histories", "schedules", "fault_sequences"], "every handler path, including lost prevote and vote responses",
 "tests see a few hundred milliseconds of a healthy cluster",
 [RV, RQ, RS], [("timers", RV + " handle_election_timeout, restart_election_timer, become_leader, become_follower, handle_hb_timeout, enable_hb_for_peer")])

prop("C14", "Every request kind gets its own handler and a matching reply",
 """Every request kind the protocol defines is handled, and its reply is of the matching kind, carries the server's current term and its
 own id as source, and goes back to the requester; every reply kind a server can receive is processed by the component that sent the request. A reply
 claims acceptance only if the requested action was done.""",
 ["inputs"], "every message kind in every server state",
 "tests exercise only client, vote and append messages",
 [RQ, RS, "include/msg_type.hxx"], [("dispatch", RQ + " process_req, handle_extended_msg; " + RS + " handle_peer_resp, handle_ext_resp")])

prop("C15", "Only the leader accepts client entries, under its own term",
 """Client entries are appended to the log only by a server that is leader and has heard from a majority recently, and always stamped with that leader's current term.
 A caller is told its entries were accepted exactly when they were appended to the leader's log, every accepted
 entry is replicated at once, and a non-leader forwards to or names the leader it knows.""",
 ["inputs", "histories", "schedules"], "every client call on every server role, reachable or not",
 "tests send one request to a healthy leader",
 [RQ, RV], [("client requests", RQ + " handle_cli_req; " + RV + " append_entries, send_msg_to_leader, replicate_log, is_leader")])

prop("C16", "Consensus state is only touched under its locks, taken in one order",
 """Role, term, vote, configuration, election and membership-change state of a server is written only while the server's lock is held, the peer table
 only under the peer-table lock (exclusively for changes), and a peer's replication progress only under that server or peer lock. No thread blocks itself by
 acquiring a lock it holds (a shared hold of the peer table may be repeated under the server's lock, which everyone who takes it exclusively has), no lock stays held
 when an entry point returns, and locks are always nested in one consistent order.""",
 ["schedules"], "every interleaving of RPC, timer, commit and client threads",
 "tests run on one CPU under FIFO scheduling, so no interleaving is sampled",
 [RV, RQ, RS, "include/raft_server.hxx"], [("server lock, peer-table lock, peer lock", "include/raft_server.hxx, include/peer.hxx")])

prop("C17", "No wakeup is lost and no wait ends early",
 """Every thread that waits for a condition (background applier for commits, destructor for the applier, service stop for the final flush, caller for a result) is woken once the condition holds,
 in every interleaving, and continues only when it really holds.""",
 ["schedules"], "every interleaving of waiter and notifier, including spurious wakeups",
 "tests run on one CPU under FIFO scheduling exactly to avoid these interleavings",
 [RV, AS, "include/async.hxx"], [("condition variables", RV + " commit_in_bg, commit, ~raft_server; " + AS + " stop, flush_all_loggers; include/async.hxx get, set_result")])

prop("C18", "What is encoded is decoded unchanged",
 """Every message, log entry, configuration, snapshot description and log pack is decoded field by field in the order, width and meaning in which it was encoded, and
 the space allocated for an encoding is exactly what is written to it. This holds between client and server sides of the wire and between writing and reading the log files.""",
 ["inputs", "programs"], "every value of every encoded type",
 "the serialization test round-trips one random value of some types and never the RPC framing",
 [AS, BF, "src/cluster_config.cxx", "src/snapshot.cxx", "src/snapshot_sync_req.cxx", "src/srv_config.cxx", "include/log_entry.hxx", FS],
 [("encoders/decoders", "serialize/deserialize pairs; asio client send / session read_complete; session reply / client response_read; pack / apply_pack")])

prop("C19", "Buffer accesses never leave the buffer",
 """Reading from or writing to a buffer, for any position, size and argument, either stays within the buffer's allocated bytes or fails with an exception
 without touching memory; the read/write position never passes the end and advances by exactly the bytes transferred.""",
 ["inputs"], "every size (small and large blocks), position and argument",
 "the buffer test performs only in-range accesses on three sizes",
 [BF], [("bounds checks", BF + " get_*, put, get, copy, pos, alloc")])

prop("C20", "Malformed network input is contained",
 """Nothing a remote party sends can make a server read outside received data, allocate without bound or index a table out of range: sizes, counts, message kinds and
 strings taken from the network are validated before use. A frame that fails validation ends only that connection.""",
 ["inputs", "fault_sequences"], "every byte string a peer or stranger can send",
 "tests only send well-formed messages",
 [AS, RQ, RS], [("frame decoding", AS + " rpc_session::start, read_complete; asio_rpc_client::response_read")])

prop("C21", "Every RPC completes exactly once and failed connections are dropped",
 """Each request handed to the network client results in exactly one completion call, with either a response or an error, whatever fails and
 whenever. After any transport error the connection is closed so that the next request reconnects, and memory used by an operation in flight stays alive until it finishes.""",
 ["fault_sequences", "schedules"], "every failure point of resolve, connect, write and read",
 "tests have no network failures",
 [AS, "src/peer.cxx"], [("client chain", AS + " asio_rpc_client send/connected/sent/response_read"), ("session chain", AS + " rpc_session"), ("peer completion", "src/peer.cxx")])

prop("C22", "Asynchronous results are delivered exactly once",
 """A result object runs its completion handler exactly once with the value and error that were set, whether the handler is attached before or after the result arrives, and
 a waiting caller gets that value or that error, never a default.""",
 ["schedules", "histories"], "every order and overlap of set, attach and get",
 "the test tries four fixed orders with sleeps",
 ["include/async.hxx"], [("result object", "include/async.hxx")])

prop("C23", "Log store memory, index and data files agree after every change",
 """After every append, overwrite, pack application or compaction that returns successfully, and after opening a store, the entry count, the start index and the file it is kept in, the in-memory tail,
 the index file and the data file describe the same sequence of entries: every position in the index file is where that entry lies in the data file, and nothing is left over from replaced entries, so that
 reopening the store yields the same log. Exactly the entries asked for are added, replaced or dropped. When such an operation returns, what it wrote has been flushed; an I/O failure while appending, overwriting or
 applying a pack is reported to the caller, never swallowed; and a compaction that gives up puts back all files.""",
 ["inputs", "histories", "fault_sequences"], "every sequence of store operations, entry sizes and buffer sizes",
 "tests run each operation a few times on one fixed random seed",
 [FS], [("mutators", FS + " append, write_at, apply_pack, compact, fill_buffer, log_store_buffer")])

prop("C24", "Log store reads return exactly the entries asked for",
 """Reading entries by range, index or term, and packing them, returns exactly the entries stored at those indices, whether they come from memory or file, never entries outside the requested range,
 and an index before the store's start is refused. An empty range or an index past the end gives nothing (term_at may fail there), and no read changes the store.""",
 ["inputs", "histories"], "every range, buffer size and store history",
 "tests read ranges that end inside the in-memory tail",
 [FS], [("readers", FS + " log_entries, entry_at, term_at, last_entry, pack, log_store_buffer::fill, operator[]")])

prop("C25", "Inconsistencies that endanger safety stop the server",
 """When a server detects a state that must never occur (a second leader in its own term, a leader whose election timer fires, an unknown message kind, a missing snapshot or configuration, a failed snapshot
 application, an exception in the applier) it requests system exit and does not go on processing as if nothing happened.""",
 ["histories", "fault_sequences"], "every path that detects such a state",
 "no test reaches such a state",
 [RV, RQ, RS], [("fail-stop", "system_exit call sites")])

prop("C26", "A cancelled timer task does not run; a rescheduled one does",
 """Cancelling a scheduled task stops its timer and keeps it from executing, scheduling it again makes it run after the new delay, and a timer ended by an error does not execute its task. The timer
 behind a task is released exactly once, when the task goes away.""",
 ["schedules", "histories"], "every order of schedule, cancel, expiry and destruction",
 "the scheduler test runs one schedule and one cancel",
 [AS, "include/delayed_task.hxx", "include/delayed_task_scheduler.hxx", "include/timer_task.hxx"], [("scheduler", AS + " schedule, cancel_impl, _timer_handler_")])

prop("C27", "Replication to a peer is single-flight and never stalls",
 """In one leadership at most one append or snapshot request is outstanding to a member at a time, its slot is released on every completion whether response or error, and a
 commit that could not be announced because the peer was busy is announced when the peer becomes free. A successful exchange restores the normal heartbeat pace, failures slow it down only up to the configured maximum, and a rejected append always moves
 the next index to try.""",
 ["schedules", "fault_sequences"], "every interleaving of commits, responses and failures",
 "tests have no failing peers",
 ["src/peer.cxx", "include/peer.hxx", RV, RS], [("busy slot", "include/peer.hxx make_busy/set_free"), ("catch up", RS + " handle_append_entries_resp, handle_install_snapshot_resp")])

prop("C28", "Log lines are kept, in order and by level, until they are in the file",
 """Every line logged at or above the configured level is written to the file exactly once and in order, at the latest when the service stops or the logger is destroyed; lines below the level never are.""",
 ["schedules", "histories"], "every interleaving of logging, flushing and stopping",
 "the logger test logs from one thread with fixed timing",
 [AS], [("logger", AS + " fs_based_logger, flush_all_loggers")])

prop("C29", "Replicated logs converge to one linearizable history",
 """All servers apply the same sequence of entries, and every accepted client entry eventually appears in it, for every schedule, message loss and minority of crashes.""",
 ["schedules", "crash_points", "fault_sequences"], "all executions of a whole cluster",
 "tests run one cluster once", [RV, RQ, RS], [("whole protocol", "raft_server")])

prop("C30", "A leader is elected within bounded time when a majority is connected",
 """Whenever a majority of servers can exchange messages in time, some server becomes leader within a few election timeouts and stays leader while heartbeats arrive.""",
 ["schedules", "configurations"], "all timings and timeout settings",
 "tests use one timing", [RV, "include/raft_params.hxx"], [("randomised election timeout", RV)])

prop("C31", "The file log store survives a crash at any point",
 """If the process dies at any instant, reopening the log folder yields a prefix-consistent log containing every entry whose append had returned.""",
 ["crash_points"], "every crash point of every store operation",
 "tests never crash", [FS], [("flush order of the three files", FS)])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
