#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
SP="omnipaxos/src/sequence_paxos/"; L=SP+"leader.rs"; F=SP+"follower.rs"; M=SP+"mod.rs"
OP="omnipaxos/src/omni_paxos.rs"; BLE="omnipaxos/src/ballot_leader_election.rs"
IS="omnipaxos/src/storage/internal_storage.rs"; SC="omnipaxos/src/storage/state_cache.rs"; ST="omnipaxos/src/storage/mod.rs"
U="omnipaxos/src/util.rs"; MSG="omnipaxos/src/messages.rs"
MS="omnipaxos_storage/src/memory_storage.rs"; PS="omnipaxos_storage/src/persistent_storage.rs"
UC="omnipaxos/src/unicache/mod.rs"; LRU="omnipaxos/src/unicache/lru_cache.rs"; LFU="omnipaxos/src/unicache/lfu_cache.rs"; LFUM="omnipaxos/src/unicache/lfu/mod.rs"
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},
      "why_tests_cant":why,"anchors":{"files":files,
      "state":[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],
      "mechanism":[dict(name=a,where=b) for a,b in mech],
      "observe_at":observe or [],"hook_needed":hook}})
NOTEST="The cluster tests need the kompact runtime, sample a handful of schedules and do not even build offline; the 15 tests that run never start a replicating cluster with faults."
p("C01","Agreement: servers never decide different entries at the same position",
  "For every log position, all servers that ever decide that position decide the same entry (or the same reconfiguration marker), whichever rounds, leaders, crashes, restarts, partitions, message losses, log synchronisations or compactions happened. The decided logs of any two servers are therefore always prefixes of one common sequence.",
  ["schedules","crash_points","fault_sequences","configurations","histories"],
  "Every cluster size and quorum configuration, every schedule of appends, ticks and message deliveries, every sequence of link cuts, losses, crashes and restarts.",NOTEST,
  [L,F,M,IS,U],[("prepare phase adopts the most up-to-date accepted log among a read quorum",L+" handle_majority_promises, send_accsync"),("log synchronisation computes the common prefix",M+" create_log_sync; "+IS+" sync_log"),("entries decided only when a write quorum accepted them",L+" handle_accepted; "+U+" is_chosen"),("per-session sequence numbers detect lost accept messages",F+" handle_sequence_num; "+U+" SequenceNumber")],
  [("decided_idx","length of the decided log",SC),("accepted_round","round of the last accept",SC)],["get_decided_idx/read_decided_suffix on every server after every step"])
p("C02","Decided is final: decided index never regresses, decided content never changes",
  "On every server the decided index never decreases and an entry once reported as decided is reported with the same content at the same position ever after, or as part of a compacted prefix. This also holds across a crash and restart from the server's own storage, across leader changes and across log synchronisation with any leader.",
  ["schedules","crash_points","fault_sequences","histories"],"Every history of one server in any cluster execution, including restarts at any point.",NOTEST,
  [F,L,IS,SC],[("decided index only moves forward",F+" update_decided_idx_and_get_accepted_idx; "+IS+" sync_log"),("state reloaded from storage on restart",IS+" load_cache")],
  [("decided_idx","decided length in memory and in storage",SC)],["get_decided_idx, read, read_decided_suffix, storage decided index"])
p("C03","Integrity: only proposed entries are decided, unmodified and at most once",
  "Every decided entry was passed to an append call on some server before it was decided, with exactly the decided content, and each append call contributes at most one decided position. Entries that one server appends while it is the leader, with no leader change in between, are decided in the order in which they were appended. The same holds for entries that a follower appends while it stays connected to one leader.",
  ["schedules","fault_sequences","inputs","histories"],"Every sequence of appends at leaders and followers, forwarding, buffering, batching, leader changes, losses and restarts.",NOTEST,
  [M,L,F,SC],[("forwarding and buffering of proposals",M+" propose_entry, forward_proposals; "+F+" forward_buffered_proposals"),("batching and merging of accept messages",L+" send_acceptdecide; "+SC+" append_entries")],
  [("buffered_proposals","proposals waiting for a leader",M)],["append at the client boundary, decided entries on read"])
p("C04","Durability: a decided entry stays stored on a write quorum of servers",
  "From the moment any server reports an entry as decided, the persistent storages of at least a write quorum of servers (a majority by default, the configured size with flexible quorums) hold that entry at that position, and they do so for ever, either literally or in a compacted prefix. Consequently any read quorum of surviving servers can recover every decided entry.",
  ["schedules","crash_points","fault_sequences","configurations"],"Every instant of every execution, every quorum configuration, every crash point.",NOTEST,
  [L,F,IS,U],[("acceptance is counted per server and compared with the write quorum",U+" is_chosen, Quorum"),("entries written to storage before they are acknowledged",F+" handle_acceptdecide; "+IS+" append_entries_without_batching"),("atomic replacement of the log suffix",IS+" sync_log")],
  [("accepted_indexes","acceptances known to the leader",U)],["contents of every server's storage after every storage write"])
p("C05","Acknowledge only what is persisted",
  "A server never emits a message promising a round, or acknowledging log entries up to an index, unless its own storage already holds that promise and those entries at that moment. A server that crashes at any point right after sending such a message and restarts from its storage still honours it: its promised round is not lower and the acknowledged entries are still there unless a later round replaced them.",
  ["crash_points","schedules","fault_sequences"],"Every emitted message of every execution, every crash point between storage writes and message emission, with and without batching.",NOTEST,
  [F,L,IS],[("promise stored before the promise message is queued",F+" handle_prepare; "+L+" handle_leader"),("acknowledgement carries the flushed index, not the batched one",F+" handle_acceptdecide, reply_accepted, flush_batch_follower"),("leader counts its own acceptance only after flushing",L+" accept_entry_leader, flush_batch_leader")],
  [("accepted_idx","flushed log length",SC)],["take_outgoing_messages compared with the storage content"])
p("C06","Rounds: promises never go backwards and stale leaders cannot write",
  "The round a server has promised never decreases, including across crash and restart. A server that has promised a round never changes its log or decided index because of a message from a lower round. No two servers, and no two incarnations of one server, ever replicate entries in the same round.",
  ["schedules","crash_points","fault_sequences","histories"],"Every interleaving of messages of concurrent leaders and every restart.",NOTEST,
  [F,L,BLE,OP],[("ballot check on every accept-phase message",F+" check_valid_ballot"),("promise only for strictly higher rounds (or recovery)",F+" handle_prepare"),("ballot with server id as tie breaker; fresh ballot after recovery",BLE+" Ballot, with, check_takeover")],
  [("promise","highest promised round",SC)],["get_promise, storage promise, messages on the wire"])
p("C07","A leader replicates only after a read quorum, and misses no decided entry",
  "Before a server first sends log entries in a round as leader, promises for that round have been made by a read quorum of servers, counting itself. At that moment its own log already contains every entry that any server has decided in an earlier round.",
  ["schedules","fault_sequences","configurations"],"Every leader change in every execution and every quorum configuration.",NOTEST,
  [L,U,F],[("prepare quorum",U+" set_promise, Quorum::is_prepare_quorum"),("most up-to-date promise selected",U+" PromiseMetaData ordering; "+L+" handle_majority_promises"),("follower sends what the leader misses",F+" handle_prepare")],
  [("max_promise_meta","most up-to-date promise",U)],["first synchronisation/accept message of each round, storage of the leader"])
p("C08","Log matching: logs accepted in the same round are prefixes of each other",
  "Whenever two servers have last accepted in the same round, the log stored by one (undecided part included) is a prefix of the log stored by the other. Lost, late or merged messages and reconnections never leave a gap, a duplicate or a wrongly placed entry in a log.",
  ["schedules","fault_sequences","histories"],"Every pair of servers at every instant, every pattern of message loss and reconnection, every batch size.",NOTEST,
  [L,F,M,U,IS],[("sessions and sequence numbers",U+" SequenceNumber; "+L+" increment_seq_num_session"),("in-place extension of unsent accept messages",L+" get_latest_accdec_message"),("log synchronisation point",M+" create_log_sync")],
  [("follower_seq_nums","per-follower message sequence",U)],["contents of every server's storage"])
p("C09","Progress: once faults stop, appended entries get decided on all servers",
  "Once all servers run, all links work, lost connections have been announced on both ends and nothing more is lost, then within a bounded number of timeouts there is one leader that all servers agree on. Every entry appended to any server from then on is decided by every server within a bounded number of timeouts, and every server catches up with everything decided before, also if nothing new is appended. Messages of the leader handshake that are lost without notice are resent, accept messages lost without notice are made good at the latest when the leader appends more, and entries appended before a connected new cluster has elected its first leader are decided too.",
  ["fault_sequences","schedules","crash_points","configurations"],"Every fault history preceding the stable period; progress is measured in ticks (logical time), with a bound of a fixed multiple of the configured timeouts.",NOTEST,
  [BLE,L,F,M,OP],[("leader election",BLE+" hb_timeout"),("re-preparation on reconnect and recovery",M+" reconnected; "+L+" handle_preparereq"),("resending",L+" resend_messages_leader; "+F+" resend_messages_follower")],
  [],["get_current_leader, get_decided_idx after a bounded number of ticks"])
p("C10","Progress under partial connectivity with one quorum-connected server",
  "If at least one server is directly connected to a majority of servers (itself included) and the connectivity stays fixed, then within a bounded number of election timeouts some quorum-connected server leads, and entries appended to it are decided by it and by a quorum of servers, even when other servers cannot reach each other. This includes losing the old leader's quorum, a constrained election and chained connectivity. With flexible quorums the same holds for a read quorum, and an established leader that keeps a write quorum goes on deciding entries.",
  ["fault_sequences","configurations","schedules"],"Every fixed connectivity graph in which some server has a quorum of neighbours, reached from any prior state.",NOTEST,
  [BLE,OP,L],[("quorum-connected and happiness checks",BLE+" update_happiness, check_takeover"),("synchronising BLE with the promise",BLE+" hb_timeout")],
  [("happy","server sees a functioning leader",BLE)],["get_current_leader, get_decided_idx"])
p("C11","Leadership is stable and follows priority",
  "Once all servers have followed one leader for a few election timeouts, that leader and its round never change while it is alive and stays connected to a write quorum (itself included) and no election is requested, whatever links the other servers keep among themselves and even if servers that it does not need crash and restart. A fresh fully connected cluster whose first heartbeats are exchanged within the first election timeout elects the server with the highest priority (configured, or raised at run time before; ties broken by the higher server id), and an explicit request to become leader on a connected server makes that server the leader of all within a bounded number of ticks.",
  ["schedules","configurations","inputs"],"Every cluster size, tick phase, priority assignment and message interleaving within a fault-free period, and every set of lost links that leaves the leader a write quorum.",NOTEST,
  [BLE,OP],[("leader kept while its heartbeat arrives",BLE+" update_leader, update_happiness"),("ballot order (number, priority, id)",BLE+" Ballot::cmp"),("manual takeover",OP+" try_become_leader")],
  [],["get_current_leader, get_promise"])
p("C12","A decided reconfiguration seals the log",
  "A decided reconfiguration marker is the last decided position on every server: no entry is ever decided after it and at most one such marker is ever decided. From the time a server reports the configuration as stopped it keeps reporting exactly the same next configuration and metadata for ever, including after restarts, reconnections and leader changes, and all servers report the same one.",
  ["schedules","crash_points","fault_sequences","histories"],"Every interleaving of reconfiguration requests, appends, leader changes, crashes, reconnections and compactions.",NOTEST,
  [M,L,F,IS,SC],[("stopsign counted as the last log position",SC+" append_stopsign, stopsign_is_decided; "+IS+" set_stopsign, load_cache"),("appends refused after a stopsign was accepted",M+" append, accepted_reconfiguration"),("stopsign in log synchronisation",IS+" sync_log")],
  [("stopsign","accepted reconfiguration marker",SC)],["is_reconfigured, read_decided_suffix, get_decided_idx"])
p("C13","Reconfiguration requests are answered correctly and make progress",
  "An append or reconfiguration request is refused exactly when the server's log already holds a reconfiguration marker or the proposed configuration is invalid, and a refused request is returned intact and has no effect on any log. A reconfiguration request that a server accepts in a stable, connected period is (or, of several, one is) eventually decided and reported by every server, whichever server received it, whatever role it had, also at a server that already follows a new leader whose election is not completed yet, and even if the marker or its decision get lost on the way to some servers without notice; the servers of the next configuration can then start and decide entries.",
  ["schedules","inputs","fault_sequences","configurations"],"Every role and phase in which a request can arrive, every configuration value, bounded in ticks for the progress part.",NOTEST,
  [M,OP,L,F],[("admission",OP+" reconfigure; "+M+" append, reconfigure"),("forwarding and buffering of the stopsign",M+" forward_stopsign; "+L+" handle_forwarded_stopsign, handle_majority_promises"),("resending stopsign messages",L+" resend_messages_leader")],
  [("buffered_stopsign","request waiting for a leader",M)],["return values of append/reconfigure, is_reconfigured"])
p("C14","Snapshots equal the fold of the decided prefix they replace",
  "Whenever a server exposes a snapshot covering the log up to an index, its content equals the one obtained by applying exactly the decided entries before that index in order, however the snapshot came about (local, cluster-wide, incremental, received in a log synchronisation, reloaded after restart). Only decided entries are ever snapshotted, a request beyond the decided index is refused with the decided index and changes nothing, and the compacted index never decreases. In a stable, connected cluster a cluster-wide request is carried out by every server and a local one by that server only.",
  ["schedules","fault_sequences","crash_points","histories","inputs"],"Every interleaving of snapshot requests with appends, synchronisation, crashes and leader changes, when trimming without snapshots is not used on the same log.",NOTEST,
  [IS,M],[("create and merge",IS+" create_snapshot, create_diff_snapshot, try_snapshot"),("complete or delta snapshot in synchronisation",M+" create_log_sync; "+IS+" sync_log")],
  [("compacted_idx","length of the compacted prefix",SC)],["read of a compacted position, stored snapshot, get_compacted_idx"])
p("C15","Trimming removes only entries that every server already has",
  "A trim succeeds only at the leader and only up to an index that is decided and that every server of the cluster has stored; otherwise it is refused with the leader or the highest allowed index and changes nothing, and it does succeed once the leader has learnt that all servers stored the decided entries. After any sequence of trims every server still ends up with, or has already had, the complete decided sequence, and no server loses an undecided or unreplicated entry.",
  ["schedules","fault_sequences","configurations","inputs","histories"],"Every trim request on every server at any time, any set of server ids, followed by any crashes, reconnections and leader changes.",NOTEST,
  [M,IS,U],[("minimum over all acceptances",M+" trim; "+U+" get_min_all_accepted_idx"),("never beyond the decided index",IS+" try_trim"),("synchronisation of servers behind the trimmed prefix",M+" create_log_sync")],
  [("compacted_idx","length of the trimmed prefix",SC),("accepted_indexes","acceptance known per server",U)],["return value of trim, get_compacted_idx, storage contents"])
p("C16","Reads return exactly the log, correctly labelled",
  "For every index or range, a read returns the entries of the server's log in order, each labelled decided exactly when its position is below the decided index, with the compacted prefix summarised once and the reconfiguration marker last, and nothing for a range outside the log. Single reads, range reads and decided-suffix reads agree with each other and with the storage, and reading never changes anything.",
  ["inputs","histories","schedules"],"Every range form and bound, in every reachable log state (empty, compacted, batched, sealed, partially decided).",NOTEST,
  [IS,OP],[("range classification",IS+" read, get_entry_type, create_read_log_entries"),("decided suffix",IS+" read_decided_suffix")],
  [("compacted_idx, decided_idx, accepted_idx","log boundaries",SC)],["read, read_entries, read_decided_suffix compared with a model of the stored log"])
p("C17","Storage back ends implement the storage contract",
  "For every sequence of storage operations that the contract allows, the in-memory and the persistent storage return what a simple log model returns: appends, overwrites from an index, trims, range and suffix reads (empty when the range is not completely present), and the latest value of every stored field. A group of operations written atomically has the effect of the operations in order.",
  ["inputs","histories"],"Every operation sequence, including increasing trims to the end of the log (past the end as part of a group that then continues the log there), overwrites at the trimmed boundary and reads outside the log.",
  "The storage crate has no unit tests; the storage test of the main crate needs the kompact helpers and checks a few sequences.",
  [MS,PS,ST],[("log indexing relative to the trimmed prefix",MS+" append_on_prefix, get_entries, trim"),("key arithmetic and range deletes",PS+" batch_append_on_prefix, get_entries, get_log_len")],
  [("next_log_key","index of the next entry",PS),("trimmed_idx","first retained index",MS)],["return value of every storage call"])
p("C18","Persistent storage survives reopening and process kills, atomically",
  "After reopening, also after the process was killed at an arbitrary instant, the persistent storage holds exactly the effect of every completed operation, plus possibly that of the one operation in flight, which is present completely or not at all. An operation that reports an error leaves no trace, neither immediately nor through a later operation. The storage lives at the configured path and runs with the configured options, and creating a new storage where one exists is refused and leaves that one as it was.",
  ["crash_points","fault_sequences","inputs","histories"],"Every operation sequence, kill instant, failing operation and storage configuration.",
  "No test kills a process or fails a write in the middle; the storage test of the main crate does not build offline.",
  [PS],[("one write batch per atomic operation",PS+" write_atomically, append_entries"),("recovery of the next log index",PS+" open")],
  [("next_log_key","index of the next entry",PS),("write_batch","pending batch",PS)],["storage content after reopen, compared with the acknowledged operations"])
p("C19","Crash or storage failure at any write is recoverable without harm",
  "If a server dies at any storage write (before it, after it, or because the write fails and is rolled back) and restarts from its storage, then all agreement, finality and durability guarantees keep holding and the cluster resumes progress. The state a server loads on restart is self-consistent: decided length within the stored log, compacted prefix within the decided one.",
  ["crash_points","fault_sequences"],"Every storage write of a workload, for each of: crash before, crash after, failed write; combined with leader changes, synchronisation, snapshots and reconfiguration.",
  "The atomic-storage tests enumerate a few failure points in fixed scenarios and do not build offline.",
  [IS,L,F,MS],[("multi-field changes are written in one atomic group",IS+" sync_log, try_trim, try_snapshot"),("writes ordered so that a prefix of them is a valid state",F+" handle_prepare, update_decided_idx_and_get_accepted_idx; "+IS+" append_stopsign")],
  [],["every Storage call of a wrapper that crashes or fails at a chosen call"])
p("C20","UniCache encoding is invisible: followers store what was appended",
  "With entry caching enabled, every server stores and decides exactly the entries that were appended, whatever the cache size, eviction policy, encoding width, batch size, and whatever leader changes, restarts, reconnections and losses occur. Turning the feature on never changes what is decided nor stops the cluster.",
  ["schedules","fault_sequences","inputs","configurations"],"Every value distribution (skewed, unique, larger than the cache), both eviction policies, every fault history of the cluster.",
  "The tests that run only cover the internal LFU map; nothing runs a cluster with the feature.",
  [UC,LRU,LFU,LFUM,IS,SC,"omnipaxos_macros/src/lib.rs"],[("leader encodes on append, followers decode on accept",SC+" append_entry; "+IS+" decode_entries"),("cache handed over in log synchronisation",L+" send_accsync; "+F+" handle_acceptsync")],
  [("unicache","encoder/decoder dictionaries",SC)],["stored and decided entries against appended ones"])
p("C21","UniCache encoder and decoder stay in lockstep",
  "For every sequence of values, decoding the encoded stream returns the original values, for both eviction policies, every cache size allowed for the encoding and every entry type produced by the derive macro. The same holds when the decoder is a copy of the encoder's cache handed over at any point of the stream, directly or through serialisation.",
  ["inputs","histories"],"Every value sequence, cache size and hand-over point.",
  "The LFU unit tests use a handful of fixed values and never compare an encoder with a decoder.",
  [LRU,LFU,LFUM,UC,"omnipaxos/src/unicache/lfu/serialization.rs","omnipaxos_macros/src/lib.rs"],[("same eviction decision on both sides",LRU+" try_encode, decode; "+LFU),("clone and serialisation of the cache",LRU+" clone, serialization; "+LFU+" clone")],
  [("encoding","last assigned code",LRU)],["decode(encode(x)) on streams"])
p("C22","Only safe configurations are accepted",
  "A configuration is accepted exactly when it satisfies the documented rules: more than one server, own non-zero id among them, non-zero configuration id, non-zero sizes and timeouts, read and write quorums between two and the cluster size, overlapping, and the read quorum not smaller than the write quorum. A configuration read from a file yields the same values and the same verdict as the equivalent one built in code, and an accepted one yields a working server that uses exactly those values. A refusal is an ordinary error, never a panic.",
  ["inputs","configurations"],"Every combination of field values, including boundary and extreme ones, in code and in TOML.",
  "The tests that run build a single configuration; the configuration tests check a few fixed values.",
  [OP,"omnipaxos/src/errors.rs",U],[("validation",OP+" validate"),("TOML loading",OP+" with_toml"),("quorum sizes",U+" Quorum")],
  [],["validate, with_toml, build"])
p("C23","Serialised messages and state are faithful",
  "Every message a server can emit survives serialisation and deserialisation unchanged, so that a cluster whose messages all pass through a serialiser behaves exactly like one that passes them in memory. Every message names the server that emits it as its sender and another server of the cluster as its receiver.",
  ["histories","inputs","schedules"],"Every message kind and content occurring in any execution, with text and binary formats.",
  "No test that runs serialises a message.",
  [MSG,U,ST,BLE],[("serde derives of all message types",MSG+", "+U+" LogSync, "+ST+" SnapshotType, StopSign")],
  [],["messages taken from servers, before and after a round trip; twin runs of one schedule"])
p("C24","Batching only delays: flush and timers honour the configured ticks",
  "With batching, every entry appended at a connected stable leader is decided at the latest when the configured flush timeout (plus a message round trip and one follower flush) has passed, in append order and without loss, and immediately once the batch size is reached on all servers with equal batch sizes. Heartbeats, resends and flushes happen exactly every configured number of ticks.",
  ["inputs","configurations","schedules"],"Every batch size, timeout setting, append pattern and tick phase.",NOTEST,
  [SC,IS,L,F,OP,U],[("batch buffer",SC+" append_entry, take_entries_if_batch_is_full"),("flush timeout",L+" flush_batch_leader; "+F+" flush_batch_follower"),("logical clocks",U+" LogicalClock; "+OP+" tick")],
  [("batched_entries","entries not yet flushed",SC)],["ticks between append and decide, messages per tick"])
p("C25","Leader and status information is truthful",
  "A server that reports a leader as established reports a server that really completed its election in the round the reporting server follows; with no promise made yet it reports no leader. Reported status for the dashboard (ballot, leader, decided index, acceptance per server, connected peers) equals the server's actual state, and a leader never overstates what a peer has stored.",
  ["schedules","fault_sequences","histories"],"Every server at every instant of every execution.",NOTEST,
  [OP,"omnipaxos/src/utils/ui.rs",BLE,U],[("leader report",OP+" get_current_leader"),("status report",OP+" get_ui_states; omnipaxos/src/utils/ui.rs")],
  [("accepted_indexes","acceptance per server",U)],["get_current_leader, get_ui_states, compared with messages and storages"])
p("C26","No valid use makes a server panic",
  "No sequence of public calls with valid arguments and of messages produced by the servers of the cluster, delivered in order per link with any losses, and with storage that works, makes a server panic or overflow; out-of-range requests are answered with an error or nothing.",
  ["inputs","schedules","fault_sequences","histories"],"Every call sequence, argument value (including out-of-range indexes), role, phase and fault history, with the in-memory and the persistent storage.",NOTEST,
  [M,L,F,IS,OP,BLE,MS,PS],[("error results instead of panics",IS+" try_trim, try_snapshot, read"),("defensive checks",L+" get_latest_accdec_message")],
  [],["unwinding out of any public call; build with overflow and debug assertions"])
p("C27","The dashboard shows the server's real state",
  "For every sequence of status reports a server can produce, the terminal dashboard renders without failing and shows the server's own id, role, ballot, leader and decided index, one row per peer with its connectivity, ballot and leader, the entries decided between the latest reports, and, at the leader, the accepted index and progress of each follower. Starting, stopping (also by key) and starting it again works, and a stopped dashboard leaves the terminal as it found it.",
  ["inputs","histories","configurations"],"Every status sequence, cluster size, server id set and terminal size.",
  "The dashboard crate has no tests.",
  ["omnipaxos_ui/src/lib.rs","omnipaxos_ui/src/app.rs","omnipaxos_ui/src/render.rs","omnipaxos_ui/src/util.rs"],[("state update","omnipaxos_ui/src/lib.rs tick; omnipaxos_ui/src/app.rs"),("rendering","omnipaxos_ui/src/render.rs")],
  [],["characters drawn on a pseudo terminal"])
p("C28","Logging only observes, and the log shows what was logged",
  "Turning the logging feature on never changes what a server does: for the same configuration and schedule it sends the same messages, makes the same storage writes and reports the same state as without, and logging a record never fails. The default logger shows every record of all parts of the server (except those it reports as dropped) whole and in order on the terminal and in the configured file, or logs/paxos_<id>.log if none is configured, creating missing folders; a custom logger gets the same records instead and then no file is made.",
  ["schedules","fault_sequences","histories","configurations"],"Every execution, configuration, role and log file path.",
  "The tests that run never compare a logging build with another one nor look at a log file.",
  ["omnipaxos/src/utils/logger.rs",OP,BLE,M,L,F],[("default logger","omnipaxos/src/utils/logger.rs create_logger; "+OP+" build; "+BLE+" with; "+M+" with"),("records",L+", "+F+", "+M+", "+BLE+" (feature logging)")],
  [],["digests of histories in a build with and one without the feature; log file, terminal output and records of a custom logger"])
p("C29","UniCache sends repeated values encoded, as declared",
  "With entry caching enabled, a leader sends the value of a cached field in encoded form exactly when the field's cache holds it: the cache holds as many values as declared (255 if not), and gives up the least recently used one (the default) or the least frequently used one (cache(lfu)), each field by its own declaration. This holds for entries appended at the leader and forwarded ones, batched or not, as long as the leader stays, whatever happens to the connections of other servers.",
  ["inputs","histories","configurations"],"Every value sequence, declaration of a cached field, batch size and reconnection of other servers.",
  "The tests compare decoded entries only; nothing looks at what is sent encoded.",
  [LRU,LFU,LFUM,UC,SC,L,"omnipaxos_macros/src/lib.rs"],[("eviction",LRU+" try_encode; "+LFU+" try_encode"),("declared size and policy","omnipaxos_macros/src/lib.rs unicache_entry_derive"),("encoding of appended entries",SC+" append_entry, append_entries")],
  [("lru_cache_encoder","values held by the encoder",LRU)],["encoded form of every entry in try_encode results and AcceptDecide messages"])
here=os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here,"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
