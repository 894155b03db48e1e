#!/usr/bin/env python3
"""Source of truth for /verif/properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os

T, C, S = "src/transaction.cpp", "src/client_state.cpp", "src/server_state.cpp"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "observe_at": list(observe), "hook_needed": hook}})

prop("C01", "A client is told exactly what happened to its transaction",
 "Every local transaction ends exactly once, either committed in the database or rolled back, never both and never neither. "
 "It commits only if the cluster certified and ordered it (directly or by replay), and always commits once it has been certified and ordered unless the provider itself fails; "
 "the session reports success exactly when the transaction committed and a non-success error otherwise.",
 ["schedules", "histories", "fault_sequences"],
 "Every interleaving of a session with high-priority aborters, every certification, replay and provider answer, one- and two-phase commit, streaming on or off, multi-statement transactions.",
 "The unit tests drive each hook in one fixed order from a single thread and inject an abort only at a handful of hand-picked debug points; they never enumerate where the abort lands nor combine it with provider errors.",
 [T, C, "include/wsrep/transaction.hpp"],
 [("commit/prepare certification", T + ":certify_commit, before_prepare, after_prepare, before_commit"),
  ("replay", T + ":replay, after_statement"), ("error reporting", C + ":override_error, after_statement")],
 [("transaction state", "where a transaction is in its life cycle", "include/wsrep/transaction.hpp"),
  ("current error", "what the client is told", "include/wsrep/client_state.hpp")],
 ["return values of session calls, current error, storage engine commit/rollback calls, provider calls"])

prop("C02", "Every ordered write set passes commit order exactly once, in order",
 "Each write set that was given a position in the cluster's total order enters and leaves the commit-order critical section exactly once, whether it commits, fails certification, is aborted, replayed, applied, skipped or executed in total order isolation, so later write sets are never blocked forever. "
 "The database commit of a write set happens only between its own enter and leave, and a write set without a position never enters; one that leaves without such a commit has had its position recorded by the server inside.",
 ["schedules", "histories", "fault_sequences"],
 "All interleavings of local commits with appliers, all certification, apply and abort outcomes, all write set kinds.",
 "Unit tests' provider never blocks and never checks that positions are released; a leaked or doubled position is only visible when another write set needs the section.",
 [T, S, C],
 [("ordered commit", T + ":before_commit, ordered_commit"), ("release on abort", T + ":release_commit_order, after_statement"),
  ("applying", S + ":apply_write_set, apply_fragment, commit_fragment, rollback_fragment, apply_toi")],
 [("write set meta", "position assigned by the cluster", "include/wsrep/provider.hpp")],
 ["provider commit_order_enter/leave calls, storage engine commits"])

prop("C03", "An accepted priority abort is never lost and a refused one has no effect",
 "When a high-priority abort of a local transaction is accepted, the victim always rolls back and frees its resources so the aborter can proceed, and it then either reports a deadlock error or is replayed to commit; the abort is never swallowed, whatever the victim is doing at that moment. "
 "A refused abort leaves the victim's outcome and error unchanged, and no abort is accepted once the transaction has been ordered to commit.",
 ["schedules", "fault_sequences"],
 "Every point of the victim's execution (including inside provider and DBMS callbacks), one or two aborters, plain and total-order aborts, every provider answer.",
 "Unit tests inject an abort from the same thread at a few debug sync points; the windows between unlocking and relocking the session are not enumerable that way.",
 [T, C],
 [("abort", T + ":bf_abort, total_order_bf_abort, abort_or_interrupt"), ("late detection", T + ":after_command_must_abort, after_statement; " + C + ":before_command, before_statement")],
 [("bf immutable flag", "victim may not be aborted any more", "include/wsrep/transaction.hpp")],
 ["result of abort calls, victim's return values and errors, row locks held in the modelled engine"])

prop("C04", "Client and background rollbacker never operate one session at once",
 "When an idle session's transaction is aborted in synchronous rollback mode, the background rollbacker and the client's own thread never operate on the session at the same time: the client's next command, or closing the session, waits until the background rollback has completed and then always proceeds. "
 "The abort is then reported once as a deadlock error on the next command, and no wakeup is ever lost.",
 ["schedules"],
 "All interleavings of client command/close/ownership acquisition, aborter and background rollbacker threads, in both rollback modes.",
 "The mock executes background rollback synchronously inside the abort call, so the tests have no concurrent rollbacker at all.",
 [C, T],
 [("handoff", C + ":do_wait_rollback_complete_and_acquire_ownership, sync_rollback_complete, close"), ("start of background rollback", T + ":bf_abort")],
 [("rollbacker active flag", "background rollback in progress", "include/wsrep/client_state.hpp"), ("owning thread", "thread operating the session", "include/wsrep/client_state.hpp")],
 ["blocking behaviour of before_command/close, thread identity in rollback callbacks, reported errors"])

prop("C05", "Streaming fragments in storage match the cluster's view of the transaction",
 "While a streaming transaction runs, the fragments kept in stable storage are exactly those the cluster certified and that were stored at their own position; when it commits they are all removed, atomically with the commit (for prepared XA: by the time the commit call returns). "
 "When it rolls back, fragments are either removed or left to be removed through exactly one rollback notification for the transaction, sent or queued for sending; nothing else in the server keeps referring to the finished transaction.",
 ["schedules", "histories", "fault_sequences"],
 "All interleavings with aborters, every fragment unit and size, every failure of storage, certification, data preparation, or rollback notification.",
 "Tests check a counter of fragments for a few linear runs; failures of individual storage steps combined with aborts and registry bookkeeping are not covered.",
 [T, S, "src/streaming_context.cpp"],
 [("fragment certification", T + ":certify_fragment, streaming_step"), ("rollback", T + ":streaming_rollback, after_rollback"), ("removal", T + ":before_prepare, remove_fragments_in_storage_service_scope"), ("registries", S + ":start_streaming_client, stop_streaming_client, convert_streaming_client_to_applier")],
 [("streaming context", "fragments certified/stored/rolled back", "include/wsrep/streaming_context.hpp")],
 ["storage service calls, provider rollback/certify calls, streaming applier lookup"])

prop("C06", "Pending rollback notifications are delivered once, in order, first",
 "A rollback notification that could not be sent is remembered and re-sent in the original order until the provider accepts it, exactly once each, and none is dropped or duplicated under any pattern of send failures. "
 "Remembered notifications go out before any later fragment or commit of the server is certified, and when the server becomes synced; if they cannot be sent, the ordinary transaction that tried is aborted with an error instead of being certified.",
 ["schedules", "histories", "fault_sequences"],
 "All sequences of rolled-back streaming transactions, commits, syncs and send failures; concurrent flushers.",
 "The tests queue at most two events in one thread and never fail the flush part-way.",
 [S, T],
 [("queue", S + ":queue_rollback_event, send_pending_rollback_events, on_sync"), ("flush before certification", T + ":certify_fragment, certify_commit")],
 [("rollback event queue", "notifications not yet accepted", "include/wsrep/server_state.hpp")],
 ["provider rollback() and certify() call sequence"])

prop("C07", "Received write sets are applied to the right transaction and cleaned up",
 "For every sequence of received fragments, commit, rollback and prepare write sets of several streaming transactions, each is applied to the transaction it belongs to, a transaction's applier exists exactly from its first fragment until its commit, rollback or apply failure, and a write set of an unknown transaction is skipped while still consuming its position. "
 "Applying errors roll back and are reported with the original error detail, stored fragments are removed when the transaction ends, and every applier object is released exactly once and never used afterwards.",
 ["histories", "inputs", "fault_sequences"],
 "All sequences up to a depth of write sets (kind, source, transaction) and all apply/storage/vote failures.",
 "Tests cover single transactions with at most one injected failure.",
 [S],
 [("dispatch", S + ":apply_write_set, on_apply"), ("fragments", S + ":apply_fragment, commit_fragment, rollback_fragment, discard_streaming_applier")],
 [("streaming applier registry", "live remote streaming transactions", "include/wsrep/server_state.hpp")],
 ["high priority service callbacks and return value of on_apply"])

prop("C08", "View changes close orphaned streaming transactions and only those",
 "On a primary view, streaming transactions whose originator is not in the view are rolled back and their fragments removed; so are all of them, local ones included, when two consecutive primary views have the same membership, and local ones when the server itself is outside the view. Prepared XA transactions, and otherwise transactions of present members, are left alone. "
 "On disconnect all streaming appliers are closed but their stored fragments are kept; after each reconnect appliers are recovered from storage exactly once, before any transaction is closed.",
 ["schedules", "histories", "configurations"],
 "All sequences of views (membership, status, own presence) and streaming transactions up to a depth, with local sessions running concurrently.",
 "Tests use one or two views with one transaction and no concurrency.",
 [S],
 [("orphan closing", S + ":close_orphaned_sr_transactions"), ("disconnect", S + ":go_final, close_transactions_at_disconnect"), ("recovery", S + ":recover_streaming_appliers_if_not_recovered")],
 [("current and previous primary view", "membership", "include/wsrep/server_state.hpp")],
 ["server service and high priority service callbacks"])

prop("C09", "Server life-cycle states change only legally and joined means complete",
 "For every order of provider events and server initialization the server moves only along permitted life-cycle steps: it becomes joined only after the storage is initialized and its position has reached the position at which it connected, never leaves the disconnecting state except to disconnected, and returns from donor exactly when the transfer ends while still donor. "
 "Disconnecting reaches the provider exactly once however many threads ask, the server identity is set on connect and cleared on final disconnect, every change is announced in order, and a new cluster is bootstrapped once by its first primary view exactly if asked for.",
 ["schedules", "histories", "configurations"],
 "All event sequences up to a depth permitted by the provider protocol, initialization before or after state transfer, concurrent initialization and disconnect.",
 "Tests replay a dozen fixed sequences in one thread.",
 [S, "include/wsrep/server_state.hpp"],
 [("transition table", S + ":state"), ("event handlers", S + ":on_connect, on_view, on_primary_view, on_non_primary_view, on_sync, prepare_for_sst, start_sst, sst_sent, initialized, disconnect")],
 [("server state", "life-cycle state", "include/wsrep/server_state.hpp")],
 ["state(), log_state_change callbacks, provider calls"])

prop("C10", "A thread waiting for a server state never misses it and never hangs",
 "A thread waiting for a server state returns success once the server reaches that state after the wait began, even if the state is held only momentarily: the thread that brought it about does not move on to another state before every such waiter has observed it. "
 "When the server starts disconnecting, every waiter for another state returns with failure, and a wait fails for no other reason; no interleaving of waiters, state changes and disconnects blocks a thread forever.",
 ["schedules"],
 "All interleavings of two or three waiters with the event thread and a disconnecting thread.",
 "Waiting and notification between real threads is not exercised by the single-threaded tests.",
 [S],
 [("rendezvous", S + ":state, wait_until_state, interrupt_state_waiters")],
 [("waiter counters", "threads waiting per state", "include/wsrep/server_state.hpp")],
 ["return of wait_until_state, order of state announcements"])

prop("C11", "Pause, desync and rolling-upgrade requests stay balanced",
 "Under any interleaving of sessions pausing, resuming, desyncing and running rolling schema upgrades, and any failure of the provider, at most one pause is in force at a time, every successful pause is resumed exactly once and every successful desync is matched by exactly one resync, never more. "
 "A failed request leaves no pause or desync behind and never blocks or steals from other sessions, a waiting pause proceeds as soon as the current one ends or fails, and the session mode is restored.",
 ["schedules", "fault_sequences"],
 "Two or three concurrent sessions, every failure pattern of desync, resync, pause, resume and waiting for committing transactions.",
 "No test runs pause or desync concurrently or with failures.",
 [S, C],
 [("pause", S + ":pause, resume, desync_and_pause, resume_and_resync"), ("desync", S + ":desync, resync"), ("RSU", C + ":begin_rsu, end_rsu")],
 [("pause count/seqno, desync count", "outstanding requests", "include/wsrep/server_state.hpp")],
 ["provider pause/resume/desync/resync call balance, return values, session mode"])

prop("C12", "Total order isolation is entered and left exactly once per operation",
 "A session is in isolation only between a successful enter and the matching leave; an attempt that the provider reported as failed although a position was assigned is left exactly once, and failed attempts are retried only for certification and connection failures, only until the deadline or an interrupt. "
 "A failed enter leaves the session in its previous mode with no isolation state and the proper error (deadlock, timeout or commit error); leaving always restores the previous mode even if the provider fails.",
 ["fault_sequences", "inputs"],
 "All sequences up to a depth of provider answers (status, with or without position), deadlines, interrupts, and leave results; local and applying sessions.",
 "Tests cover one failing answer at a time without deadlines.",
 [C],
 [("poll", C + ":poll_enter_toi"), ("enter/leave", C + ":enter_toi_local, enter_toi_mode, leave_toi_local, leave_toi_mode")],
 [("toi meta and mode", "isolation state of the session", "include/wsrep/client_state.hpp")],
 ["provider enter_toi/leave_toi calls, mode(), in_toi(), toi_meta(), current_error()"])

prop("C13", "Non-blocking operations go through both phases in matching order",
 "A non-blocking operation enters isolation for its begin and its end phase, each left exactly once; the end phase refers to the position obtained by the begin phase, and between phases the session stays in non-blocking mode but not in isolation. "
 "Any failure to obtain the end phase reports an error and returns the session to local mode with no leftover state, so the next operation starts clean.",
 ["fault_sequences", "inputs"],
 "All sequences of provider answers, deadlines and interrupts over both phases, originator and applier side, repeated operations on one session.",
 "Tests cover the success path and a single failing phase.",
 [C, S],
 [("phases", C + ":begin_nbo_phase_one, end_nbo_phase_one, enter_nbo_mode, begin_nbo_phase_two, end_nbo_phase_two"), ("applier side", S + ":apply_toi")],
 [("nbo meta", "position of the begin phase", "include/wsrep/client_state.hpp")],
 ["provider enter_toi/leave_toi arguments, mode(), in_toi(), current_error()"])

prop("C14", "A prepared XA transaction is never lost before its decision",
 "Once XA prepare has succeeded, no priority abort, idle abort, connection failure at commit, client disconnect or session end rolls the transaction back by itself: it stays prepared, locally or as a streaming applier that can be found by its identifier, until an explicit commit or rollback takes effect exactly once. "
 "A commit that fails for lack of connection leaves it prepared and retryable; before prepare has succeeded an abort rolls it back with an error.",
 ["schedules", "histories", "fault_sequences"],
 "All interleavings of XA prepare/commit/rollback/detach with aborters, all certification answers, commit and rollback by identifier.",
 "Tests have fixed XA sequences with no concurrent abort.",
 [T, C, S],
 [("prepare", T + ":before_prepare, after_prepare"), ("replay", T + ":xa_replay, xa_replay_commit, xa_detach"), ("by identifier", T + ":commit_or_rollback_by_xid; " + S + ":find_streaming_applier")],
 [("xid", "XA identifier", "include/wsrep/transaction.hpp")],
 ["provider certify flags, find_streaming_applier(xid), storage engine calls, return values"])

prop("C15", "Errors reach the client with the right command and then go away",
 "An abort detected at any hook of a command is reported to the client exactly once, as an error of that command, or of the next command when the session was idle or asked to keep errors for the following command; the aborted transaction is cleaned up by then. "
 "A command that ran into no failure reports success, and no error or consistency-wait position from one command leaks into a later one.",
 ["schedules", "histories"],
 "All command sequences up to a depth with aborts at any point, with and without keeping the command error, both rollback modes.",
 "Tests place one abort by hand between two hooks.",
 [C, T],
 [("command protocol", C + ":before_command, after_command_before_result, after_command_after_result, before_statement, after_statement")],
 [("current error, keep flag", "pending error of session", "include/wsrep/client_state.hpp")],
 ["return values of the command hooks, current_error(), transaction().active(), sync_wait_gtid()"])

prop("C16", "A session's last-written position is that of its last ordered write",
 "After each command the session's last-written position equals the total-order position of its most recent committed transaction, ordered rollback or isolated operation, never moves backwards, is reset only on opening the session, and is unaffected by reads, unordered rollbacks and operations of other sessions. "
 "A successful consistency wait exposes exactly the position the provider returned until the command ends; a failed one reports the corresponding error and exposes nothing new.",
 ["histories", "fault_sequences"],
 "All sequences up to a depth of transactions, rollbacks, replays, isolated operations and consistency waits with all outcomes.",
 "Tests check single operations only.",
 [C, T],
 [("update", C + ":update_last_written_gtid, leave_toi_common; " + T + ":cleanup"), ("wait", C + ":sync_wait")],
 [("last written and sync wait gtid", "causality tokens", "include/wsrep/client_state.hpp")],
 ["last_written_gtid(), sync_wait_gtid(), current_error()"])

prop("C17", "Replicated pieces carry the right flags, keys and data",
 "The first and only the first replicated piece of a transaction is marked as its start, exactly the last one as commit (or prepare, for XA prepare), and flags asked for by the session (unsafe for parallel applying, implicit dependencies) accompany it as requested. "
 "The final piece of a streaming transaction references every key of the earlier pieces as shared so that conflicts still certify, is marked unsafe for parallel applying, and every byte of generated data is replicated exactly once, in order, in fragments cut at the configured unit and size.",
 ["histories", "inputs", "configurations"],
 "All programs up to a depth of rows, keys, statements, commits over all fragment units and sizes, enabling/disabling streaming mid-way.",
 "Tests check flags for a few linear runs and never keys.",
 [T, "src/sr_key_set.cpp", "src/streaming_context.cpp", "include/wsrep/sr_key_set.hpp"],
 [("flags", T + ":start_transaction, certify_fragment, certify_commit"), ("keys", T + ":append_key, append_sr_keys_for_commit"), ("units", T + ":streaming_step, after_row, after_statement")],
 [("flags, sr keys, log position, unit counter", "what remains to be replicated", "include/wsrep/transaction.hpp")],
 ["provider certify/append_key/append_data calls, storage append_fragment"])

prop("C18", "Identifiers, positions, views and keys convert and compare consistently",
 "Printing and parsing of identifiers and transaction positions are inverse to each other for every value, malformed text is rejected with an error instead of being misread, undefined values are recognised, and equality and ordering agree with the underlying bytes and numbers. "
 "Two views compare as equal membership exactly when they have the same set of members regardless of order, and member lookup agrees with the member list; buffers too small for a printed position are reported, never overrun.",
 ["inputs"],
 "All byte strings and texts over small alphabets up to bounded length, all boundary numbers, all small memberships.",
 "Tests check a few literals.",
 ["src/id.cpp", "src/gtid.cpp", "src/uuid.cpp", "src/seqno.cpp", "src/xid.cpp", "src/view.cpp", "src/key.cpp", "include/wsrep/id.hpp", "include/wsrep/gtid.hpp", "include/wsrep/xid.hpp", "include/wsrep/view.hpp"],
 [("parsers/printers", "src/id.cpp, src/gtid.cpp, src/uuid.cpp"), ("views", "src/view.cpp")],
 (), ["operator<<, operator>>, scan/print functions, comparison operators"])

prop("C19", "The status report file is always a complete, current, valid document",
 "At every moment, including after a crash or an I/O failure at any point of an update, the status file is either absent (before the first report) or a complete well-formed JSON document from some report call, never truncated or mixed, with arbitrary message text safely encoded. "
 "After a successful update it shows the latest state, at most the configured number of most recent distinct messages per severity, and progress and events in the mapped form, and no temporary files are left behind by an update that completed or failed.",
 ["inputs", "histories", "crash_points", "fault_sequences"],
 "All sequences of reports up to a depth over an alphabet of states and hostile texts; every system call failing, being cut short or being the last one before a crash.",
 "Tests compare one or two reports and never fail a system call.",
 ["src/reporter.cpp", "include/wsrep/reporter.hpp"],
 [("atomic replace", "src/reporter.cpp:write_file"), ("escaping and bounding", "src/reporter.cpp")],
 [("state, message queues", "what is reported", "include/wsrep/reporter.hpp")],
 ["content of the report file and its directory after every step"])

prop("C20", "Provider options shown are the provider's, changed only when accepted",
 "The set of options exposed to the application always equals what the provider declared at start, with each value being the last one the provider accepted; a rejected, unknown or malformed assignment changes nothing and reports an error. "
 "Names with separator characters are reachable under their sanitised form and under the original one is what the provider receives; declaring a name twice is an error, and defaults never change.",
 ["inputs", "histories", "fault_sequences"],
 "All sequences up to a depth of declarations and assignments over colliding names, value types and provider answers.",
 "Tests set a couple of options with an always-accepting provider.",
 ["src/provider_options.cpp", "include/wsrep/provider_options.hpp"],
 [("set", "src/provider_options.cpp:set, set_default"), ("lookup", "src/provider_options.cpp:get_option, for_each")],
 [("option map", "cached options", "include/wsrep/provider_options.hpp")],
 ["get_option, for_each, strings handed to the provider"])

prop("C21", "Thread context follows the object being operated and is restored",
 "Whenever the library operates a storage or applier object on behalf of a session, the thread's context is switched to that object first and given back to the original session or applier afterwards, on success and on every failure path. "
 "Every such helper object obtained from the server is released exactly once, nothing is invoked on it after release, and none is leaked by the time the operation that obtained it is over.",
 ["schedules", "histories", "fault_sequences"],
 "All interleavings and failures of streaming, XA, applying and view handling within the bounds of the other properties.",
 "Mocks ignore globals entirely.",
 [T, S, "include/wsrep/high_priority_service.hpp"],
 [("scoped storage service", T + ":scoped_storage_service"), ("switch", "include/wsrep/high_priority_service.hpp:high_priority_switch"), ("discard", S + ":discard_streaming_applier")],
 (), ["store_globals/reset_globals callbacks vs. object operated on, release callbacks"])

prop("C22", "State transfer ends with one truthful report to the provider",
 "When a received state transfer completes, the provider is told exactly once: with the recovered position on success, or with an undefined position and an error if the transfer failed, initialization was interrupted, or the recovered view contradicts the position. "
 "The server is joined only on success with a sufficient position, streaming transactions are recovered at most once before that report, and a sender's transfer result is reported exactly once while its state returns to joined even if the report fails.",
 ["schedules", "inputs", "fault_sequences"],
 "All combinations of transfer result, initialization order, recovered positions and views, concurrent initialization or disconnect, provider failures.",
 "Tests cover two success paths and one failure.",
 [S],
 [("joiner", S + ":sst_received, prepare_for_sst, initialized"), ("donor", S + ":start_sst, sst_sent, return_from_donor_state")],
 (), ["provider sst_received/sst_sent calls, state(), return values"])

prop("C23", "Provider API adapter translates every call, flag and status faithfully",
 "The adapter between the library and a loadable replication provider translates every status code, flag, capability, key and view in both directions without loss, and returns the provider's answer for each call.",
 ["inputs"], "All status codes, flag combinations and view contents.",
 "The adapter is not built in this tree (the provider API headers are an absent submodule), so no test reaches it.",
 ["src/wsrep_provider_v26.cpp"], [("mapping tables", "src/wsrep_provider_v26.cpp")], (), ["calls through the provider interface"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
