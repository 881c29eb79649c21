#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the wording)."""
import json, os
S, C, I, H, K, F = "schedules", "crash_points", "inputs", "histories", "configurations", "fault_sequences"
O = "opsqueue/"
def P(id, title, statement, over, text, why, files, mech, state, observe):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], state=[dict(name=state)], observe_at=[observe], hook_needed=None))
L = []
L.append(P("P01", "Acknowledged operations survive a server crash at any point",
 "Once a client has received the acknowledgement of an insertion or a cancellation, or has been told that a submission is completed, failed or cancelled or has made some chunk progress, killing the server process at any later instant and restarting it on the same database loses none of it. The restarted server still knows every such submission with all of its contents and attributes, in the same or a legitimately later state, and never with less progress than was already reported.",
 [C, S, H], "every instant at which the server process can be killed (between any two system calls, inside any write), every history of producer and consumer operations before and after it, every schedule",
 "Unit tests never kill the process; they use in-memory or freshly created databases and a single connection, so no crash point is ever sampled.",
 [O+"src/producer/server.rs", O+"src/common/submission.rs", O+"src/common/chunk.rs", O+"src/db/mod.rs"],
 [("insert handler acknowledges only after the insert transaction committed", O+"src/producer/server.rs insert_submission"), ("WAL journal, synchronous=NORMAL, explicit checkpoints", O+"src/db/mod.rs"), ("cancel transaction", O+"src/common/submission.rs cancel_submission")],
 "the SQLite database file and its write-ahead log", "HTTP responses before the crash compared with HTTP responses and the database after the restart"))
L.append(P("P02", "Every state change is atomic: no crash leaves work half-recorded",
 "At every instant at which the server can die, the database it leaves behind holds each submission in exactly one of the states in progress, completed, failed or cancelled, and holds every chunk of an in-progress submission exactly once, either pending or completed, with the recorded progress equal to the number of completed chunks. A completed submission has all of its chunks completed; a failed one has a recorded failing chunk; a submission of zero chunks, or with every chunk completed, is never left in progress; no pending chunk or metadata is left without its submission.",
 [C, S, H, F], "the database as left by a kill at every instant of every concurrent history of inserts, completions, failures, cancellations and clean-ups, with and without disk errors",
 "Tests look at the database only after an operation has returned normally; the intermediate states between the statements and transactions of one operation are invisible to them.",
 [O+"src/common/submission.rs", O+"src/common/chunk.rs", O+"src/db/conn.rs"],
 [("transactions around multi-table moves", O+"src/common/submission.rs, "+O+"src/common/chunk.rs"), ("single writer connection", O+"src/db/mod.rs")],
 "tables submissions, submissions_completed/_failed/_cancelled, chunks, chunks_completed, chunks_failed, submissions_metadata", "copies of the database files taken at arbitrary instants and opened as a restart would"))
L.append(P("P03", "A reserved chunk is never handed to a second consumer",
 "From the moment a consumer is given a chunk until it reports the chunk done or failed, its connection ends, or its reservation expires, no other reservation request (of any consumer) is given the same chunk. Once a completion report for a chunk has been recorded, that chunk is never handed out again.",
 [S, H, F, K], "every interleaving of any number of reserving, completing, failing, disconnecting and expiring consumers, also under network delay and slow readers",
 "Tests reserve from one task with everything else idle; the races between read cursors, the reservation table, completions and expiry need concurrent schedules.",
 [O+"src/consumer/dispatcher/reserver.rs", O+"src/consumer/dispatcher/mod.rs", O+"src/consumer/server/state.rs", O+"src/consumer/server/mod.rs"],
 [("atomic insert-if-absent reservation", O+"src/consumer/dispatcher/reserver.rs try_reserve"), ("delayed release after completion", O+"src/consumer/dispatcher/reserver.rs finish_reservation")],
 "in-memory reservation table", "chunks delivered in reservation responses on all consumer connections"))
L.append(P("P04", "No work is ever lost or stuck: the queue drains once faults stop",
 "Every chunk of an accepted submission remains obtainable until it is completed or its submission has failed or been cancelled, whatever crashed, disconnected, timed out or was retried before. Once faults stop and working consumers keep asking for work, every accepted submission reaches a final state within a bounded time.",
 [S, C, F, H], "every sequence of consumer crashes, server restarts, network faults, abandoned reservations and chunk failures, followed by a fault-free period",
 "Liveness after arbitrary fault sequences is not sampled by any test; a leaked reservation or a missed wake-up only shows as a hang.",
 [O+"src/consumer/server/conn.rs", O+"src/consumer/server/state.rs", O+"src/consumer/dispatcher/reserver.rs", O+"src/consumer/client.rs"],
 [("release of reservations when a connection ends", O+"src/consumer/server/state.rs Drop"), ("reservation expiry", O+"src/consumer/dispatcher/reserver.rs"), ("retry of failed chunks", O+"src/common/chunk.rs retry_or_fail_chunk")],
 "pending chunks and reservations", "final status of every accepted submission after the fault-free drain phase"))
L.append(P("P05", "A submission completes exactly when each chunk was completed once",
 "A submission is reported as completed only if a consumer has reported every one of its chunks as completed, and it becomes completed as soon as the last of those reports has been processed. Reported progress never exceeds the number of distinct chunks reported as completed nor the total, each chunk counts once however often it is reported, and the counts of open and of completed submissions agree with the individual states.",
 [S, H, C], "every interleaving and duplication of completion reports from any consumers, across crashes and restarts",
 "Tests complete each chunk once from one task; duplicated, racing and crash-interrupted completions are not exercised.",
 [O+"src/common/chunk.rs", O+"src/common/submission.rs", O+"src/consumer/server/mod.rs"],
 [("complete_chunk transaction with early return for a missing chunk", O+"src/common/chunk.rs complete_chunk_raw"), ("chunks_done = chunks_total moves the submission", O+"src/common/submission.rs maybe_complete_submission")],
 "chunks_done counter, submissions_completed", "status and count responses against the consumers' recorded reports"))
L.append(P("P06", "Submission states only move forward and final states never change",
 "For any client, on one or many connections, a submission whose insertion was acknowledged is never reported as unknown before its retention period ends, never leaves the completed, failed or cancelled state it has once been reported in, and its reported progress never decreases. A status query during a concurrent state change answers with the state before or after the change, never with nothing and never with an error.",
 [S, H, C], "all interleavings of status queries with inserts, completions, failures, cancellations and restarts",
 "Needs a read to fall between the several queries a status lookup makes and a concurrent move between tables, which sequential tests cannot produce.",
 [O+"src/common/submission.rs", O+"src/producer/server.rs"],
 [("ordered look-ups over the state tables", O+"src/common/submission.rs submission_status"), ("guarded moves out of the in-progress table", O+"src/common/submission.rs")],
 "the four submission tables", "successive status responses of every client"))
L.append(P("P07", "Retry budget: a chunk is retried exactly as configured, then fails",
 "Each processed failure report for a pending chunk raises its retry count by exactly one, and the chunk is offered again, carrying that count, while the count is below the configured maximum. The report that reaches the maximum fails the whole submission, naming that chunk and that failure, after which none of its chunks is handed out to later requests; nothing else makes a submission fail, and the count survives restarts.",
 [H, S, C, K], "every sequence of failures, completions, expiries, disconnects and restarts over the chunks of a submission, for every configured maximum",
 "Tests call the failure function directly a fixed number of times; off-by-ones across restarts, racing reports and the interplay with expiry are not covered.",
 [O+"src/common/chunk.rs", O+"src/common/submission.rs", O+"src/consumer/server/mod.rs", O+"src/config.rs"],
 [("retries+1 >= max fails the submission", O+"src/common/chunk.rs retry_or_fail_chunk"), ("remaining chunks are marked skipped", O+"src/common/submission.rs fail_submission_notx")],
 "chunks.retries, chunks_failed, submissions_failed", "retry count in delivered chunks and the failed status"))
L.append(P("P08", "Cancellation is final, exclusive and stops further hand-outs",
 "Of all attempts to end an in-progress submission (cancelling, completing, failing) exactly one wins, and a cancellation is acknowledged if and only if it is the winner; every other cancellation reports that the submission is not cancellable and why, or not known, without changing anything. After the acknowledgement the submission is and stays cancelled with the progress it had, no reservation request made afterwards is given any of its chunks, and reports for its chunks change nothing and harm no other submission.",
 [S, H, C], "every interleaving of cancellations with each other, with reservations, completions, failures and crashes",
 "Tests cancel an idle submission; races of cancellation with reservation cursors and in-flight reports need controlled schedules.",
 [O+"src/common/submission.rs", O+"src/producer/server.rs", O+"src/producer/client.rs", O+"src/common/chunk.rs"],
 [("cancel transaction checks the current state", O+"src/common/submission.rs cancel_submission_notx"), ("404/409 mapping", O+"src/producer/server.rs cancel_submission")],
 "submissions_cancelled, chunks", "cancel responses, status responses, delivered chunks"))
L.append(P("P09", "A consumer waiting for work is woken when work becomes available",
 "A reservation request that finds no available chunk stays pending, and is answered with work within a bounded time after work becomes available, no matter when it becomes available relative to the request: through a new submission, through a failed chunk becoming available again, or through another consumer's disconnection or expired reservation.",
 [S, H, F], "every interleaving of the empty check, the registration as waiter and the event that makes work available, with any number of waiting consumers",
 "A missed wake-up needs the event to fall in a window of a few instructions; a test that waits simply times out or passes by luck.",
 [O+"src/consumer/server/conn.rs", O+"src/producer/server.rs", O+"src/consumer/dispatcher/reserver.rs"],
 [("waiting reservations retried on notification", O+"src/consumer/server/conn.rs handle_incoming_client_message"), ("notification after insert", O+"src/producer/server.rs insert_submission")],
 "waiting reservation requests", "time of the reservation response relative to the event that made work available"))
L.append(P("P10", "Chunks are handed out in the order the strategy promises",
 "A reservation request receives at most the requested number of chunks, all distinct and all available, and never fewer than are available up to that number. With the oldest (newest) strategy they are the available chunks of the earliest (latest) inserted submissions, and the random strategy can yield any available chunk and excludes none.",
 [H, I, S, K], "every queue content, every set of already reserved chunks, every request size and strategy, with concurrent inserts and reservations",
 "Tests check a few fixed query results; the order in the presence of reserved, retried and concurrently inserted chunks is not covered.",
 [O+"src/consumer/strategy.rs", O+"src/consumer/dispatcher/mod.rs"],
 [("strategy to SQL", O+"src/consumer/strategy.rs"), ("filter of reserved chunks and limit", O+"src/consumer/dispatcher/mod.rs fetch_and_reserve_chunks")],
 "pending chunks and reservations", "reservation responses against a reference model of the queue"))
L.append(P("P11", "Prefer-distinct spreads work by what is really in flight",
 "With a prefer-distinct strategy every reservation request is served from the submissions whose value for the given metadata key has the fewest chunks currently in flight, ties (and nested preferences) being resolved by the underlying strategy. In-flight means reserved and not yet finished: completion, failure, disconnection and expiry of a reservation each lower the count exactly once, so the counts never drift however reservations end.",
 [H, S, F], "every history of reservations ending by completion, failure, disconnection or expiry, for every metadata assignment and nesting",
 "Tests set the counters by hand; drift needs histories in which reservations end in all the different ways.",
 [O+"src/consumer/dispatcher/mod.rs", O+"src/consumer/dispatcher/metastate.rs", O+"src/consumer/strategy.rs"],
 [("in-flight counters per metadata value", O+"src/consumer/dispatcher/metastate.rs"), ("ordering by in-flight count", O+"src/consumer/strategy.rs")],
 "in-memory in-flight counters", "choice made by later reservation responses against a reference model"))
L.append(P("P12", "Retention: old finished submissions go, everything else stays",
 "A completed, failed or cancelled submission is forgotten, with everything belonging to it, within a bounded time after it has been finished for longer than the configured maximum age, and never before. Submissions in progress and their chunks, metadata and results are never removed by age, however old they are.",
 [H, C, K, S], "every mix of submission states and ages, clean-ups racing with state changes and status queries, crashes during clean-up, wall-clock jumps",
 "The one clean-up test runs it once on a hand-made table; the periodic task, its races and crash points are never run.",
 [O+"src/common/submission.rs", O+"app/main.rs"],
 [("cleanup_old", O+"src/common/submission.rs"), ("periodic clean-up task", O+"src/common/submission.rs periodically_cleanup_old")],
 "all tables", "status responses and database contents around the retention deadline"))
L.append(P("P13", "Submissions and chunks keep their exact contents and attributes",
 "What a producer submits is what everybody sees: every consumer receives each chunk's exact content with its index and its submission's prefix, metadata, strategic metadata, chunk size and totals, and status queries report the same attributes in every state a submission passes through. Look-up by prefix finds a known submission in whatever state it is, and look-up by strategic metadata returns exactly the in-progress submissions having all the given values, oldest first, or an error when there are more than the configured maximum.",
 [I, H, S], "all contents (empty, binary, missing, large), metadata maps, prefixes and chunk counts, in all states and under concurrent changes",
 "Round-trip tests use a handful of small values and mostly the in-progress state.",
 [O+"src/common/submission.rs", O+"src/common/chunk.rs", O+"src/consumer/common.rs", O+"src/producer/common.rs", O+"src/producer/client.rs"],
 [("copying of attributes when a submission changes state", O+"src/common/submission.rs"), ("wire formats", O+"src/consumer/common.rs, "+O+"src/producer/common.rs")],
 "rows of all submission and chunk tables", "chunks and submissions delivered to consumers, status and look-up responses"))
L.append(P("P14", "Dead peers are detected in bounded time, live ones never dropped",
 "When a consumer connection goes silent (crash, freeze, partition, half-open connection) the server closes it and releases its reservations within the configured heartbeat budget, and a consumer client likewise notices a silent server and marks itself unhealthy within that budget. A connection whose peer answers heartbeats in time is never closed, however idle or busy it is and however long its chunks take.",
 [F, S, K], "every silence pattern, delay within and beyond the budget, and heartbeat configuration",
 "Needs virtual time and network faults; no test covers heartbeats.",
 [O+"src/consumer/server/conn.rs", O+"src/consumer/client.rs", O+"src/config.rs"],
 [("server heartbeat loop", O+"src/consumer/server/conn.rs beat_heart"), ("client heartbeat tracking", O+"src/consumer/client.rs background_task")],
 "missed-heartbeat counters", "time of disconnection and of re-offering of chunks, client health flag"))
L.append(P("P15", "Disk errors never corrupt the queue or produce a false success",
 "If reads, writes, syncs or space allocation on the database fail at arbitrary points, every operation that reports success has fully taken effect, every operation that reports failure has either fully taken effect or not at all, and the database is never corrupted. Chunks and submissions touched by a failed operation remain usable, and after the errors stop the server resumes normal service without a restart.",
 [F, S, C], "every sequence and placement of I/O errors (EIO, disk full, short writes) over the database and log files, combined with crashes",
 "Tests run on healthy disks only.",
 [O+"src/db/mod.rs", O+"src/db/conn.rs", O+"src/common/chunk.rs", O+"src/common/submission.rs", O+"src/consumer/server/mod.rs", O+"src/producer/server.rs"],
 [("error propagation from transactions", O+"src/db/conn.rs"), ("completer releases the reservation even if the write failed", O+"src/consumer/server/mod.rs handle_message")],
 "database files", "operation results against database contents and later service"))
L.append(P("P16", "Reservations expire on time, not early, and the holder is told",
 "A chunk that is still reserved when the configured reservation time has passed becomes available to other consumers within a bounded time after that and not before, and its holder is told on its connection that the reservation expired. A completion report of the original holder that the server processes before the chunk was completed by someone else still counts, and an expiry on one chunk affects no other reservation.",
 [S, K, H, F], "every reservation duration, number of outstanding reservations, and timing of reports relative to the expiry",
 "Tests with real time cannot explore the window around the expiry; the only related test sleeps once.",
 [O+"src/consumer/dispatcher/reserver.rs", O+"src/consumer/server/conn.rs", O+"src/consumer/client.rs"],
 [("time-to-live cache with eviction listener", O+"src/consumer/dispatcher/reserver.rs"), ("expiry message and automatic give-back", O+"src/consumer/server/conn.rs, "+O+"src/consumer/client.rs")],
 "reservation table", "expiry messages and later reservation responses against the virtual clock"))
L.append(P("P17", "Client calls always resolve and clients recover by themselves",
 "Every producer and consumer client call finishes, with a result or an error, within a bounded time once the server is reachable and (for reservations) work is available; no call hangs because a connection was closed, reset or restarted at an unlucky moment. After any connection loss the next calls on the same client object re-establish the connection and work, and a response is always matched to the request it answers.",
 [F, S, H], "every connection loss, server restart or graceful close at every point of every call, with concurrent calls on one client",
 "Needs a connection loss between sending a request and registering interest in its reply; tests never cut connections.",
 [O+"src/consumer/client.rs", O+"src/producer/client.rs"],
 [("reconnecting wrapper", O+"src/consumer/client.rs OuterClient"), ("in-flight request table", O+"src/consumer/client.rs InFlightRequests"), ("retry policy", O+"src/producer/client.rs")],
 "client connection state", "start and end of every client call"))
L.append(P("P18", "Object-storage contents round-trip intact and in order",
 "Chunk contents a producer stores under a prefix are retrieved by consumers byte for byte under the same index, results stored by consumers are streamed back to the producer complete, each once and in chunk order, and a missing or unreadable object is reported as an error instead of being skipped or replaced. This holds for concurrent transfers and when individual storage operations are slow or fail.",
 [I, S, F], "all chunk counts, contents and prefixes, all completion orders of the concurrent transfers, failing and slow storage operations",
 "Tests use an in-memory store that answers at once and in order.",
 [O+"src/object_store/mod.rs"],
 [("store_chunks / retrieve_chunks streams", O+"src/object_store/mod.rs"), ("object path naming", O+"src/object_store/mod.rs")],
 "objects under a submission prefix", "results of store and retrieve calls"))
L.append(P("P19", "Late, duplicate or foreign reports never harm other work",
 "A completion or failure report for a chunk that its sender does not hold any more (expired, already reported, or never held), or for a chunk or submission that is finished, cancelled or unknown, changes at most that one chunk if it is still pending. It never ends or shortens another consumer's reservation, never changes the state or progress of a finished submission, never affects another submission and never stops the server from processing later reports.",
 [H, S, F], "every sequence of stale, duplicated, reordered and fabricated reports interleaved with legitimate work",
 "Tests send each report once, from the holder, at the right time.",
 [O+"src/consumer/server/mod.rs", O+"src/consumer/server/state.rs", O+"src/consumer/dispatcher/mod.rs", O+"src/consumer/dispatcher/reserver.rs", O+"src/common/chunk.rs"],
 [("completer mailbox", O+"src/consumer/server/mod.rs Completer"), ("finishing reservations", O+"src/consumer/dispatcher/reserver.rs")],
 "reservation table, chunk tables", "reservation responses, statuses and database contents after adversarial reports"))
L.append(P("P20", "Power loss and interrupted start-up leave a consistent, usable queue",
 "After a power failure at any point (unsynced writes lost, torn or reordered as the disk allows), including during the very first start while the database is being created and migrated, the next start succeeds without manual repair and serves a consistent queue: some prefix of the committed history, with every submission and chunk intact and accounted for. Everything that was committed before the last completed log checkpoint survives.",
 [C, F, S], "every power-failure point and every allowed subset of unsynced writes, over start-up, operation and checkpointing",
 "No test simulates losing unsynced writes or dying during migration.",
 [O+"src/db/mod.rs", O+"migrations", O+"src/lib.rs"],
 [("open, pragmas and migrations", O+"src/db/mod.rs open_and_setup"), ("explicit WAL checkpoints", O+"src/db/mod.rs periodically_checkpoint_wal")],
 "database and log files as durable on disk", "restart after simulated power loss, database contents and service"))
L.append(P("P21", "Health and backlog reports tell the truth",
 "The health endpoint turns unhealthy within a bounded time when the server can no longer run a write transaction on its database (another process keeps the write lock, or writes do not come back), recovers within a bounded time once it can again, stays healthy otherwise, and does not report healthy during shutdown. The published gauges of waiting chunks, waiting operations, connected consumers and reserved chunks converge to the true values within a bounded time whenever the system is quiet, however submissions and reservations ended and across restarts.",
 [F, H, S], "every history of submissions, consumers, disk outages and restarts",
 "Gauges drift only over histories mixing all ways in which chunks and connections end; tests do not read them.",
 [O+"src/server.rs", O+"src/prometheus.rs", O+"src/db/mod.rs", O+"src/consumer/server/mod.rs", O+"src/consumer/dispatcher/reserver.rs"],
 [("watchdog", O+"src/server.rs app_watchdog"), ("periodically calculated scaling metrics", O+"src/prometheus.rs")],
 "health flag, Prometheus gauges", "/ping and /metrics responses against the reference state"))
L.append(P("P22", "Graceful shutdown ends in bounded time and loses nothing",
 "When told to stop, the server exits within a bounded time whatever its clients are doing, closes consumer connections so that clients notice at once, and everything it has acknowledged or recorded is there after the next start. Work that was in progress is available again after the restart and consumers and producers continue on their own.",
 [S, F, H], "a stop request at every point of every workload, with busy, idle, waiting and frozen consumers",
 "Tests never stop a serving process.",
 [O+"app/main.rs", O+"src/server.rs", O+"src/consumer/server/conn.rs", O+"src/consumer/server/mod.rs"],
 [("cancellation token and shutdown grace period", O+"app/main.rs"), ("graceful websocket close", O+"src/consumer/server/conn.rs graceful_shutdown")],
 "process lifetime, connections", "exit time of the process, connection closes, state after restart"))
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in L:
        if p["anchors"]["hook_needed"] is None: del p["anchors"]["hook_needed"]
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
