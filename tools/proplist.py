prop(
    "P01", "Thread pool: exactly-once execution, own outcome to each caller",
    "Every callable handed to the thread pool from any event loop is executed "
    "exactly once with its own arguments and its submitter's context "
    "variables, or never when it was cancelled while still queued, whatever "
    "other calls are cancelled, fail or run at the same time. Its awaiting "
    "caller is resumed in its own loop's thread with exactly that call's "
    "result or raised exception (any exception, including StopIteration, "
    "CancelledError, BaseException subclasses and falsy ones), and only after "
    "the call ended.",
    "schedules inputs histories",
    "all interleavings of submitting loops, worker threads and cancellations; "
    "all results and exceptions; pools of any size; asyncio and uvloop",
    "Tests submit a few calls without cancellation or preemption inside the "
    "pool; the guarantee is over all interleavings of worker threads, loops "
    "and cancellations and all kinds of outcomes.",
    "aiomisc/thread_pool.py",
    [("work item runs once and posts its outcome to its loop",
      "aiomisc/thread_pool.py WorkItem.__call__, _set_workitem_result"),
     ("task queue", "aiomisc/thread_pool.py TaskChannel")],
    "runtime monitoring: event log + exactly-once/ownership checker under "
    "thread storms with injected preemption", REAL,
    ["futures returned by ThreadPoolExecutor.submit / run_in_executor"],
)
prop(
    "P02", "Thread pool: size bound, full parallelism, complete shutdown",
    "A pool of size N never runs more than N calls at once nor owns more than "
    "N threads, and N calls which block waiting for each other always run "
    "simultaneously. Shutdown from any thread at any moment, waiting or not, "
    "repeated or not, gives every outstanding call an outcome (its own, its "
    "cancellation or a RuntimeError), starts no call after a waiting shutdown "
    "has returned, ends all the pool's threads, and later submissions raise "
    "RuntimeError. A pool shared by several event loops keeps all its threads "
    "when one of the loops is closed with its calls running or queued.",
    "schedules histories configurations",
    "all pool sizes, bursts of submissions, moments of shutdown and threads "
    "calling it",
    "Tests use one size, and shut pools down when idle; the guarantee is over "
    "every moment and thread of shutdown and every submission history.",
    "aiomisc/thread_pool.py",
    [("thread growth", "ThreadPoolExecutor._adjust_thread_count"),
     ("shutdown rejects the futures and closes the queue",
      "ThreadPoolExecutor.shutdown")],
    "runtime monitoring: concurrency gauges, barrier workloads, "
    "shutdown fault injection with outcome accounting", REAL,
)
prop(
    "P03", "Crossing between coroutines and threads keeps outcome and context",
    "Calls crossing between event loop and threads at any nesting depth "
    "(threaded, threaded_separate, run_in_new_thread, sync_await, "
    "wait_coroutine, sync_wait_coroutine) run exactly once on the proper side "
    "(a worker thread or the loop's thread), for any callable, with the "
    "caller's arguments and "
    "context variables, and deliver exactly their own result, exception or "
    "cancellation. A thread waiting for a coroutine is always released when "
    "the coroutine ends, fails or is cancelled; cancelling an awaiting "
    "coroutine returns at once, does not interrupt the function and affects "
    "no other call; separate threads never wait for the pool, and keep the "
    "interpreter alive exactly when they are not detached.",
    "schedules programs inputs",
    "all call trees, outcomes, cancellations and interleavings",
    "Tests call each bridge once at depth one with fixed outcomes; the "
    "guarantee is over all nestings, cancellations and interleavings.",
    "aiomisc/thread_pool.py aiomisc/_context_vars.py",
    [("bridges", "threaded, threaded_separate, run_in_new_thread"),
     ("waiting in a thread for a coroutine",
      "CoroutineWaiter, wait_coroutine, sync_await")],
    "runtime monitoring: random call trees with an outcome/thread/context "
    "monitor, injected preemption and cancellation", REAL,
)
prop(
    "P04", "Threaded iterables deliver the exact sequence, lookahead bounded",
    "Iterating a generator or iterable running in a thread yields exactly its "
    "items, in order, each once (including falsy and None items), then its "
    "exception if it raised one or the end, which is sticky; the function "
    "gets the caller's arguments, runs outside of the loop's thread and is "
    "finalised at the end. With max_size > 0 the producer is never more than "
    "max_size + 1 items ahead of the reader, and a stalled reader loses "
    "nothing.",
    "schedules inputs",
    "all sequences, error positions, queue sizes, relative speeds and "
    "interleavings of producer and consumer, several iterators at once",
    "Tests read a few sequences at full speed; races between the last items, "
    "the closing of the channel and the reader are schedule dependent.",
    "aiomisc/iterator_wrapper.py aiomisc/thread_pool.py",
    [("channel", "aiomisc/iterator_wrapper.py FromThreadChannel"),
     ("producer loop", "IteratorWrapper._in_thread")],
    "runtime monitoring: sequence and lookahead monitors under injected "
    "preemption", REAL,
)
prop(
    "P05", "Abandoning a threaded iterable early always releases its thread",
    "However and whenever iteration is abandoned (leaving async with normally "
    "or by an error, close() once or repeatedly, cancellation of the reader, "
    "break or garbage collection, before or after the first item), closing "
    "finishes, the generator is finalised with its cleanup complete when the "
    "awaited close has finished, it produces nothing more, and its thread "
    "becomes available to other calls. An error or cancellation of the "
    "reader is never suppressed.",
    "schedules histories",
    "all moments and ways of abandoning, queue sizes (full or not), generator "
    "speeds, generators catching the closing exception",
    "Tests close a few iterators at fixed points; hangs appear only when "
    "close meets a full queue, an unstarted generator or a particular "
    "interleaving.",
    "aiomisc/iterator_wrapper.py",
    [("closing", "IteratorWrapper.close, wait_closed, __aexit__"),
     ("finalizer of the abandoned iterator", "IteratorProxy")],
    "runtime monitoring: hang, finalisation and pool availability monitors "
    "under injected preemption", REAL,
)
prop(
    "P06", "Aggregated calls each get their own outcome and are isolated",
    "Every call of an aggregated function, unless itself cancelled, completes "
    "with the result or error that an execution including its argument "
    "produced for its argument (its positional result, its individually set "
    "result or exception, the exception raised by that execution, or "
    "ResultNotSetError when nothing was set). Each call's argument is part of "
    "exactly one batch, passed in call order, and a batch is executed once, "
    "plus at most once more for every cancelled caller of it; a cancelled "
    "caller never fails, cancels or hangs the others.",
    "schedules inputs histories",
    "all arrival times, batch limits, function durations and behaviours, and "
    "all moments of cancelling any callers",
    "Tests cancel one caller at one moment; the lock hand-over between the "
    "callers of a batch depends on the moment of every cancellation.",
    "aiomisc/aggregate.py",
    [("batch hand-over", "AggregatorAsync.aggregate"),
     ("result distribution", "_to_async_aggregate, AggregatorAsync._execute")],
    "runtime monitoring: offline checker over recorded executions in virtual "
    "time with cancellation injection", VIRTUAL,
)
prop(
    "P07", "Aggregation respects max_count and the leeway",
    "No execution of an aggregated function gets more than max_count "
    "arguments, and a batch reaching max_count is executed at once; any other "
    "batch is executed when leeway_ms have passed since its first call, with "
    "all the calls made meanwhile. So no uncancelled call ever waits longer "
    "than the leeway for an execution with its argument to start, while other "
    "batches may be executing, and each call returns as soon as the execution "
    "ends.",
    "schedules inputs",
    "all arrival histories, limits, leeways, function durations and "
    "cancellations",
    "Tests check a handful of arrival patterns.",
    "aiomisc/aggregate.py",
    [("batch closing", "AggregatorAsync.aggregate, _clear")],
    "runtime monitoring: executions compared with an exact batch model in "
    "virtual time", VIRTUAL,
)
prop(
    "P08", "asyncbackoff, asyncretry and timeout follow their contract exactly",
    "A decorated call makes attempts one after another with the same "
    "arguments, pausing between them, as long as attempts fail with a listed "
    "exception or a timeout, at most max_tries of them, and stops at giveup, "
    "at an unlisted exception (raised at once) or a cancellation; each attempt "
    "is cancelled after attempt_timeout and everything after deadline. The "
    "caller gets exactly the successful result or the last attempt's "
    "exception (a timeout error if there was none), at exactly that time, and "
    "concurrent calls do not influence each other.",
    "inputs schedules histories",
    "all parameter combinations, attempt durations and outcomes, concurrent "
    "calls and moments of cancellation",
    "Tests sample some parameter combinations with real sleeps.",
    "aiomisc/backoff.py aiomisc/timeout.py",
    [("attempt loop", "aiomisc/backoff.py asyncbackoff"),
     ("timeout", "aiomisc/timeout.py timeout")],
    "runtime monitoring: attempts, outcome and times compared with an exact "
    "model in virtual time", VIRTUAL,
)
prop(
    "P10", "Circuit breaker follows its state machine",
    "A passing breaker lets every call through and opens only when the "
    "failure share of the statistics of the whole response_time window "
    "reaches the ratio; failures not listed or declined by the inspector do "
    "not count. An open breaker calls nothing, raising CircuitBroken with the "
    "last exception, for broken_time; then it admits none at once and a "
    "growing share of the calls up to all of them after recovery_time, and "
    "from there closes again or, when calls fail again, reopens. Admitted "
    "calls, sync or async, run once and their result or exception is passed "
    "on unchanged.",
    "histories inputs",
    "all histories of calls, outcomes, silence and overlapping async calls, "
    "and all parameters",
    "Tests drive one or two histories in real time.",
    "aiomisc/circuit_breaker.py",
    [("state machine", "CircuitBreaker._compute_state"),
     ("window", "CircuitBreaker.counter, recovery_ratio"),
     ("admission", "CircuitBreaker.context, _on_recover")],
    "runtime monitoring: state, admission and outcomes compared with a "
    "reference state machine in virtual time", VIRTUAL,
)
prop(
    "P11", "Recurring and periodic callbacks run on schedule, never overlapping",
    "A periodic callback is called first after its delay and then always one "
    "interval after its previous call ended, with its own arguments, never "
    "overlapping, no matter how calls fail or how long they take; errors of "
    "calls are logged once unless they are suppressed; a recurring "
    "callback follows its strategy in the same way (delays, skips, negative "
    "delays as zero, stop or a wrong delay ends it, a strategy error is the "
    "task's error). After a stop no call starts, the running one is cancelled "
    "and has ended when the stop has finished (a shielded one runs to its "
    "end), and the callback may be started again.",
    "schedules inputs histories",
    "all durations, failures, strategies, moments of stopping and restarts",
    "Tests use a few intervals in real time.",
    "aiomisc/recurring.py aiomisc/periodic.py",
    [("call loop", "RecurringCallback._start"),
     ("start/stop", "PeriodicCallback.start, stop")],
    "runtime monitoring: calls compared with an exact schedule in virtual "
    "time, stop injected at any time and loop iteration", VIRTUAL,
)
prop(
    "P12", "Cron callbacks are called at every matching time, exactly once",
    "A started cron callback is called at every moment matching its "
    "specification (5 or 6 fields, UTC), once per moment, not earlier and "
    "only as late as the loop wakes up, skipping the moments passing while a "
    "previous call still runs; failing calls change nothing. Several "
    "callbacks of a cron service follow their own specifications; after a "
    "stop there are no calls and the running one has ended, restarting works, "
    "and invalid specifications are rejected.",
    "inputs histories schedules",
    "all specifications, start moments, durations, failures, timer latencies "
    "and moments of stopping",
    "Tests wait for a couple of one-second slots; calendars, durations "
    "crossing slots and latencies can not be waited for in real time.",
    "aiomisc/cron.py aiomisc/service/cron.py aiomisc/recurring.py",
    [("next moment", "CronCallback.get_next"),
     ("service", "aiomisc/service/cron.py CronService")],
    "runtime monitoring: calls compared with a brute force calendar under a "
    "virtual wall clock", VIRTUAL + " Day-of-month lists beyond 28 and */n "
    "days are excluded: croniter itself skips some.",
)
prop(
    "P13", "PoolBase instances are exclusive, bounded, checked and recycled",
    "A pool never hands out more than maxsize instances at once, never keeps "
    "and creates more than maxsize together, never gives an instance to two "
    "holders, and hands out only instances whose check has just succeeded. A "
    "failing (or raising) check discards the instance for good; each instance "
    "is destroyed at most once and, before the close, only when it is not in "
    "use and failed its check or outlived the recycle period; one released "
    "after twice that period is never reused. Errors of the body or of a "
    "creation reach exactly their own client, and an acquire context cannot "
    "be reused.",
    "schedules histories inputs",
    "all arrival times, hold times, durations and failures of creations, "
    "checks and destructions, recycle periods, and moments of cancellation",
    "Tests use an instant, never failing instance type.",
    "aiomisc/pool.py",
    [("acquire/release", "PoolBase.__acquire, __release, __recycle_instance"),
     ("capacity", "PoolBase.__create_new_instance")],
    "runtime monitoring: state monitor on the user's pool hooks in virtual "
    "time with failure and cancellation injection", VIRTUAL,
)
prop(
    "P14", "PoolBase never loses capacity and closes completely",
    "A client waits for an instance only while all maxsize slots are really "
    "in use (held, being created or checked): no failed or cancelled "
    "creation, check, acquire or body ever loses a slot or a wake-up, so that "
    "afterwards maxsize instances can be held at once. close() destroys every "
    "instance not yet destroyed exactly once, concurrently, including those "
    "in use, raises TimeoutError exactly when its timeout passes, and leaves "
    "no background task behind; a later release of an instance does nothing.",
    "schedules histories inputs",
    "all histories of P13, and all moments of closing",
    "Tests never fail a creation or cancel an acquire at a particular "
    "iteration.",
    "aiomisc/pool.py",
    [("slots and waiters", "PoolBase.__release_slot, __get_instance"),
     ("closing", "PoolBase.close")],
    "runtime monitoring: work-conservation probe at quiet instants, capacity "
    "probe, accounting of destructions in virtual time", VIRTUAL,
)
prop(
    "P15", "Entrypoint starts and stops services completely and in order",
    "Entering (or start_services) sends pre_start, then starts all services "
    "concurrently, waits until each finished start() or set its start event, "
    "fails if a start() fails before that, then sends post_start. Leaving (or "
    "stop_services) sends pre_stop, calls stop() of each still started "
    "service exactly once, concurrently, with the exception of the body, "
    "waits for all of them even when some fail, reports such a failure, and "
    "sends post_stop last. Starts still running or still in progress are "
    "cancelled and awaited, and their services stopped; "
    "closing() is released; the body's error is raised unchanged; signals are "
    "frozen and receive the entrypoint and its services.",
    "programs schedules histories",
    "all sets of services, durations and failures of start and stop, services "
    "added and stopped dynamically, bodies ending in any way",
    "Tests run single fixed services; the order and completeness is over all "
    "durations, failures and dynamic changes.",
    "aiomisc/entrypoint.py aiomisc/service/base.py aiomisc/signal.py",
    [("start", "Entrypoint.start_services, _start_service"),
     ("stop", "Entrypoint.stop_services, graceful_shutdown"),
     ("signals", "aiomisc/signal.py Signal")],
    "runtime monitoring: lifecycle event log compared with an exact model in "
    "virtual time", VIRTUAL,
)
prop(
    "P16", "Entrypoint shutdown leaves nothing running; signals end gracefully",
    "Leaving an entrypoint owning its loop cancels and awaits every task, "
    "closes the async generators, waits for the running pool threads and "
    "closes the loop, after the services were stopped; run() gives the "
    "coroutine's result or error. A caught signal (SIGINT, SIGTERM or "
    "custom) stops every service exactly once, even when the body ends at "
    "the same time, ends the program and restores the handlers; exit code 70 "
    "and a forced exit happen exactly when that takes longer than the "
    "shutdown timeout.",
    "schedules programs histories",
    "all moments of signals relative to start, body and stop; all kinds of "
    "leftovers; the three entrypoint forms; asyncio and uvloop",
    "No test sends a signal to an entrypoint; leftovers are tested singly.",
    "aiomisc/entrypoint.py aiomisc/utils.py",
    [("interrupt", "Entrypoint._on_interrupt, OSSignalHandler"),
     ("shutdown", "Entrypoint._stop, _cancel_background_tasks")],
    "runtime monitoring: real programs interrupted by signals at random "
    "moments, event log oracle", REAL,
)
prop(
    "P17", "Context keys deliver the current value to every reader",
    "Awaiting a context key gives the value last set for exactly that key, "
    "or waits for the first one set; all the waiting readers are released at "
    "once by a set from any coroutine or thread, with any value. Values read "
    "never go back to older ones. A cancelled or timed out reader affects no "
    "other reader, now or later. Contexts of different event loops are "
    "independent, and closing one forgets it.",
    "histories schedules",
    "all interleavings of readers, cancellations and writers in coroutines "
    "and threads",
    "Tests set and read one key once or twice.",
    "aiomisc/context.py",
    [("storage", "Context.__getitem__, __setitem__, __setter")],
    "runtime monitoring: register checker over recorded histories in virtual "
    "and real time", VIRTUAL,
)
prop(
    "P18", "select returns the first outcome and cleans up the rest",
    "select() ends as soon as the first awaitable ended (or at its timeout), "
    "with exactly that one's index and value, None for the others, or its "
    "exception raised (returned with return_exceptions). With cancel, all the "
    "other awaitables are cancelled, and awaited unless wait=False; without, "
    "they continue untouched. Each awaitable is run at most once; cancelling "
    "the caller cancels the awaitables, waits for them to end and is never "
    "lost; no tasks leak.",
    "inputs schedules",
    "all numbers and kinds of awaitables, end times, results, errors, "
    "cleanups, options and moments of cancellation",
    "Tests use two awaitables with fixed outcomes.",
    "aiomisc/utils.py",
    [("select", "SelectAwaitable, SelectResult")],
    "runtime monitoring: outcome, time and leftovers compared with a model "
    "in virtual time", VIRTUAL,
)
prop(
    "P19", "cancel_tasks, shield, awaitable and helpers keep their contracts",
    "cancel_tasks cancels every pending task or future of any collection "
    "exactly once, leaves finished ones alone, and its result ends exactly "
    "when the last task has ended, whatever they raise. A shielded call runs "
    "to its end exactly once though its caller is cancelled at any time, the "
    "caller being cancelled at once. awaitable() gives the original awaitable "
    "or a coroutine with exactly the returned value. chunk_list gives all "
    "items in order in full chunks, lazily; the fast UUIDs are valid and "
    "distinct.",
    "inputs schedules",
    "all sets of tasks in all states with all cleanups, all moments of "
    "cancellation, all kinds of return values and sequences",
    "Tests use one or two examples of each.",
    "aiomisc/utils.py",
    [("cancelling", "cancel_tasks, set_exception, pending_futures"),
     ("shield", "shield"), ("awaitable", "awaitable"),
     ("chunks", "chunk_list")],
    "runtime monitoring: outcomes and times compared with a model in virtual "
    "time", VIRTUAL,
)
prop(
    "P20", "WorkerPool: every call gets its own outcome from one execution",
    "Each call of a WorkerPool runs exactly once in one of its processes, "
    "with its own arguments, and gives exactly its own result or exception "
    "(with type and arguments; one which cannot be sent is reported as an "
    "error), however many calls run, are cancelled, fail or send objects that "
    "cannot be pickled at the same time. N workers run N calls in parallel, "
    "never more, one call per process at a time; the initializer runs first "
    "in every process with its arguments. Cancelling a call interrupts its "
    "function once if it is running, at whatever moment, and makes a queued "
    "one never run. No outcome disables a worker.",
    "inputs schedules histories",
    "all sequences of concurrent calls, cancellations, results, exceptions, "
    "sizes of messages and initializers",
    "Tests run few well behaved calls; loss of a worker shows only after "
    "particular combinations of calls.",
    "aiomisc/worker_pool.py aiomisc_worker/worker.py aiomisc_worker/__init__.py",
    [("dispatch", "WorkerPool.__handle_connection, create_task"),
     ("execution", "aiomisc_worker/worker.py")],
    "runtime monitoring: every execution writes a journal in the worker, "
    "compared with what the callers got", REAL,
)
prop(
    "P21", "WorkerPool survives dying workers and always closes completely",
    "When worker processes die (killed, exiting, crashing inside a call) at "
    "any time, each call running there fails with an error at once, at most "
    "one call per death fails, no other call is affected or hangs, and the "
    "pool is again at its full size afterwards. Closing at any time gives "
    "each outstanding call an outcome, later calls are rejected, no process "
    "of the pool survives nor is started again, and its socket vanishes.",
    "crash-points schedules histories",
    "all moments and ways of a worker's death, all moments of closing",
    "Tests kill or close idle pools at one moment only.",
    "aiomisc/worker_pool.py aiomisc_worker/worker.py",
    [("supervision", "WorkerPool.__supervise, __wait_process"),
     ("closing", "WorkerPool.close")],
    "runtime monitoring: fault injection (signals, exits) with outcome "
    "accounting and a process census", REAL,
)
prop(
    "P22", "WorkerPool: only its own authenticated workers are served",
    "A peer which connects to the pool's socket without knowing the secret "
    "never receives a call or any of its data, can settle no call, register "
    "no worker, nor disturb the pool: all calls keep getting their own "
    "outcomes, whatever the peer sends, in whatever pieces, however long it "
    "stays silent. The secret is different for each pool and not visible to "
    "others; the socket's file is accessible to the owner only.",
    "inputs schedules",
    "all byte sequences sent by strangers at all times",
    "Tests try one or two wrong messages.",
    "aiomisc/worker_pool.py aiomisc_worker/protocol.py",
    [("authentication", "WorkerPool.__handle_connection, __handle_auth")],
    "runtime monitoring: hostile peers on the real socket, while a journal "
    "checks the calls", REAL,
)
prop(
    "P23", "DNS store: queries return exactly the most specific zone's records",
    "A query returns exactly the records of that name and type which the most "
    "specific (by whole labels) zone of the store containing the name holds, "
    "after any history of adding, removing and replacing zones and records: "
    "no equal-looking record is merged or lost, for all record types. Zones "
    "reject records outside of them (ValueError), duplicate or unknown zones "
    "are rejected; a failed replace changes nothing, and a successful one is "
    "atomic for queries running in other threads.",
    "histories inputs schedules",
    "all sequences of operations over nested and look-alike names, all record "
    "types, all interleavings of queries with replacements",
    "Tests add one or two records and query them.",
    "aiomisc/service/dns/store.py aiomisc/service/dns/zone.py "
    "aiomisc/service/dns/tree.py aiomisc/service/dns/records.py",
    [("zone lookup", "RadixTree.find_prefix, DNSStore.query"),
     ("replacement", "DNSStore.replace, DNSZone.replace"),
     ("records' identity", "RD.__hash__, DNSRecord.__eq__")],
    "runtime monitoring: every operation is compared with a flat reference "
    "model; generation checker for racing replacements", REAL,
)
prop(
    "P24", "DNS servers answer each request correctly over UDP and TCP",
    "Every well-formed request gets exactly one well-formed reply with its "
    "id, question and RD flag and exactly the records of the store (type, "
    "data, TTL) as answers; NXDOMAIN when there are none, SERVFAIL for an "
    "unsupported type. Over UDP the reply is marked truncated exactly when "
    "it does not fit, never exceeds an announced EDNS size, and answers are "
    "left out only then; over TCP everything is sent, in the order of the "
    "requests, however they are pipelined and split. Malformed requests "
    "affect nobody else.",
    "inputs schedules",
    "all stores, record types, answer sizes, EDNS sizes, segmentations and "
    "malformed messages",
    "Tests send one request per connection and small answers.",
    "aiomisc/service/dns/service.py aiomisc/service/dns/records.py",
    [("reply", "DNSServer.handle_request"),
     ("TCP framing", "TCPDNSServer.handle_client"),
     ("datagrams", "UDPDNSServer.handle_datagram")],
    "runtime monitoring: replies seen by real clients compared with the "
    "store's model and independently packed messages", REAL,
)
prop(
    "P25", "TCP, TLS and UDP servers: one handler per client, complete stop",
    "Every accepted connection and every datagram is given to the handler "
    "exactly once, with its own streams or data and sender; failing, idle, "
    "disconnecting or never handshaking clients affect nobody else. When the "
    "stop of the server has returned, all its handlers have been cancelled "
    "and have finished their cleanup, the clients are disconnected, and no "
    "handler runs or is started any more, even for clients which connect or "
    "send during the stop; connected clients cannot delay the stop. The "
    "server can be started again and reports its real address and port.",
    "schedules histories inputs",
    "all interleavings of clients' behaviours with stopping, all protocols "
    "and event loops",
    "Tests use a single well behaved client and stop an idle server.",
    "aiomisc/service/tcp.py aiomisc/service/tls.py aiomisc/service/udp.py "
    "aiomisc/service/base.py",
    [("handlers", "TCPServer.make_client_handler, "
      "UDPServer.UDPSimpleProtocol.datagram_received"),
     ("stop", "SimpleServer.stop, TCPServer.stop, UDPServer.stop")],
    "runtime monitoring: handlers' event log and clients' observations "
    "checked around stops at random moments", REAL,
)
prop(
    "P26", "TLS servers and clients talk to authenticated peers only",
    "A TLS server requiring client certificates serves exactly the clients "
    "whose certificate is valid and signed by its CA; a TLS client (by "
    "default, or with verify) talks only to servers whose certificate is "
    "valid, signed by its CA and issued for the host, and otherwise sends "
    "them nothing, never calls its handler and reports an error. Protocol "
    "versions outside of the configured range (by default below 1.3) are "
    "refused. Valid peers are served, also after and while invalid ones try. "
    "A client presents its own certificate when asked.",
    "inputs configurations histories",
    "all kinds of certificates on both sides, versions, options, broken "
    "handshakes",
    "Tests connect peers with good certificates only.",
    "aiomisc/service/tls.py",
    [("SSL contexts", "SSLOptions.create_context"),
     ("server", "TLSServer.start"),
     ("clients", "TLSClient.connect, RobustTLSClient.connect")],
    "runtime monitoring: who got served and what was sent, compared with an "
    "access model, for good and hostile peers", REAL,
)
prop(
    "P27", "TCP clients: retries, reconnects, one connection, prompt stop",
    "A client tries to connect up to connect_attempts times, "
    "connect_retry_timeout apart; the first success is handled exactly once, "
    "and when all have failed the last error is reported. A robust client "
    "reconnects reconnect_timeout after each failed connection or failed "
    "reconnect, forever, never having two connections at once, until its "
    "handler ends normally. Stopping at any moment (connecting, waiting, "
    "handling) takes effect at once: the handler is cancelled and awaited and "
    "no attempt is made later.",
    "schedules histories crash-points",
    "all sequences of connection outcomes and handler ends, all moments of "
    "stopping",
    "Tests reconnect once or twice and stop in one state.",
    "aiomisc/service/tcp.py aiomisc/service/tls.py aiomisc/entrypoint.py",
    [("connecting", "TCPClient.connect, start"),
     ("reconnecting", "RobustTCPClient.start"),
     ("stopping", "Entrypoint.stop_services")],
    "runtime monitoring: attempts and handler calls compared with a timed "
    "model in virtual time; real servers dropping clients", VIRTUAL,
)
prop(
    "P28", "Buffered logging loses, repeats and reorders nothing",
    "Every record logged from any thread through a threaded handler, and so "
    "through handlers passed to basic_config or the entrypoint, reaches the "
    "target exactly once, the records of a thread in their order, by one "
    "thread at a time, at the latest when the handler is closed; failing "
    "targets lose nothing else, and targets may log. A buffered handler "
    "never makes a logging call wait or raise: when its limited buffer is "
    "full the record is refused, reported and counted; an unbuffered one "
    "waits for room and refuses nothing. The statistics count exactly this. "
    "However the program ends (return, exception, sys.exit, also during and "
    "after the entrypoint's stop) all its records have been handled. Each "
    "unhandled exception of the loop or the program is logged exactly once, "
    "whatever its context.",
    "schedules inputs histories crash-points",
    "all interleavings of logging threads with the handler's thread, flush "
    "and close; all contexts of loop exceptions",
    "Tests log a few records from one thread.",
    "aiomisc/log.py aiomisc_log/__init__.py aiomisc/entrypoint.py",
    [("handler", "ThreadedHandler.emit, close, _in_thread"),
     ("unhandled exceptions", "UnhandledLoopHook.__call__, "
      "UnhandledPythonHook.__call__"),
     ("configuration", "basic_config, Entrypoint.__exit__")],
    "runtime monitoring: exactly-once and order checker over the records "
    "seen by targets, under thread storms, stuck targets and preemption", REAL,
)
prop(
    "P29", "Every log format writes every record, JSON faithfully",
    "With any format and level, each record of a sufficient level is written "
    "exactly once, in order, completely, to the configured stream and to the "
    "user's handlers, records below the level never. The JSON formatter "
    "makes of any record (any message, arguments, extra fields, exceptions, "
    "custom levels, missing attributes) exactly one line of JSON whose "
    "message, level, timestamp, stack trace and fields are the record's, "
    "changing nothing in the record.",
    "inputs configurations",
    "all records: any extras (not serializable, circular, odd keys), "
    "arguments, levels, exceptions, logger names",
    "Tests format a couple of simple records.",
    "aiomisc_log/__init__.py aiomisc_log/formatter/json.py "
    "aiomisc_log/formatter/color.py aiomisc_log/formatter/rich.py",
    [("JSON", "JSONLogFormatter.format, _dump_json"),
     ("configuration", "basic_config, create_logging_handler")],
    "runtime monitoring: written text of random records compared with a "
    "model of the record", PURE if "PURE" in globals() else REAL,
)
prop(
    "P30", "Async files behave exactly like ordinary files, off the loop",
    "Any sequence of operations on a file opened with async_open, in any "
    "mode, encoding, compression and executor, gives the same results, "
    "errors, state and file contents as the same operations on an ordinary "
    "file. Tasks iterating one file concurrently get each line exactly once. "
    "A cancelled write happens completely or not at all and breaks nothing "
    "else. Operations which block (pipes) never block the loop or other "
    "files; a file is not closed until its owner closes or drops it.",
    "inputs histories schedules",
    "all sequences of operations in all modes and compressions; all "
    "interleavings of readers, cancellations",
    "Tests write and read one file per compression.",
    "aiomisc/io.py",
    [("operations", "AsyncFileIO, AsyncTextIO"),
     ("opening", "async_open, Compression"),
     ("iteration", "AsyncFileIO.__anext__")],
    "runtime monitoring: lock-step comparison of every operation with an "
    "ordinary file as reference model", REAL,
)
prop(
    "P31", "Statistics report exactly what happened",
    "get_statistics yields each metric of each living statistics object "
    "(of the requested kinds and their subclasses) exactly once with its "
    "current value, whatever is created, changed or dropped meanwhile by any "
    "thread. The counters of thread and process pools, threaded iterables, "
    "aggregators, backoff and retries, recurring callbacks, contexts and "
    "circuit breakers equal what their callers and functions observed: every "
    "call counted once, as what it was, settings reported as configured, "
    "running things counted while they run.",
    "histories schedules inputs",
    "all workloads of the components; all interleavings of collecting with "
    "creating and dropping",
    "Tests read one counter of one object.",
    "aiomisc/counters.py aiomisc/thread_pool.py aiomisc/process_pool.py "
    "aiomisc/iterator_wrapper.py aiomisc/aggregate.py aiomisc/backoff.py "
    "aiomisc/recurring.py aiomisc/context.py aiomisc/circuit_breaker.py",
    [("collecting", "get_statistics, MetaStatistic, Statistic"),
     ("counting", "every use of self._statistic")],
    "runtime monitoring: conservation of counters against the workload's own "
    "event log", REAL,
)
prop(
    "P32", "Process services own their processes",
    "ProcessService.start() returns once its process runs in_process with "
    "the arguments of get_process_kwargs, the service's name and the "
    "program's log level and format - or once the process died. Stopping a "
    "service (also one whose start was cancelled) interrupts the process "
    "exactly once, lets it clean up within the timeout, kills it otherwise, "
    "and takes bounded time; nothing runs after that, and no process "
    "outlives the program. RespawningProcessService starts the process "
    "again after any death, never while the previous one is alive, never "
    "after the stop.",
    "histories schedules faults",
    "all histories of deaths, cancellations and stops; all moments of them",
    "Tests start one well-behaved process and stop it.",
    "aiomisc/service/process.py",
    [("life cycle", "ProcessService.start, ProcessService.stop"),
     ("respawning", "RespawningProcessService.__supervise")],
    "runtime monitoring: event log of the parent and all the processes "
    "checked against life-cycle rules, processes left in the system", REAL,
)
prop(
    "P33", "Systemd is told the truth about the program",
    "With SDWatchdogService anywhere among the services and NOTIFY_SOCKET "
    "given, the program announces its start before any service starts, "
    "READY=1 only after every service started, its stop before any service "
    "stops and STOPPING=1 as the very last message; WATCHDOG=1 comes at "
    "least once per watchdog interval, and only while the event loop is not "
    "blocked and the service is started; WATCHDOG_USEC is sent exactly if the "
    "interval differs from the environment's. Without the socket, or when "
    "the listener disappears, the program works as usual.",
    "histories schedules faults",
    "all histories of the services; all moments the loop is blocked",
    "Tests count messages of one second of an idle loop.",
    "aiomisc/service/sdwatchdog.py",
    [("messages", "SDWatchdogService, _pre_start, _post_start, _pre_stop, "
      "_post_stop")],
    "runtime monitoring: kernel time stamps of the messages checked against "
    "the program's event log", REAL,
)
prop(
    "P34", "Services and signals honour their declarations",
    "A service class is accepted exactly if all the methods required to be "
    "coroutine functions are, however they are declared and inherited; an "
    "instance is created exactly if all the required parameters are given; "
    "parameters override class attributes, are not shared, can be changed, "
    "and survive pickling. Every receiver connected to a signal is called "
    "exactly once per call with its arguments, whatever is connected or "
    "called meanwhile, errors reach the caller; frozen signals never change, "
    "their copies are independent.",
    "inputs histories",
    "all class hierarchies and parameters; all histories of signals",
    "Tests check a class of one level and two receivers.",
    "aiomisc/service/base.py aiomisc/signal.py",
    [("declarations", "ServiceMeta, Service.__init__, Service.__setstate__"),
     ("signals", "Signal, receiver")],
    "runtime monitoring: random declarations and histories against a "
    "reference model", VIRTUAL,
)
prop(
    "P35", "HTTP, ASGI, uvicorn and gRPC services serve until they stop",
    "A started AIOHTTP, ASGI, uvicorn (plain or TLS) or gRPC service listens "
    "and its application is started; each request and call is handled at "
    "most once, is answered with its own answer, and its failure or "
    "disconnect touches no other; with require_client_cert only clients "
    "having the CA's certificate reach a handler. Stopping, at any moment, "
    "also while starting or after a failed start, lets the requests being "
    "handled finish within the graceful time, takes bounded time, shuts the "
    "application down once, and leaves nobody listening nor handling. The "
    "services leave signals to the entrypoint, whenever they were started.",
    "histories schedules faults",
    "all histories of clients, starts and stops; all moments of them",
    "Tests make one request to one service.",
    "aiomisc/service/aiohttp.py aiomisc/service/asgi.py "
    "aiomisc/service/uvicorn.py aiomisc/service/grpc_server.py "
    "aiomisc/service/tls.py",
    [("life cycle", "AIOHTTPService.start, AIOHTTPService.stop, "
      "UvicornService.start, UvicornService.stop, GRPCService.start, "
      "GRPCService.stop"),
     ("authentication", "AIOHTTPSSLService, SSLOptions.create_context")],
    "runtime monitoring: event logs of real clients and handlers checked for "
    "exactly-once, graceful and complete stops", REAL,
)
prop(
    "P37", "Log records reach Sentry exactly once and stop flushes them",
    "With RavenSender started, each record of at least min_level which "
    "passes the filters, logged by any thread or coroutine before the stop, "
    "is sent to the server exactly once, in the order of its logger's "
    "thread, with its own level, text, exception, tags and key; nothing "
    "else is sent, and nothing after the stop. Logging never blocks the "
    "event loop. Stop sends what was logged before it, takes bounded time "
    "even if the server fails, disconnects or hangs, and succeeds whatever "
    "is logged meanwhile. The service does not expose the credentials.",
    "inputs schedules faults",
    "all histories of records; all behaviours of the server; all moments of "
    "the stop",
    "Tests send one record to a prompt server.",
    "aiomisc/service/raven.py",
    [("queue", "QueuedAioHttpTransport._async_send, "
      "QueuedAioHttpTransport._worker, QueuedAioHttpTransport._close"),
     ("service", "RavenSender.start, RavenSender.stop")],
    "runtime monitoring: records received by a real HTTP server checked "
    "for exactly-once, order and contents, with injected preemption", REAL,
)
prop(
    "P38", "Tracer, profiler and carbon sender report on schedule, stop fully",
    "A started MemoryTracer, Profiler or CarbonSender reports at once and "
    "then every interval, never two reports at the same time, off the event "
    "loop's thread for MemoryTracer, whatever errors the reports raise. "
    "MemoryTracer shows at most top_results places, those which grew most "
    "since the start first, with their true number of objects and size; "
    "Profiler shows and dumps the exact number of calls made since the "
    "start; CarbonSender creates the client of its protocol with its host, "
    "port, sanitized namespace and storage, makes it the one metrics are "
    "given to, and calls send. After stop nothing reports any more, no task "
    "is left, nothing is traced or profiled, and the service can be started "
    "again.",
    "histories inputs schedules",
    "all histories of allocations and calls; all intervals, options and "
    "failures; all moments of the stop",
    "Tests start the profiler for half a second; the tracer and the carbon "
    "sender have no test.",
    "aiomisc/service/tracer.py aiomisc/service/profiler.py "
    "aiomisc/service/carbon.py",
    [("tracer", "MemoryTracer.start, MemoryTracer.show_stats, "
      "MemoryTracer.stop"),
     ("profiler", "Profiler.start, Profiler.save_stats, Profiler.stop"),
     ("carbon", "CarbonSender.start, CarbonSender.stop, strip_carbon_ns")],
    "runtime monitoring: reports compared to exact counts kept by the "
    "workload; tasks, tracing and profiling state after stop",
    VIRTUAL,
)
prop(
    "P39", "Sockets and event loops are created exactly as asked",
    "bind_socket returns a non-blocking socket of the asked (or detected) "
    "family and type, bound to exactly the asked address and port, reachable "
    "by clients, with address and port reuse as asked and every given option "
    "applied last; if it cannot, it raises OSError and leaves no descriptor "
    "open. create_default_event_loop and new_event_loop return a loop of the "
    "given policy, which is the current one of the thread, with the debug "
    "mode asked for and a default executor which runs as many calls at once "
    "as its size, not more; they are refused, changing nothing, while a loop "
    "runs in the thread. No other event loop or socket is left open by them "
    "or by a program run with aiomisc.",
    "inputs faults",
    "all addresses, families, options, flags, sizes and policies; all "
    "failures of binding",
    "Tests bind two addresses and never a taken one.",
    "aiomisc/utils.py aiomisc/compat.py",
    [("sockets", "bind_socket, sock_set_reuseport, sock_set_nodelay"),
     ("loops", "create_default_event_loop, new_event_loop")],
    "runtime monitoring: attributes read back from the kernel, descriptors "
    "and threads accounted", REAL,
)
prop(
    "P40", "Plugins are set up exactly once, broken ones are isolated",
    "Importing aiomisc imports each module declared by the installed "
    "distributions in the groups aiomisc and aiomisc.plugins and calls its "
    "setup exactly once; a plugin which cannot be imported is left out "
    "without hurting the others, an error of a setup reaches the importer, "
    "and with AIOMISC_NO_PLUGINS nothing is loaded. aiomisc.plugins maps "
    "exactly the names of the plugins to their modules and cannot be "
    "changed. Receivers which plugins connect are called at each start and "
    "stop of services, with exactly those services. python -m "
    "aiomisc.plugins prints the sorted names to stdout and (but for json) its log to "
    "stderr, as its flags say.",
    "inputs faults",
    "all sets of installed plugins and their failures; all flags",
    "Tests have no plugins installed.",
    "aiomisc/plugins/__init__.py aiomisc/plugins/__main__.py "
    "aiomisc/compat.py",
    [("loading", "setup_plugins, entry_pont_iterator"),
     ("listing", "main")],
    "runtime monitoring: event logs of generated distributions in fresh "
    "interpreters compared to what they declare", REAL,
)
prop(
    "P41", "Process pool: each call once, own outcome, complete shutdown",
    "Every call handed to ProcessPoolExecutor from any event loop is executed "
    "at most once, in a process of the pool and never in the program's own, "
    "with its own arguments, and its caller gets exactly that execution's "
    "result or exception (an error when something cannot be pickled), "
    "whatever other calls are cancelled or fail. Never more than max_workers "
    "calls run at once, and max_workers blocked calls run simultaneously. "
    "When a process dies every outstanding call gets its own outcome or "
    "BrokenProcessPool and later ones are refused. Shutting down or dropping "
    "the pool gives every call its own outcome (or its cancellation when "
    "asked to cancel), ends all processes before a waiting shutdown returns, "
    "and later calls raise RuntimeError. Start method, initializer and its "
    "arguments are honoured.",
    "histories faults inputs configurations",
    "all submissions, outcomes, cancellations, deaths and moments of shutdown; "
    "one and more loops; asyncio and uvloop",
    "Tests run a few calls and let processes die without looking at the "
    "outcomes.",
    "aiomisc/process_pool.py",
    [("submission and settings", "ProcessPoolExecutor.__init__, submit"),
     ("end", "ProcessPoolExecutor.__del__, _statistic_callback")],
    "runtime monitoring: execution log written by the processes checked for "
    "exactly-once, ownership, bounds and liveness after faults", REAL,
)
