#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run: python3 tools/properties.py)."""
import json, os, subprocess, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None,
         technique="", note="", claimed=True, reason=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, state=state, observe=observe, hook=hook, technique=technique, note=note,
                  claimed=claimed, reason=reason))

SYN = " Schedules are generated (statement-level yield points put in by a build overlay, fake clock), so a violation replays; they are sampled, not exhausted."
RT = " Exploration: sampled cases, no proof of absence."

prop("C01", "Semaphore never grants more than its permits",
 "A semaphore created with N permits never has more than N permits held at once, whatever acquire, try-acquire and release calls run concurrently: every answer is explained by some order of the calls in which an acquisition succeeds only when fewer than N are held. A release with nothing held changes nothing (also when acquirers are waiting and N is 0), and releasing too often never makes more than N available. This holds identically for both implementations.",
 ["schedules", "histories"], "all histories of acquire/try-acquire/release, from any number of goroutines under any schedule, for N >= 0 and both implementations",
 "The tests run a few fixed sequences on real threads; no interleaving is chosen, and over-release with waiters or with zero permits is never reached.",
 ["concurrent/sema.go"],
 [("buffered channel as permit store", "concurrent/sema.go ChanSemaphore"), ("counter under a mutex with a condition", "concurrent/sema.go LockSemaphore")],
 technique="property-based testing: counter model, linearizability of generated schedules, race-built stress",
 note="Sequential histories against a counter, 2-5 threads under seeded schedules checked for linearizability, and crowds of workers; also built with the race detector." + SYN)

prop("C02", "Semaphore: a free permit always reaches a waiter",
 "Whenever a permit is free, no acquirer stays blocked: each release that returns a held permit lets one waiting acquirer proceed, under every interleaving. Try-acquire and release never block.",
 ["schedules", "histories"], "all histories and schedules of acquirers and releasers, for both implementations",
 "A lost wake-up needs one particular interleaving of a release with an acquirer about to wait; the tests do not choose interleavings and would hang, not fail.",
 ["concurrent/sema.go"],
 [("condition broadcast on release", "concurrent/sema.go LockSemaphore.Release"), ("channel receive on release", "concurrent/sema.go ChanSemaphore.Release")],
 technique="property-based testing: generated schedules in a fake-clock bubble that reports blocked goroutines",
 note="At rest (nothing can move) no acquirer may wait while a permit is free; each later release must let one in." + SYN)

prop("C03", "Circuit breaker opens, stays open and half-opens as documented",
 "A circuit breaker runs the task if and only if fewer failures than the threshold have accumulated since the last success, or strictly more than the reset timeout has passed since the last failure; otherwise the task is not run and the open callback is called exactly once. A failing task hands its own error to the error callback exactly once, counts as one failure (also when many fail at the same time) and restarts the timeout; a success forgets all failures and calls no callback. The never-open breaker always runs the task, passes on its error, and never calls the open callback.",
 ["histories", "schedules", "configurations"], "all sequences (and concurrent mixtures) of succeeding and failing calls separated by arbitrary times, for every threshold and timeout",
 "The tests set private fields to a few states; the life cycle as a whole over generated times (including the exact boundary) and concurrent failures is never walked.",
 ["circuitbreaker/circuitbreaker.go"],
 [("state derived from failure count and last failure time", "circuitbreaker/circuitbreaker.go SyncCircuitBreaker.state"), ("failure counting under lock", "circuitbreaker/circuitbreaker.go SyncCircuitBreaker.recordFailure")],
 technique="model-based property testing on a fake clock; generated schedules for concurrent failures",
 note="Histories against a reference state machine with nanosecond-exact times; concurrent batches counted exactly." + SYN)

prop("C04", "Fixed window admits exactly its capacity per window",
 "A fixed-window limiter divides time into consecutive windows of the configured size and admits, in each, the first 'capacity' requests and no more, however the requests are spread over time and goroutines. A capacity of zero or less admits nothing; reported capacity and window size are the configured ones.",
 ["inputs", "histories", "schedules", "configurations"], "all capacities, positive window sizes (nanoseconds to days) and request times, concurrent or not",
 "The tests use second-sized windows and hand-picked clock values near zero; the arithmetic error that lets an extra request through appears only at real nanosecond timestamps and odd window sizes.",
 ["ratelimiter/fixedwindow.go"],
 [("window boundary advanced in multiples of the window size", "ratelimiter/fixedwindow.go SyncFixedWindow.reset"), ("counter under lock", "ratelimiter/fixedwindow.go SyncFixedWindow.Acquire")],
 technique="model-based property testing on a fake clock; generated schedules for bursts",
 note="Windows are (k*size, (k+1)*size] of the Unix clock, which is what the code's zero start documents; exact admission is compared request by request." + SYN)

prop("C05", "Sliding window never admits more than capacity in any window",
 "A sliding-window limiter admits a request if and only if fewer than 'capacity' requests were admitted during the window that ends with it, so no interval of the window's length ever contains more than 'capacity' admissions; rejected requests do not count, and capacity 0 means no limit. Changing capacity or window size at run time takes effect for the next request, keeps the most recent admissions that still fit, and negative capacity counts as 0.",
 ["histories", "schedules", "configurations"], "all request times, capacities, window sizes and run-time reconfigurations, concurrent or not",
 "The tests look at single calls with prepared record lists; no history mixing requests, time and reconfiguration is checked against the definition.",
 ["ratelimiter/slidingwindow.go"],
 [("list of admission times bounded by capacity", "ratelimiter/slidingwindow.go SyncSlidingWindow.Acquire"), ("oldest records dropped on shrink", "ratelimiter/slidingwindow.go SyncSlidingWindow.UpdateConfig")],
 technique="model-based property testing on a fake clock; generated schedules",
 note="Reference model keeps admission times; boundary (exactly one window old) included." + SYN)

prop("C06", "Token buckets never issue more than rate and capacity allow",
 "A token bucket starts full and gains 'rate' tokens per elapsed second since its creation, never holding more than 'capacity'; a request is admitted if and only if a token is there. So over any period the admissions are at most capacity plus rate times the whole seconds begun in it, idle time is never credited twice, and steady demand receives the full configured rate. Both implementations agree, also under concurrent requests.",
 ["histories", "schedules", "configurations"], "all request times, capacities and rates, concurrent or not, for both implementations",
 "The tests advance one fake instant at a time from a nearly empty bucket; idle-then-burst histories, fractional seconds and races at the refill are not reached.",
 ["ratelimiter/tokenbucket.go"],
 [("issuing by whole seconds elapsed", "ratelimiter/tokenbucket.go issueIfNecessary"), ("compare-and-swap on tokens and time", "ratelimiter/tokenbucket.go AtomicTokenBucket")],
 technique="model-based property testing on a fake clock; generated schedules for the atomic bucket",
 note="Exact per-request comparison when calls do not overlap; under overlap, no second's tokens are spent twice and none are lost at rest." + SYN)

prop("C07", "Blocking rate limiter blocks, triggers and unblocks as documented",
 "The Redis blocking limiter passes a key's requests while fewer than 'capacity' passed within the window; the first excess request is reported as blocked and triggered with the full timeout and its own message, and every request until the timeout has run out is reported as blocked, not triggered, with that first message and a positive remaining time no longer than the timeout; afterwards requests are judged by the window again. A capacity or window changed at run time is in force from the next request on. Unset (non-positive) capacity, window or timeout means every request passes and nothing is recorded. Every answer is one of the three documented shapes, also after losing races with other clients.",
 ["histories", "configurations", "schedules"], "all sequences of requests on shared keys at any times, any capacity, window (shorter or longer than the timeout) and timeout, from several clients",
 "The repository's tests of this limiter need a live Redis and are skipped here; even there they follow three fixed timelines.",
 ["ratelimiter/ttl_ratelimiter_redis.go", "ratelimiter/ttl_ratelimiter.go"],
 [("atomic server-side script", "ratelimiter/ttl_ratelimiter_redis.go script1"), ("block key with expiry", "ratelimiter/ttl_ratelimiter_redis.go script2")],
 technique="model-based property testing against an in-process Redis that executes the real script text on a fake clock",
 note="Trusts our Redis stand-in and Lua interpreter (lists, strings, expiry in ms, TTL rounding as in Redis); parameters and times are whole and fractional seconds; the clocks of client and server are the same.")

prop("C08", "Blocking limiter isolates keys, agrees with its query and fails open",
 "Requests on one key never affect another key unless they share the block key; keys sharing a block key are blocked together but counted apart. Asking whether a block key is blocked gives the same answer as the next request would about being blocked, has no effect, and works the same in cluster mode, where all keys of one limiter live in one hash slot and differ for different keys. If Redis fails or is unreachable, requests pass and no panic or hang results.",
 ["inputs", "histories", "fault_sequences", "configurations"], "all key and block-key strings and hash tags, all histories over several keys, and connection or command failures at any call",
 "Needs several keys, cluster slots and injected faults at once; existing tests use one or two keys on a healthy single server.",
 ["ratelimiter/ttl_ratelimiter_redis.go"],
 [("key prefix, suffix and hash tag", "ratelimiter/ttl_ratelimiter_redis.go ShouldBlock2Context / IsBlockedContext"), ("error means pass", "ratelimiter/ttl_ratelimiter_redis.go")],
 technique="model-based property testing with several keys, cluster-slot checking and fault injection",
 note="The stand-in server refuses cross-slot scripts as a cluster would and can fail, drop or garble chosen commands. Keys that only collide through the textual prefix and suffix scheme are left out of the domain.")

prop("C09", "Event bus delivers every event once, in order, to every receiver",
 "Every receiver registered while an event is dispatched gets it exactly once and in sending order, or, for a dropping receiver whose buffer is full at that moment (no buffer: nobody is waiting), not at all; nothing is invented, duplicated or reordered. A blocking receiver misses nothing, and a full dropping receiver never delays or costs the others anything.",
 ["histories", "schedules", "configurations"], "all sequences of sends and receives, buffer sizes, numbers and kinds of receivers, and schedules of senders, dispatcher and readers",
 "The tests send a handful of events to one or two receivers and sleep; drop decisions, several senders and slow readers are not explored.",
 ["event/bus.go"],
 [("one dispatcher loop over all receivers", "event/bus.go FanOutBus.doDispatch"), ("non-blocking or blocking send per receiver", "event/bus.go Receiver.onEvent")],
 technique="model-based property testing at rest points, order/subsequence checks under generated schedules, race-built stress",
 note="Quiescent histories are compared exactly with a queue model; concurrent ones by per-sender order and exactly-once." + SYN)

prop("C10", "Receivers and the bus can be opened and closed in any order",
 "Closing a receiver ends its channel and its deliveries while all others keep receiving; closing the bus ends every receiver's channel. Closing a receiver twice, after the bus was closed, or after another receiver took its name is harmless to everyone else, and registering a name again ends the earlier receiver's channel. No order of registering, sending, receiving and closing, concurrent or not, panics, deadlocks or leaves a reader of a closed receiver waiting.",
 ["histories", "schedules"], "all orders and interleavings of registering, closing and sending on one bus (the bus itself closed once, no sends after that)",
 "Only one close of one receiver is tested; double closes, reused names and closes racing with the dispatcher are not.",
 ["event/bus.go"],
 [("receiver map under a read-write lock", "event/bus.go FanOutBus.recvMapLock"), ("close only under the write lock", "event/bus.go FanOutBus.Close / deregisterRecv")],
 technique="stateful property testing plus generated schedules; bubble detects deadlock, panics are caught",
 note="A blocking receiver nobody reads is documented to block the bus and is kept out of the domain." + SYN)

prop("C11", "Draining and timed collection return exactly what arrived",
 "Draining a receiver returns, in order and without blocking, exactly the events waiting in it, leaving it empty. Timed collection returns exactly the events that arrived until the timeout, in order, and returns at the timeout, or as soon as the receiver is closed; neither ever returns values that were not sent.",
 ["histories", "inputs"], "all arrival times, timeouts (including zero and negative), buffer states and closings",
 "The tests collect two events with real sleeps; arrival at the boundary and closing while collecting are not tried.",
 ["event/bus.go"],
 [("non-blocking receive loop", "event/bus.go Receiver.Drain"), ("receive loop with timer", "event/bus.go Receiver.CollectTimeout")],
 technique="property-based testing on a fake clock against the list of arrivals",
 note="Events arriving at the very instant of the timeout may go either way." + RT)

prop("C12", "Fixed-delay jobs never overlap and keep their delay",
 "A started fixed-delay task runs its job at once and then again and again, each run beginning exactly one interval after the previous one finished; runs never overlap, whatever the job takes or returns and whether or not it obeys cancellation.",
 ["histories", "inputs", "schedules"], "all intervals, timeouts and sequences of job durations, results and reactions to cancellation",
 "The tests run two or three iterations with one duration on the real clock and count runs.",
 ["schedule/fixed_delay_task.go", "schedule/task.go"],
 [("next run enqueued after the job returns", "schedule/fixed_delay_task.go startConsuming / appendJobQueueFuture"), ("single consumer", "schedule/fixed_delay_task.go")],
 technique="property-based testing on a fake clock: exact start times against a reference timeline",
 note="Start times compared exactly on the fake clock; the non-overlap part also under generated schedules." + SYN)

prop("C13", "Fixed-rate jobs start on the beat",
 "A started fixed-rate task starts a run at once and then one at every multiple of the interval, regardless of how long runs take, fail or overlap; no beat is skipped or doubled.",
 ["histories", "inputs"], "all intervals, timeouts and sequences of job durations and results",
 "The tests count runs over a few real milliseconds; drift, skipped or doubled beats over generated durations are invisible to them.",
 ["schedule/fixed_rate_task.go", "schedule/task.go"],
 [("ticker feeding a queue", "schedule/fixed_rate_task.go startProviding"), ("each run on its own goroutine", "schedule/fixed_rate_task.go startConsuming")],
 technique="property-based testing on a fake clock: exact start times against a reference timeline",
 note="Exact on the fake clock up to the stop; a beat that coincides with the stop may go either way." + RT)

prop("C14", "Tasks start once, stop for good, and jobs are told to cancel",
 "A task can be started once and stopped once, in that order; any other start or stop returns an error (or panics in the must-forms) and changes nothing, also when callers race. A running job's cancel signal fires exactly when its timeout passes or the task is stopped, whichever is first, and not before; stop itself does not wait for the job. After a stop no further run is started (one already being dispatched is cancelled at once) and the task leaves nothing running behind; blank names, nil jobs and non-positive intervals or timeouts are refused at construction.",
 ["histories", "schedules", "inputs"], "all orders and interleavings of start and stop calls, stop times relative to runs, timeouts and job durations, for both kinds of task",
 "The tests check single misuse calls and real-time cancellations with wide margins; racing starts and stops and the exact cancel instant are not checked.",
 ["schedule/task.go", "schedule/fixed_rate_task.go", "schedule/fixed_delay_task.go"],
 [("status under lock", "schedule/task.go markStart / markStopSendSignal"), ("context with timeout joined with the stop signal", "schedule/task.go runJob")],
 technique="stateful property testing on a fake clock, generated schedules, goroutine-leak detection by the bubble",
 note="Cancellation instants compared exactly; leaks are goroutines still blocked when the bubble ends." + SYN)

prop("C15", "Task manager runs each registered name exactly once",
 "Registering a task starts it and takes its name; a name already taken is refused with an error and the new task is not started. Unregistering stops exactly that task and frees its name, unregistering an unknown name does nothing, and unregistering all stops and frees everything; a task that could not be started does not occupy its name. This holds for every order and interleaving of calls.",
 ["histories", "schedules"], "all sequences and interleavings of register, unregister and unregister-all over several names, including tasks whose start fails",
 "The tests make one or two calls and count map entries.",
 ["schedule/task_manager.go"],
 [("map under one lock", "schedule/task_manager.go taskManager")],
 technique="model-based stateful property testing with recording tasks and real tasks; generated schedules",
 note="Recording implementations of the task interface give exact start/stop counts; real tasks confirm jobs run." + SYN)

prop("C16", "Configuration sources: flag over environment over file over default",
 "After loading, every supported exported field holds the value of the highest-precedence source that provides it: command-line flag, then environment variable, then YAML file, then the value it had before. This holds independently for every field at any nesting depth, through pointers (which are always allocated), embedded structs and YAML sections that are null, partial or missing, and for values equal to the zero value.",
 ["configurations", "inputs", "programs"], "all configuration struct types built from the supported kinds, and all assignments of sources to fields with all values the kinds can express",
 "Tests use one struct and one value per source; the quantification over types and over the combination of sources per field is out of their reach.",
 ["conf/conf.go", "conf/env.go", "conf/flag.go", "conf/yaml.go", "conf/reflect.go"],
 [("resolvers applied in order", "conf/conf.go Load"), ("variables bound to field addresses", "conf/env.go, conf/flag.go"), ("pointer initialisation", "conf/reflect.go initStruct")],
 technique="property-based testing over generated struct types, in child processes, against a per-field precedence model",
 note="Types are built with reflection from a generated description (plus hand-written types with embedded structs); unique names, well-formed YAML." + RT)

prop("C17", "Configuration names derive from field paths by the documented rule",
 "Every supported field is reachable by exactly one flag and one environment variable, named after its dotted path: words start at upper-case letters, are lower-cased and joined by '-' for flags, upper-cased and joined by '_' for environment variables, and embedded structs add nothing. Fields that are unexported or of unsupported kinds are left untouched by flags and environment, and other variables in the environment have no effect.",
 ["inputs", "programs"], "all field names and nestings of the generated types, and environments with near-miss names",
 "Tests list a dozen names; the agreement between names and fields over arbitrary structs is not examined.",
 ["conf/string.go", "conf/reflect.go", "conf/doc.go"],
 [("path to name conversion", "conf/string.go flagStyle / envStyle"), ("exported field visitor", "conf/reflect.go visitExportedFields")],
 technique="property-based testing over generated struct types with an independent naming function",
 note="The flag set seen by the process is compared with the independently derived set of names, and setting each by name must reach its field and no other." + RT)

prop("C18", "Bad configuration input stops the program, never half-applies",
 "If the YAML file is missing, malformed or has the wrong shape for a field, or an environment variable or flag holds a value its field's type cannot take, or an unknown flag is given, loading reports it and ends the process with a non-zero status instead of returning. Loading with well-formed input always returns.",
 ["inputs", "fault_sequences"], "all fields with values outside their type, malformed or unreadable files, unknown flags, each alone or combined",
 "Tests check resolver error returns for one or two values; the process-level outcome is not tested.",
 ["conf/conf.go", "conf/env.go", "conf/flag.go", "conf/yaml.go"],
 [("exit on resolver error", "conf/conf.go Load"), ("flag package value parsing", "conf/env.go Resolve, conf/flag.go Resolve")],
 technique="property-based testing in child processes with generated invalid inputs",
 note="Exit status and the fact that no code after loading runs are observed from outside." + RT)

prop("C19", "Config store returns the last accepted value or the default",
 "A registered key reads as the value of its last accepted update, converted by its processor, and as its registered default when there is none (never set, reset); text and typed reads always correspond. Updates of unknown keys or with values the processor rejects change nothing and report key, value and reason; batches treat each entry on its own, in order. Registering a taken or empty key, without a processor or with an invalid default, fails and changes nothing; deregistered keys read as missing, and start again from the new default when registered again.",
 ["histories", "inputs"], "all sequences of register, deregister, update, batch, reset and read calls over several keys with valid and invalid values",
 "The tests check each call from a fresh store; sequences (reset after batch, re-register with another processor) are not walked.",
 ["confstore/store.go", "confstore/interface.go"],
 [("separate maps for values and defaults", "confstore/store.go defaultImpl"), ("validate before store", "confstore/store.go UpdateNoPersist")],
 technique="model-based stateful property testing",
 note="Reference model of the documented interface; all read calls compared after each step." + RT)

prop("C20", "Accepted config changes, and only those, are persisted",
 "After any sequence of calls the persistence layer holds, for every key, the value of its last accepted persisting update unless it was reset or deregistered since; rejected, unknown and empty keys are never persisted, and the no-persist update persists nothing. A batch hands its accepted entries over together; a store built anew on the same persistence layer and registrations reads the same values. Failing persistence never panics, blocks or loses the in-memory value.",
 ["histories", "fault_sequences", "crash_points"], "all sequences of store calls with persistence failures at any of them and restarts between any two",
 "Tests use a mock that only checks one call each; the shipped error (persisting rejected instead of accepted values) went unnoticed.",
 ["confstore/store.go", "confstore/persister.go"],
 [("save after accepted update", "confstore/store.go Update / BatchUpdate"), ("delete on reset and deregister", "confstore/store.go ResetKey / DeregisterKey")],
 technique="model-based stateful property testing with a recording, failing persister and restarts",
 note="In-memory recording persister with injected failures; restart equivalence checked at generated points." + RT)

prop("C21", "Load policies reload exactly as often as promised",
 "With the immediate policy every read first reloads from the persistence layer; with the no-load policy none ever does; with a minimum interval a read reloads if and only if the last successful load is at least that long ago (or there was none), concurrent readers share one reload, and failed loads are retried by the next read. A failing load leaves the values as they were and reads still answer.",
 ["histories", "schedules", "fault_sequences", "configurations"], "all intervals, read times, load failures and concurrent readers",
 "The tests use a 2-value real-time interval; failures, boundaries and concurrent reads are not covered.",
 ["confstore/loader.go"],
 [("last load time under a lock", "confstore/loader.go defaultLoadPolicy.DoLoad")],
 technique="model-based property testing on a fake clock with a counting, failing persister",
 note="Load counts and times compared exactly; single-key reads." + SYN)

prop("C22", "Value processors accept exactly their format and convert faithfully",
 "Each built-in processor accepts exactly the strings of its documented format (true/false, integers in the stated range, durations, lengths in range, one of the listed options, empty or absolute URLs, empty or #rrggbb colours, empty or RSA PEM keys) and says why when it refuses; it never panics on any string. Converting an accepted string gives the value it denotes, of the processor's type, with empty URL and key strings giving typed nil.",
 ["inputs", "configurations"], "all strings and all ranges, length bounds and option sets",
 "Table tests list a few strings per processor; near misses, boundaries of ranges and non-RSA keys are not covered.",
 ["confstore/procs.go"],
 [("validate/convert pairs", "confstore/procs.go")],
 technique="property-based testing with independent format oracles; byte-level mutation of valid values",
 note="Oracles are written from the formats, not from the code; URL syntax beyond scheme, host and path is checked by construction only." + RT)

prop("C23", "Redis persistence round-trips and survives failures",
 "Values saved one by one or in batches come back unchanged, for any key and value bytes, into a store that has the keys registered; unknown or now invalid saved entries are skipped without affecting the others; deleting removes exactly one key. Different root keys do not see each other, an empty batch writes nothing, and every Redis failure is returned as an error while the store keeps its values.",
 ["inputs", "histories", "fault_sequences"], "all keys and values (any bytes), histories of saves, deletes and loads over several roots, with command failures",
 "Tests of this part need a live Redis and are skipped here.",
 ["confstore/persister.go"],
 [("one hash per root key", "confstore/persister.go redisPersister")],
 technique="model-based property testing against an in-process Redis with fault injection",
 note="Trusts the Redis stand-in for hash commands." + RT)

prop("C24", "Config store stays consistent under concurrent use",
 "Under any interleaving of register, deregister, update, batch, reset, reload and read calls, every read returns the default or an accepted value of that key's current registration, of its processor's type, and never blocks forever. Once concurrent changes have finished, memory and persistence layer agree on every key, and a deregistered key has no value in either.",
 ["schedules", "histories"], "all interleavings of two to five threads of store calls on shared keys, including re-registration with another processor",
 "No test uses the store from two goroutines.",
 ["confstore/store.go"],
 [("two read-write locks", "confstore/store.go defaultImpl"), ("changes serialised with their persistence", "confstore/store.go defaultImpl")],
 technique="property-based testing over generated schedules, linearizability per key, race-built stress",
 note="Reloads take part in the schedules." + SYN)

prop("C25", "Database clients connect with exactly the configured settings",
 "A database client built from a configuration connects to the configured host and port and presents exactly the configured user, password, database (or service or SID) and extra parameters, whatever characters they contain; connection limits, lifetimes and timeouts are the configured ones, and a customizer's changes win over the configuration. The traced variants behave the same. Parameters that are not well-formed are left out without affecting the others.",
 ["configurations", "inputs"], "all configuration values, including credentials with reserved characters, for MySQL, PostgreSQL and Oracle, traced or not",
 "Tests compare a few prepared driver options with plain values; what reaches the server is never looked at (live databases are needed).",
 ["confs/mysql.go", "confs/postgresql.go", "confs/oracle.go"],
 [("driver configuration and DSN building", "confs/mysql.go prepareMySqlNativeConfig, confs/postgresql.go buildPgDsn, confs/oracle.go prepareUrlOptions")],
 technique="property-based testing against in-process servers that record what the client presents",
 note="MySQL and PostgreSQL are observed through the real drivers up to a stand-in server on a fake clock. For Oracle the connection string is caught and the real driver is asked what it means; its wire protocol is not spoken. A setting made twice in the configuration (by its field and in Params) has no promised winner."+RT)

prop("C26", "Redis and Elasticsearch clients honour their configuration",
 "A Redis client built from a configuration connects to that address, authenticates with that password and selects that database, and keeps within its pool size and minimum idle connections; a customizer's changes win. An Elasticsearch client sends requests only to the configured addresses with the configured credentials, keeps within its per-host connection limit and idle limit, and construction fails when the cluster refuses or cannot be reached.",
 ["configurations", "inputs", "fault_sequences"], "all configuration values and refusing or failing servers",
 "Tests check the option struct of one configuration, or need live servers.",
 ["confs/redis.go", "confs/es.go"],
 [("option mapping", "confs/redis.go prepareRedisNativeConfig, confs/es.go NewEsClient")],
 technique="property-based testing against in-process Redis and HTTP servers that count connections and record credentials",
 note="Connection counts are observed at the server." + RT)

prop("C27", "Printing a configuration shows its settings but no secrets",
 "The printed form of every configuration (MySQL, PostgreSQL, Oracle, Redis, Elasticsearch, profiling, HTTP client, tracing) shows each non-secret setting with its own value and never contains the user name or password of those that have credentials.",
 ["inputs", "configurations"], "all values of all fields of all printable configurations",
 "The only way to notice a swapped or leaked field is to vary all fields independently; the tests print none or one.",
 ["confs/mysql.go", "confs/postgresql.go", "confs/oracle.go", "confs/redis.go", "confs/es.go", "confs/pprof.go", "confs/fasthttpclient.go", "skywalking/conf.go"],
 [("String methods", "confs/*.go, skywalking/conf.go")],
 technique="metamorphic property testing: changing a secret never changes the text, changing a setting always changes its own labelled value",
 note="Settings the text has never shown (the Redis database number) are not demanded." + RT)

prop("C28", "HTTP client trusts exactly whom it is told to",
 "With custom trust an HTTPS server is accepted if and only if its certificate chains to one of the listed certificates (and matches the host); with insecure mode any server is accepted; otherwise the operating system's roots decide. A configured client certificate is presented to servers that ask for one in every mode, limits and timeouts are the configured ones, a customizer's changes win, and unreadable certificate files make construction fail.",
 ["configurations", "inputs"], "all combinations of trust mode, trust lists, client certificates and server certificates",
 "Tests construct clients with two combinations and never open a TLS connection.",
 ["confs/fasthttpclient.go"],
 [("TLS configuration by trust mode", "confs/fasthttpclient.go NewFastHttpClient")],
 technique="property-based testing with generated certificate setups against loopback TLS servers",
 note="Certificates are pre-generated test fixtures; the system roots are replaced by a file through the standard environment variable." + RT)

prop("C29", "Profiling endpoints require the exact configured credentials",
 "The profiling handlers serve profiles if and only if user name and password are both configured and the request carries exactly those credentials; with either unset nothing is ever served, and any other, malformed or missing authorization is refused with 401 and a challenge. This holds for both web frameworks and for any characters in the credentials (no colon in user names).",
 ["inputs", "configurations"], "all configured credentials and all authorization headers, including malformed and near-miss ones",
 "There are no tests of these handlers.",
 ["confs/pprof.go"],
 [("basic auth filters", "confs/pprof.go NewGinPprofBasicAuthFilter / NewFasthttpRoutingPprofHandler")],
 technique="property-based testing with generated headers derived from the credentials by mutation",
 note="Both handlers run in process on real requests; fasthttp's handling of the bare base64 form without scheme is left unclaimed." + RT)

prop("C30", "RSA and certificate reading round-trips and rejects cleanly",
 "Reading a key or certificate back from its PEM, or from the bare base64 body, gives the same key; the public key extracted from a private key is its public half. Any other input (truncated, corrupted, wrong type, another algorithm, random bytes) gives an error from the plain functions and a panic with an error from the must-forms, never a wrong key, a nil without error, or a crash.",
 ["inputs"], "all keys in a fixture pool with all encodings, and arbitrary mutations of them",
 "Tests read one or two fixed PEM strings; malformed and non-RSA inputs are not covered.",
 ["util/rsa/util.go"],
 [("PEM normalisation and block type checks", "util/rsa/util.go")],
 technique="round-trip property testing and structured mutation fuzzing of PEM text",
 note="Keys come from a committed pool plus keys built from generated primes." + RT)

prop("C31", "JSON objects survive marshalling and unmarshalling",
 "Marshalling a JSON object map and unmarshalling it gives back an equal map, unmarshalling accepts exactly the valid JSON objects (and null) and returns an error and no map for anything else.",
 ["inputs"], "all JSON values and all byte strings", "There are no tests for it.",
 ["dto/m.go"], [("thin JSON wrappers", "dto/m.go UnmarshalM / MarshalM")],
 technique="round-trip and differential property testing against a generic JSON decoder",
 note="Numbers compare as float64, as documented by the JSON package." + RT)

prop("C32", "Tracing never changes what the application does",
 "With tracing on, off, sampled out or failing to create a span, the same requests produce the same responses: web handlers run exactly once with the same status, body and error handling; Redis commands and pipelines execute with the same results and errors; outgoing HTTP requests differ only in added tracing headers. Tracing never panics, blocks or ends spans it did not create.",
 ["inputs", "configurations", "fault_sequences", "histories"], "all handlers and results (errors, status codes, bodies), commands and pipelines (succeeding or failing), headers including malformed tracing headers, and tracer configurations",
 "There are no tests of the tracing packages.",
 ["skywalking/fasthttp-routing/middleware.go", "skywalking/redis/hook.go", "skywalking/fasthttp/client_span.go", "skywalking/factory.go"],
 [("pass-through middleware and hooks", "skywalking/fasthttp-routing/middleware.go, skywalking/redis/hook.go")],
 technique="differential property testing: the same generated traffic with and without tracing",
 note="Loopback fasthttp server over in-memory connections and the in-process Redis." + RT)

prop("C33", "Every traced operation reports exactly one finished, truthful span",
 "Each web request, outgoing request, Redis command and pipeline yields exactly one finished span, child of the caller's span if there is one, with the operation's name, peer, status code and database as they were; a span is marked as failed if and only if the operation failed (error, or status 400 and above). A context propagated in an incoming request is continued, and one injected into an outgoing request names the sending span. Spans reach the configured collector under the configured service and instance; without a collector nothing is sent.",
 ["inputs", "histories", "configurations"], "all generated traffic as for transparency, with nested and concurrent operations",
 "There are no tests of the tracing packages.",
 ["skywalking/fasthttp-routing/middleware.go", "skywalking/redis/hook.go", "skywalking/fasthttp/client_span.go"],
 [("span creation and ending around each operation", "skywalking/*/*.go")],
 technique="property-based testing with a capturing reporter compared with the traffic",
 note="Spans are read at the reporter interface of the tracing library." + RT)

prop("C34", "Spans carry arguments, bodies and error texts only on request",
 "By default no span contains command arguments, response bodies or error texts; each is included exactly when its option is switched on, and then completely.",
 ["inputs", "configurations"], "all combinations of options and all argument, body and error contents",
 "There are no tests of the tracing packages; a leak shows only when contents vary.",
 ["skywalking/fasthttp-routing/middleware.go", "skywalking/redis/hook.go", "skywalking/fasthttp/client_span.go"],
 [("options guarding what is logged", "skywalking/*/*.go")],
 technique="property-based testing with unique markers searched in all captured spans",
 note="Markers are generated per case so that a match cannot be accidental." + RT)

CLAIMED = sys.argv[1:]  # nothing: all marked claimed

def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            n = p["statement"].count(". ") + 1
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                            "observe_at": list(p["observe"]) or ["public API"], "hook_needed": p["hook"]},
            }, ensure_ascii=False) + "\n")
    table = open(os.path.join(ROOT, "cmd/check/table.go")).read()
    checks, na = [], []
    for p in P:
        if '"%s":' % p["id"] in table:
            checks.append({
                "property": p["id"],
                "quick_cmd": "./check.sh " + p["id"],
                "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + p["id"],
                "evidence_file": "evidence/%s.json" % p["id"],
                "technique": p["technique"], "level": "exploration", "level_note": p["note"].strip(),
            })
        else:
            na.append({"property": p["id"], "reason": p["reason"] or "the check is not built yet"})
    m = {"version": 1, "setup_cmd": "./check.sh --setup", "checks": checks, "not_applicable": na,
         "notes": "Property-based testing (pgregory.net/rapid) over generated inputs, histories, schedules and faults. No hooks in /repo: schedule points are added by a build overlay generated from the current tree. Replay a failure with ./check.sh ID --replay FILE. See DESIGN.md."}
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
    open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")

main()
