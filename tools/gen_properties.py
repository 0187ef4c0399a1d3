#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the wording is reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
        "mechanism": [{"name": a, "where": b} for a, b in mech],
        "observe_at": list(observe), "hook_needed": hook}})

S = "src/c/"
# ------------------------------------------------------------------ concurrency
p("C01", "Queue hands over each element exactly once, in order, within its bound",
  "Every element that an enqueue call accepted while the queue was running is returned by exactly one dequeue call, and elements put in by one producer come out in the order they were put in. A bounded queue never holds more elements than its maximum size, and an enqueue on a full running queue waits instead of dropping or overfilling. Elements still queued when the queue is stopped remain dequeueable, and none is ever freed, duplicated or lost on the way.",
  ["schedules"], "all interleavings (preemption bounded) of small sets of producers, consumers, resizers and stoppers, with spurious wake-ups, for every maximum size 0..2: hand-picked configurations of 2..4 threads and every configuration of 2..3 short programs generated from an alphabet of queue calls",
  "The queue unit tests run one free-running producer/consumer schedule; a lost wake-up, an unchecked re-test after waiting, or a bound overrun needs a particular interleaving.",
  [S+"queue.c", "include/iot/queue.h"], [("mutex and added/removed condition variables", S+"queue.c:iot_queue_enqueue/iot_queue_dequeue")],
  [("list/length", "queued elements, oldest at the tail", S+"queue.c")], ["iot_queue_dequeue", "iot_queue_size", "iot_queue_maxsize"])
p("C02", "Queue calls never stay blocked once they could proceed or the queue stops",
  "A blocked dequeue returns once an element is available to it, a blocked enqueue returns once there is room (a slot was taken or the limit was raised or removed), and stopping the queue makes every blocked producer and consumer return. After a stop, dequeue on an empty queue returns nothing at once and enqueue on a full queue returns at once.",
  ["schedules"], "all interleavings (preemption bounded) of blocked producers/consumers with enqueue, dequeue, limit changes and stop, hand-picked and generated from an alphabet of queue calls",
  "A hang shows up only in the interleaving that loses the notification; tests that sleep and join sample one schedule.",
  [S+"queue.c"], [("broadcast/signal on state changes", S+"queue.c:iot_queue_stop/setmaxsize")],
  [("running", "false after stop", S+"queue.c")], ["iot_queue_enqueue", "iot_queue_dequeue"])
p("C03", "Thread pool runs every accepted job exactly once, and wait really waits",
  "A job accepted by a running pool (blocking add, or try-add that returned true) is executed exactly once with its own argument, unless the pool is freed first; a try-add that returned false never runs its job. A wait call on a pool that stays running returns only after every job accepted before the call has completed, and it does return, for every concurrent waiter, once the pool is idle. Never more jobs run at once than the pool has threads.",
  ["schedules"], "all interleavings (preemption bounded) of 1..2 workers, 1..2 submitters and 1..2 waiters, job limits 1..3, hand-picked and generated from programs of add, try-add and wait calls",
  "Unit tests submit from one thread and observe one schedule; signal-versus-broadcast or early-unlock slips need a specific interleaving.",
  [S+"threadpool.c", "include/iot/threadpool.h"], [("job list, working counter and work/job/queue condition variables", S+"threadpool.c:iot_threadpool_thread, iot_threadpool_add_work, iot_threadpool_wait")],
  [("jobs", "queued jobs", S+"threadpool.c"), ("working", "jobs being run", S+"threadpool.c")], ["job side effects", "iot_threadpool_wait return"])
p("C04", "Thread pool job order follows priority then submission, within the job limit",
  "With jobs queued, workers take the highest priority first, jobs of equal priority in submission order, and jobs without priority last, for every submission order. The number of queued jobs never exceeds the configured limit: try-add returns false exactly when the queue is full (or the pool cannot take work), and a blocking add waits for room and then always queues its job.",
  ["inputs", "schedules"], "every sequence of up to 6 submissions over 4 priority classes and job limits 1..6 against a sorted-list reference; blocking submitters with gated jobs, hand-picked and generated, under all interleavings",
  "Tests cover a few fixed priority sequences; list-splice errors depend on which position (front, middle, rear) an insertion lands in and what follows it.",
  [S+"threadpool.c"], [("ordered insert into the job list", S+"threadpool.c:iot_threadpool_add_work_locked")],
  [("front/rear", "ends of the job list", S+"threadpool.c")], ["execution order of jobs"])
p("C05", "Thread pool stop, restart and free never deadlock, leak or run late jobs",
  "Stopping a pool lets running jobs finish and starts no further queued job until the pool is started again, which then resumes the queued jobs. Freeing a pool (also from within one of its own jobs, also while submitters are active beforehand) returns, after which no job of the pool runs, all its threads have ended and all of its memory is released exactly once.",
  ["schedules", "histories"], "all interleavings (preemption bounded) of start/stop/wait/add/free histories over 1..2 workers, under virtual time",
  "Tests use fixed sleeps around stop and free; a use-after-free or hang in shutdown is schedule-dependent.",
  [S+"threadpool.c", S+"component.c"], [("component state and thread accounting", S+"threadpool.c:iot_threadpool_free, iot_threadpool_thread")],
  [("created", "live worker threads", S+"threadpool.c")], ["iot_threadpool_free return", "heap"])
p("C06", "Scheduler runs each schedule at its due times, exactly as often as asked",
  "On a running scheduler whose callbacks return promptly, a schedule with start delay, period and repeat count runs first at its start time, then once per period, and stops after its repeat count (never, if zero), no execution being early, lost or duplicated, whatever other schedules share its times. Due schedules run in time order, and run callbacks receive the schedule's own argument.",
  ["histories", "inputs"], "every set of up to 3 schedules over a small domain of delays, periods and repeat counts, added before or after start, under exhaustively explored virtual time",
  "Tests count roughly how often a schedule ran in a real-time sleep, with tolerance; off-by-one repeats, lost or early firings of colliding schedules fall inside it.",
  [S+"scheduler.c", "include/iot/scheduler.h"], [("time-ordered map of schedules and the scheduler thread loop", S+"scheduler.c:iot_scheduler_thread")],
  [("queue", "pending schedules by due time", S+"scheduler.c")], ["schedule function invocations and their (virtual) times"])
p("C07", "Scheduler control calls take effect in every interleaving and are never lost",
  "Adding, removing, resetting or deleting a schedule and starting or stopping the scheduler take effect whatever the scheduler thread is doing at that moment: an added schedule on a running scheduler fires when due even if the scheduler was sleeping or about to sleep, also after stop/start cycles and for schedules added while stopped. A removed or deleted schedule, or one on a stopped scheduler, starts no new execution beyond one already being dispatched, and each call reports truthfully whether it changed anything.",
  ["schedules", "histories"], "all interleavings (preemption bounded) of the scheduler thread with 1..2 control threads doing up to 4 control calls, incl. every pair of control programs of 1..2 calls; all sequential control histories up to depth 5 under virtual time",
  "A control call that lands between the scheduler's unlock and its wait is a window of nanoseconds that sleeping tests never hit.",
  [S+"scheduler.c", S+"component.c"], [("signal on queue change and timed wait", S+"scheduler.c:iot_schedule_add/iot_schedule_remove/iot_scheduler_thread")],
  [("scheduled", "schedule is in the queue", S+"scheduler.c")], ["iot_schedule_add/remove/reset results", "schedule function invocations"])
p("C08", "Non-concurrent schedules never overlap; run/abort callbacks match what happened",
  "A schedule that was created non-concurrent never has two executions in flight, whether run directly or through a thread pool, while a concurrent one is dispatched at every due time. A run callback happens before each dispatched execution, the abort callback exactly once for each dispatch that the pool refused, and the dropped count equals the number of such refusals. Deleting a schedule while it is queued, dispatched or executing never frees its user argument early, late or twice.",
  ["schedules", "histories"], "all interleavings (preemption bounded) of scheduler thread, pool worker(s) and a control thread over short virtual-time histories with long-running, dropping and self-deleting functions",
  "Overlap and early free need the pool worker to be slow at a particular point; tests have no control over that.",
  [S+"scheduler.c", S+"threadpool.c"], [("schedule reference count", S+"scheduler.c:iot_schedule_thread_fn/iot_schedule_free")],
  [("refs", "owners of a schedule incl. running executions", S+"scheduler.c")], ["run/abort callbacks", "iot_schedule_dropped", "user data free function"])
p("C09", "Component state changes follow the lifecycle and wake every waiter",
  "A component can move between running, stopped and starting, can be deleted unless it is running, and never leaves deleted; each set call reports whether the state became what was asked by its own change. A thread waiting for any of a set of states returns holding the component lock with a state of that set, and never stays blocked while the component is in such a state. A component is destroyed exactly when its last reference is released.",
  ["schedules", "histories"], "all state-change histories up to depth 6 against the transition table, and all interleavings (preemption bounded) of 2 setters and 2 waiters; concurrent reference release",
  "Tests check a handful of transitions from one thread.",
  [S+"component.c", "include/iot/component.h"], [("state machine and condition broadcast", S+"component.c:iot_component_set_state/iot_component_wait_and_lock")],
  [("state", "lifecycle state", S+"component.c")], ["iot_component_set_running/stopped/starting/deleted", "iot_component_wait"])
p("C10", "Container loads, starts, stops, finds and frees components in dependency order",
  "For any configuration of components referring to each other, loading creates each component exactly once with those it refers to created first, resolves references round a cycle or to unknown or ill-configured components to nothing without crashing or leaking, starts components in creation order, stops them in reverse, and on free releases every component exactly once, stopped if it was running. Starting callbacks come before any component starts, stopping callbacks before any stops, and running callbacks once all run or, after a limited wait, marked as timed out. Finding, listing, reading, reconfiguring, deleting and adding components by name always reflects the history of such calls (adding under a name in use is unspecified). A component type not yet known is taken from the library and factory function its configuration names; a library that is missing, or closed again for want of that function, only leaves that component out.",
  ["configurations", "histories"], "every dependency graph over up to 3 components (including self and mutual references, missing and broken ones), every combination of library and factory names (right, wrong, missing) for two components, and every history of container calls up to depth 4, against a reference model",
  "The unit tests exercise a few fixed configurations; ordering and cycle handling depend on the shape of the graph and the call history.",
  [S+"container.c", S+"component.c"], [("on-demand load with in-progress list", S+"container.c:iot_container_find_component")],
  [("components", "created components in creation order", S+"container.c")], ["factory callbacks order", "iot_container_find_component", "iot_container_list_components"])
p("C11", "Container calls from several threads are atomic and memory-safe",
  "When threads concurrently find, add, delete, list, start and stop components of containers, the components present, found and listed are those of running the calls one after another in some order (a component and those it needs counting as separate steps): a component is created once, each is found unless deleted, start and stop reach every component present throughout exactly once, and no call hangs or touches freed memory. Component types are likewise registered concurrently without loss, one per name.",
  ["schedules"], "all interleavings (preemption bounded) of 2..3 threads with 1..2 container calls each on overlapping names",
  "No test uses a container from more than one thread.",
  [S+"container.c"], [("read/write locks", S+"container.c")], [("components", "components of a container", S+"container.c")],
  ["factory config/free callback counts", "iot_container_find_component"])
p("C12", "Nanosecond timestamps are strictly increasing and unique across threads",
  "Every timestamp returned by the nanosecond clock call is strictly greater than any returned by a call that completed earlier, and no two calls in any threads ever return the same value, even when the system clock stalls or steps back. It otherwise tracks the system clock, and the milli-, micro- and second clocks scale it correctly; the wait functions wait at least as long as asked, also when interrupted.",
  ["schedules", "fault_sequences"], "all interleavings (preemption bounded, with weak compare-exchange failures) of 2..3 callers over every short sequence of stalling, stepping and advancing clock readings",
  "Tests cannot make the system clock stall or force two threads through the compare-and-swap at once.",
  [S+"time.c"], [("compare-and-swap on the last value", S+"time.c:iot_time_nsecs")], [("last value", "last timestamp given out", S+"time.c")], ["iot_time_nsecs/usecs/msecs/secs"])
p("C13", "Generated UUIDs are well-formed, unique across threads, and convert faithfully",
  "Every generated UUID has the version-4 and variant bits set, concurrent generation never yields the same UUID twice nor a partially mixed one, and the string form is the canonical lower-case 8-4-4-4-12 rendering of the bytes. The UUID string check accepts exactly the strings of that shape (hex digits of either case).",
  ["schedules", "inputs"], "all interleavings (preemption bounded) of 2..3 generators; every byte value in every position for rendering; every single-character and length deviation for the check",
  "Tests generate a few UUIDs in one thread.",
  [S+"uuid.c", S+"util.c"], [("generator lock and formatting", S+"uuid.c:iot_uuid_generate")], [("state", "generator state", S+"uuid.c")], ["iot_uuid_generate", "iot_uuid_unparse", "iot_util_string_is_uuid"])
p("C14", "Shared data is freed exactly once, by its last owner, from any thread",
  "Threads may concurrently take and drop references to the same data (alone or nested in containers); its content stays readable and unchanged to every holder and it, with all it owns, is released exactly once when the last reference goes. Concurrent allocation and release of unrelated data never corrupts or cross-links values, in the heap and in the block-caching configuration alike.",
  ["schedules", "configurations"], "all interleavings (preemption bounded) of 2..3 threads with generated programs of reading, referencing, copying, containing and dropping one value of 12 kinds, and of allocating, handing over and releasing values and blocks with 0..2 blocks left in the cache, in the heap and in the block-caching (Release) configurations",
  "Reference-count races are invisible unless the schedule splits the decrement from the test; tests are single threaded here.",
  [S+"data.c"], [("atomic reference count", S+"data.c:iot_data_add_ref/iot_data_free"), ("locked block cache", S+"data.c:iot_data_block_alloc_data")],
  [("refs", "owners", S+"data.c"), ("free list", "recycled blocks", S+"data.c")], ["iot_data_ref_count", "free functions", "heap"])
p("C15", "Read-only use of shared data from several threads gives sequential answers",
  "Any number of threads may look up, iterate (with their own iterators), compare, hash, copy and serialise the same unmodified data at once, and each gets exactly the answer a single thread would get.",
  ["schedules"], "all interleavings (preemption bounded, with scheduling points also at conflicting unsynchronised accesses) of 2..3 threads doing any of 14 reading operations on 14 kinds of data, each for the first time",
  "Anything computed on first use or kept between calls is filled by the first reader; only a schedule with two first readers exposes a torn or early-published value.",
  [S+"data.c", S+"data-json.c"], [("hashing, searching and iterating without shared mutable state", S+"data.c:iot_data_hash/iot_node_find/iot_node_next")], [("hash", "hash of uncomposed data", S+"data.c")], ["iot_data_equal", "iot_data_hash", "iot_data_to_json"])
p("C16", "A log call reaches exactly the loggers whose level admits it, while started",
  "A message is delivered, once and in chain order, to each logger of the chain that is running at a level at or above the message's level, provided the first logger admits it, and to no other. Stopping a logger silences it, starting it restores the level it had, whatever sequence of level changes, stops and starts came before; level names parse to their levels, and chained loggers are released exactly once, by whichever thread lets go last. Threads logging through shared loggers, the default one on its first use included, each get every admitted message delivered whole and once. What the file, UDP and console loggers write names the thread, time, logger and level, followed by the message, errors and warnings to standard error.",
  ["histories", "schedules"], "every history up to depth 5 of set-level, start, stop, relink and log calls over chains of 1..3 loggers, against a reference model; all interleavings (preemption bounded) of 2..3 threads logging through, first using or releasing shared loggers",
  "Tests check a few combinations; save/restore errors need particular histories such as stop twice.",
  [S+"logger.c", "include/iot/logger.h"], [("level gate and chain walk", S+"logger.c:iot_log__va_log")], [("level/save", "current and saved level", S+"logger.c")], ["log function invocations", "iot_logger_level"])

p("C17", "Threads get what was asked for and run exactly once, whatever the system refuses",
  "Creating a thread reports success exactly if a thread runs, which then runs the given function exactly once with its argument, leaves nothing behind when it ends, and is the one whose identifier is returned; it gets the priority and processor asked for where these are valid and permitted, and is created without them when the system refuses. Whichever thread creations fail, thread pools and schedulers still do what they can with the threads they have, and are freed without hanging, losing memory or touching other threads. Jobs run at the priority given where the system grants it, and pools and schedulers made from a configuration have the threads, job limit, priority and affinity configured.",
  ["inputs", "faults", "schedules"], "all combinations of 8 priorities, 6 affinities, privilege, refusals and logging; every pattern of refused thread creations in pools of up to 3 threads and schedulers under all interleavings within a preemption bound; first use by several threads",
  "Tests run with whatever the machine grants; refused creations and first-use races do not happen there.",
  [S+"thread.c", S+"threadpool.c", S+"scheduler.c", "include/iot/thread.h"], [("creation, priority and affinity", S+"thread.c:iot_thread_create"), ("pool threads", S+"threadpool.c:iot_threadpool_alloc"), ("scheduler thread", S+"scheduler.c:iot_scheduler_alloc")], [("created", "pool threads present", S+"threadpool.c"), ("active", "scheduler thread exists", S+"scheduler.c")], ["iot_thread_create", "iot_thread_priority_valid", "iot_thread_set_priority", "iot_threadpool_*"])

# ------------------------------------------------------------------ data model
p("D01", "Maps behave as sorted dictionaries under every operation history",
  "After any sequence of map operations (add, add-unused, replace, remove, merge, empty, lookups, key of any supported type) the map's size, lookups and typed getters agree with those of an ordinary dictionary, and forward and backward iteration visits each entry exactly once in key order. Iterators with seek, replace and find behave accordingly, and lookups of absent keys, or with other-typed keys where permitted, find nothing.",
  ["histories", "inputs"], "every operation sequence up to depth 6 over 4 keys, every insertion order followed by every deletion order of up to 7 keys, for string, integer, float and mixed keys, against a sorted reference dictionary",
  "Tree rebalancing has many shape-dependent cases; map tests use a few fixed or random orders.",
  [S+"data.c"], [("red-black tree", S+"data.c:iot_node_add/iot_node_remove")], [("tree", "entries", S+"data.c"), ("size", "entry count", S+"data.c")], ["iot_data_map_get", "iot_data_map_iter_*", "iot_data_map_size"])
p("D02", "Map lookups stay logarithmic whatever was added or removed before",
  "Whatever sequence of additions and removals built a map of N entries, finding any key needs no more key comparisons than the height bound of a balanced (red-black) tree, 2*log2(N+1), allows. The cost never degrades with removals.",
  ["histories"], "every insertion order x deletion order of up to 7 keys, systematically enumerated insert/delete patterns up to 200 keys, and every periodic word of additions and removals at the ends and in the middle carried on, counting key comparisons",
  "Tests never measure the shape; an unbalanced tree still answers correctly.",
  [S+"data.c"], [("rebalancing after insert and delete", S+"data.c:iot_node_insert_balance/iot_node_remove_balance")], [("colour", "red or black", S+"data.c")], ["number of key comparisons per lookup"])
p("D03", "Lists behave as double-ended sequences under every operation history",
  "After any sequence of pushes and pops at either end, finds, removals, iterator moves in both directions, iterator removals and replacements, and empties, the list's length and contents in order agree with an ordinary double-ended sequence, and popped elements are handed to the caller still valid.",
  ["histories"], "every operation sequence up to depth 8 over the list and iterator operations, from empty and prefilled lists, against a reference sequence",
  "Pointer-splice errors depend on which of head, middle or tail is touched and on what follows.",
  [S+"data.c"], [("doubly linked list", S+"data.c:iot_data_list_*")], [("head/tail/length", "ends and size", S+"data.c")], ["iot_data_list_iter_*", "iot_data_list_length", "pops"])
p("D04", "Vectors behave as indexed slots under every operation history",
  "After any sequence of slot assignments, reads, resizes, compactions, iterator moves and replacements, and finds, a vector's size and each slot's value (or emptiness) agree with an ordinary array of optional values; shrinking releases what falls off, growing adds empty slots, and compaction removes exactly the empty slots keeping order. Converting vectors (nested if asked) to arrays or typed vectors yields exactly the convertible elements in order.",
  ["histories", "inputs"], "every operation sequence up to depth 7 on vectors of size 0..4, against a reference array; every vector of up to 4 elements from an alphabet of types for the conversions",
  "Resize/compact/iterator interplay has many size-dependent cases; tests cover single ones.",
  [S+"data.c"], [("slot array", S+"data.c:iot_data_vector_*")], [("values/size", "slots", S+"data.c")], ["iot_data_vector_get", "iot_data_vector_size", "iot_data_vector_iter_*"])
p("D05", "Arrays, binaries and strings preserve their bytes, lengths and ownership",
  "Arrays and binaries report the length, size, element type and exact bytes they were created with, whichever ownership mode was used, and array iteration in either direction visits each element once. Conversions between binary, array and string forms and taking the buffer keep the bytes, element transformation converts each convertible element exactly, and string values, formatted strings and string copies are byte-identical.",
  ["inputs", "histories"], "every element type x length 0..5 x ownership mode x conversion sequence up to depth 4; transforms over boundary values for all type pairs",
  "Tests sample a few lengths and types; zero-length, shared-buffer and repeated-conversion cases are combinations.",
  [S+"data.c"], [("buffer ownership modes", S+"data.c:iot_data_alloc_array/iot_data_binary_take")], [("data/length/size", "buffer", S+"data.c")], ["iot_data_address", "iot_data_array_*", "iot_data_binary_take"])
p("D06", "Equality is an equivalence and comparison a matching total order on values",
  "Over all data values (scalars of every type incl. extremes, strings, nested containers) equality is reflexive, symmetric and transitive, comparison is antisymmetric and transitive and returns zero exactly for equal values, and equal values have equal hashes. Comparison by value orders integers of all types among themselves by mathematical value, floating values likewise, keeps values of different classes apart, and puts absent data first. (NaN is excluded.)",
  ["inputs"], "every pair and every triple from an alphabet of some 650 values, constants included (boundary numbers of all types, strings, arrays, lists, vectors, maps, nested), in every argument order",
  "Laws over triples of values are beyond example tests; sign and width mixes fail only at boundaries.",
  [S+"data.c"], [("comparison by type class", S+"data.c:iot_data_cmp")], [("hash", "content hash", S+"data.c")], ["iot_data_equal", "iot_data_equal_value", "iot_data_compare", "iot_data_compare_value", "iot_data_hash"])
p("D07", "Equality and hash depend on current content only, never on history",
  "Two data values whose present contents are the same are equal and hash alike whichever operations produced them, including when hashes were already computed before later mutations, and values whose contents differ are never equal. This covers every mutator of every container: map, list, vector, iterator replacement, in-place conversion, increment and path updates.",
  ["histories"], "every mutation sequence up to depth 4 with hash computations interleaved at every point, compared with a freshly built value of the same content",
  "Stale cached hashes need a hash computed at one point of a history and a mutation at another; tests compare freshly built values.",
  [S+"data.c"], [("rehash flag / incremental hash", S+"data.c:iot_data_hash and all mutators")], [("hash/rehash", "cached hash and validity", S+"data.c")], ["iot_data_equal", "iot_data_hash"])
p("D08", "Copies equal their source and share nothing mutable with it",
  "A deep copy equals its source, has the same types, ordering and metadata entries (tags are not carried), and no later mutation of either affects the other, at any depth. A shallow copy equals its source and has its own top level, with the element values shared and correctly reference counted. Copying a constant or shared scalar is safe to free.",
  ["inputs", "histories"], "every value shape up to depth 3 from a constructor alphabet x every mutation of either side x every order of freeing",
  "Aliasing bugs show only when a specific component is mutated after the copy.",
  [S+"data.c"], [("recursive copy", S+"data.c:iot_data_copy/iot_data_shallow_copy")], [("refs", "owners", S+"data.c")], ["iot_data_equal", "iot_data_to_json", "iot_data_ref_count"])
p("D09", "Compressing data changes only sharing, never content",
  "Compressing a composed value (with or without a caller's cache) leaves it equal to what it was, in content, order, types and metadata, makes equal parts share storage, and keeps every reference valid: it can be read, mutated at the top level, recompressed and freed in any order with its cache. Only values that agree in content, types, tags and metadata are merged.",
  ["inputs", "histories"], "every composed value up to depth 3 over an alphabet with colliding equal parts x repeated compression x cache lifetimes",
  "Merging wrong or doubly owned parts needs particular equal/unequal combinations.",
  [S+"data.c"], [("value cache", S+"data.c:iot_data_compress_with_cache")], [("cache", "canonical values", S+"data.c")], ["iot_data_equal", "iot_data_address", "iot_data_ref_count"])
p("D10", "Every allocation is released exactly once and never used after release",
  "For any history of data operations that follows the documented ownership rules (callers own what they allocate or pop, containers own what is added), each value is released exactly once, custom free functions run exactly once, reference counts equal the number of owners, and after dropping the caller's references nothing remains allocated. No operation reads or writes memory outside live values.",
  ["histories"], "every operation sequence up to depth 5 over mixed containers with shared elements, in Debug (leak accounting, address sanitizer) and Release (block cache) configurations",
  "Leaks and double frees on replace, failure and empty paths need the particular path; CI runs no leak check over histories.",
  [S+"data.c", S+"data-json.c", S+"data-xml.c", S+"data-yaml.c"], [("reference counts", S+"data.c:iot_data_free")], [("refs", "owners", S+"data.c")], ["allocator accounting", "iot_data_ref_count", "free functions"])
p("D11", "Numeric casts succeed exactly when the value fits, and preserve it",
  "A cast between numeric types reports success exactly when the source value lies in the target type's range (a floating value must lie within the integer range before it is truncated towards zero), and then delivers that value; otherwise it reports failure and leaves the destination alone. Typed map getters and array or vector conversions follow the same rule, and non-numeric values are cast only where documented.",
  ["inputs"], "all source types x all target types x every boundary value (limits of all types, their neighbours, powers of two, fractions, infinities, NaN), against exact wide arithmetic",
  "Boundary values of 12x12 type pairs; tests try a few per pair and miss 64-bit/floating corners.",
  [S+"data.c"], [("range table and conversion", S+"data.c:iot_data_cast")], [], ["iot_data_cast", "iot_data_map_get_number", "iot_data_array_transform"])
p("D12", "Path get, add, update and remove act on exactly the addressed element",
  "For any nested value and any path of map keys and vector indexes, get-at returns exactly the element that stepwise lookup gives, or nothing. Add-at, update-at and remove-at change exactly that element (creating or replacing the last component, replacing it by what the update function returns for it, or removing it) in the value they return, leaving the source as it was; on a path that does not exist the result equals the source, the update function is not called, and nothing crashes or leaks.",
  ["inputs", "histories"], "every path up to length 5 over existing, absent and ill-typed components x every value shape up to depth 3, each operation followed by a full content comparison",
  "Combinations of absent/ill-typed components at each depth are not sampled by tests.",
  [S+"data.c"], [("stepwise descent", S+"data.c:iot_data_get_at/add_at/remove_at/update_at")], [], ["iot_data_get_at", "content after the call"])
p("D13", "Metadata and tags belong to one value and survive what they should",
  "Metadata entries set on a value are the ones later returned for it, last write per key winning, independent per value, and carried by copies; tags read back as last set, independently of one another, and stay with their value. None of them alters the value's content, hash, comparison or serialisation, and all are released with the value.",
  ["histories"], "every history up to depth 6 of metadata and tag operations over 2 keys, 3 tags and 2 values of each type, with copies and frees, against a reference model",
  "Tests set one or two entries; interference between tags, caching flags and metadata storage is combinational.",
  [S+"data.c"], [("per-value metadata map and tag bits", S+"data.c:iot_data_set_metadata/iot_data_set_tag")], [("meta/tags", "attributes", S+"data.c")], ["iot_data_get_metadata", "iot_data_get_tag"])
p("D14", "Values parsed from text are exact, or refused",
  "Creating a value of a named or given type from text yields exactly the number, boolean, string, or base64 content that the text denotes for that type, and yields nothing if the type is unknown or the text is not a value of it. Numerals may be surrounded by white space only; a boolean is true iff its text begins with t or T. Type names and types map to each other one to one.",
  ["inputs"], "every type x every string up to length 6 over a digit/sign/letter alphabet plus all boundary numerals, against a reference parser",
  "Tests use well-formed numerals; overflow and malformed text are inputs they do not enumerate.",
  [S+"data.c"], [("per-type parsing", S+"data.c:iot_data_alloc_from_string")], [], ["iot_data_alloc_from_string", "iot_data_alloc_from_strings", "iot_data_name_type"])
p("D15", "Typecodes describe values exactly, and element typing is reported truthfully",
  "A value's typecode (type, key type, element type) is what it was created with; matching a value against a typecode succeeds exactly when the value's type and, where the typecode constrains them, key and element types agree; typecode equality is an equivalence. Element counting and vector dimensions report the true shape of nested vectors.",
  ["inputs"], "all typecodes x all constructible value kinds; all nested vectors up to depth 3 and width 3 over two element types",
  "Combination of container, key and element types is large; tests use a handful.",
  [S+"data.c"], [("typecode comparison", S+"data.c:iot_data_matches")], [], ["iot_data_typecode", "iot_data_matches", "iot_typecode_equal", "iot_data_vector_dimensions"])

# ------------------------------------------------------------------ I/O
p("E01", "JSON text written for a value is valid and reads back as the same value",
  "For every value JSON can represent (finite numbers, distinct keys that are not binary, no pointers), the text produced is valid JSON denoting that value (strings escaped, numbers exact, nesting and order kept), whatever initial buffer size the caller gave, and reading it back yields a value with the same content. The ordered and cached reading modes yield the same content as the plain one, with ordered output following the original key order: the ordering kept with a map decides which of its entries are written, and in which order.",
  ["inputs"], "all values up to depth 3 over an alphabet with every control character, quote, escape and boundary number; every initial buffer size 1..full length; every order of up to 4 keys x later removals and additions; checked by an independent JSON parser",
  "Escapes straddling a buffer boundary, or escape and nesting combinations, are not sampled by tests.",
  [S+"data-json.c", S+"json.c"], [("growing output buffer, escaping", S+"data-json.c")], [("buffer size/free", "output buffer", S+"data-json.c")], ["iot_data_to_json*", "iot_data_from_json*"])
p("E02", "Reading arbitrary JSON text never crashes and is right on valid documents",
  "For any NUL-terminated input the JSON readers terminate without touching memory outside the input and the result: valid documents give the value they denote, and malformed ones are refused (read as null, with malformed object members skipped) or give some well-formed value, with nothing leaked. (Integers beyond 64 bits, \\u0000 and lone surrogates may read as anything.) Parsing with too few tokens reports that instead of overrunning.",
  ["inputs"], "every string up to length 7 over the structural alphabet and every token sequence up to length 6 over a token alphabet (incl. truncated escapes and numbers), against a reference recogniser",
  "Malformed inputs are unbounded; the tests have some twenty.",
  [S+"json.c", S+"data-json.c"], [("tokeniser and tree builder", S+"json.c:iot_json_parse")], [("token array", "parsed tokens", S+"json.c")], ["iot_data_from_json", "iot_json_parse"])
p("E03", "CBOR output is valid and decodes to the value that was encoded",
  "For every value that CBOR output supports (no pointers; nulls included), the bytes produced are one well-formed CBOR item that an independent decoder reads back as the same value (integers of every width and sign, floats, strings, binaries, arrays, nested containers), whatever initial buffer size the caller gave.",
  ["inputs"], "all boundary scalars of every type, all lengths around every header-size boundary, all nestings up to depth 3, all initial sizes 1..64, against an independent RFC 8949 decoder",
  "Tests compare a few fixed byte strings.",
  [S+"data-cbor.c"], [("header and payload writer", S+"data-cbor.c")], [], ["iot_data_to_cbor", "iot_data_to_cbor_with_size"])
p("E04", "Base64 decoding inverts encoding and malformed text is refused",
  "Encoding any bytes gives the standard padded base64 text, decoding that text returns exactly the bytes, also when newlines are inserted, and decoding never writes beyond the stated output size. Text with characters outside the alphabet or too long for the output is refused (what follows the first padding character, and symbols left over from an incomplete group, are unspecified); the predicted sizes are always sufficient.",
  ["inputs"], "every byte sequence up to length 2 (and all boundary-valued sequences up to length 7), every text up to length 7 over a reduced alphabet including invalid characters, with output buffers of every smaller and exact size",
  "Padding, line breaks and short buffers combine; tests use a few strings.",
  [S+"base64.c"], [("encode/decode tables", S+"base64.c")], [], ["iot_b64_encode", "iot_b64_decode", "iot_b64_maxdecodesize", "iot_b64_encodesize"])
p("E05", "Reading XML never crashes and yields the document's tree",
  "For any NUL-terminated input the XML reader terminates without touching memory outside the input and without leaking: a well-formed document gives the tree of its elements with their attributes, children in document order and content (the text after the last child), and one with mismatched, unclosed or trailing markup, malformed references or malformed tags gives nothing. (DOCTYPE declarations, duplicate attributes and control characters are unspecified.)",
  ["inputs"], "every token sequence up to length 6 over an XML token alphabet, every well-formed document up to 4 elements deep/wide with attributes and text, against a reference builder, plus all truncations",
  "Tests have a handful of documents and no systematic malformed input.",
  [S+"data-xml.c", S+"yxml.c"], [("event-driven tree builder", S+"data-xml.c")], [], ["iot_data_from_xml"])
p("E06", "Reading YAML never crashes and yields the document's tree or an exception",
  "For any NUL-terminated input the YAML reader terminates without leaking or touching invalid memory: a supported document gives the tree of its mappings, sequences and scalars with the right scalar types, and anything else (aliases, malformed text) gives either nothing with an exception description or a well-formed value. (An empty document gives nothing; infinities, hexadecimal floats and binary literals are unspecified, and material after the first document may be ignored.)",
  ["inputs"], "every token sequence up to length 5 over a YAML token alphabet, every tree up to depth 3 rendered in block and flow style, boundary scalars, against the generating tree",
  "Tests have a handful of documents; error paths leak or crash only in specific positions.",
  [S+"data-yaml.c"], [("event-driven tree builder", S+"data-yaml.c")], [], ["iot_data_from_yaml"])
p("E07", "Configuration substitution replaces exactly the known variables, once",
  "Expanding a configuration text replaces each ${NAME} reference by the value obtained for it, leaves all other text byte for byte, does not re-expand substituted text, and gives nothing (with an error logged) if a variable is unknown or its name is ill-formed (empty or over 63 characters), for any number, position and size of references; an unterminated ${ is ordinary text. Typed configuration getters return the configured value, or the default, or fail, exactly as their contract says.",
  ["inputs"], "every string up to length 7 over {$,{,},A,b,...} tokens x values shorter, equal and longer than the reference (incl. empty and buffer-size boundaries) against a reference expander; all getter/type/default combinations",
  "Buffer growth interacts with positions and sizes; tests use a few strings.",
  [S+"config.c"], [("substitution with growing buffer", S+"config.c:iot_config_substitute_env")], [], ["iot_config_substitute_env", "iot_config_* getters"])
p("E08", "A file write is all-or-nothing across crashes and failures, and says which",
  "After a write to an existing file is interrupted at any point or hit by any single I/O failure (short, failed or late-reported write, failed open, close or rename), the file holds either its complete old or its complete new content, and reading it gives one of those. A write reports success only if the new content is in place, and failure only if the old content is; a write that returns leaves no temporary file behind, and reads hit by a failure give the whole content or nothing. No such call, failing or not, leaves memory allocated or a file open behind. (Loss of unsynchronised pages at power failure is out of scope.)",
  ["crash_points", "fault_sequences", "histories"], "a kill before and after every system call of the write, and every single injected failure (open, short and failed write, flush/close, rename), over histories of up to 3 writes to 2 files",
  "Tests cannot kill the process between system calls or make the disk full at close.",
  [S+"file.c", S+"store.c"], [("write to temporary, then rename", S+"file.c:iot_file_write_binary")], [], ["iot_file_read", "file system content", "return values"])
p("E09", "The file store reads, lists and deletes exactly what was written",
  "For any history of writes, reads, deletes and listings of files and configuration entries, reads return exactly the bytes last successfully written, deletion removes exactly the named entry, and listing returns exactly the present entries matching the pattern, each once. Absent files, missing directories, empty content and malformed stored configuration are reported as such without crash or leak.",
  ["histories", "inputs"], "every history up to depth 3 over 2..5 names, contents of boundary sizes incl. zero and all byte values, and store configuration calls, in a scratch directory, against a reference map",
  "Tests do one write/read/delete round.",
  [S+"file.c", S+"store.c"], [("file helpers", S+"file.c"), ("configuration store", S+"store.c")], [], ["iot_file_read*", "iot_file_list", "iot_file_delete", "iot_store_config_*"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
