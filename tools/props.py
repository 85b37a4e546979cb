#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json.  usage: tools/props.py  (rewrites both files)"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS  # noqa: E402

I = "sdk/include/teiacare/sdk/"
S = "sdk/src/"
P = []


def p(id, title, statement, over, text, why, files, mech, technique, note, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state:
        a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a), technique, note))


SIM = "property-based testing under a deterministic schedule/clock simulation: generated thread programs, schedules and clock behaviour, "
SEQ = "property-based testing with ASan/UBSan, "
SIMNOTE = ("Real code, compiled with TSan instrumentation and run on a deterministic scheduler with virtual time; schedules are sampled (random walk, PCT, "
           "preemption at plain accesses), not enumerated; sequentially consistent interleavings plus a vector-clock race detector, no weak-memory reordering. ")

# ------------------------------------------------------------------ concurrency
Q = [I + "blocking_queue.hpp"]
p("C01", "blocking_queue is a linearizable bounded FIFO queue",
  "Whatever mix of push, try_push, pop, try_pop, size and capacity any number of threads issue, the results equal those of the same calls executed one at a time in some order consistent with real time on a FIFO queue that holds at most max(1, capacity) items. "
  "No item is lost, duplicated, reordered, invented or left partly copied; a refused try_push leaves the queue and the item unchanged, an operation during which copying an item throws has no effect, and the queue destroys what it still holds. "
  "No call is a data race with another.",
  ["schedules", "histories", "inputs"], "every capacity, every program of queue operations on 2-5 threads, every schedule",
  "The tests run a few fixed producer/consumer shapes under the OS scheduler; they never compare a concurrent history with the sequential specification.",
  Q, [("one mutex around every access", I + "blocking_queue.hpp"), ("capacity test under the lock", I + "blocking_queue.hpp")],
  SIM + "linearizability oracle", SIMNOTE + "Capacity 0 counts as 1.", state=[("queue content", "items pushed and not popped, in push order", I + "blocking_queue.hpp")])
p("C02", "blocking_queue never strands a caller and try_ calls never wait",
  "A caller blocked in pop() proceeds once an item is available to it, and a caller blocked in push() proceeds once there is room: at no quiescent moment is a thread left inside pop() while the queue holds an item, or inside push() while the queue has room. "
  "try_push and try_pop return without waiting for another thread's push or pop, whatever the state of the queue. "
  "push returns only when its item is in the queue and pop only with an item, also when waits end spuriously.",
  ["schedules", "histories", "inputs"], "every capacity, every program of queue operations on 2-6 threads, every schedule, including spurious wakeups",
  "A lost wakeup needs a notification between another thread's test and its wait, with a particular number of waiters; a test that hangs once in a million runs passes.",
  Q, [("one condition variable per direction, notified on every push and pop", I + "blocking_queue.hpp")],
  SIM + "exact 'who may be blocked now' oracle at every quiescent point", SIMNOTE + "Blocking is decided exactly: nothing can run and no deadline is pending.")
TP = [I + "thread_pool.hpp", I + "task.hpp", S + "thread_pool.cpp"]
p("C03", "thread_pool runs every task exactly once and delivers its result",
  "Every task given to a running pool from any thread, including from inside another task, is executed exactly once on one of the pool's threads with the arguments given to run(), provided the pool is not stopped first. "
  "Its future delivers exactly the value it returned or the exception it threw; a throwing task neither ends a worker nor disturbs other tasks, and what a task did is visible to whoever waited on its future. "
  "A queued task never waits while a pool thread is idle, and no call is a data race with another.",
  ["schedules", "histories", "inputs"], "every pool size, every set of submitting threads and tasks (returning, throwing, nesting, sleeping), every schedule",
  "Tests submit a handful of tasks from one thread and wait; they do not reach submissions racing with a worker going to sleep.",
  TP, [("task queue under a mutex, condition variable with predicate", S + "thread_pool.cpp"), ("std::packaged_task and future", I + "thread_pool.hpp")],
  SIM + "exactly-once ledger and exact stranded-task oracle", SIMNOTE)
p("C04", "thread_pool start and stop keep their contract in every interleaving",
  "start() returns true exactly when the pool was stopped and then min(max(1, n), hardware threads) workers exist; stop() returns true exactly when it was running, and by then all workers have ended, no task is running, and none runs until the next start. "
  "A task still queued when stop() begins is either executed exactly once before stop() returns or dropped, in which case its future reports std::future_error(broken_promise) instead of blocking; a task given to a stopped pool is executed after the next start, and a pool can be restarted any number of times. "
  "When the system refuses a thread, start() throws std::system_error and leaves the pool stopped, with no worker and with its queued tasks. "
  "stop() and the destructor always terminate once the running tasks do, also with concurrent start, stop and run calls from several threads, which are not data races.",
  ["schedules", "histories", "faults"], "every history of start, stop, run, is_running and destruction over 1-4 threads, every schedule, every thread the system may refuse",
  "Tests start and stop once in a fixed order; shutdown races with workers entering or leaving their wait need a particular interleaving.",
  TP, [("atomic running flag and start/stop mutex", S + "thread_pool.cpp"), ("latch at start", S + "thread_pool.cpp"), ("queue cleared and workers joined at stop", S + "thread_pool.cpp")],
  SIM + "lifecycle model over the history", SIMNOTE + "start/stop from inside a task is a precondition violation and not generated; threads_count() is only called when no start/stop runs.")
p("C05", "thread_pool runs as many tasks in parallel as it has threads",
  "With n = min(max(1, requested), hardware threads) workers, n tasks that wait for each other all get to run together, and never more than n tasks run at the same time. "
  "With one worker, tasks run in the order in which they were submitted, one after the other. "
  "After start() returned, every worker is able to take a task at once.",
  ["schedules", "configurations", "inputs"], "every requested thread count including 0 and beyond the hardware, every number of CPUs, every batch of waiting tasks, every schedule",
  "Tests check a count returned by the pool, not that the workers are usable simultaneously on every schedule.",
  TP, [("clamped thread count", S + "thread_pool.cpp"), ("notify per enqueued task", S + "thread_pool.cpp")],
  SIM + "rendezvous of n tasks plus order oracle", SIMNOTE)
ED = [I + "event_dispatcher.hpp", I + "function_traits.hpp", S + "event_dispatcher.cpp"]
p("C06", "event_dispatcher delivers each emit once to exactly the matching handlers",
  "On a started dispatcher, emit(name, args...) makes every handler that was added under exactly that name and those argument types, in that order, and is registered when emit is called, run exactly once with copies of those values, and makes no other handler run. "
  "emit returns true if and only if such a handler exists; names are compared exactly (empty ones, prefixes, concatenations, embedded zeros included) and other names or argument types never match. "
  "On a dispatcher with one thread, the default, handlers run one at a time and in the order of the emits. "
  "This holds with concurrent add_handler, remove_handler, emit and running handlers that themselves emit, add or remove, and no two calls are a data race.",
  ["schedules", "histories", "inputs"], "every set of names and argument type lists, every history of add/remove/emit on 1-4 threads, every pool size, every schedule",
  "Tests register a few names and signatures and emit sequentially; colliding keys and concurrent registration are not sampled.",
  ED, [("map from (name, argument types) to handlers", I + "event_dispatcher.hpp"), ("handlers copied under the lock, run on a thread pool", I + "event_dispatcher.hpp")],
  SIM + "reference registry and delivery ledger", SIMNOTE)
p("C07", "event_dispatcher ids and removal affect exactly the handlers they name",
  "Every add_handler on a dispatcher returns an id that no other add_handler of the same dispatcher returned, also from several threads at once and whatever other dispatchers do. "
  "remove_handler(id) returns true if and only if that handler is registered and removes exactly that one; remove_event(name) removes exactly all handlers of that name, whatever their argument types, and returns true if and only if there were any. "
  "A removed handler is not run for any later emit, stop() removes all handlers and discards deliveries that have not begun, and start/stop return true exactly when they change the running state.",
  ["schedules", "histories", "inputs"], "every history of add, remove_handler, remove_event, emit, start and stop over several dispatchers and threads",
  "Tests remove one handler or one event; mutual influence between names, ids and dispatchers is not sampled.",
  ED, [("per-instance id counter under the lock", I + "event_dispatcher.hpp"), ("erase by id / by name", S + "event_dispatcher.cpp")],
  SIM + "stateful reference registry", SIMNOTE)
TS = [I + "task_scheduler.hpp", S + "task_scheduler.cpp"]
p("C08", "a task scheduled with at() or in() runs exactly once, on time, if not cancelled",
  "A task accepted by at() or in() on a running scheduler is handed to a worker exactly once: never before its due time, and at its due time whenever nothing but the clock is being waited for and a worker is free, whatever other tasks are added, removed or run meanwhile, whatever happens to the system's wall clock, and also when the due time already lies in the past. "
  "It receives copies of the arguments given, and its future delivers its result or exception. "
  "If it is removed, or disabled when due, or the scheduler is stopped before it is due, it never runs and its future reports std::future_error(broken_promise).",
  ["schedules", "histories", "inputs"], "every set of due times (past, equal, future), every interleaving with additions, removals, disabling and stop, every clock behaviour",
  "Tests sleep on the wall clock with wide tolerances, so early, late or double executions at exact boundaries are not seen.",
  TS, [("tasks ordered by due time", S + "task_scheduler.cpp"), ("scheduler thread waiting for the earliest due time", S + "task_scheduler.cpp")],
  SIM + "virtual-clock reference schedule", SIMNOTE)
p("C09", "a task scheduled with every() runs once per period on a fixed grid",
  "A task accepted by every() is first due when it was added plus its delay, and then on the grid first due + k x interval: when nothing else delays it, it runs exactly once at each grid point, without drift; periods missed because the scheduler was held up are skipped rather than made up for, and it never runs off the grid's past. "
  "While disabled it does not run but keeps its place on the grid; after update_interval(d) its next due time lies on last due + k x d, at or after the time of the call, and it continues every d. "
  "After remove_task or stop returned it is not started again.",
  ["schedules", "histories", "inputs"], "every interval and delay, every set of periodic tasks, every sequence of disable, enable, update_interval, remove and stop at any time, every clock behaviour",
  "Tests count executions over a wall-clock sleep with tolerances; drift, skipped or doubled periods at coinciding due times are not seen.",
  TS, [("next start computed on the grid and re-inserted", S + "task_scheduler.cpp"), ("update_interval recomputes the next start", S + "task_scheduler.cpp")],
  SIM + "virtual-clock grid oracle", SIMNOTE + "interval > 0; update_interval before the first run of a delayed task is left open (only: returns true, new interval).")
p("C10", "the scheduler's task registry answers every query exactly",
  "tasks_size, is_scheduled, is_enabled, set_enabled, remove_task, get_interval and update_interval answer as a registry of the tasks added and not yet removed or finished: at/in/every are refused exactly when the scheduler is not running or the id is in use, other tasks are never affected, and unknown ids give false or no value; ids are compared exactly (any string, whatever its length, content or hash). "
  "A one-shot task's id becomes free once it was due, a periodic task's only when removed, and stop() empties the registry. "
  "get_interval has a value, and update_interval succeeds, only for periodic tasks with that id; enabled state and interval are the ones last set.",
  ["histories", "inputs", "schedules"], "every history of registry operations on ids that exist, existed, never existed, or are empty, between and across due times",
  "Tests query one task in one state; combinations with due times, disabled tasks and several ids are not sampled.",
  TS, [("lookup by id under the task mutex", S + "task_scheduler.cpp")],
  "stateful model-based testing under a virtual clock against a reference registry", SIMNOTE)
p("C11", "task_scheduler start and stop are safe in every interleaving and prompt",
  "start() returns true exactly when the scheduler was stopped, stop() exactly when it was running, and both always return, also when called from several threads and concurrently with every other operation, as does the destructor. "
  "When stop() has returned no task runs, nothing scheduled before is ever run, and its futures report broken_promise rather than blocking; a later start() begins with no tasks and works like the first. "
  "When the system refuses a thread, start() throws std::system_error and leaves the scheduler stopped. "
  "stop() waits for running tasks only, never for a due time, and no two operations are a data race.",
  ["schedules", "histories"], "every history of start, stop, destruction and task operations on 1-4 threads, every schedule including spurious wakeups",
  "The window between testing for shutdown and going to sleep is a few instructions wide; tests do not hit it.",
  TS, [("accepting flag under the task mutex, notification, join", S + "task_scheduler.cpp")],
  SIM + "lifecycle model, exact deadlock detection", SIMNOTE + "Calling stop from inside a task is a precondition violation and not generated.")
HT = [I + "high_precision_timer.hpp", S + "high_precision_timer.cpp"]
p("C12", "high_precision_timer fires on a fixed grid and counts every period",
  "A timer started at t with interval d invokes its callback one call at a time, never before t+d, and exactly at t+kd as long as callbacks take less than d; a callback that ends at or after its next due time makes the timer skip to the first grid point that is still to come, all this whatever happens to the system's wall clock. "
  "After each callback, invoked_callback_count is the number of callbacks completed since the last start and invoked + missed is the number of grid points passed. "
  "start() returns false and does nothing without a callback and otherwise restarts from zero; after stop() or destruction returned no callback runs or begins, stop() never waits for a due time, and the timer can be started again.",
  ["schedules", "inputs", "histories"], "every interval, every sequence of callback durations (shorter, equal, longer, many periods), every moment of stop or restart, every schedule",
  "Tests use wall-clock sleeps and compare counts approximately; a callback ending exactly on a due time is not reproducible there.",
  HT, [("next start advanced on the grid after each callback", S + "high_precision_timer.cpp"), ("stop flag under the worker mutex", S + "high_precision_timer.cpp")],
  SIM + "virtual-clock grid oracle", SIMNOTE + "start/stop are called from one thread at a time; a callback does not call stop.")
p("C13", "observable reports every change once, in order, with the new value",
  "An assignment that changes the value invokes the callback exactly once with the new value, before it returns, if callbacks are enabled then; assigning an equal value, or assigning while disabled, invokes nothing, though the value is still stored, and once callback_enabled(false) returned no callback runs. An exception thrown by the callback reaches the assigner and leaves the observable usable. "
  "With concurrent assignments, reads and enabling, the values seen by the callback are exactly the changes in the order in which they took effect, callbacks never overlap, every read returns the initial value or a value assigned in full, and the history is that of a sequential register with change notification. "
  "Reading, converting and assigning lvalues or rvalues behave alike and no two calls are a data race.",
  ["schedules", "histories", "inputs"], "every program of assignments, reads and callback_enabled calls on 1-4 threads over values with equality, every schedule",
  "Tests assign from one thread; overlapping assignments and a toggle racing with an assignment are not sampled.",
  [I + "observable.hpp"], [("mutex around compare, store and notify", I + "observable.hpp")],
  SIM + "linearizability against a register with change notification", SIMNOTE + "The callback must not use the same observable (it runs under the lock).")
p("C14", "rate_limiter paces on a fixed grid; stopwatch measures exactly",
  "The n-th sync() of a rate_limiter created at time t with rate r returns no earlier than t + n/r and, if the caller reaches it before that time, at t + n/r up to rounding: n calls in a loop never take less than n/r however the work in between varies, a late caller is not delayed, and late frames are caught up without sleeping rather than shifting the grid. "
  "A stopwatch's elapsed time is the clock's advance since construction or the last reset, in any duration unit truncated toward zero, and its start time is the time of that call, whatever happens to the system's wall clock.",
  ["inputs", "histories", "schedules"], "every rate, every sequence of frame durations, every sequence of stopwatch operations, every clock behaviour",
  "Tests measure a few frames on the wall clock with tolerances.",
  [I + "rate_limiter.hpp", S + "rate_limiter.cpp", I + "stopwatch.hpp", I + "clock.hpp"],
  [("due time advanced by 1/rate per frame, sleep_until", S + "rate_limiter.cpp"), ("difference of clock readings", I + "stopwatch.hpp")],
  "property-based testing on a virtual clock against the exact grid", SIMNOTE + "rate > 0.")
p("C15", "a quit request or signal releases the waiter and reaches the callback",
  "wait_for_quit() returns only after quit() was called or an installed signal (SIGINT, SIGABRT, SIGTERM) arrived: no more waits return than such requests, a request made before the wait begins is not lost, and a waiter never stays blocked once a request was made after every earlier request was consumed. "
  "Each quit(message, signal) and each signal invokes the installed callback exactly once with that message or the signal's name and number, before a waiter it releases continues; without a callback nothing is called. A signal may interrupt any thread, a waiting or a requesting one included. "
  "Installing again replaces the callback, and no pair of quit and wait is a data race.",
  ["schedules", "histories", "inputs"], "every order of install, quit, raised signal and wait over 1-4 threads, every schedule",
  "Tests raise one signal with one waiter in one order.",
  [I + "signal_handler.hpp", S + "signal_handler.cpp"], [("pending requests counted by quit, consumed by waiters", S + "signal_handler.cpp"), ("signal handler calling quit", S + "signal_handler.cpp")],
  SIM + "request/wait ledger", SIMNOTE + "Installing is ordered after the requests that still use the previous callback; the same signal is masked while its handler runs. SIGILL: see known findings.")

# ------------------------------------------------------------------ uuid
U = [I + "uuid.hpp", S + "uuid.cpp", I + "uuid_generator.hpp", S + "uuid_generator.cpp"]
p("C16", "UUID text and value convert into each other without loss",
  "The text of a UUID is its 16 bytes in order as 32 lower-case hexadecimal digits in the form 8-4-4-4-12, the same from to_string and stream output, and reading it back gives an equal UUID. "
  "Reading accepts exactly the texts made of 32 hexadecimal digits in either case with dashes anywhere and optionally enclosed in {}, and gives the UUID those digits denote; is_valid agrees with from_string on every text. "
  "Every other text, of any length and content, makes from_string throw std::runtime_error and never reads out of bounds.",
  ["inputs"], "every 16-byte value, every text", "Tests convert a few literals; the space of texts is not sampled.",
  U, [("hexadecimal conversion and position checks", S + "uuid_generator.cpp"), ("formatting", S + "uuid.cpp")], SEQ + "independent text oracle and round trip, plus coverage-guided fuzzing", "Random and structured values and texts; not exhaustive.")
p("C17", "UUID comparison is one total order on the 16 bytes",
  "Comparing two UUIDs with ==, !=, <, <=, >, >= always gives the result of comparing their 16 bytes lexicographically, which is also the order of their texts, so the order is total, transitive and consistent with equality and sorting by it gives byte order. "
  "Copying, moving and assigning preserve the value and leave other UUIDs alone. "
  "A default constructed UUID is the all-zero one, 00000000-0000-0000-0000-000000000000.",
  ["inputs"], "every pair and triple of values, every set of keys", "Tests compare a few pairs of random UUIDs, which nearly always differ in their first byte.",
  U, [("byte-wise comparison", I + "uuid.hpp")], SEQ + "byte-wise reference order on near-equal values", "Random and near-equal values; not exhaustive.")
p("C18", "created UUIDs are well-formed version 4 and never repeat",
  "Every UUID the generator creates has version 4 and the RFC 4122 variant (bits 10) in its text, is valid and reads back as itself. "
  "No two UUIDs created in a process are equal, whether through the instance, through copies of the generator, or from several threads at once, and nor are those of processes started together; creating UUIDs from several threads is not a data race. "
  "Each of the 122 other bits varies from one UUID to the next, and no two of them always agree or always differ.",
  ["inputs", "schedules", "histories"], "every number of creations through the instance or copies on 1-5 threads, every schedule; small groups of processes",
  "Tests create a handful on one thread.", U, [("version and variant bits forced", S + "uuid_generator.cpp"), ("one locked random engine", S + "uuid_generator.cpp")],
  "property-based testing: format, uniqueness and bit variation over generated creation histories, and schedule simulation for threads",
  "Uniqueness is observed on the UUIDs created in a run; the process seed has 32 bits, so large fleets of processes are not claimed.")

# ------------------------------------------------------------------ date and time
D = [I + "datetime/date.hpp", S + "datetime/date.cpp"]
T_ = [I + "datetime/time.hpp", S + "datetime/time.cpp"]
TD = [I + "datetime/timedelta.hpp", S + "datetime/timedelta.cpp"]
DTF = [I + "datetime/datetime.hpp", S + "datetime/datetime.cpp"]
p("C19", "date arithmetic is exact on the proleptic Gregorian calendar",
  "For every date, year, month, day, weekday (also ISO) and time point are those of the proleptic Gregorian calendar, is_valid is true exactly for days that exist, and ==, !=, < and > compare chronologically. "
  "Adding or subtracting a duration moves the date by that time from its midnight, rounded down to a day, in either direction across months, leap days, centuries and the epoch, and leaves its operand unchanged; the difference of two dates is the exact number of days between them, and adding it back gives the original. "
  "today() is the current UTC day.",
  ["inputs"], "every date of the years -32700..32700, every duration (differences within +-290 years)", "Tests use a few dates around 2024.",
  D, [("conversion through days since the epoch", I + "datetime/date.hpp")], SEQ + "independent day-count calendar as reference model", "Differences beyond +-292 years do not fit the duration type and are excluded.")
p("C20", "date text formats and parses without loss and rejects what is not a date",
  "to_string(format) writes exactly what strftime's specifiers mean for that date, %F by default and the same for stream output, and from_string(to_string(format), format) gives the same date for every format that determines it. "
  "Numeric fields that do not form an existing day (such as 30 February, month 13, day 366 of a common year or week 53 of a year of 52) and text that does not match the format make from_string throw std::runtime_error. "
  "Whatever the text, from_string either throws std::runtime_error or returns a valid date.",
  ["inputs"], "every date of the years 1-9999, every supported format, every text", "Tests parse a few literals with a few formats.",
  D, [("date library formatting and parsing, failure check", S + "datetime/date.cpp")], SEQ + "independent formatter, round trip and calendar oracle, plus coverage-guided fuzzing", "Formats from a grammar of strftime's specifiers; %c is only written (libstdc++ cannot read it), %e is preceded by a blank.")
p("C21", "time of day stays within a day and converts exactly",
  "A time built from any duration or fields holds that duration's remainder modulo 24 hours (toward zero), and hours, minutes, seconds and the millisecond, microsecond and nanosecond parts of the second are its exact parts; adding or subtracting a timedelta wraps around in the same way, two times add and subtract to the exact timedelta, and comparison is by duration. "
  "to_string(format) at any resolution writes the time truncated to that resolution as strftime's specifiers mean it (%T in milliseconds by default and for stream output), and from_string of that text gives the same truncated time. "
  "from_string accepts every valid time text, throws std::runtime_error for text that does not match the format, never returns a time outside a day, and a default constructed time is not valid. "
  "An hour of twelve agrees with an hour of 24 and AM/PM beside it; fields that contradict one another, and an hour of twelve without its half of the day, are rejected.",
  ["inputs"], "every duration and field combination, every chain of shifts, every resolution and format, every text", "Tests use a few times and one or two formats.",
  T_, [("modulo one day in the constructor", I + "datetime/time.hpp"), ("truncation to the resolution before formatting", I + "datetime/time.hpp")],
  SEQ + "reference model in integer nanoseconds, independent formatter, plus coverage-guided fuzzing", "Out-of-range fields in a text may be rejected or carried over consistently (both are allowed).")
p("C22", "timedelta arithmetic and unit decomposition are exact",
  "A timedelta holds the exact nanoseconds it was built from; total_* are that number truncated toward zero in each unit (a month is 1/12 and a year the whole of the mean Gregorian year), and hours, minutes, seconds, milliseconds, microseconds and nanoseconds are the parts that remain of each larger unit and carry its sign. "
  "Sum, difference, negation and products and quotients by numbers are exact, compound and binary operators agree, comparison is numeric, and division by zero throws std::domain_error. "
  "to_string at a resolution writes sign, hours, minutes, seconds and the fraction truncated to that resolution, the same for stream output.",
  ["inputs"], "every duration that fits 64-bit nanoseconds, every chain of operations that does", "Tests use a few positive durations.",
  TD, [("nanosecond count and duration casts", I + "datetime/timedelta.hpp"), ("formatting", S + "datetime/timedelta.cpp")], SEQ + "reference model in integer nanoseconds", "Chains that overflow 64-bit nanoseconds are excluded.")
p("C23", "datetime composition, decomposition and arithmetic are exact",
  "A datetime built from a date and a time of day, from a time point or from parts is exactly that instant, and splitting it into date and time of day and putting them together again is lossless, also before 1970. "
  "Adding and subtracting timedeltas shift the instant exactly with carry across days, months and years, the difference of two datetimes is their exact distance, and comparisons follow the instants. "
  "Default constructed and extreme datetimes are not valid, and utc_now is the current UTC time at its resolution.",
  ["inputs"], "every instant of the years 1678-2261 to the nanosecond, every chain of shifts within them", "Tests use a few instants after 2000.",
  DTF, [("system clock time point in nanoseconds", I + "datetime/datetime.hpp")], SEQ + "integer-nanosecond reference model", "Instants outside 1678-2261 do not fit the representation and are excluded.")
p("C24", "datetime text formats and parses without loss and rejects damage",
  "to_string(format) at any resolution writes the instant rounded down to that resolution, before and after 1970 alike, exactly as strftime's specifiers mean it (%FT%T in milliseconds by default and for stream output), and from_string of that text at that resolution gives that rounded instant. "
  "Text with fields that do not form an existing date and time, or that contradict one another, or an instant system_clock cannot represent, or that does not match the format, makes from_string throw std::runtime_error. "
  "Whatever the text, from_string throws std::runtime_error or returns a datetime that formats and parses back to itself.",
  ["inputs"], "every instant of the years 1678-2261, every resolution, every supported format, every text", "Tests use a few instants after 2000 and whole seconds.",
  DTF, [("floor to the resolution before formatting", I + "datetime/datetime.hpp"), ("date library parsing, failure check", I + "datetime/datetime.hpp")],
  SEQ + "independent formatter, round trip and calendar oracle, plus coverage-guided fuzzing", "Formats from a grammar of strftime's specifiers; %c is only written (libstdc++ cannot read it), %e is preceded by a blank.")

# ------------------------------------------------------------------ geometry
p("C25", "point, size and math operations are exact and obey vector laws",
  "Point and size accessors, setters, translation, scaling, dot product, sums, differences, comparison, text and stream output give the componentwise exact result and change nothing else, and subtracting undoes adding. "
  "Distance is the Euclidean distance (rounded down for integer types), symmetric, zero to itself, agrees with distance_from_origin and satisfies the triangle inequality. "
  "max and min of any number of values are the largest and smallest of them.",
  ["inputs"], "every pair and triple of points over int, long, float and double, every chain of operations without overflow", "Tests use a few fixed points.",
  [I + "geometry/point.hpp", I + "geometry/size.hpp", I + "math.hpp"], [("componentwise arithmetic", I + "geometry/point.hpp"), ("folds", I + "math.hpp")],
  SEQ + "exact integer-grid reference and metamorphic laws", "Coordinates on an exactly representable grid; floating results within a stated tolerance.")
p("C26", "range membership, intersection, union, clamp and map agree",
  "For ranges with min <= max: contains(value) is true exactly for min <= value < max, contains(range) for ranges inside, the union is the smallest range covering both, clamp returns the nearest value of [min, max], map(v) is the linear map of [0,1] onto the range, and length is max - min. "
  "Two ranges that overlap intersect in exactly the range of their common values; for ranges apart, and those that merely touch, the intersection is null, and intersects agrees and both are symmetric. "
  "Setting one bound past the other keeps min <= max, and setters, comparison, text and stream output do what they say and nothing else.",
  ["inputs"], "every pair of ranges over int, long, float and double, every value around their bounds", "Tests use a few fixed ranges.",
  [I + "geometry/range.hpp"], [("bound comparisons", I + "geometry/range.hpp")], SEQ + "exact integer-grid reference and metamorphic laws", "Values on an exactly representable grid.")
p("C27", "rectangle intersection, union and containment agree with point membership",
  "Corners, center, area, size, comparison, text and setters are exact; two rectangles intersect exactly when their interiors share a point, the intersection is then exactly the common rectangle and else has no area, and the union is the smallest rectangle covering both (of a null rectangle, one neither of whose dimensions is positive, and another one: the other). "
  "A point belongs to the intersection exactly when it belongs to both, and to the union when it belongs to either; a rectangle strictly inside is contained and one that sticks out is not, and a segment through the interior intersects a rectangle while one apart from it does not. "
  "Translating moves the rectangle exactly, preserves intersection and area, and translated leaves the original unchanged.",
  ["inputs"], "every pair of rectangles, point, segment and translation over int, long, float and double", "Tests use a few fixed rectangles.",
  [I + "geometry/rectangle.hpp"], [("edge comparisons", I + "geometry/rectangle.hpp")], SEQ + "exact integer-grid reference and metamorphic laws",
  "Values on an exactly representable grid; what a segment that only touches the border gives is left open.")
p("C28", "line segment intersection is exact and symmetric",
  "For two non-parallel segments, intersects is true and get_intersection gives the common point exactly when they have one, end points included; parallel segments without a common point have no intersection. "
  "The result does not depend on the order of the two segments or on the direction of either, and intersects always agrees with get_intersection. "
  "A segment equals its reverse, and null, vertical, horizontal, setters, text and stream output are exact.",
  ["inputs"], "every pair of segments over int, long, float and double, with end points meeting or just missing", "Tests use a few fixed segments.",
  [I + "geometry/line.hpp"], [("determinant of the directions, parameter range test", I + "geometry/line.hpp")], SEQ + "exact rational reference and metamorphic laws",
  "End points on an exactly representable grid small enough for the computation to be exact; what overlapping collinear segments give is left open.")

# ------------------------------------------------------------------ argparse
A_ = [I + "argparse/argument_parser.hpp", I + "argparse/argument_base.hpp", I + "argparse/optional_argument.hpp", I + "argparse/positional_argument.hpp",
      I + "argparse/flag_argument.hpp", S + "argparse/argument_parser.cpp"]
p("C29", "an argument value converts exactly to its declared type or is an error",
  "A value given as --name=value, --name value, -n value, -n=value, positionally or by environment variable is stored exactly when it is the text of a value of the declared type (integers in range, decimal floating point, 0/1 for bool, one character for char, strings and paths verbatim, comma-separated lists of these), and then the variable holds exactly that value, independently of the argument array's lifetime. "
  "Otherwise parse returns error, reports it, and an option's variable keeps its value. "
  "Arguments before and after it are read as if it were not there.",
  ["inputs"], "every declared type, every way of giving a value, every text", "Tests convert a few well-formed values per type.",
  A_, [("conversion per type", I + "argparse/argument_base.hpp")], SEQ + "independent reader per type, plus coverage-guided fuzzing",
  "int, float and double accept trailing text (as std::stoi does); negative texts for unsigned, inf/nan/hexadecimal floats and denormals are left open.")
p("C30", "command line, environment, defaults, required and validators combine exactly",
  "After a successful parse every option holds its last value on the command line, else its environment value, else its default; every flag is true exactly when given or set by its environment variable; positionals hold the remaining arguments in order. "
  "Parsing succeeds exactly when every required option (from the command line or environment) and every positional is given, no argument is unknown, and every value converts and passes its validator; a validator rejection is an error that leaves the variable unchanged. "
  "Arguments are independent: long and short names are equivalent, and the order of options relative to each other and to positionals does not matter.",
  ["inputs", "configurations"], "every declaration of options, flags and positionals, every environment, every arrangement of a command line for them", "Tests parse a few fixed command lines with one source of values each.",
  A_, [("environment first, then command line, then required check", S + "argparse/argument_parser.cpp")], SEQ + "reference parser over generated declarations, environments and command lines", "Names are distinct within a declaration; parse is called once per parser.")
p("C31", "any command line is parsed or cleanly rejected, never crashes",
  "For every declaration and every argument array, parse returns success, quit or error without crashing, hanging or letting an exception escape; help and version are honoured at the first place they are reached and give quit, the help text naming the program and every argument, help and version included, with its short name, description and environment variable, and the version text naming program and version. "
  "Each argument is read left to right exactly as its form says: a leading dash makes it an option or flag, a declared option without =value takes the next argument whatever it is, anything else is a positional. "
  "Unknown names, missing values and excess positionals give error with a message on the error stream.",
  ["inputs", "configurations"], "every declaration, every sequence of argument strings including empty, dash-only, '='-laden and arbitrary bytes", "Tests try a few malformed command lines.",
  A_, [("token classification", I + "argparse/argument_parser.hpp"), ("catch-all in parse", S + "argparse/argument_parser.cpp")], SEQ + "token-level reference parser, plus coverage-guided fuzzing", "An empty value after '=' and names given with the wrong number of dashes are left open.")

# ------------------------------------------------------------------ small parts
p("C32", "service_locator maps each interface to the service registered for it",
  "register_service and register_instance succeed exactly when nothing is registered under that type and otherwise leave the existing registration alone; get returns the registered service, the same object on every call and wherever the interface sits among the service's bases, and nothing for a type that is not registered. "
  "unregister succeeds exactly when the type is registered and removes only it; is_registered always agrees with get. "
  "A service is built from the arguments given and destroyed exactly once, when it is unregistered and no caller holds it any more.",
  ["histories", "inputs"], "every history of registrations, look-ups and removals over a set of interfaces and implementations", "Tests register one or two services once each.",
  [I + "service_locator.hpp", S + "service_locator.cpp"], [("map from type to shared pointer", I + "service_locator.hpp")], SEQ + "stateful model-based testing against a reference registry", "One thread (the class has no lock).")
p("C33", "task keeps its own callable alive and invokes it exactly once per call",
  "A task built from any callable (function, lambda, functor, bound member, packaged task; copied from an lvalue, const or not, or moved from an rvalue) runs that callable exactly once per invoke() or call operator, and neither before. "
  "It owns its callable: it works after the original is gone or changed, moving a task moves the callable without running or copying it, and the callable is destroyed exactly once, with the task. "
  "An exception thrown by the callable reaches the caller and the task can be invoked again.",
  ["inputs", "histories"], "every kind of callable, every history of construction, moves, invocations and destruction", "Tests build a task from one or two lambdas.",
  [I + "task.hpp"], [("type-erased owned callable", I + "task.hpp")], SEQ + "stateful ledger of constructions, invocations and destructions", "A moved-from task is not invoked.")
p("C34", "singleton gives every thread the same, once-constructed instance",
  "instance() of a singleton class returns the same object on every call from every thread, also when the first calls race, and different singleton classes have different instances. "
  "The object is constructed exactly once, by the first call, completely before any caller receives it, and what its constructor did is visible to every caller without a data race. "
  "If the constructor throws, the caller gets the exception and a later call constructs the object.",
  ["schedules", "histories"], "every set of threads making first and later calls, every schedule, constructors that take time or throw",
  "Tests compare two addresses on one thread.", [I + "singleton.hpp"], [("function-local static", I + "singleton.hpp")], SIM + "construction ledger and race detection", SIMNOTE)

MANY = [I + n for n in ("blocking_queue.hpp", "thread_pool.hpp", "event_dispatcher.hpp", "task_scheduler.hpp", "high_precision_timer.hpp", "observable.hpp", "task.hpp", "argparse/argument_parser.hpp")] + [
    S + n for n in ("thread_pool.cpp", "event_dispatcher.cpp", "task_scheduler.cpp", "high_precision_timer.cpp", "argparse/argument_parser.cpp")]
p("C35", "instances of the components are independent of each other",
  "What one blocking_queue, thread_pool, event_dispatcher, task_scheduler, high_precision_timer, observable, argument_parser or task does depends only on the calls made on it: other instances of the same or another class, created, used with equal names, ids, items and times, and destroyed in any order, "
  "change neither its results nor when and how often what it was given is executed. "
  "Threads that use different instances need no synchronisation between them: they neither race nor wait for each other.",
  ["schedules", "histories", "inputs"], "every set of 2-5 instances of one or two classes, every history of creation, use, blocking callables and destruction by two threads with their own instances and then by one with all, every schedule",
  "Each test uses one instance; state that a change moves from the object to the class, a function-local static or a cache keyed by name is invisible with one instance.",
  MANY, [("members hold all of the state", I + "task_scheduler.hpp"), ("own thread pool in each dispatcher and scheduler", I + "event_dispatcher.hpp")],
  SIM + "one reference model per instance", SIMNOTE)
p("C36", "components destroy what they are given exactly once and do not retain it",
  "Callables, bound arguments, emitted arguments, queued items and observed values given to a blocking_queue, thread_pool, event_dispatcher, task_scheduler, high_precision_timer, observable or task exist for as long as the component may still use them, and every copy is destroyed exactly once. "
  "At the latest when the component is idle again nothing is left of what it no longer needs: a task that was executed (but for what its future keeps), removed or dropped by stop(), a handler removed by id, by name or by stop(), the argument of an executed emission, an item that was popped, a callback or value that was replaced; "
  "the destructor releases everything.",
  ["schedules", "histories", "inputs"], "every history of giving, executing, replacing, removing, stopping and destroying over 2-5 instances, every schedule",
  "The tests pass callables that own nothing, so a task kept by an idle worker, a handler that survives its removal or a second destruction is invisible to them.",
  MANY, [("task moved out of the queue and destroyed after its call", S + "thread_pool.cpp"), ("erased with its map entry", I + "task_scheduler.hpp"), ("handler vectors erased", S + "event_dispatcher.cpp")],
  SIM + "a ledger of every copy of every object given to a component", SIMNOTE)

NOT_APPLICABLE = {}


def main():
    claimed = [x for x in P if x[0]["id"] in CHECKS]
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for x in P:
            f.write(json.dumps(x[0]) + "\n")
    man = dict(version=1, setup_cmd="python3 check.py --setup", checks=[], not_applicable=[])
    for q, tech, note in P:
        i = q["id"]
        if i in CHECKS:
            man["checks"].append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
                                      technique=tech, level="exploration", level_note=note))
        else:
            man["not_applicable"].append(dict(property=i, reason=NOT_APPLICABLE.get(i, "no check has been built for it yet")))
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    print("%d properties, %d checks" % (len(P), len(claimed)))


main()
