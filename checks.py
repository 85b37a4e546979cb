"""Which harnesses decide which property, and how many cases each tier generates."""
UUID = ["uuid.cpp", "uuid_generator.cpp"]


def seq(harness, srcs, quick, thorough=None, fuzz=0, fuzz_thorough=None, defs=(), **kw):
    """sequential property: generated search under ASan+UBSan, then coverage-guided search over the same cases"""
    st = [dict(harness=harness, mode="asan", srcs=srcs, quick=quick, thorough=thorough or quick * 20, defs=list(defs), **kw)]
    if fuzz or fuzz_thorough:
        st.append(dict(harness=harness, mode="fuzz", srcs=srcs, quick=fuzz, thorough=fuzz_thorough or fuzz * 50, defs=list(defs), budget=240, **kw))
    return st


def sim(harness, srcs, quick, thorough=None, defs=(), **kw):
    """concurrent property: generated operations, schedules and clock behaviour under the deterministic runtime"""
    return [dict(harness=harness, mode="sim", srcs=srcs, quick=quick, thorough=thorough or quick * 30, defs=list(defs), **kw)]


CHECKS = {
    "C01": dict(stages=sim("queue.cpp", [], 50000)),
    "C02": dict(stages=sim("queue.cpp", [], 50000, defs=["-DWAITING=1"])),
    "C16": dict(stages=seq("uuid_text.cpp", UUID, 60000, fuzz=60000)),
}
CHECKS.update({
    "C19": dict(stages=seq("date.cpp", ["datetime/date.cpp"], 100000, lib_opt="-O0")),
    "C20": dict(stages=seq("date_text.cpp", ["datetime/date.cpp"], 60000, fuzz=20000, lib_opt="-O0")),
})
DT = ["datetime/date.cpp", "datetime/time.cpp", "datetime/timedelta.cpp", "datetime/datetime.cpp"]
CHECKS.update({
    "C17": dict(stages=seq("uuid_order.cpp", UUID, 100000)),
    "C21": dict(stages=seq("timeofday.cpp", DT[1:3], 100000, fuzz=10000, lib_opt="-O0")),
    "C22": dict(stages=seq("timedelta.cpp", DT[2:3], 200000)),
    "C23": dict(stages=seq("datetime.cpp", DT, 150000, lib_opt="-O0")),
    "C24": dict(stages=seq("datetime.cpp", DT, 200000, fuzz=10000, lib_opt="-O0", defs=["-DTEXT"])),
})
CHECKS["C18"] = dict(stages=seq("uuid_create.cpp", UUID, 20000) + sim("uuid_threads.cpp", UUID, 6000))
CHECKS.update({
    "C25": dict(stages=seq("point.cpp", [], 200000)),
    "C26": dict(stages=seq("range.cpp", [], 200000)),
    "C27": dict(stages=seq("rectangle.cpp", [], 150000)),
    "C28": dict(stages=seq("line.cpp", [], 200000)),
})
ARGP = ["argparse/argument_parser.cpp"]
CHECKS.update({
    "C29": dict(stages=seq("argvalue.cpp", ARGP, 100000, fuzz=5000)),
})

POOL = ["thread_pool.cpp"]
CHECKS.update({
    "C03": dict(stages=sim("pool_tasks.cpp", POOL, 40000)),
    "C05": dict(stages=sim("pool_parallel.cpp", POOL, 30000)),
    "C04": dict(stages=sim("pool_life.cpp", POOL, 50000)),
})
EVENTS = ["event_dispatcher.cpp", "thread_pool.cpp"]
CHECKS.update({
    "C06": dict(stages=sim("events.cpp", EVENTS, 30000)),
    "C07": dict(stages=sim("events.cpp", EVENTS, 30000, defs=["-DREMOVAL=1"])),
})
TS = ["task_scheduler.cpp", "thread_pool.cpp"]
CHECKS.update({f"C{n:02}": dict(stages=sim("scheduler.cpp", TS, 70000, defs=[f"-DFOCUS={n}"])) for n in (8, 9, 10, 11)})
CHECKS["C12"] = dict(stages=sim("timer.cpp", ["high_precision_timer.cpp"], 100000))
CHECKS["C13"] = dict(stages=sim("observable.cpp", [], 120000))
CHECKS["C14"] = dict(stages=sim("pacing.cpp", ["rate_limiter.cpp"], 100000))
CHECKS["C15"] = dict(stages=sim("signals.cpp", ["signal_handler.cpp"], 80000))
CHECKS["C34"] = dict(stages=sim("singleton.cpp", [], 60000))
CHECKS["C30"] = dict(stages=seq("argparse.cpp", ARGP, 60000, fuzz=2000))
CHECKS["C31"] = dict(stages=seq("argparse.cpp", ARGP, 60000, fuzz=5000, defs=["-DANYLINE"]))
CHECKS["C33"] = dict(stages=seq("task.cpp", [], 100000))
CHECKS["C32"] = dict(stages=seq("locator.cpp", ["service_locator.cpp"], 60000))
ALL = ["thread_pool.cpp", "event_dispatcher.cpp", "task_scheduler.cpp", "high_precision_timer.cpp", "argparse/argument_parser.cpp"]
CHECKS.update({f"C{n}": dict(stages=sim("instances.cpp", ALL, 120000, defs=[f"-DFOCUS={n}"])) for n in (35, 36)})
