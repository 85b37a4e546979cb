// C04: thread_pool start/stop lifecycle, sequentially (exact model) and from several threads (history oracle).
#include "simcase.hpp"

#include <future>
#include <memory>
#include <set>
#include <teiacare/sdk/thread_pool.hpp>
#include <thread>

namespace pbt
{
const char* const rule = "a history of 2-14 start(n) (some of which are refused a thread by the system), stop, run, is_running, sleep operations by one thread, or 2-4 threads with 1-6 of them each, then destruction, under a generated "
                         "schedule; non-trivial = a stop met queued or running tasks, or start/stop/run of different threads overlapped";

enum Kind
{
    START,
    STOP,
    RUN,
    ASK,
    SLEEP
};
static const char* kname[] = {"start", "stop", "run", "is_running", "sleep"};
struct Task
{
    int id = 0;
    uint64_t ns = 0;
    bool nested = false, may_drop = false; // submits another task while running
    bool throws = false;
    std::future<int> fut;
    int begun = 0, ended = 0;
    uint64_t begin = UINT64_MAX, end = UINT64_MAX;
    uint64_t run_call = UINT64_MAX, run_ret = UINT64_MAX;
    std::unique_ptr<Task> child;
};
struct Op
{
    Kind k = ASK;
    unsigned n = 0;
    int deny = 0; // the system refuses this many-th thread of start()
    uint64_t ns = 0;
    std::unique_ptr<Task> task;
    uint64_t call = 0, ret = UINT64_MAX;
    int res = -1;
};

// start/stop/is_running as a boolean register
static bool linearizable(std::vector<Op*> ops)
{
    std::sort(ops.begin(), ops.end(), [](auto a, auto b) { return a->call < b->call; });
    const size_t n = ops.size();
    if (n > 40)
        return true;
    std::set<std::pair<uint64_t, bool>> seen;
    auto go = [&](auto& self, uint64_t done, bool on) -> bool {
        if (done == (1ull << n) - 1)
            return true;
        if (!seen.insert({done, on}).second)
            return false;
        uint64_t min_ret = UINT64_MAX;
        for (size_t i = 0; i < n; ++i)
            if (!(done >> i & 1))
                min_ret = std::min(min_ret, ops[i]->ret);
        for (size_t i = 0; i < n; ++i)
        {
            if (done >> i & 1)
                continue;
            const Op& o = *ops[i];
            if (o.call > min_ret)
                break;
            const bool r = o.res == 1;
            bool nx = on;
            if (o.k == START)
            {
                if (r == on)
                    continue;
                nx = true;
            }
            else if (o.k == STOP)
            {
                if (r != on)
                    continue;
                nx = false;
            }
            else if (r != on)
                continue;
            if (self(self, done | 1ull << i, nx))
                return true;
        }
        return false;
    };
    return go(go, 0, false);
}

struct World
{
    tc::sdk::thread_pool* pool = nullptr;
    std::vector<Task*> all;
    int running = 0;
    bool stopped = true; // sequential mode: no task may run now
    bool sequential = false;
};
static void submit(World& w, Task& t)
{
    {
        sim::Quiet q;
        w.all.push_back(&t);
        t.run_call = sim::step();
        sim::event("run", t.id);
    }
    auto f = w.pool->run([&w, &t]() -> int {
        {
            sim::Quiet q;
            if (++t.begun > 1)
                sim::fail(cat("task ", t.id, " is executed a second time"));
            t.begin = sim::step();
            ++w.running;
            sim::event("task begins", t.id);
            if (w.sequential && w.stopped)
                sim::fail(cat("task ", t.id, " is executed while the pool is stopped"));
        }
        if (t.ns)
            sim::sleep_ns(t.ns);
        else
            sim::yield();
        if (t.nested)
            submit(w, *t.child);
        {
            sim::Quiet q;
            ++t.ended;
            t.end = sim::step();
            --w.running;
            sim::event("task ends", t.id);
            if (w.sequential && w.stopped)
                sim::fail(cat("task ", t.id, " is still running after stop() returned"));
        }
        if (t.throws)
            throw t.id;
        return t.id;
    });
    sim::Quiet q;
    t.fut = std::move(f);
    t.run_ret = sim::step();
}
static int live()
{
    return sim::live_threads() - 1; // beside the main one
}
static bool ready(std::future<int>& f)
{
    return f.wait_for(std::chrono::seconds(0)) == std::future_status::ready;
}
// the outcome of a future that must be ready: 1 value or own exception, 0 broken promise
static int outcome(Task& t)
{
    if (!ready(t.fut))
        sim::fail(cat("the future of task ", t.id, " is not ready"));
    try
    {
        const int v = t.fut.get();
        if (v != t.id || t.throws)
            sim::fail(cat("the future of task ", t.id, " delivers ", v));
        return 1;
    }
    catch (int e)
    {
        if (e != t.id || !t.throws)
            sim::fail(cat("the future of task ", t.id, " throws ", e));
        return 1;
    }
    catch (const std::future_error& e)
    {
        if (e.code() != std::future_errc::broken_promise)
            sim::fail(cat("the future of task ", t.id, " throws ", e.what()));
        return 0;
    }
}

void property_case(Src& src, Ctx& ctx)
{
    const unsigned ncpu = 1 + (unsigned)src.below(4);
    const bool sequential = src.coin();
    const int nt = sequential ? 1 : 2 + (int)src.below(3);
    int next = 1;
    std::vector<Task*> tasks;
    auto mk_task = [&](auto& self, int depth) -> std::unique_ptr<Task> {
        auto t = std::make_unique<Task>();
        t->id = next++;
        t->ns = src.chance(1, 3) ? 1000 * (1 + src.below(5)) : 0;
        t->throws = src.chance(1, 8);
        tasks.push_back(t.get());
        if (depth < 2 && src.chance(1, 6))
        {
            t->nested = true;
            t->child = self(self, depth + 1);
        }
        return t;
    };
    std::vector<std::vector<Op>> prog((size_t)nt);
    for (int t = 0; t < nt; ++t)
    {
        const int n = 1 + (int)src.below(sequential ? 13 : 6);
        const int bias = (int)src.below(3);
        for (int i = 0; i < n; ++i)
        {
            Op o;
            o.k = (Kind)(i == 0 && sequential && src.chance(3, 4) ? 0 : bias == 0 ? src.weighted({2, 2, 4, 1, 1}) : bias == 1 ? src.weighted({1, 1, 8, 1, 1}) : src.weighted({4, 4, 1, 2, 1}));
            o.n = (unsigned)src.pick(std::vector<int>{2, 1, 3, 4, 0, 77});
            o.ns = 500 * (1 + src.below(8));
            if (sequential && o.k == START && src.chance(1, 12))
                o.deny = 1 + (int)src.below(ncpu);
            if (o.k == RUN)
                o.task = mk_task(mk_task, 0);
            prog[(size_t)t].push_back(std::move(o));
            if (prog[(size_t)t].back().k == RUN && src.chance(1, 200)) // a crowd
                for (int c = 60 + (int)src.below(src.chance(1, 12) ? 5000 : 100); c-- > 0;)
                {
                    Op m;
                    m.k = RUN;
                    m.task = std::make_unique<Task>();
                    m.task->id = next++;
                    tasks.push_back(m.task.get());
                    prog[(size_t)t].push_back(std::move(m));
                }
        }
    }
    const bool stop_last = src.coin(), linger = src.coin();
    sim::Config cfg = draw_schedule(src, ctx, true);
    cfg.ncpu = ncpu;
    cfg.max_steps += 1000 * (uint64_t)next;
    ctx.notef("%s, %u cpus, %s destruction\n", sequential ? "sequential" : "concurrent", ncpu, stop_last ? "stop before" : "no stop before");
    for (int t = 0; t < nt; ++t)
    {
        ctx.notef(" T%d:", t);
        for (auto& o : prog[(size_t)t])
        {
            ctx.notef(" %s", kname[o.k]);
            if (o.k == START)
                ctx.notef("(%u)", o.n);
            if (o.deny)
                ctx.notef("[thread %d refused]", o.deny);
            if (o.k == SLEEP)
                ctx.notef("(%lluns)", (unsigned long long)o.ns);
            for (Task* k = o.task.get(); k; k = k->child.get())
                ctx.notef("%s#%d%s%s", k == o.task.get() ? "" : ">", k->id, k->ns ? cat("(", k->ns, "ns)").c_str() : "", k->throws ? "!" : "");
        }
        ctx.note("\n");
    }
    bool nt_flag = false;
    std::vector<Op*> reg;
    std::vector<std::pair<uint64_t, uint64_t>> dead; // sequential truth is checked inline; this is for concurrent histories
    sim::run(cfg, [&] {
        World w;
        w.sequential = sequential;
        w.pool = new tc::sdk::thread_pool;
        bool running = false;
        auto exec = [&](Op& o) {
            {
                sim::Quiet q;
                o.call = sim::step();
                sim::event(kname[o.k], o.n);
                if (sequential && o.k == STOP && running)
                {
                    int waiting = 0;
                    for (auto t : w.all)
                        waiting += !t->ended;
                    nt_flag |= waiting > 0;
                }
                if (o.k == START)
                    w.stopped = false;
            }
            switch (o.k)
            {
            case START: {
                sim::deny_thread(o.deny);
                bool threw = false;
                try
                {
                    o.res = w.pool->start(o.n);
                }
                catch (const std::system_error&)
                {
                    threw = true;
                    o.res = -2; // not in the history of the register
                }
                const bool refused = o.deny && sim::deny_thread(0) == 0;
                sim::Quiet q;
                nt_flag |= refused;
                if (threw != refused)
                    sim::fail(cat("start() ", threw ? "throws although every thread could be created" : "does not throw although a thread could not be created"));
                if (refused)
                {
                    w.stopped = true;
                    sim::event("  threw", 0);
                    if (running)
                        sim::fail("start() of a running pool creates threads");
                    if (w.running || live() || w.pool->threads_count() || w.pool->is_running())
                        sim::fail(cat("after start() failed: ", w.running, " tasks running, ", live(), " workers alive, threads_count() = ", w.pool->threads_count(), ", is_running() = ", w.pool->is_running()));
                    for (auto t : w.all)
                        if (!t->may_drop && t->fut.valid() && !t->begun && ready(t->fut))
                            sim::fail(cat("task ", t->id, " was dropped by a start() that failed"));
                    return;
                }
                break;
            }
            case STOP:
                o.res = w.pool->stop();
                break;
            case RUN:
                submit(w, *o.task);
                break;
            case ASK:
                o.res = w.pool->is_running();
                break;
            case SLEEP:
                sim::sleep_ns(o.ns);
                break;
            }
            sim::Quiet q;
            o.ret = sim::step();
            sim::event("  returned", o.res);
            if (!sequential)
                return;
            // exact model
            if (o.k == STOP && running) // tasks given during stop() included
                for (auto t : w.all)
                    t->may_drop = true;
            for (auto t : w.all)
                if (!t->may_drop && t->fut.valid() && !t->begun && ready(t->fut))
                    sim::fail(cat("task ", t->id, ", after which no stop() was called, was dropped by ", kname[o.k]));
            if (o.k == START)
            {
                if (o.res == running)
                    sim::fail(cat("start() of a ", running ? "running" : "stopped", " pool returned ", o.res));
                if (!running)
                {
                    running = true;
                    const size_t want = std::min(std::max(1u, o.n), ncpu);
                    if (w.pool->threads_count() != want || live() < (int)want)
                        sim::fail(cat("start(", o.n, ") on ", ncpu, " cpus: threads_count() = ", w.pool->threads_count(), ", threads alive ", live()));
                }
            }
            if (o.k == STOP)
            {
                if (o.res != running)
                    sim::fail(cat("stop() of a ", running ? "running" : "stopped", " pool returned ", o.res));
                if (running)
                {
                    running = false;
                    w.stopped = true;
                    if (w.running)
                        sim::fail(cat(w.running, " task(s) running after stop() returned"));
                    if (live() != 0)
                        sim::fail(cat(live(), " worker(s) alive after stop() returned"));
                    if (w.pool->threads_count() != 0)
                        sim::fail(cat("threads_count() = ", w.pool->threads_count(), " after stop()"));
                    // every task given before stop() was called has its outcome
                    for (auto t : w.all)
                        if (t->run_ret <= o.call && t->fut.valid())
                        {
                            const int got = outcome(*t);
                            if (got != t->ended)
                                sim::fail(cat("task ", t->id, " was executed ", t->ended, " times and its future ", got ? "has a value" : "is broken", " after stop()"));
                        }
                }
            }
            if (o.k == ASK && o.res != running)
                sim::fail(cat("is_running() = ", o.res));
        };
        if (sequential)
        {
            for (auto& o : prog[0])
            {
                exec(o);
                if (o.k == START && running)
                {
                    // tasks given to the stopped pool are executed now
                    sim::quiesce();
                    const size_t workers = w.pool->threads_count();
                    int queued = 0;
                    {
                        sim::Quiet q;
                        for (auto t : w.all)
                            queued += t->fut.valid() && !t->begun && !ready(t->fut);
                        nt_flag |= w.running > 0;
                    }
                    if (queued && (size_t)w.running < workers)
                        sim::fail(cat(queued, " task(s) given while the pool was stopped wait, ", w.running, " of ", workers, " workers are busy"));
                }
                if (o.k == STOP && !running && linger)
                    sim::sleep_ns(20000); // whoever would still run a task has time to do so
            }
        }
        else
        {
            std::vector<std::thread> ts;
            for (int t = 0; t < nt; ++t)
                ts.emplace_back([&, t] {
                    for (auto& o : prog[(size_t)t])
                        exec(o);
                });
            for (auto& t : ts)
                t.join();
        }
        if (!sequential)
        {
            sim::Quiet q;
            for (auto t : w.all)
            {
                if (t->begun || !t->fut.valid() || !ready(t->fut))
                    continue;
                bool may = false;
                for (auto& p : prog)
                    for (auto& o : p)
                        may |= o.k == STOP && o.res == 1 && o.ret > t->run_call;
                if (!may)
                    sim::fail(cat("task ", t->id, " was dropped although no stop() stopped the pool after it was given"));
            }
        }
        if (stop_last)
        {
            const bool r = w.pool->stop();
            if (sequential && r != running)
                sim::fail("the last stop() returned the wrong value");
            sim::Quiet q;
            w.stopped = true;
            if (w.running || live())
                sim::fail("tasks or workers left after stop()");
        }
        delete w.pool;
        sim::Quiet q;
        if (w.running || live())
            sim::fail("tasks or workers outlive the pool");
        for (auto t : w.all)
        {
            if (t->begun != t->ended || t->begun > 1)
                sim::fail(cat("task ", t->id, " began ", t->begun, " and ended ", t->ended, " times"));
            if (!t->fut.valid())
                continue; // asked already
            const int got = outcome(*t);
            if (got != t->ended)
                sim::fail(cat("task ", t->id, " was executed ", t->ended, " times and its future ", got ? "has a value" : "is broken", " after the pool is gone"));
        }
        for (auto& p : prog)
            for (auto& o : p)
                if ((o.k == START || o.k == STOP || o.k == ASK) && o.res != -2)
                    reg.push_back(&o);
    });
    // concurrent: start/stop results form a register history, and nothing runs while the pool is certainly stopped
    if (!linearizable(reg))
        fail("the results of start, stop and is_running fit no order of these calls\n" + sim::dump_events());
    std::sort(reg.begin(), reg.end(), [](auto a, auto b) { return a->call < b->call; });
    for (auto s : reg)
    {
        if (s->k != STOP || s->res != 1)
            continue;
        // from s->ret to the first call of a successful start that may come after s
        uint64_t until = UINT64_MAX;
        bool sure = true;
        for (auto o : reg)
            if (o->k == START && o->res == 1 && o->ret > s->call)
            {
                if (o->call < s->ret && o->ret > s->call)
                    sure = false; // overlaps the stop: may be the one after it
                until = std::min(until, o->call);
            }
        if (!sure)
            continue;
        for (auto t : tasks)
            if (t->begun && t->begin < until && t->end > s->ret && t->begin != UINT64_MAX && !(t->end <= s->ret))
            {
                if (t->begin > s->ret || t->end > s->ret)
                    fail(cat("task ", t->id, " ran at steps ", t->begin, "-", t->end, ", stop() returned at ", s->ret, " and no start() was called before ", until, "\n", sim::dump_events()));
            }
    }
    for (auto a : reg)
        for (auto b : reg)
            if (a != b && a->call < b->ret && b->call < a->ret && a->k != ASK && b->k != ASK)
                nt_flag = true;
    ctx.label(sequential ? "sequential" : "concurrent");
    ctx.nontrivial(nt_flag);
}
}
