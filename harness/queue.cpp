// C01/C02: blocking_queue under generated thread programs and schedules.
// Oracle: linearizability against a bounded FIFO (C01) and exact "who may be blocked now" at every quiescent point (C02).
#include "simcase.hpp"

#include <teiacare/sdk/blocking_queue.hpp>

#include <atomic>
#include <deque>
#include <memory>
#include <set>
#include <thread>

#ifndef WAITING
#define WAITING 0 // 1: C02, biased to blocked threads and spurious wakeups; only blocking is judged
#endif

namespace pbt
{
const char* const rule = "2-5 threads of 1-7 generated queue operations each, some with an item whose copy throws, capacity 0-7, or 20-6000 items through a queue of up to 65541, capacities up to 2^64-1, under a generated schedule; "
                         "non-trivial = operations of different threads overlap and the empty or the full boundary was hit "
                         "(a call blocked, or a try_ call was refused)";

enum Kind
{
    PUSH_L,
    PUSH_R,
    TRY_PUSH_L,
    TRY_PUSH_R,
    POP,
    TRY_POP,
    SIZE,
    CAP
};
static const char* kname[] = {"push(const T&)", "push(T&&)", "try_push(const T&)", "try_push(T&&)", "pop", "try_pop", "size", "capacity"};

static int g_live;      // items alive that have their payload (accessed inside Quiet only)
static int g_fuse[64];  // per thread: the how manyth copy from now on throws, 0 for none
struct CopyFailed
{
};
struct Item
{
    int v;
    int* heap; // a payload that must be copied, not shared
    explicit Item(int x)
        : v(x)
        , heap(new int(x))
    {
        count(1);
    }
    Item(const Item& o)
        : v((burn(), o.v))
        , heap(new int(o.heap ? *o.heap : -3))
    {
        count(1);
    }
    Item(Item&& o) noexcept
        : v(o.v)
        , heap(o.heap)
    {
        o.v = -3;
        o.heap = nullptr;
    }
    Item& operator=(Item o) noexcept
    {
        std::swap(v, o.v);
        std::swap(heap, o.heap);
        return *this;
    }
    ~Item()
    {
        if (heap)
            count(-1);
        delete heap;
    }
    bool whole() const
    {
        return heap && *heap == v;
    }
    static void burn()
    {
        sim::Quiet qt;
        int& f = g_fuse[sim::self() % 64];
        if (f && --f == 0)
            throw CopyFailed();
    }
    static void count(int d)
    {
        sim::Quiet qt;
        g_live += d;
    }
};

struct Op
{
    Kind k;
    int arg = 0;
    uint64_t call = 0, ret = UINT64_MAX;
    uint64_t t0 = 0, t1 = 0;
    int64_t res = 0; // value / -1 for refused
    int thread = 0;
    bool started = false;
    int fault = 0; // this copy of an item made by the call throws
    bool threw = false;
};

static bool linearizable(std::vector<Op*> ops, size_t cap)
{
    // drop nothing: every operation has completed. DFS over minimal operations with memo on (done set, content).
    const size_t n = ops.size();
    std::sort(ops.begin(), ops.end(), [](auto a, auto b) { return a->call < b->call; });
    std::set<std::pair<uint64_t, std::vector<int>>> seen;
    struct F
    {
        static bool go(const std::vector<Op*>& ops, uint64_t done, std::deque<int>& qd, size_t cap, std::set<std::pair<uint64_t, std::vector<int>>>& seen)
        {
            const size_t n = ops.size();
            if (done == (n == 64 ? ~0ull : (1ull << n) - 1))
                return true;
            if (!seen.insert({done, std::vector<int>(qd.begin(), qd.end())}).second)
                return false;
            uint64_t min_ret = UINT64_MAX;
            for (size_t i = 0; i < n; ++i)
                if (!(done >> i & 1))
                    min_ret = std::min(min_ret, ops[i]->ret);
            for (size_t i = 0; i < n; ++i)
            {
                if (done >> i & 1)
                    continue;
                Op& o = *ops[i];
                if (o.call > min_ret)
                    break;
                auto saved = qd;
                bool ok = false;
                switch (o.k)
                {
                case PUSH_L:
                case PUSH_R:
                    ok = qd.size() < cap;
                    if (ok)
                        qd.push_back(o.arg);
                    break;
                case TRY_PUSH_L:
                case TRY_PUSH_R:
                    if (o.res)
                    {
                        ok = qd.size() < cap;
                        if (ok)
                            qd.push_back(o.arg);
                    }
                    else
                        ok = qd.size() >= cap;
                    break;
                case POP:
                    ok = !qd.empty() && qd.front() == o.res;
                    if (ok)
                        qd.pop_front();
                    break;
                case TRY_POP:
                    if (o.res == -1)
                        ok = qd.empty();
                    else
                    {
                        ok = !qd.empty() && qd.front() == o.res;
                        if (ok)
                            qd.pop_front();
                    }
                    break;
                case SIZE:
                    ok = (int64_t)qd.size() == o.res;
                    break;
                case CAP:
                    ok = (int64_t)cap == o.res;
                    break;
                }
                if (ok && go(ops, done | 1ull << i, qd, cap, seen))
                    return true;
                qd = saved;
            }
            return false;
        }
    };
    std::deque<int> qd;
    if (n > 62)
        return true;
    return F::go(ops, 0, qd, cap, seen);
}

// a queue larger than sixteen bits can count, filled and emptied by one thread
static void vast(Src& src, Ctx& ctx)
{
    const size_t cap = 65530 + src.below(12);
    const int more = 1 + (int)src.below(4), pushes = (int)cap - (int)src.below(3) + more;
    sim::Config cfg = draw_schedule(src, ctx, true);
    cfg.max_steps = 40000000;
    ctx.notef("vast: capacity %zu, %d items tried\n", cap, pushes);
    sim::run(cfg, [&] {
        tc::sdk::blocking_queue<int> queue(cap);
        for (int i = 0; i < pushes; ++i)
            if (const bool r = queue.try_push(i); r != ((size_t)i < cap))
                sim::fail(cat("try_push to a queue of ", i, " of ", cap, " items returned ", r));
        const size_t n = std::min(cap, (size_t)pushes);
        if (queue.size() != n || queue.capacity() != cap)
            sim::fail(cat("size ", queue.size(), " of ", queue.capacity(), ", must be ", n, " of ", cap));
        for (size_t i = 0; i <= n; ++i)
        {
            const auto o = queue.try_pop();
            if (o.has_value() != (i < n) || (o && *o != (int)i))
                sim::fail(cat("try_pop number ", i, " of ", n, " returned ", o ? cat(*o) : std::string("nothing")));
        }
    });
    ctx.label("vast");
    ctx.nontrivial(true);
}

// many items through large or small queues: per producer order, no loss, no invention, never more than the capacity
static const int MANY = 100000;
static void bulk(Src& src, Ctx& ctx)
{
    const bool huge = src.chance(1, 15);
    const size_t cap = huge ? (size_t)src.pick(std::vector<int>{1024, 300, 4096, 2000, 5000, 20000, 1}) : (size_t)src.pick(std::vector<int>{64, 1, 33, 100, 128, 200, 5, 300});
    const int producers = 1 + (int)src.below(2), consumers = 1 + (int)src.below(2);
    if (huge && src.chance(1, 6))
        return vast(src, ctx);
    const int each = huge ? 1000 + (int)src.below(5000 / producers) : 20 + (int)src.below(280 / producers);
    const bool tries = src.coin(), late = src.coin();
    sim::Config cfg = draw_schedule(src, ctx, true);
    ctx.notef("bulk: capacity %zu, %d producers of %d items, %d consumers%s%s\n", cap, producers, each, consumers, tries ? ", try_ calls" : "", late ? ", consumers begin when the producers are stuck or done" : "");
    g_live = 0;
    bool full = false;
    sim::run(cfg, [&] {
        {
            tc::sdk::blocking_queue<Item> queue(cap);
            std::vector<std::vector<int>> got((size_t)consumers);
            std::atomic<int> left{producers * each};
            std::vector<std::thread> ts;
            for (int p = 0; p < producers; ++p)
                ts.emplace_back([&, p] {
                    for (int i = 0; i < each; ++i)
                    {
                        const int v = p * MANY + i;
                        if (i % 3 == 0)
                            queue.push(Item(v));
                        else if (const Item it(v); !tries || i % 3 == 1 || !queue.try_push(it))
                            queue.push(it);
                    }
                });
            if (late)
                sim::quiesce();
            {
                const size_t n = queue.size();
                if (n > cap)
                    sim::fail(cat("the queue holds ", n, " items, capacity is ", cap));
                if (late && n != std::min(cap, (size_t)(producers * each)))
                    sim::fail(cat("producers of ", producers * each, " items rest with ", n, " of ", cap, " items in the queue"));
                full = n == cap;
            }
            for (int c = 0; c < consumers; ++c)
                ts.emplace_back([&, c] {
                    while (left.fetch_sub(1) > 0)
                    {
                        std::optional<Item> o;
                        if (tries)
                            o = queue.try_pop();
                        if (!o)
                            o.emplace(queue.pop());
                        if (!o->whole())
                            sim::fail("a popped item is not whole");
                        sim::Quiet q;
                        got[(size_t)c].push_back(o->v);
                    }
                });
            for (auto& t : ts)
                t.join();
            if (queue.size() != 0 || queue.try_pop())
                sim::fail("items are left although as many were popped as pushed");
            std::set<int> all;
            for (auto& g : got)
            {
                std::vector<int> last((size_t)producers, -1);
                for (int v : g)
                {
                    if (v < 0 || v / MANY >= producers || v % MANY >= each || !all.insert(v).second)
                        sim::fail(cat("item ", v, " was popped twice or never pushed"));
                    if (v % MANY <= last[(size_t)(v / MANY)])
                        sim::fail(cat("item ", v, " was popped after item ", v / MANY * MANY + last[(size_t)(v / MANY)], " of the same producer, by the same consumer"));
                    last[(size_t)(v / MANY)] = v % MANY;
                }
            }
        }
        sim::Quiet q;
        if (g_live)
            sim::fail(cat(g_live, " copies of items survive the queue"));
    });
    ctx.label("bulk");
    ctx.nontrivial(full || cap < (size_t)(producers * each));
}

void property_case(Src& src, Ctx& ctx)
{
    if (src.chance(1, 40))
        return bulk(src, ctx);
    size_t cap_arg = (size_t)src.pick(std::vector<int>{1, 2, 3, 0, 4, 7});
    if (src.chance(1, 25))
        cap_arg = src.pick(std::vector<size_t>{256, 257, 65536, 65537, (size_t)1 << 31, (size_t)1 << 32, ((size_t)1 << 32) + 1, (size_t)1 << 63, SIZE_MAX});
    const size_t cap = cap_arg ? cap_arg : 1;
    int nthreads = 2 + (int)src.weighted({4, 4, 2, 1, WAITING ? 2u : 0u});
    std::vector<std::vector<Op>> prog((size_t)nthreads);
    int next = 1;
    // a thread's bias makes producer/consumer shapes common
    for (int t = 0; t < nthreads; ++t)
    {
        int bias = WAITING ? (int)src.weighted({2, 3, 4, 1}) : (int)src.below(4); // 0 mixed, 1 producer, 2 consumer, 3 non-blocking
        int n = 1 + (int)src.below(6);
        for (int i = 0; i < n; ++i)
        {
            Op o;
            size_t r;
            if (bias == 1)
                r = src.weighted({5, 3, 1, 1, 1, 0, 1, 0});
            else if (bias == 2)
                r = src.weighted({1, 0, 0, 0, 8, 3, 1, 0});
            else if (bias == 3)
                r = src.weighted({1, 0, 4, 3, 1, 5, 2, 1});
            else
                r = src.weighted({3, 2, 1, 1, 5, 2, 1, 0});
            o.k = (Kind)r;
            if (o.k <= TRY_PUSH_R)
                o.arg = next++;
            if (o.k <= TRY_POP && src.chance(1, 12))
                o.fault = 1 + (int)src.below(2);
            o.thread = t + 1;
            prog[(size_t)t].push_back(o);
        }
    }
    // A blocking call that throws may have used up the wakeup of another blocked thread (whether it must pass it on is left open):
    // such calls throw only where no other thread blocks.
    const bool lone = src.chance(1, 8);
    auto blocks = [](const Op& o) { return o.k == PUSH_L || o.k == PUSH_R || o.k == POP; };
    for (size_t t = 1; lone && t < prog.size(); ++t)
        for (auto& o : prog[t])
            if (blocks(o))
                o.k = o.k == POP ? TRY_POP : (Kind)(o.k + (TRY_PUSH_L - PUSH_L));
    for (auto& p : prog)
    {
        bool others = false;
        for (auto& r : prog)
            for (auto& o : r)
                others |= &r != &p && blocks(o);
        for (auto& o : p)
            if (others && blocks(o))
                o.fault = 0;
    }
    const int rescue_how = (int)src.below(4);
    sim::Config cfg = draw_schedule(src, ctx, true);
    cfg.races = true;
    if (WAITING && src.chance(1, 3))
        cfg.spurious_den = 4;
    ctx.notef("blocking_queue capacity=%zu\n", cap_arg);
    for (int t = 0; t < nthreads; ++t)
    {
        ctx.notef(" T%d:", t + 1);
        for (auto& o : prog[(size_t)t])
        {
            o.k <= TRY_PUSH_R ? ctx.notef(" %s=%d", kname[o.k], o.arg) : ctx.notef(" %s", kname[o.k]);
            if (o.fault)
                ctx.notef("(copy %d throws)", o.fault);
        }
        ctx.note("\n");
    }
    std::vector<Op> rescue;
    rescue.reserve(256);
    bool boundary = false, overlap = false;
    g_live = 0;
    std::string problem;

    sim::run(cfg, [&] {
        {
            tc::sdk::blocking_queue<Item> queue(cap_arg);
            auto exec = [&](Op& o) {
                {
                    sim::Quiet qt;
                    o.started = true;
                    o.call = sim::step();
                    o.t0 = sim::now();
                    sim::event(kname[o.k], o.arg);
                }
                int64_t res = 0;
                bool threw = false;
                std::optional<Item> given;
                if (o.k <= TRY_PUSH_R)
                    given.emplace(o.arg);
                {
                    sim::Quiet qt;
                    g_fuse[sim::self() % 64] = o.fault;
                }
                try
                {
                    switch (o.k)
                    {
                    case PUSH_L:
                        queue.push(std::as_const(*given));
                        break;
                    case PUSH_R:
                        queue.push(std::move(*given));
                        break;
                    case TRY_PUSH_L:
                        res = queue.try_push(std::as_const(*given));
                        break;
                    case TRY_PUSH_R:
                        res = queue.try_push(std::move(*given));
                        break;
                    case POP: {
                        Item it = queue.pop();
                        res = it.whole() ? it.v : -2;
                        break;
                    }
                    case TRY_POP: {
                        std::optional<Item> it = queue.try_pop();
                        res = it ? (it->whole() ? it->v : -2) : -1;
                        break;
                    }
                    case SIZE:
                        res = (int64_t)queue.size();
                        break;
                    case CAP:
                        res = (int64_t)queue.capacity();
                        break;
                    }
                }
                catch (const CopyFailed&)
                {
                    threw = true;
                }
                {
                    sim::Quiet qt;
                    g_fuse[sim::self() % 64] = 0;
                }
                if (!threw && (o.k == PUSH_L || o.k == TRY_PUSH_L || (o.k == TRY_PUSH_R && !res)) && !(given->whole() && given->v == o.arg))
                    sim::fail(cat(kname[o.k], o.k == TRY_PUSH_R ? " was refused but took the caller's item" : " changed the caller's item"));
                given.reset();
                {
                    sim::Quiet qt;
                    o.res = res;
                    o.threw = threw;
                    o.ret = sim::step();
                    o.t1 = sim::now();
                    threw ? sim::event("  threw", 0) : sim::event("  returned", res);
                }
                sim::yield();
            };
            std::vector<std::thread> ts;
            for (int t = 0; t < nthreads; ++t)
                ts.emplace_back([&, t] {
                    for (auto& o : prog[(size_t)t])
                        exec(o);
                });
            auto fresh = [&]() -> Op& {
                sim::Quiet qt;
                rescue.emplace_back();
                return rescue.back();
            };
            for (;;)
            {
                sim::quiesce();
                int pend_pop = 0, pend_push = 0;
                const char* other = nullptr;
                {
                    sim::Quiet qt;
                    for (auto& p : prog)
                        for (auto& o : p)
                            if (o.started && o.ret == UINT64_MAX)
                            {
                                if (o.k == POP)
                                    pend_pop++;
                                else if (o.k == PUSH_L || o.k == PUSH_R)
                                    pend_push++;
                                else
                                    other = kname[o.k];
                            }
                }
                if (other)
                    sim::fail(cat(other, " waits for another thread"));
                if (!pend_pop && !pend_push)
                    break;
                boundary = true;
                // nothing can run: a thread may still be inside push only if the queue is full, inside pop only if it is empty
                Op& so = fresh();
                so.k = SIZE;
                exec(so);
                const auto sz = (size_t)so.res;
                if (pend_pop && sz > 0)
                    sim::fail(cat("LOST WAKEUP: ", pend_pop, " thread(s) blocked in pop() while the queue holds ", sz, " item(s)"));
                if (pend_push && sz < cap)
                    sim::fail(cat("LOST WAKEUP: ", pend_push, " thread(s) blocked in push() while the queue holds ", sz, " of ", cap, " items"));
                if (sz > cap)
                    sim::fail(cat("queue holds ", sz, " items, capacity is ", cap));
                // one step at a time: exactly one waiter can go on, and must
                Op& o = fresh();
                if (pend_pop)
                {
                    o.k = (Kind)(PUSH_L + rescue_how);
                    o.arg = next++;
                }
                else
                    o.k = rescue_how % 2 ? TRY_POP : POP;
                exec(o);
            }
            for (auto& t : ts)
                t.join();
            // what is left comes out in order, exactly once
            for (;;)
            {
                Op& o = fresh();
                o.k = TRY_POP;
                exec(o);
                if (o.res == -1)
                    break;
                if (rescue.size() > 200)
                    sim::fail("queue yields more items than were pushed");
            }
            {
                sim::Quiet qt;
                if (g_live != 0)
                    problem = cat(g_live, " copies of items are alive although the queue is empty");
            }
            // leave something inside: the destructor must release it
            if (next % 2)
                queue.push(Item(next));
        }
        sim::Quiet qt;
        if (g_live != 0 && problem.empty())
            problem = cat(g_live, " copies of items survive the queue");
    });
    std::vector<Op*> all;
    for (auto& p : prog)
        for (auto& o : p)
            all.push_back(&o);
    for (auto& o : rescue)
        all.push_back(&o);
    bool threw = false;
    for (auto a : all)
        threw |= a->threw;
    std::erase_if(all, [](Op* o) { return o->threw; }); // without any effect
    for (auto a : all)
    {
        if ((a->k == TRY_POP && a->res == -1 && a->thread) || ((a->k == TRY_PUSH_L || a->k == TRY_PUSH_R) && !a->res))
            boundary = true;
        for (auto b : all)
            if (a->thread != b->thread && a->thread && b->thread && a->call < b->ret && b->call < a->ret)
                overlap = true;
        if (a->k == SIZE)
            CHECK((size_t)a->res <= cap, "size() returned ", a->res, " with capacity ", cap);
    }
    for (auto a : all)
        if (a->k != POP && a->k != PUSH_L && a->k != PUSH_R)
            CHECK(a->t0 == a->t1, kname[a->k], " took ", a->t1 - a->t0, "ns of waiting");
    ctx.label(overlap ? "overlapping" : "no overlap");
    if (boundary)
        ctx.label("boundary hit");
    if (threw)
        ctx.label("a copy threw");
    ctx.nontrivial(overlap && boundary);
#if WAITING
    // a push that returned has put its item in, a pop that returned has one: what is in flight adds up (order and identity are C01's)
    int in = 0, out = 0;
    for (auto a : all)
    {
        in += a->k == PUSH_L || a->k == PUSH_R || ((a->k == TRY_PUSH_L || a->k == TRY_PUSH_R) && a->res);
        out += a->k == POP || (a->k == TRY_POP && a->res != -1);
    }
    CHECK(in == out, in, " items were pushed and ", out, " taken out");
    if (rescue.size() > 1)
        ctx.label("threads were left waiting");
    return;
#endif
    if (!linearizable(all, cap))
        fail("history is not a bounded FIFO history (no linearization exists)\n" + sim::dump_events());
    if (!problem.empty())
        fail(problem);
}
}
