// C05: thread_pool parallelism: exactly as many tasks at a time as there are workers, submission order with one worker.
#include "simcase.hpp"

#include <condition_variable>
#include <functional>
#include <future>
#include <memory>
#include <mutex>
#include <teiacare/sdk/thread_pool.hpp>
#include <thread>

namespace pbt
{
const char* const rule = "1-3 rounds of start(n) on 1-6 cpus, tasks that meet at a gate or run freely, submitted before or after start by 1-3 threads or by running tasks, under a generated schedule; "
                         "non-trivial = more tasks than workers met at the gate, or one worker got tasks from several threads or at least five tasks";

struct Rec
{
    int id = 0;
    bool gated = false;
    uint64_t ns = 0;
    uint64_t call = 0, ret = UINT64_MAX, begin = UINT64_MAX, end = UINT64_MAX;
    std::future<void> f;
    std::vector<std::unique_ptr<Rec>> kids; // given to the pool by the running task
};
template <typename F>
static void each(Rec& t, F&& f) // a task before those it submits
{
    f(t);
    for (auto& k : t.kids)
        each(*k, f);
}
struct Round
{
    unsigned want = 0;
    size_t before = 0; // tasks of the first list submitted before start()
    bool settle = false;
    std::vector<std::vector<std::unique_ptr<Rec>>> lists;
};
struct World
{
    tc::sdk::thread_pool pool;
    std::mutex m;
    std::condition_variable cv;
    bool open = false;
    // ledger
    int running = 0, inside = 0, peak = 0;
};

void property_case(Src& src, Ctx& ctx)
{
    const unsigned ncpu = 1 + (unsigned)src.below(6);
    const int nr = 1 + (int)src.weighted({3, 2, 1});
    std::vector<Round> rounds((size_t)nr);
    int next = 1;
    for (auto& r : rounds)
    {
        r.want = (unsigned)src.pick(std::vector<int>{2, 1, 3, 4, 5, 6, 0, 1000});
        r.settle = src.coin();
        const int lists = 1 + (int)src.weighted({4, 2, 1});
        const bool gates = src.chance(2, 3);
        const bool nests = src.chance(1, 3);
        const bool crowd = src.chance(1, 40); // a queue much longer than anything else
        if (crowd)
            r.want = (unsigned)src.below(3);
        for (int l = 0; l < lists; ++l)
        {
            r.lists.emplace_back();
            const int n = !crowd ? 1 + (int)src.below(lists == 1 ? 9 : 5) : l ? 0 : 40 + (int)src.below(src.chance(1, 12) ? 5000 : 240);
            for (int i = 0; i < n; ++i)
            {
                auto make = [&](auto& self, int depth) -> std::unique_ptr<Rec> {
                    auto t = std::make_unique<Rec>();
                    t->id = next++;
                    t->gated = gates && src.chance(4, 5);
                    t->ns = src.chance(1, 4) ? 1000 * (1 + src.below(4)) : 0;
                    if (nests && depth < 3 && src.chance(1, 3))
                        for (int k = 1 + (int)src.below(3); k-- > 0;)
                            t->kids.push_back(self(self, depth + 1));
                    return t;
                };
                r.lists.back().push_back(make(make, 0));
            }
        }
        r.before = src.chance(1, 3) ? src.below(r.lists[0].size() + 1) : 0;
    }
    sim::Config cfg = draw_schedule(src, ctx, true);
    cfg.ncpu = ncpu;
    cfg.max_steps += 1000 * (uint64_t)next;
    ctx.notef("%u cpus\n", ncpu);
    for (auto& r : rounds)
    {
        ctx.notef(" start(%u), %zu task(s) given before%s:", r.want, r.before, r.settle ? ", workers settle first" : "");
        for (auto& l : r.lists)
        {
            ctx.note(" [");
            for (auto& t : l)
            {
                auto show = [&](auto& self, Rec& k) -> void {
                    ctx.notef(" #%d%s%s", k.id, k.gated ? "gate" : "", k.ns ? cat("(", k.ns, "ns)").c_str() : "");
                    if (k.kids.empty())
                        return;
                    ctx.note(" >(");
                    for (auto& c : k.kids)
                        self(self, *c);
                    ctx.note(" )");
                };
                show(show, *t);
            }
            ctx.note(" ]");
        }
        ctx.note("\n");
    }
    bool nt = false;
    sim::run(cfg, [&] {
        World w;
        for (auto& r : rounds)
        {
            const int workers = (int)std::min(std::max(1u, r.want), ncpu);
            {
                sim::Quiet q;
                w.peak = 0;
            }
            {
                std::scoped_lock lock(w.m);
                w.open = false;
            }
            std::function<void(Rec&)> submit = [&w, &submit, workers](Rec& t) {
                {
                    sim::Quiet q;
                    t.call = sim::step();
                    sim::event("run", t.id);
                }
                auto f = w.pool.run([&w, &t, &submit, workers] {
                    {
                        sim::Quiet q;
                        if (t.begin != UINT64_MAX)
                            sim::fail(cat("task ", t.id, " is executed a second time"));
                        t.begin = sim::step();
                        w.peak = std::max(w.peak, ++w.running);
                        if (w.running > workers)
                            sim::fail(cat(w.running, " tasks run at the same time in a pool of ", workers));
                        w.inside += t.gated;
                        sim::event("begins", t.id);
                    }
                    for (auto& k : t.kids)
                        submit(*k);
                    if (t.gated)
                    {
                        std::unique_lock lock(w.m);
                        w.cv.wait(lock, [&w] { return w.open; });
                    }
                    if (t.ns)
                        sim::sleep_ns(t.ns);
                    else
                        sim::yield();
                    {
                        sim::Quiet q;
                        --w.running;
                        w.inside -= t.gated;
                        t.end = sim::step();
                        sim::event("ends", t.id);
                    }
                });
                sim::Quiet q;
                t.f = std::move(f);
                t.ret = sim::step();
            };
            for (size_t i = 0; i < r.before; ++i)
                submit(*r.lists[0][i]);
            if (!w.pool.start(r.want))
                sim::fail("start() of a stopped pool returned false");
            if (w.pool.threads_count() != (size_t)workers)
                sim::fail(cat("start(", r.want, ") on ", ncpu, " cpus made ", w.pool.threads_count(), " workers"));
            if (r.settle)
                sim::quiesce();
            std::vector<std::thread> ts;
            for (size_t l = 1; l < r.lists.size(); ++l)
                ts.emplace_back([&, l] {
                    for (auto& t : r.lists[l])
                        submit(*t);
                });
            for (size_t i = r.before; i < r.lists[0].size(); ++i)
                submit(*r.lists[0][i]);
            for (auto& t : ts)
                t.join();
            // let everything that can run do so, whatever it sleeps
            int gated = 0, total = 0;
            for (auto& l : r.lists)
                for (auto& t : l)
                    each(*t, [&](Rec& k) { gated += k.gated, ++total; });
            for (int i = 0; i < 100; ++i)
            {
                sim::quiesce();
                sim::sleep_ns(1000);
            }
            sim::quiesce();
            if (w.inside != std::min(gated, workers))
                sim::fail(cat(w.inside, " of ", gated, " waiting tasks run together in a pool of ", workers, " workers"));
            if (gated > workers)
                nt = true;
            if (workers == 1 && (r.lists.size() > 1 || total >= 5))
                nt = true;
            {
                std::scoped_lock lock(w.m);
                w.open = true;
            }
            w.cv.notify_all();
            for (auto& l : r.lists)
                for (auto& t : l)
                    each(*t, [](Rec& k) { k.f.get(); });
            if (!w.pool.stop())
                sim::fail("stop() of a running pool returned false");
            sim::Quiet q;
            if (gated >= workers && w.peak != workers)
                sim::fail(cat("at most ", w.peak, " tasks ran together in a pool of ", workers));
            if (workers == 1)
            {
                std::vector<Rec*> v;
                for (auto& l : r.lists)
                    for (auto& t : l)
                        each(*t, [&](Rec& k) { v.push_back(&k); });
                for (auto a : v)
                    for (auto b : v)
                        if (a != b && (a->ret < b->call || (a->ret == b->call && a->id < b->id)) && a->begin > b->begin)
                            sim::fail(cat("one worker runs task ", b->id, " before task ", a->id, ", which was submitted first"));
                for (auto a : v)
                    for (auto b : v)
                        if (a != b && a->begin < b->begin && b->begin < a->end)
                            sim::fail("one worker runs two tasks at the same time");
            }
        }
    });
    ctx.label(nr == 1 ? "1 round" : "restarted");
    ctx.nontrivial(nt);
}
}
