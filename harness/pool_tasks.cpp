// C03: thread_pool executes every task exactly once and delivers its outcome.
// Oracle: a ledger of executions, the outcome computed from the case, and the exact question "is a task queued while a worker idles"
// asked whenever nothing but the clock can move.
#include "simcase.hpp"

#include <future>
#include <memory>
#include <stdexcept>
#include <string>
#include <teiacare/sdk/thread_pool.hpp>
#include <thread>

namespace pbt
{
const char* const rule = "a pool of 1-6 workers, 0-3 submitting threads beside the main one, 1-24 (rarely up to 65700) tasks (value, reference and move-only results, member function, void, string argument, exception, sleep, nested submission) "
                         "under a generated schedule; non-trivial = at least two workers ran tasks, or a task was submitted from another thread or a task, and a task was submitted while all workers were idle";

enum Kind
{
    VALUE,   // returns a function of its arguments
    VOID,    // writes plain shared memory
    STRING,  // takes a string that the submitter changes after run()
    THROWS,  // throws its own exception
    SLEEPS,  // sleeps, then returns
    NESTS,   // submits another task
    FUNCTOR, // stateful functor given as an lvalue, changed after run()
    THROWS_INT,
    MEMBER,   // pointer to member function and an object
    MOVEONLY, // the result can only be moved
    REFERS,   // returns a reference, takes one by std::ref
    NK
};
static const char* kname[] = {"value", "void", "string", "throws", "sleeps", "nests", "functor", "throws int", "member", "move-only result", "reference"};

struct Problem : std::runtime_error
{
    int id;
    Problem(int i)
        : std::runtime_error("problem " + std::to_string(i))
        , id(i)
    {
    }
};
struct Rec
{
    int id = 0;
    Kind kind = VALUE;
    uint64_t ns = 0;
    bool fetch_now = false; // the submitter waits for the outcome at once
    // observed
    int begun = 0, ended = 0, tid = -1;
    bool submitted = false;
    long cell = 0; // written by the task without synchronisation, read after the future is ready
    std::future<int> fi;
    std::future<void> fv;
    std::future<std::string> fs;
    std::future<std::unique_ptr<int>> fu;
    std::future<long&> fr;
    long target = 0;
    bool fetched = false;
    std::unique_ptr<Rec> child;
};

struct World
{
    tc::sdk::thread_pool pool;
    std::vector<Rec*> all; // in Quiet
    int running = 0;
};
static void enter(World& w, Rec& r)
{
    sim::Quiet q;
    ++r.begun;
    ++w.running;
    r.tid = sim::self();
    sim::event("task begins", r.id);
    if (r.begun > 1)
        sim::fail(cat("task ", r.id, " (", kname[r.kind], ") is executed a second time"));
}
static void leave(World& w, Rec& r)
{
    {
        sim::Quiet q;
        ++r.ended;
        --w.running;
        sim::event("task ends", r.id);
    }
}
struct Body
{
    World& w;
    Rec& r;
    Body(World& w_, Rec& r_)
        : w(w_)
        , r(r_)
    {
        enter(w, r);
        sim::yield();
        r.cell = 1000 + r.id;
    }
    ~Body()
    {
        leave(w, r);
    }
};
struct Functor
{
    World* w;
    Rec* r;
    int k;
    int operator()(int a)
    {
        Body b(*w, *r);
        return a * 3 + k;
    }
};
struct Object
{
    World* w;
    Rec* r;
    std::string tail;
    std::string member(const std::string& a) const
    {
        Body b(*w, *r);
        return a + tail;
    }
};
static void submit(World& w, Rec& r);
static void fetch(World& w, Rec& r)
{
    {
        sim::Quiet q;
        r.fetched = true;
    }
    std::string got, want;
    switch (r.kind)
    {
    case VALUE:
    case SLEEPS:
    case FUNCTOR:
    case NESTS: {
        const int v = r.fi.get();
        if (v != (r.kind == FUNCTOR ? (r.id * 3 + 7) : r.id * 5 + 2))
            sim::fail(cat("future of task ", r.id, " (", kname[r.kind], ") delivers ", v));
        break;
    }
    case VOID:
        r.fv.get();
        break;
    case MOVEONLY: {
        const std::unique_ptr<int> v = r.fu.get();
        if (!v || *v != r.id)
            sim::fail(cat("future of task ", r.id, " delivers another pointer"));
        break;
    }
    case REFERS:
        if (long& v = r.fr.get(); &v != &r.target || v != r.id + 5)
            sim::fail(cat("future of task ", r.id, " delivers another reference or value ", v));
        break;
    case MEMBER:
    case STRING: {
        const std::string v = r.fs.get();
        if (v != "text " + std::to_string(r.id) + "!")
            sim::fail(cat("future of task ", r.id, " delivers ", q(v)));
        break;
    }
    case THROWS:
        try
        {
            r.fi.get();
            sim::fail(cat("the exception of task ", r.id, " is lost"));
        }
        catch (const Problem& p)
        {
            if (p.id != r.id || p.what() != "problem " + std::to_string(r.id))
                sim::fail(cat("task ", r.id, " delivers the exception ", p.what()));
        }
        break;
    default:
        try
        {
            r.fv.get();
            sim::fail(cat("the exception of task ", r.id, " is lost"));
        }
        catch (int v)
        {
            if (v != r.id)
                sim::fail(cat("task ", r.id, " delivers the exception ", v));
        }
    }
    // what the task wrote is visible without further synchronisation
    if (r.cell != 1000 + r.id)
        sim::fail(cat("task ", r.id, "'s writes are not visible after its future is ready"));
}
static void submit(World& w, Rec& r)
{
    sim::Quiet* qt = new sim::Quiet;
    sim::event("run", r.id);
    w.all.push_back(&r);
    delete qt;
    switch (r.kind)
    {
    case VALUE:
        r.fi = w.pool.run(
            [&w, &r](int a, int b) {
                Body body(w, r);
                return a * 5 + b;
            },
            r.id, 2);
        break;
    case VOID:
        r.fv = w.pool.run([&w, &r] { Body body(w, r); });
        break;
    case STRING: {
        std::string s = "text " + std::to_string(r.id);
        r.fs = w.pool.run(
            [&w, &r](const std::string& a, char c) {
                Body body(w, r);
                return a + c;
            },
            s, '!');
        for (auto& c : s)
            c = '?';
        break;
    }
    case THROWS:
        r.fi = w.pool.run([&w, &r]() -> int {
            Body body(w, r);
            throw Problem(r.id);
        });
        break;
    case THROWS_INT:
        r.fv = w.pool.run([&w, &r]() {
            Body body(w, r);
            throw r.id;
        });
        break;
    case SLEEPS:
        r.fi = w.pool.run([&w, &r] {
            Body body(w, r);
            sim::sleep_ns(r.ns);
            return r.id * 5 + 2;
        });
        break;
    case NESTS:
        r.fi = w.pool.run([&w, &r] {
            Body body(w, r);
            submit(w, *r.child);
            return r.id * 5 + 2;
        });
        break;
    case MEMBER: {
        const Object o{&w, &r, "!"};
        std::string s = "text " + std::to_string(r.id);
        r.fs = w.pool.run(&Object::member, o, s);
        s = "changed";
        break;
    }
    case MOVEONLY:
        r.fu = w.pool.run(
            [&w, &r](int id) {
                Body body(w, r);
                return std::make_unique<int>(id);
            },
            r.id);
        break;
    case REFERS:
        r.fr = w.pool.run(
            [&w, &r](long& v, const long& by) -> long& {
                Body body(w, r);
                v += by;
                return v;
            },
            std::ref(r.target), r.id + 5L);
        break;
    default: {
        Functor f{&w, &r, 7};
        int a = r.id;
        r.fi = w.pool.run(f, a);
        f.k = 99;
        a = -1;
    }
    }
    {
        sim::Quiet q;
        r.submitted = true;
    }
}

void property_case(Src& src, Ctx& ctx)
{
    const unsigned ncpu = 1 + (unsigned)src.below(5);
    const unsigned want = (unsigned)src.pick(std::vector<int>{2, 1, 3, 4, 5, 0, 99});
    const unsigned workers = std::min(std::max(1u, want), ncpu);
    const int nsub = (int)src.weighted({3, 3, 2, 1});
    int next = 1;
    std::vector<std::vector<std::unique_ptr<Rec>>> prog((size_t)nsub + 1);
    std::vector<Rec*> recs;
    auto gen = [&](auto& self, int depth) -> std::unique_ptr<Rec> {
        auto r = std::make_unique<Rec>();
        r->id = next++;
        r->kind = (Kind)src.weighted({4, 3, 2, 2, 3, depth < 3 ? 3u : 0u, 2, 1, 1, 1, 1});
        r->ns = 1000 * src.below(6);
        r->fetch_now = depth == 0 && src.chance(1, 4);
        recs.push_back(r.get());
        if (r->kind == NESTS)
            r->child = self(self, depth + 1);
        return r;
    };
    const int budget = 2 + (int)src.below(12);
    for (auto& p : prog)
    {
        const int n = (int)src.below((uint64_t)budget);
        for (int i = 0; i < n; ++i)
            p.push_back(gen(gen, 0));
    }
    if (src.chance(1, 40)) // many tasks at once
    {
        const int n = src.chance(1, 10) ? src.chance(1, 12) ? 65500 + (int)src.below(200) : (int)src.below(6000) : 60 + (int)src.below(src.coin() ? 140 : 600);
        auto add = [&](Kind k, uint64_t ns) {
            auto r = std::make_unique<Rec>();
            r->id = next++;
            r->kind = k;
            r->ns = ns;
            recs.push_back(r.get());
            prog[0].push_back(std::move(r));
        };
        if (src.chance(3, 4)) // the queue really grows: every worker is busy
            for (unsigned i = 0; i < workers; ++i)
                add(SLEEPS, 100000);
        for (int i = n; i-- > 0;)
            add(i % 3 ? VALUE : VOID, 0);
        ctx.label("crowd");
    }
    if (recs.empty())
        prog[0].push_back(gen(gen, 0));
    sim::Config cfg = draw_schedule(src, ctx, true);
    cfg.ncpu = ncpu;
    cfg.max_steps += 1000 * (uint64_t)next;
    const uint64_t idle_first = src.chance(1, 3) ? 1000 : 0; // let every worker fall asleep before the first task
    ctx.notef("pool start(%u) on %u cpus\n", want, ncpu);
    for (size_t t = 0; t < prog.size(); ++t)
    {
        ctx.notef(" %s%zu:", t ? "submitter " : "main ", t);
        for (auto& r : prog[t])
            if (r->id > 400)
                continue;
            else
                ctx.notef(" %s#%d%s", kname[r->kind], r->id, r->fetch_now ? "(wait)" : "");
        ctx.note("\n");
    }
    std::vector<int> tids, submitters;
    sim::run(cfg, [&] {
        World w;
        if (!w.pool.start(want))
            sim::fail("start() of a stopped pool returned false");
        if (idle_first)
            sim::quiesce();
        auto feed = [&](size_t k) {
            {
                sim::Quiet q;
                submitters.push_back(sim::self());
            }
            for (auto& r : prog[k])
            {
                submit(w, *r);
                if (r->fetch_now)
                    fetch(w, *r);
                else
                    sim::yield();
            }
        };
        std::vector<std::thread> ts;
        for (size_t k = 1; k < prog.size(); ++k)
            ts.emplace_back(feed, k);
        feed(0);
        for (int round = 0;; ++round)
        {
            sim::quiesce();
            bool pending = false;
            {
                sim::Quiet q;
                int queued = 0;
                for (auto r : w.all)
                {
                    queued += r->submitted && !r->begun;
                    pending |= !r->ended;
                }
                if (queued && w.running < (int)workers)
                    sim::fail(cat(queued, " task(s) wait in the queue while only ", w.running, " of ", workers, " workers run a task"));
                size_t planned = recs.size();
                pending |= w.all.size() < planned;
            }
            if (!pending)
                break;
            if (round > 400 + 6 * (int)recs.size())
                sim::fail("tasks do not finish");
            sim::sleep_ns(1000);
        }
        for (auto& t : ts)
            t.join();
        for (auto r : recs)
            if (!r->fetched)
                fetch(w, *r);
        if (!w.pool.stop())
            sim::fail("stop() of a running pool returned false");
        sim::Quiet q;
        for (auto r : recs)
        {
            if (r->begun != 1 || r->ended != 1)
                sim::fail(cat("task ", r->id, " was executed ", r->begun, " times"));
            if (std::find(tids.begin(), tids.end(), r->tid) == tids.end())
                tids.push_back(r->tid);
            if (r->tid <= 0 || std::find(submitters.begin(), submitters.end(), r->tid) != submitters.end())
                sim::fail(cat("task ", r->id, " was executed by a thread that submits tasks, not by one of the pool's"));
        }
        if (tids.size() > workers)
            sim::fail(cat(tids.size(), " threads executed tasks of a pool of ", workers));
    });
    ctx.label(workers == 1 ? "1 worker" : workers == 2 ? "2 workers" : "3+ workers");
    if (tids.size() > 1)
        ctx.label("tasks on several workers");
    if (nsub)
        ctx.label("concurrent submitters");
    ctx.nontrivial((tids.size() > 1 || nsub || next > (int)recs.size()) && recs.size() > 2);
}
}
