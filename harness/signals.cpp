// C15: quit requests, raised signals and waiters under generated schedules.
// Oracle: every request has exactly one callback with its arguments, no waiter returns without a completed request of its own, no request is lost.
#include "simcase.hpp"

#include <atomic>
#include <climits>
#include <csignal>
#include <deque>
#include <memory>
#include <string>
#include <teiacare/sdk/signal_handler.hpp>
#include <thread>

namespace pbt
{
const char* const rule = "histories of 2-14 installations (also of none and over another), waits in 0-4 threads, quit(message, number) and raised SIGINT, SIGABRT, SIGTERM from the main thread and from 0-3 others, "
                         "requests before and after the wait, signals that interrupt waiting and requesting threads at any step, under a generated schedule; non-trivial = a waiter was blocked when it was released or a request came before its wait, with a callback installed";
enum Kind
{
    WAIT,     // a thread is started that waits n times
    REQUEST,  // main requests
    REQUESTS, // n threads request concurrently, main waits for them
    WAIT_HERE,
    INSTALL,
    CHECK,
    SIGNAL // a signal interrupts a thread that waits or requests, wherever it is
};
struct Req
{
    int form = 0; // 0-2 raise, 3 quit with a signal, 4 quit without
    int no = 0;
    std::string message;
    int number = 0;
    int seen = 0;
    bool done = false;
};
struct Op
{
    Kind k;
    int n = 1;
    bool with = true; // INSTALL a callback
    std::vector<std::vector<Req>> reqs;
    std::vector<std::pair<int, Req>> async; // thread, signal
};
struct World
{
    uint64_t seq = 0;
    int installed = -1; // version, -1: none
    int versions = 0, live = 0, newest_live = 0;
    bool yields = false;
    int begun = 0, called = 0, returned_req = 0; // requests
    uint64_t last_begun = 0, last_wait_return = 0;
    int waits = 0, waiting = 0, returned = 0;
    bool early = false, blocked_then_released = false;
    std::vector<Req*> current[32];
    std::deque<int> payload; // written before the request, without synchronisation of its own
};
struct Callback
{
    World* w;
    int version;
    std::shared_ptr<int> data;
    void operator()(const char* m, int n) const
    {
        Req* r = nullptr;
        {
            sim::Quiet q;
            sim::event("callback", version, n);
            auto& stack = w->current[sim::self()];
            if (stack.empty())
                sim::fail("the callback runs in a thread that made no request");
            r = stack.back();
            if (version != w->installed)
                sim::fail(cat("callback ", version, " is invoked, installed is ", w->installed));
            if (++r->seen > 1)
                sim::fail(cat("request ", r->no, " invokes the callback ", r->seen, " times"));
            if (!m || r->message != m || r->number != n)
                sim::fail(cat("the callback of request ", r->no, " gets ", m ? m : "(null)", ", ", n, " instead of ", r->message, ", ", r->number));
            if (*data != version)
                sim::fail("the callback's state is gone");
        }
        if (w->yields)
        {
            sim::yield();
            sim::yield();
        }
        sim::Quiet q;
        ++w->called;
        r->done = true;
    }
};
static const int sigs[] = {SIGINT, SIGABRT, SIGTERM};
static const char* snames[] = {"SIGINT", "SIGABRT", "SIGTERM"};

void property_case(Src& src, Ctx& ctx)
{
    const int n = 2 + (int)src.below(13);
    std::vector<Op> ops;
    int no = 0, waits = 0, requests = 0, threads = 0;
    auto request = [&] {
        Req r;
        r.form = (int)src.weighted({2, 2, 2, 3, 2});
        r.no = no++;
        if (r.form < 3)
        {
            r.message = snames[r.form];
            r.number = sigs[r.form];
        }
        else
        {
            switch (src.weighted({12, 4, 1, 1, 1}))
            {
            case 0: r.message = cat("request number ", r.no); break;
            case 1: break;
            case 2: r.message = std::string(src.pick(std::vector<size_t>{15, 16, 63, 64, 127, 128, 255, 256, 1023, 4096}), 'm'); break;
            case 3: r.message = "100%s %n %d\n"; break;
            default: r.message = snames[src.below(3)];
            }
            r.number = r.form != 3 ? 0 : src.chance(1, 6) ? src.pick(std::vector<int>{SIGINT, SIGTERM, SIGABRT, 255, 256, 65536, INT_MAX, INT_MIN, -128}) : (int)src.range(-3, 70);
        }
        return r;
    };
    for (int i = 0; i < n; ++i)
    {
        Op o;
        o.k = i == 0 ? INSTALL : (Kind)src.weighted({5, 4, 3, 1, 2, 3, 3});
        if (o.k == WAIT && threads >= 10)
            o.k = CHECK;
        if (o.k == REQUESTS && threads >= 10)
            o.k = REQUEST;
        if (o.k == WAIT)
        {
            o.n = src.chance(1, 4) ? 2 : 1;
            ++threads;
        }
        if (o.k == INSTALL)
            o.with = src.chance(4, 5);
        auto signal = [&](int target) {
            Req r;
            r.form = (int)src.below(3);
            r.no = no++;
            r.message = snames[r.form];
            r.number = sigs[r.form];
            o.async.push_back({target, r});
        };
        if (o.k == SIGNAL)
            signal((int)src.below(4));
        if (o.k == REQUEST)
            o.reqs.push_back({request()});
        if (o.k == REQUESTS)
        {
            const int t = 1 + (int)src.below(3);
            threads += t;
            for (int j = 0; j < t; ++j)
            {
                o.reqs.emplace_back();
                const int m = src.chance(1, 150) ? 100 + (int)src.below(400) : 1 + (int)src.below(2);
                for (int l = 0; l < m; ++l)
                    o.reqs.back().push_back(request());
            }
            for (int j = 0; j < t; ++j)
                if (src.chance(1, 4))
                    signal(j);
        }
        ops.push_back(o);
    }
    (void)waits;
    (void)requests;
    const bool yields = src.coin();
    sim::Config cfg = draw_schedule(src, ctx, true);
    for (auto& o : ops)
    {
        switch (o.k)
        {
        case WAIT: ctx.notef("  thread{wait x %d};", o.n); break;
        case WAIT_HERE: ctx.note("  wait if requested;"); break;
        case INSTALL: ctx.notef("  install(%s);", o.with ? "callback" : ""); break;
        case CHECK: ctx.note("  check;"); break;
        case SIGNAL: ctx.note(cat("  ", o.async[0].second.message, " interrupts waiter ", o.async[0].first, ";")); break;
        default:
            for (auto& a : o.async)
                ctx.note(cat("  ", a.second.message, " interrupts thread ", a.first, " of"));
            for (auto& t : o.reqs)
            {
                ctx.note(o.k == REQUEST ? "  " : "  thread{");
                for (auto& r : t)
                    ctx.note(r.form < 3 ? cat("raise(", r.message, ");") : cat("quit(", q(r.message), r.form == 3 ? cat(", ", r.number) : std::string(), ");"));
                if (o.k == REQUESTS)
                    ctx.note("}");
            }
        }
    }
    ctx.note("\n");
    bool nontrivial = false;
    sim::run(cfg, [&] {
        World w;
        World* W = &w;
        w.yields = yields;
        std::vector<std::thread> waiters;
        std::vector<int> tids; // of the waiters
        std::atomic<int> ended{0}; // orders requests before a later installation, which only the user can do
        auto req = [&](Req& r) {
            {
                sim::Quiet q;
                ++w.begun;
                w.last_begun = ++w.seq;
                w.current[sim::self()].push_back(&r);
                sim::event(r.form < 3 ? "raise" : "quit", r.no, r.number);
            }
            if (r.form < 3)
                std::raise(r.number);
            else
            {
                // the message need not outlive the call
                std::string m = r.message;
                if (r.form == 3)
                    tc::sdk::quit(m.c_str(), r.number);
                else
                    tc::sdk::quit(m.c_str());
                std::fill(m.begin(), m.end(), '!');
            }
            ended.fetch_add(1, std::memory_order_release);
            sim::Quiet q;
            ++w.returned_req;
            w.current[sim::self()].pop_back();
            sim::event("  returned", r.no);
            if (r.seen != (w.installed >= 0))
                sim::fail(cat("request ", r.no, " invoked the callback ", r.seen, " times"));
        };
        auto interrupt = [&](int id, Req& r) {
            sim::Quiet q;
            if (id > 0)
                sim::event("signal", id, sim::interrupt(id, [&req, &r, W] {
                    bool masked = false;
                    {
                        sim::Quiet q2;
                        for (auto other : W->current[sim::self()]) // the system defers a signal whose handler is running
                            masked |= other->form < 3 && other->number == r.number;
                    }
                    if (!masked)
                        req(r);
                }));
        };
        auto wait = [&] {
            {
                sim::Quiet q;
                ++w.waiting;
                sim::event("wait");
                if (w.returned_req > w.returned + w.waiting - 1)
                    w.early = true;
            }
            tc::sdk::wait_for_quit();
            sim::Quiet q;
            --w.waiting;
            ++w.returned;
            w.last_wait_return = ++w.seq;
            sim::event("  wait returned", w.returned);
            if (w.returned > w.begun)
                sim::fail(cat("wait_for_quit() returned for the ", w.returned, ". time after ", w.begun, " requests"));
            if (w.installed >= 0 && w.returned > w.called)
                sim::fail(cat("wait_for_quit() returned for the ", w.returned, ". time, ", w.called, " callbacks have ended"));
        };
        auto check = [&] {
            sim::quiesce();
            sim::Quiet q;
            sim::event("check", w.waiting, w.begun);
            // with a waiter blocked nothing is pending: the last request was consumed after it was made
            if (w.waiting && w.begun && w.last_wait_return < w.last_begun)
                sim::fail(cat(w.waiting, " thread(s) wait although a quit was requested after every earlier request was consumed"));
            w.blocked_then_released |= w.waiting > 0;
        };
        auto install = [&](bool with) {
            if (with)
            {
                std::shared_ptr<int> data;
                int v;
                {
                    sim::Quiet q;
                    v = w.versions++;
                    w.installed = v;
                    sim::event("install", v);
                    w.called = w.begun; // of those before nobody asks any more
                }
                data = std::make_shared<int>(v);
                tc::sdk::install_signal_handlers(Callback{&w, v, data});
            }
            else
            {
                {
                    sim::Quiet q;
                    w.installed = -1;
                    sim::event("install nothing");
                }
                tc::sdk::install_signal_handlers();
            }
        };
        for (auto& o : ops)
            switch (o.k)
            {
            case INSTALL:
                sim::quiesce(); // no request is under way
                (void)ended.load();
                install(o.with);
                break;
            case WAIT: {
                const int times = o.n;
                const size_t no_ = waiters.size();
                {
                    sim::Quiet q;
                    tids.push_back(-1);
                }
                waiters.emplace_back([&wait, &tids, no_, times] {
                    {
                        sim::Quiet q;
                        tids[no_] = sim::self();
                    }
                    for (int i = 0; i < times; ++i)
                        wait();
                });
                break;
            }
            case WAIT_HERE: {
                check();
                bool safe;
                {
                    sim::Quiet q;
                    // certain to return: nobody else waits, and the last request is not consumed
                    safe = !w.waiting && w.begun && w.last_wait_return < w.last_begun;
                }
                if (safe)
                    wait();
                break;
            }
            case REQUEST:
                req(o.reqs[0][0]);
                break;
            case SIGNAL: {
                int id = -1;
                {
                    sim::Quiet q;
                    if (!tids.empty())
                        id = tids[o.async[0].first % tids.size()];
                }
                interrupt(id, o.async[0].second);
                break;
            }
            case REQUESTS: {
                std::vector<std::thread> ts;
                std::vector<int> ids(o.reqs.size(), -1);
                size_t t_ = 0;
                for (auto& t : o.reqs)
                {
                    int* id = &ids[t_++];
                    ts.emplace_back([&req, &t, id] {
                        {
                            sim::Quiet q;
                            *id = sim::self();
                        }
                        for (auto& r : t)
                            req(r);
                    });
                }
                for (auto& a : o.async)
                {
                    sim::yield();
                    sim::yield();
                    int id;
                    {
                        sim::Quiet q;
                        id = ids[a.first];
                    }
                    interrupt(id, a.second);
                }
                for (auto& t : ts)
                    t.join();
                break;
            }
            case CHECK:
                check();
            }
        check();
        // leave nothing behind: free everyone, then consume what is left
        std::deque<Req> extra;
        for (int i = 0; i < 60; ++i)
        {
            bool more;
            {
                sim::Quiet q;
                more = w.waiting > 0;
            }
            if (!more)
                break;
            {
                sim::Quiet q;
                extra.emplace_back();
                extra.back().form = 3;
                extra.back().no = no + i;
                extra.back().message = "the end";
                extra.back().number = i;
            }
            req(extra.back());
            check();
        }
        for (auto& t : waiters)
            t.join();
        std::atomic<bool> last{false};
        std::thread t([&] {
            do
                wait();
            while (!last.load());
        });
        check();
        {
            sim::Quiet q;
            if (!w.waiting)
                sim::fail("a thread that waits again and again does not block");
            extra.emplace_back();
            extra.back().form = 3;
            extra.back().no = -1;
            extra.back().message = "the very end";
        }
        last.store(true);
        req(extra.back());
        t.join();
        (void)ended.load();
        install(false);
        nontrivial = (w.early || w.blocked_then_released) && w.versions;
    });
    ctx.nontrivial(nontrivial);
}
}
