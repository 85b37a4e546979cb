// C12: high_precision_timer under generated histories of set_callback/start/stop/sleep/clock jumps, with callbacks of generated durations.
// Oracle: the grid start + k x interval on the virtual clock; in exact-clock cases every execution and both counters are predicted.
#include "simcase.hpp"

#include <memory>
#include <string>
#include <future> // high_precision_timer.cpp relies on it
#include <teiacare/sdk/high_precision_timer.hpp>
#include <thread>

namespace pbt
{
const char* const rule = "a timer with a history of 2-16 set_callback, start, stop, sleep, clock jump and counter queries, callbacks lasting from nothing to several periods (exactly a period among them), "
                         "under a generated schedule; non-trivial = at least 3 executions and a restart, a stop, a jump or a callback of at least a period";
using ns_t = uint64_t;
static ns_t U = 1000;
enum Kind
{
    SLEEP,
    START,
    STOP,
    SETCB,
    JUMP,
    COUNTS,
    NK
};
static const char* kname[] = {"sleep", "start", "stop", "set_callback", "clock jump", "counts"};
struct Op
{
    Kind k;
    ns_t ns;
    int form;
};
struct Run
{
    ns_t b, e;
    bool done = false;
};
struct World
{
    tc::sdk::high_precision_timer* t = nullptr;
    bool exact = true;
    std::vector<ns_t> durations;
    size_t nth = 0;
    int version = 0; // of the callback
    int live = 0;
    // since the last start
    bool running = false, inside = false, closed = true;
    ns_t base_lo = 0, base_hi = 0, interval = 1;
    std::vector<Run> runs;
    std::vector<std::pair<ns_t, ns_t>> jumps;
};
struct Live
{
    World* w;
    std::vector<int> data;
    Live(World* w_, int v)
        : w(w_)
        , data{v, 2 * v}
    {
        sim::Quiet q;
        ++w->live;
    }
    Live(const Live& o)
        : w(o.w)
        , data(o.data)
    {
        sim::Quiet q;
        ++w->live;
    }
    ~Live()
    {
        sim::Quiet q;
        --w->live;
    }
};
static ns_t arrival(const World& w, ns_t d)
{
    for (auto& j : w.jumps)
        if (d > j.first && d < j.second)
            return j.second;
    return d;
}
static ns_t first_after(ns_t base, ns_t iv, ns_t t) // first grid point base + k*iv, k >= 1, later than t
{
    return t < base + iv ? base + iv : base + ((t - base) / iv + 1) * iv;
}
// due time of run i
static ns_t due(const World& w, size_t i)
{
    return i == 0 ? w.base_lo + w.interval : first_after(w.base_lo, w.interval, w.runs[i - 1].e);
}
static void fired(World& w, int version)
{
    ns_t d;
    size_t i;
    {
        sim::Quiet q;
        sim::event("callback begins", version);
        if (version != w.version)
            sim::fail("a replaced callback is invoked");
        if (w.closed)
            sim::fail("the callback is invoked of a stopped timer");
        if (w.inside)
            sim::fail("two callbacks run at once");
        w.inside = true;
        i = w.runs.size();
        w.runs.push_back({sim::now(), 0});
        const ns_t t = sim::now(), at = due(w, i);
        if (t < w.base_lo + w.interval)
            sim::fail(cat("the callback is invoked at ", t, " ns, started at ", w.base_lo, " with interval ", w.interval));
        if (w.exact && t != arrival(w, at))
            sim::fail(cat("the callback is invoked at ", t, " ns, due at ", at, " (started at ", w.base_lo, ", interval ", w.interval, ")"));
        // the grid lies somewhere between the clock's values at the call and the return of start()
        if (!w.exact && i && w.base_hi != INT64_MAX && t < first_after(w.base_hi, w.interval, w.runs[i - 1].e) - (w.base_hi - w.base_lo))
            sim::fail(cat("the callback is invoked at ", t, " ns, the one before ended at ", w.runs[i - 1].e, " (started at ", w.base_lo, " to ", w.base_hi, ", interval ", w.interval, ")"));
        d = w.durations[w.nth++ % w.durations.size()];
        if (w.runs.size() > 2000)
            sim::fail("too many callbacks");
    }
    if (d)
        sim::sleep_ns(d);
    else
        sim::yield();
    sim::Quiet q;
    w.inside = false;
    w.runs[i].e = sim::now();
    w.runs[i].done = true;
    sim::event("callback ends");
}
// everything that must have happened by now has, and nothing more
static void check(World& w, bool quiet, bool at_rest, ns_t from)
{
    const ns_t now = sim::now();
    size_t done = 0;
    for (auto& r : w.runs)
        done += r.done;
    if (w.exact && w.running && !w.inside)
    {
        const ns_t next = arrival(w, due(w, w.runs.size()));
        if (next < from || (quiet && next <= now))
            sim::fail(cat("the callback was due at ", next, " ns and is not invoked (started at ", w.base_lo, ", interval ", w.interval, ", ", w.runs.size(), " invoked)"));
    }
    if (!(quiet || at_rest))
        return;
    const uint64_t inv = w.t->invoked_callback_count(), mis = w.t->missed_callback_count();
    sim::event("  counts", (int64_t)inv, (int64_t)mis);
    if (inv != done)
        sim::fail(cat("invoked_callback_count() = ", inv, ", completed callbacks ", done));
    if (!done)
    {
        if (mis)
            sim::fail(cat("missed_callback_count() = ", mis, " before any callback"));
        return;
    }
    const ns_t last = w.runs[done - 1].e;
    const uint64_t lo = last < w.base_hi ? 0 : (last - w.base_hi) / w.interval;
    const uint64_t hi = ((w.exact ? last : now) - w.base_lo) / w.interval;
    if (inv + mis < lo || inv + mis > hi)
        sim::fail(cat(inv, " invoked + ", mis, " missed, grid points up to ", last, ": ", lo, lo == hi ? std::string() : cat(" to ", hi)));
}

void property_case(Src& src, Ctx& ctx)
{
    const bool exact = src.chance(4, 5);
    U = exact ? 1000 : 1000000;
    const int n = 2 + (int)src.below(15);
    std::vector<Op> ops;
    std::vector<ns_t> durations;
    // an exact clock does not care how long the periods are
    const ns_t base = U * (ns_t)src.pick(std::vector<int>{2, 1, 3, 5}) * (exact && src.chance(1, 3) ? src.chance(1, 2) ? 10007 : 86400003 : 1);
    bool vast = false;
    auto dur = [&]() -> ns_t {
        if (exact && src.chance(1, 80)) // more missed periods than eight or sixteen bits can count
        {
            const bool much = src.chance(1, 8);
            vast |= much;
            return base * (much ? 65500 + src.below(100) : 200 + src.below(200)) + src.below(3) - 1;
        }
        switch (src.weighted({5, 2, 2, 1, 2, 1, 2}))
        {
        case 6: // to just before, on or after a grid point, if the interval is the usual one
            return base * (1 + src.below(src.coin() ? 4 : 100)) + src.below(3) - 1;
        case 0:
            return 0;
        case 1:
            return base / 2;
        case 2:
            return base;
        case 3:
            return base - 1;
        case 4:
            return base / 2 * (1 + src.below(9));
        default:
            return base + 1 + src.below(3 * base);
        }
    };
    const int nd = 1 + (int)src.below(4);
    for (int i = 0; i < nd; ++i)
        durations.push_back(dur());
    for (int i = 0; i < n; ++i)
    {
        Op o;
        o.k = i == 0 ? (src.chance(1, 12) ? START : SETCB) : i == 1 ? (Kind)src.weighted({0, 8, 1, 1}) : (Kind)src.weighted({8, 2, 2, 1, 2, 3});
        o.form = (int)src.below(3);
        o.ns = 0;
        if (o.k == SLEEP || o.k == JUMP)
            o.ns = src.chance(1, 3) ? base * (1 + src.below(4)) : 1 + src.below(base * 5);
        if (o.k == START)
            o.ns = src.chance(2, 3) ? base : src.chance(1, 8) ? std::max(100000 * U, 30 * base) : 1 + base / 3 * src.below(6);
        if (o.k == START && o.ns < base / 10)
            o.ns = base / 10;
        ops.push_back(o);
    }
    const bool reader = src.chance(1, 4);
    sim::Config cfg = draw_schedule(src, ctx, exact);
    // Counting missed periods reads the clock once, and each reading costs time: that must stay below a period.
    cfg.noise_ns = std::min<uint64_t>(cfg.noise_ns, 100);
    cfg.stall_den = 0;
    if (vast)
        cfg.max_steps = 40000000;
    const std::vector<int64_t> wall = draw_wall_steps(src, ctx, ops.size(), U);
    ctx.notef("%s clock, callbacks last", exact ? "exact" : "noisy");
    for (auto d : durations)
        ctx.notef(" %llu", (unsigned long long)d);
    ctx.note("\n ");
    for (auto& o : ops)
    {
        ctx.notef(" %s", kname[o.k]);
        if (o.ns)
            ctx.notef("(%llu)", (unsigned long long)o.ns);
        ctx.note(";");
    }
    if (reader)
        ctx.note(" with a reader of the counters");
    ctx.note("\n");
    bool nontrivial = false;
    size_t total = 0;
    int events = 0;
    sim::run(cfg, [&] {
        World w;
        World* W = &w;
        w.exact = exact;
        w.durations = durations;
        w.t = new tc::sdk::high_precision_timer;
        bool has_callback = false, over = false;
        std::thread reading;
        if (reader)
            reading = std::thread([&] {
                uint64_t last = 0;
                for (int i = 0; i < 12; ++i)
                {
                    const uint64_t v = w.t->invoked_callback_count();
                    (void)w.t->missed_callback_count();
                    last = std::max(last, v);
                    sim::sleep_ns(base / 2 + 1);
                    sim::Quiet q;
                    if (over)
                        break;
                }
            });
        auto stop = [&](bool destroy) {
            ns_t from;
            {
                sim::Quiet q;
                from = sim::now();
                sim::event(destroy ? "destroy" : "stop");
                check(w, false, false, from);
            }
            const bool had = w.running;
            if (destroy)
                delete w.t;
            else
                w.t->stop();
            sim::Quiet q;
            sim::event("  returned");
            if (w.inside)
                sim::fail("a callback is still running after stop() returned");
            const ns_t to = sim::now();
            const ns_t limit = w.runs.empty() ? from : std::max(from, w.runs.back().e);
            if (exact && to > limit)
                sim::fail(cat("stop() took from ", from, " to ", to, " ns, the last callback ended at ", limit));
            w.closed = true;
            w.running = false;
            if (had && !destroy)
                check(w, false, true, from);
            events += had;
        };
        for (auto& o : ops)
        {
            if (const int64_t step = wall[&o - ops.data()])
                sim::wall_jump(step);
            switch (o.k)
            {
            case SETCB: {
                if (w.running)
                    stop(false); // the callback may not be replaced while it is used
                int v;
                {
                    sim::Quiet q;
                    v = ++w.version;
                    sim::event("set_callback", v);
                }
                has_callback = true;
                if (o.form == 0)
                    w.t->set_callback([W, v] { fired(*W, v); });
                else if (o.form == 1)
                {
                    int a = v;
                    Live l(W, v);
                    w.t->set_callback([W](int x, const Live& y) { { sim::Quiet q; if (y.data != std::vector<int>{x, 2 * x}) sim::fail("the callback did not get the arguments given"); } fired(*W, x); }, a, l);
                    a = -1;
                    l.data.clear();
                }
                else
                {
                    auto f = [W, l = Live(W, v)](const std::string& s) { { sim::Quiet q; if (s != cat("v", l.data[0])) sim::fail("the callback did not get the arguments given"); } fired(*W, l.data[0]); };
                    std::string s = "v" + std::to_string(v);
                    w.t->set_callback(f, s);
                    s = "changed";
                }
                break;
            }
            case START: {
                ns_t from;
                {
                    sim::Quiet q;
                    from = sim::now();
                    sim::event("start", (int64_t)o.ns);
                    if (w.running)
                        check(w, false, false, from);
                    events += w.running;
                }
                // a running timer stops first: until then the old grid holds
                const bool was = w.running && exact;
                if (w.running && !exact)
                    stop(false);
                {
                    sim::Quiet q;
                    from = sim::now();
                    if (has_callback && !was)
                    {
                        w.runs.clear();
                        w.closed = false;
                        w.interval = o.ns;
                        w.base_lo = from;
                        w.base_hi = INT64_MAX;
                    }
                }
                const bool r = w.t->start(std::chrono::nanoseconds(o.ns));
                sim::Quiet q;
                sim::event("  returned", r);
                if (r != has_callback)
                    sim::fail(cat("start() ", has_callback ? "with" : "without", " a callback returned ", r));
                if (!has_callback)
                    break;
                w.running = true;
                w.base_hi = sim::now();
                if (w.inside)
                    sim::fail("a callback of before is still running after start() returned");
                if (exact && w.base_hi != (was && !w.runs.empty() ? std::max(from, w.runs.back().e) : from))
                    sim::fail(cat("start() took from ", from, " to ", w.base_hi, " ns"));
                if (was)
                {
                    w.runs.clear();
                    w.interval = o.ns;
                    w.base_lo = w.base_hi;
                }
                if (w.t->invoked_callback_count() || w.t->missed_callback_count())
                    if (exact)
                        sim::fail("the counters are not zero after start()");
                break;
            }
            case STOP:
                stop(false);
                break;
            case SLEEP: {
                sim::sleep_ns(o.ns);
                break;
            }
            case JUMP: {
                if (!exact)
                    break;
                sim::quiesce();
                sim::Quiet q;
                const ns_t t = sim::now();
                sim::event("clock jump", (int64_t)o.ns);
                sim::advance(o.ns);
                w.jumps.push_back({t, t + o.ns});
                events += w.running;
                break;
            }
            default: {
                if (!exact)
                    break;
                sim::quiesce();
                sim::Quiet q;
                if (!w.inside)
                    check(w, true, false, sim::now());
            }
            }
            sim::Quiet q;
            total = std::max(total, w.runs.size());
        }
        {
            sim::Quiet q;
            over = true;
        }
        if (reading.joinable())
            reading.join();
        stop(true);
        sim::Quiet q;
        total = std::max(total, w.runs.size());
        if (sim::live_threads() > 1)
            sim::fail("the worker outlives the timer");
        if (w.live)
            sim::fail(cat(w.live, " arguments of the callback are still alive"));
    });
    bool slow = false;
    for (auto d : durations)
        slow |= d >= base;
    nontrivial = total >= 3 && (events > 0 || slow);
    ctx.label(exact ? "exact clock" : "noisy clock");
    ctx.nontrivial(nontrivial);
}
}
