// C14: rate_limiter and stopwatch on the virtual clock: loops with generated work, late frames, suspended machines and steps of the wall clock.
// Oracle: the grid t + n/r in exact integer arithmetic; clock differences.
#include "simcase.hpp"

#include <memory>
#include <teiacare/sdk/rate_limiter.hpp>
#include <teiacare/sdk/stopwatch.hpp>
#include <thread>

namespace pbt
{
const char* const rule = "1-3 rate limiters (1 to 1000000 per second) and 1-2 stopwatches used by 1-2 threads, 3-60 steps of work from nothing to several frames, sync, elapsed in 9 units, reset, clock jumps, "
                         "machine time up to years; non-trivial = a frame was waited for and a late one was not, or a stopwatch was read after a reset with a nonzero time";
using u64 = uint64_t;
using i64 = int64_t;
enum Kind
{
    WORK,
    JUMP,
    SYNC,
    ELAPSED,
    RESET,
    START_TIME
};
static const char* kname[] = {"work", "jump", "sync", "elapsed", "reset", "start_time"};
struct Op
{
    Kind k;
    int which = 0, unit = 0;
    u64 ns = 0;
    i64 wall = 0;
};
static const char* unames[] = {"ns", "us", "ms", "s", "min", "h", "1/3 s", "1001/30000 s", "elapsed()", "7 us"};
struct Limiter
{
    u64 rate, lo = 0, hi = 0, n = 0; // created between lo and hi
    tc::sdk::rate_limiter* r = nullptr;
};
struct Watch
{
    u64 lo = 0, hi = 0;
    bool was_reset = false;
    tc::sdk::stopwatch* s = nullptr;
};
static u64 grid(u64 n, u64 rate) // n/rate in ns, rounded down
{
    return (u64)((unsigned __int128)n * 1000000000u / rate);
}
static u64 since_epoch(tc::sdk::time_point t) { return (u64)std::chrono::duration_cast<std::chrono::nanoseconds>(t.time_since_epoch()).count(); }
template <class D>
static i64 in(tc::sdk::stopwatch& s)
{
    return s.elapsed<D>().count();
}
static i64 elapsed(tc::sdk::stopwatch& s, int unit)
{
    using R = tc::sdk::clock::rep;
    using namespace std::chrono;
    switch (unit)
    {
    case 0: return in<duration<R, std::nano>>(s);
    case 1: return in<duration<R, std::micro>>(s);
    case 2: return in<duration<R, std::milli>>(s);
    case 3: return in<duration<R>>(s);
    case 4: return in<duration<R, std::ratio<60>>>(s);
    case 5: return in<duration<R, std::ratio<3600>>>(s);
    case 6: return in<duration<R, std::ratio<1, 3>>>(s);
    case 7: return in<duration<R, std::ratio<1001, 30000>>>(s);
    case 9: return in<duration<R, std::ratio<7, 1000000>>>(s);
    default: return duration_cast<nanoseconds>(s.elapsed()).count();
    }
}
static i64 units(u64 ns, int unit)
{
    static const u64 num[] = {1, 1, 1, 1, 60, 3600, 1, 1001, 1, 7}, den[] = {1000000000, 1000000, 1000, 1, 1, 1, 3, 30000, 1000000000, 1000000};
    return (i64)((unsigned __int128)ns * den[unit] / ((unsigned __int128)1000000000 * num[unit]));
}

void property_case(Src& src, Ctx& ctx)
{
    const bool exact = src.chance(3, 4);
    const int nt = src.chance(1, 4) ? 2 : 1;
    const int nl = nt == 2 ? 2 : 1 + (int)src.below(3), nw = nt == 2 ? 2 : 1 + (int)src.below(2);
    std::vector<u64> rates;
    for (int i = 0; i < nl; ++i)
        rates.push_back((u64)(src.coin() ? src.pick(std::vector<int>{60, 30, 1, 3, 7, 24, 25, 100, 144, 1000, 1024, 44100, 999983, 1000000}) : src.weighted({1, 1}) ? 1 + (int)src.below(1000) : 1 + (int)src.below(1000000)));
    // how long the machine has been up
    const u64 uptime = src.chance(1, 2) ? 0 : src.coin() ? src.below(1000000) * 1000003ull : src.below(1u << 27) * 1000000007ull;
    std::vector<std::vector<Op>> prog((size_t)nt);
    for (int t = 0; t < nt; ++t)
    {
        const int n = 3 + (int)src.below(src.chance(1, 8) ? src.chance(1, 10) ? 700 : 58 : 18);
        for (int i = 0; i < n; ++i)
        {
            Op o;
            o.k = (Kind)src.weighted({5, 1, 7, 3, 1, 1});
            o.which = nt == 2 ? t : (int)src.below(o.k == SYNC ? nl : o.k >= ELAPSED ? nw : 1);
            const u64 frame = grid(1, rates[nt == 2 ? t : src.below(nl)]);
            if (o.k == WORK || o.k == JUMP)
                switch (src.weighted({2, 2, 3, 2, 1, 1}))
                {
                case 0: o.ns = src.below(1000); break;
                case 1: o.ns = frame / 2; break;
                case 2: o.ns = frame ? src.below((unsigned)std::min<u64>(frame, 4000000000u)) : 0; break;
                case 3: o.ns = frame * (1 + src.below(6)) + src.below(3); break;
                case 4: o.ns = frame ? frame - 1 : 0; break;
                default: o.ns = src.below(1u << 30) * (u64)src.pick(std::vector<int>{1, 1000, 86399, 86399999}) + src.below(2);
                }
            if (o.k == ELAPSED)
                o.unit = (int)src.below(10);
            prog[t].push_back(o);
        }
    }
    sim::Config cfg = draw_schedule(src, ctx, exact);
    cfg.noise_ns = std::min<u64>(cfg.noise_ns, 1000);
    for (auto& p : prog)
    {
        auto wall = draw_wall_steps(src, ctx, p.size(), 1000000);
        for (size_t i = 0; i < p.size(); ++i)
            p[i].wall = wall[i];
    }
    ctx.notef("%s clock, up for %llu ns, rates", exact ? "exact" : "noisy", (unsigned long long)uptime);
    for (auto r : rates)
        ctx.notef(" %llu", (unsigned long long)r);
    ctx.notef(", %d stopwatch(es)\n", nw);
    for (auto& p : prog)
    {
        ctx.note("  ");
        for (auto& o : p)
        {
            ctx.notef(" %s", kname[o.k]);
            if (o.k <= JUMP)
                ctx.notef("(%llu)", (unsigned long long)o.ns);
            else
                ctx.notef(" #%d", o.which);
            if (o.k == ELAPSED)
                ctx.notef(" %s", unames[o.unit]);
            ctx.note(";");
        }
        ctx.note("\n");
    }
    bool waited = false, late = false, reread = false;
    sim::run(cfg, [&] {
        sim::advance(uptime);
        std::vector<Limiter> ls;
        std::vector<Watch> ws((size_t)nw);
        for (auto r : rates)
        {
            Limiter l;
            l.rate = r;
            ls.push_back(l);
        }
        for (auto& l : ls)
        {
            {
                sim::Quiet q;
                l.lo = sim::now();
            }
            l.r = new tc::sdk::rate_limiter((size_t)l.rate);
            sim::Quiet q;
            l.hi = sim::now();
        }
        for (auto& s : ws)
        {
            {
                sim::Quiet q;
                s.lo = sim::now();
            }
            s.s = new tc::sdk::stopwatch;
            sim::Quiet q;
            s.hi = sim::now();
        }
        auto exec = [&](const Op& o) {
            u64 from;
            if (o.wall)
                sim::wall_jump(o.wall);
            {
                sim::Quiet q;
                from = sim::now();
                sim::event(kname[o.k], o.which, o.k == ELAPSED ? o.unit : (i64)o.ns);
            }
            switch (o.k)
            {
            case WORK:
                sim::sleep_ns(o.ns);
                break;
            case JUMP: {
                if (nt == 1)
                    sim::advance(o.ns);
                break;
            }
            case SYNC: {
                Limiter& l = ls[o.which];
                l.r->sync();
                sim::Quiet q;
                const u64 to = sim::now();
                ++l.n;
                sim::event("  returned, frame", (i64)l.n);
                // rounding: the library may keep time in double seconds or in nanoseconds
                const u64 tol = 2 + l.n + (u64)((double)to * 1e-15 * (double)l.n);
                const u64 at_lo = l.lo + grid(l.n, l.rate), at_hi = l.hi + grid(l.n, l.rate) + 1;
                if (to + tol < at_lo)
                    sim::fail(cat("sync ", l.n, " of the limiter with rate ", l.rate, " created at ", l.lo, " returned at ", to, " ns, its frame is at ", at_lo));
                if (exact)
                {
                    const u64 want = std::max(from, at_hi);
                    if (to > want + tol)
                        sim::fail(cat("sync ", l.n, " of the limiter with rate ", l.rate, " created at ", l.hi, " was called at ", from, " and returned at ", to, " ns, its frame is at ", at_hi));
                    waited |= to > from;
                    late |= to == from && from > at_hi;
                }
                break;
            }
            case ELAPSED: {
                Watch& s = ws[o.which];
                const i64 got = elapsed(*s.s, o.unit);
                sim::Quiet q;
                const u64 to = sim::now();
                const i64 lo = units(from - s.hi, o.unit), hi = units(to - s.lo, o.unit);
                if (got < lo || got > hi)
                    sim::fail(cat("elapsed<", unames[o.unit], "> of a stopwatch started at ", s.lo, " is ", got, " at ", to, " ns, not ", lo, lo == hi ? std::string() : cat(" to ", hi)));
                reread |= s.was_reset && got > 0;
                break;
            }
            case RESET: {
                Watch& s = ws[o.which];
                s.s->reset();
                sim::Quiet q;
                s.lo = from;
                s.hi = sim::now();
                s.was_reset = true;
                break;
            }
            case START_TIME: {
                Watch& s = ws[o.which];
                const u64 got = since_epoch(s.s->start_time());
                if (got < s.lo || got > s.hi)
                    sim::fail(cat("start_time() is ", got, " ns, the stopwatch was started at ", s.lo, " to ", s.hi));
                break;
            }
            }
        };
        if (nt == 1)
            for (auto& o : prog[0])
                exec(o);
        else
        {
            std::vector<std::thread> ts;
            for (auto& p : prog)
                ts.emplace_back([&] {
                    for (auto& o : p)
                        exec(o);
                });
            for (auto& t : ts)
                t.join();
        }
        for (auto& l : ls)
            delete l.r;
        for (auto& s : ws)
            delete s.s;
    });
    ctx.nontrivial((waited && late) || reread);
}
}
