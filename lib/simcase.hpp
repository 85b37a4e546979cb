// Drawing a schedule/clock configuration as part of a generated case.
#pragma once
#include "pbt.hpp"
#include "simrt.hpp"

namespace pbt
{
// exact_time: the clock moves only when nothing can run, so due times are hit exactly
inline sim::Config draw_schedule(Src& src, Ctx& ctx, bool exact_time)
{
    sim::Config c;
    switch (src.weighted({3, 4, 3, 1}))
    {
    case 0:
        c.strategy = 2;
        break;
    case 1:
        c.strategy = 0;
        c.preempt_den = (unsigned)src.pick(std::vector<int>{16, 6, 3, 2, 50});
        break;
    case 2:
        c.strategy = 1;
        c.depth = (int)src.below(6);
        c.est_steps = (unsigned)src.pick(std::vector<int>{60, 200, 600, 2000});
        break;
    default:
        c.strategy = 3;
    }
    c.access_den = (unsigned)src.pick(std::vector<int>{0, 0, 40, 10, 200});
    c.spurious_den = (unsigned)src.pick(std::vector<int>{0, 0, 0, 30, 8});
    c.ncpu = 4;
    c.noisy_time = !exact_time;
    if (c.noisy_time)
    {
        c.noise_ns = (uint64_t)src.pick(std::vector<int>{0, 20, 200, 5000, 100000});
        c.stall_den = (unsigned)src.pick(std::vector<int>{0, 100, 20, 6});
    }
    c.seed = src.below(1u << 30);
    ctx.notef("schedule{strategy=%d preempt=1/%u depth=%d accesses=1/%u spurious=1/%u noise=%lluns stall=1/%u seed=%llu}\n", c.strategy, c.preempt_den,
              c.depth, c.access_den, c.spurious_den, (unsigned long long)c.noise_ns, c.stall_den, (unsigned long long)c.seed);
    return c;
}
// steps of the wall clock before some of n operations (0 = none): nothing here may depend on it
inline std::vector<int64_t> draw_wall_steps(Src& src, Ctx& ctx, size_t n, uint64_t unit)
{
    std::vector<int64_t> r(n, 0);
    if (!src.chance(1, 5))
        return r;
    ctx.note("wall clock set:");
    for (size_t i = 0; i < n; ++i)
        if (src.chance(1, 3))
        {
            r[i] = src.coin() ? (int64_t)(unit * (1 + src.below(20))) : 3600000000000ll;
            if (src.coin())
                r[i] = -r[i];
            ctx.notef(" before %zu by %lld", i, (long long)r[i]);
        }
    ctx.note("\n");
    return r;
}
}
