// C19: date arithmetic, validity and decomposition against an independent calendar.
#include "calendar.hpp"
#include "pbt.hpp"

#include <teiacare/sdk/datetime/date.hpp>

#include <chrono>
#include <set>

namespace pbt
{
const char* const rule = "a date (any year -32767..32767, biased to month ends, leap days, century years and the epoch) built in a generated way, and a generated "
                         "chain of comparisons and timedelta shifts; non-trivial = a shift crosses a month or year boundary, or the date is invalid or within a day of a leap day";
using namespace std::chrono;
using cal::Civil;

static Civil gen_civil(Src& src, int64_t ylo, int64_t yhi)
{
    Civil c;
    switch (src.below(6))
    {
    case 0:
        c.y = src.range(1950, 2050);
        break;
    case 1:
        c.y = src.range(ylo, yhi);
        break;
    case 2:
        c.y = 100 * src.range(cal::fdiv(ylo, 100) + 1, cal::fdiv(yhi, 100) - 1);
        break;
    case 3:
        c.y = src.pick(std::vector<int64_t>{1969, 1970, 1971, 2000, 1900, 2100, 2024, 1677, 1678, 2262, 2263, 1, 0, -1, -4});
        break;
    case 4:
        c.y = 4 * src.range(cal::fdiv(ylo, 4) + 1, cal::fdiv(yhi, 4) - 1);
        break;
    default:
        c.y = src.coin() ? src.range(yhi - 3, yhi) : src.range(ylo, ylo + 3);
    }
    c.y = std::min(std::max(c.y, ylo), yhi);
    c.m = src.chance(1, 3) ? src.pick(std::vector<int>{2, 3, 12, 1}) : (int)src.range(1, 12);
    const int n = cal::dim(c.y, c.m);
    c.d = src.chance(1, 3) ? src.pick(std::vector<int>{1, n, n - 1}) : (int)src.range(1, n);
    return c;
}
static std::string show(const Civil& c)
{
    return cal::pad(c.y, 4) + "-" + cal::pad(c.m, 2) + "-" + cal::pad(c.d, 2);
}
static void same(const tc::sdk::date& d, Civil c, const char* how)
{
    const int64_t days = cal::to_days(c);
    CHECK((int)d.year() == c.y && (unsigned)d.month() == (unsigned)c.m && (unsigned)d.day() == (unsigned)c.d, how, ": expected ", show(c), ", got ",
          (int)d.year(), "-", (unsigned)d.month(), "-", (unsigned)d.day());
    CHECK(d.is_valid(), how, ": ", show(c), " reported invalid");
    CHECK(d.to_timepoint().time_since_epoch().count() == days, how, ": ", show(c), " is day ", days, ", to_timepoint says ", d.to_timepoint().time_since_epoch().count());
    const int wd = cal::weekday(days);
    CHECK((int)d.weekday().c_encoding() == wd, how, ": ", show(c), " weekday ", d.weekday().c_encoding(), " expected ", wd);
    CHECK((int)d.iso_weekday() == (wd == 0 ? 7 : wd), how, ": ", show(c), " iso weekday ", d.iso_weekday());
}

void property_case(Src& src, Ctx& ctx)
{
    bool interesting = false;
    if (src.chance(1, 5)) // validity of arbitrary components
    {
        const int y = (int)(src.chance(1, 2) ? src.range(1900, 2100) : src.range(-32767, 32767));
        const unsigned m = (unsigned)(src.chance(1, 3) ? src.below(256) : src.below(15));
        const unsigned d = (unsigned)(src.chance(1, 3) ? src.below(256) : src.range(27, 33));
        const bool ok = m >= 1 && m <= 12 && d >= 1 && (int)d <= cal::dim(y, (int)m);
        ctx.notef("date(%d,%u,%u) valid=%d\n", y, m, d, ok);
        ctx.nontrivial(!ok || (m == 2 && d >= 28));
        ctx.label("validity");
        const std::chrono::year yy(y);
        const std::chrono::month mm(m);
        const std::chrono::day dd(d);
        const tc::sdk::date a(yy, mm, dd);
        const tc::sdk::date b(year_month_day(yy, mm, dd));
        const year_month_day ymd(yy, mm, dd);
        const tc::sdk::date c(ymd);
        CHECK(a.is_valid() == ok, "is_valid() = ", a.is_valid(), " for ", y, "-", m, "-", d);
        CHECK(b.is_valid() == ok && c.is_valid() == ok, "is_valid() differs between constructors for ", y, "-", m, "-", d);
        CHECK(a == b && b == c && !(a != b), "the same components compare unequal");
        CHECK(a.year() == yy && a.month() == mm && a.day() == dd, "components are not the ones given");
        CHECK(!tc::sdk::date().is_valid(), "a default constructed date is valid");
        return;
    }
    const Civil c = gen_civil(src, -32700, 32700);
    const int64_t days = cal::to_days(c);
    const int how = (int)src.below(5);
    tc::sdk::date d;
    const bool ns_range = c.y > 1677 && c.y < 2262;
    int64_t tod = 0;
    switch (how)
    {
    case 0:
        d = tc::sdk::date(year((int)c.y), month((unsigned)c.m), day((unsigned)c.d));
        break;
    case 1:
        d = tc::sdk::date(year_month_day(year((int)c.y), month((unsigned)c.m), day((unsigned)c.d)));
        break;
    case 2:
    case 3:
        if (ns_range)
        {
            // any instant of the day, the first and last nanosecond included
            tod = src.chance(1, 2) ? src.pick(std::vector<int64_t>{0, 1, cal::NS_DAY - 1, cal::NS_DAY / 2}) : src.range(0, cal::NS_DAY - 1);
            const nanoseconds ns(days * cal::NS_DAY + tod);
            if (how == 2)
                d = tc::sdk::date(tc::sdk::sys_time_point(ns));
            else
                d = tc::sdk::date(ns);
            break;
        }
        [[fallthrough]];
    default: {
        const std::chrono::year y((int)c.y);
        const std::chrono::month m((unsigned)c.m);
        const std::chrono::day dd((unsigned)c.d);
        d = tc::sdk::date(y, m, dd);
    }
    }
    ctx.note("date " + show(c) + " how=" + std::to_string(how) + " tod=" + std::to_string(tod) + "\n");
    same(d, c, "constructed");
    if (c.m == 2 && c.d >= 28)
        interesting = true;
    // comparisons: with a date near or far
    {
        Civil e = src.chance(1, 3) ? c : (src.coin() ? cal::from_days(days + src.range(-400, 400)) : gen_civil(src, -32700, 32700));
        if (src.chance(1, 4)) // differ in one component only
        {
            e = c;
            if (src.coin())
                e.d = (int)src.range(1, cal::dim(e.y, e.m));
            else
                e.m = (int)src.range(1, 12), e.d = std::min(e.d, cal::dim(e.y, e.m));
        }
        ctx.note(" compare " + show(e) + "\n");
        const tc::sdk::date o(year((int)e.y), month((unsigned)e.m), day((unsigned)e.d));
        const int64_t od = cal::to_days(e);
        CHECK((d == o) == (days == od), "== of ", show(c), " and ", show(e));
        CHECK((d != o) == (days != od), "!= of ", show(c), " and ", show(e));
        CHECK((d < o) == (days < od), "< of ", show(c), " and ", show(e));
        CHECK((d > o) == (days > od), "> of ", show(c), " and ", show(e));
        if (std::abs(days - od) < 106000)
        {
            const auto diff = (d - o).total_nanoseconds().count();
            CHECK(diff == (days - od) * cal::NS_DAY, show(c), " - ", show(e), " = ", diff, "ns, expected ", days - od, " days");
            same(o + (d - o), c, "other + (this - other)");
            same(d - (d - o), e, "this - (this - other)");
        }
    }
    // a chain of shifts
    Civil cur = c;
    int steps = 1 + (int)src.below(4);
    for (int i = 0; i < steps; ++i)
    {
        int64_t ns;
        switch (src.below(6))
        {
        case 0:
            ns = src.range(-3, 3) * cal::NS_DAY;
            break;
        case 1:
            ns = src.range(-800, 800) * cal::NS_DAY;
            break;
        case 2:
            ns = src.range(-100000, 100000) * cal::NS_DAY;
            break;
        case 3: // not a whole number of days
            ns = src.range(-40, 40) * cal::NS_DAY + src.pick(std::vector<int64_t>{1, -1, 3600ll * cal::NS_S, cal::NS_DAY / 2, cal::NS_DAY - 1, 1 - cal::NS_DAY});
            break;
        case 4:
            ns = src.spread(-9000000000000000000ll, 9000000000000000000ll);
            break;
        default:
            ns = src.pick(std::vector<int64_t>{365, 366, -365, -366, 1461, 36524, 36525, -36524, 28, 29, 30, 31, -28, -29, -30, -31}) * cal::NS_DAY;
        }
        const bool minus = src.coin();
        const int64_t shift = cal::fdiv(minus ? -ns : ns, cal::NS_DAY);
        const int64_t target = cal::to_days(cur) + shift;
        Civil next = cal::from_days(target);
        if (next.y < -32700 || next.y > 32700)
            continue;
        ctx.notef(" %c %lldns\n", minus ? '-' : '+', (long long)ns);
        const tc::sdk::timedelta delta{nanoseconds(ns)};
        tc::sdk::date before;
        before = d;
        d = minus ? d - delta : d + delta;
        CHECK(before.to_timepoint().time_since_epoch().count() == cal::to_days(cur), "a shift changed its operand");
        same(d, next, cat(show(cur), minus ? " - " : " + ", ns, "ns").c_str());
        if (next.m != cur.m || next.y != cur.y)
            interesting = true;
        cur = next;
    }
    if (src.chance(1, 16))
    {
        const auto a = floor<std::chrono::days>(system_clock::now());
        const tc::sdk::date t = tc::sdk::date::today();
        const auto b = floor<std::chrono::days>(system_clock::now());
        CHECK(t.to_timepoint() >= a && t.to_timepoint() <= b && t.is_valid(), "today() is not today");
    }
    ctx.label(interesting ? "boundary" : "plain");
    ctx.nontrivial(interesting);
}
}
