// C22: timedelta against exact 128-bit integer arithmetic on nanoseconds.
#include "calendar.hpp"
#include "pbt.hpp"

#include <teiacare/sdk/datetime/timedelta.hpp>

#include <chrono>
#include <sstream>

namespace pbt
{
const char* const rule = "a duration (any sign, nanoseconds to ±292 years, biased to unit boundaries) and a generated chain of + - * / and comparisons; "
                         "non-trivial = negative or not a whole number of seconds, or a division that truncates, or a division by zero";
using namespace std::chrono;
using cal::i128;
static constexpr int64_t LIM = 9223372036854775000ll;

static int64_t gen(Src& src)
{
    static const std::vector<int64_t> unit = {1, 1000, 1000000, 1000000000, 60000000000, 3600000000000, 86400000000000, 2629746000000000, 31556952000000000};
    switch (src.below(5))
    {
    case 0:
        return src.range(-2000, 2000);
    case 1: {
        int64_t u = src.pick(unit);
        int64_t k = src.range(-200, 200), d = src.range(-2, 2);
        return k * u + d;
    }
    case 2: {
        int64_t s = 0;
        for (int64_t u : {1ll, 1000ll, 1000000ll, 1000000000ll, 60000000000ll, 3600000000000ll})
            if (src.coin())
                s += src.range(0, 999) * u;
        return src.coin() ? -s : s;
    }
    case 3:
        return src.spread(-LIM, LIM);
    default:
        return src.range(-LIM, LIM);
    }
}
static std::string text(int64_t ns, int digits)
{
    i128 a = ns < 0 ? -(i128)ns : (i128)ns;
    int64_t div = 1;
    for (int i = 0; i < 9 - digits; ++i)
        div *= 10;
    a = a / div * div;
    const bool neg = ns < 0 && a != 0;
    const int64_t secs = (int64_t)(a / cal::NS_S), sub = (int64_t)(a % cal::NS_S);
    std::string s = (neg ? "-" : "") + cal::pad(secs / 3600, 2) + ":" + cal::pad(secs / 60 % 60, 2) + ":" + cal::pad(secs % 60, 2);
    if (digits)
        s += "." + cal::pad(sub, 9).substr(0, (size_t)digits);
    return s;
}
static int64_t fl(int64_t a, int64_t b)
{
    return cal::fdiv(a, b);
}
static void same(const tc::sdk::timedelta& t, int64_t ns, const std::string& how)
{
    CHECK(t.total_nanoseconds().count() == ns, how, ": ", t.total_nanoseconds().count(), "ns, expected ", ns);
    CHECK(t.is_null() == (ns == 0), how, ": is_null() of ", ns, "ns");
    CHECK(t.total_microseconds().count() == ns / 1000, how, ": total_microseconds of ", ns);
    CHECK(t.total_milliseconds().count() == ns / 1000000, how, ": total_milliseconds of ", ns);
    CHECK(t.total_seconds().count() == ns / cal::NS_S, how, ": total_seconds of ", ns);
    CHECK(t.total_minutes().count() == ns / (60 * cal::NS_S), how, ": total_minutes of ", ns);
    CHECK(t.total_hours().count() == ns / (3600 * cal::NS_S), how, ": total_hours of ", ns);
    CHECK(t.total_days().count() == ns / cal::NS_DAY, how, ": total_days of ", ns);
    CHECK(t.total_months().count() == ns / (2629746 * cal::NS_S), how, ": total_months of ", ns);
    CHECK(t.total_years().count() == ns / (31556952 * cal::NS_S), how, ": total_years of ", ns);
    const int64_t hh = fl(ns, 3600 * cal::NS_S), mm = fl(ns, 60 * cal::NS_S), ss = fl(ns, cal::NS_S), ms = fl(ns, 1000000), us = fl(ns, 1000);
    CHECK(t.hours().count() == hh, how, ": hours of ", ns, " = ", t.hours().count());
    CHECK(t.minutes().count() == mm - hh * 60, how, ": minutes of ", ns, " = ", t.minutes().count());
    CHECK(t.seconds().count() == ss - mm * 60, how, ": seconds of ", ns, " = ", t.seconds().count());
    CHECK(t.milliseconds().count() == ms - ss * 1000, how, ": milliseconds of ", ns, " = ", t.milliseconds().count());
    CHECK(t.microseconds().count() == us - ms * 1000, how, ": microseconds of ", ns, " = ", t.microseconds().count());
    CHECK(t.nanoseconds().count() == ns - us * 1000, how, ": nanoseconds of ", ns, " = ", t.nanoseconds().count());
}

void property_case(Src& src, Ctx& ctx)
{
    bool nt = false;
    int64_t ns = gen(src);
    ctx.notef("%lldns", (long long)ns);
    tc::sdk::timedelta t;
    same(t, 0, "default");
    switch (src.below(5))
    {
    case 0:
        t = tc::sdk::timedelta(std::chrono::nanoseconds(ns));
        break;
    case 1: {
        const std::chrono::nanoseconds d(ns);
        t = tc::sdk::timedelta(d);
        break;
    }
    case 2: // as a sum of components of any sign
    {
        const hours h(ns / (3600 * cal::NS_S));
        int64_t r = ns % (3600 * cal::NS_S);
        const minutes m(r / (60 * cal::NS_S));
        r %= 60 * cal::NS_S;
        const seconds s(r / cal::NS_S);
        r %= cal::NS_S;
        const milliseconds ms(r / 1000000);
        r %= 1000000;
        const microseconds us(r / 1000);
        t = tc::sdk::timedelta(h, m, s, ms, us, std::chrono::nanoseconds(r % 1000));
        break;
    }
    case 3: {
        const hours h(src.range(-30, 30));
        const minutes m(src.range(-200, 200));
        const seconds s(src.range(-4000, 4000));
        ns = h.count() * 3600 * cal::NS_S + m.count() * 60 * cal::NS_S + s.count() * cal::NS_S;
        t = tc::sdk::timedelta(hours(h), minutes(m), seconds(s));
        same(t, ns, "from rvalue parts");
        t = tc::sdk::timedelta(h, m, s);
        ctx.notef(" = %lldns", (long long)ns);
        break;
    }
    default: {
        ns = src.range(-100000, 100000) * 1000000;
        ctx.notef(" = %lldns", (long long)ns);
        const milliseconds ms(ns / 1000000);
        t = tc::sdk::timedelta(ms);
    }
    }
    same(t, ns, "constructed");
    nt = ns < 0 || ns % cal::NS_S;
    CHECK(t.to_string() == text(ns, 3), "to_string() of ", ns, "ns = ", t.to_string(), ", expected ", text(ns, 3));
    CHECK(t.to_string<milliseconds>() == text(ns, 3), "to_string<ms>() of ", ns, "ns = ", t.to_string<milliseconds>());
    CHECK(t.to_string<seconds>() == text(ns, 0), "to_string<s>() of ", ns, "ns = ", t.to_string<seconds>(), ", expected ", text(ns, 0));
    CHECK(t.to_string<microseconds>() == text(ns, 6), "to_string<us>() of ", ns, "ns = ", t.to_string<microseconds>(), ", expected ", text(ns, 6));
    CHECK(t.to_string<std::chrono::nanoseconds>() == text(ns, 9), "to_string<ns>() of ", ns, "ns = ", t.to_string<std::chrono::nanoseconds>(), ", expected ", text(ns, 9));
    std::ostringstream os;
    os << t;
    CHECK(os.str() == t.to_string(), "operator<< prints ", os.str());
    const int steps = 1 + (int)src.below(5);
    for (int i = 0; i < steps; ++i)
    {
        tc::sdk::timedelta before;
        before = t;
        switch (src.below(5))
        {
        case 0:
        case 1: {
            const int64_t o = src.chance(1, 4) ? src.pick(std::vector<int64_t>{ns, ns == INT64_MIN ? 0 : -ns}) : gen(src);
            const bool minus = src.coin();
            const i128 r = minus ? (i128)ns - o : (i128)ns + o;
            if (r > LIM || r < -(i128)LIM)
                continue;
            ctx.notef(" %c %lldns", minus ? '-' : '+', (long long)o);
            const tc::sdk::timedelta ot{std::chrono::nanoseconds(o)};
            t = minus ? t - ot : t + ot;
            same(t, (int64_t)r, cat(ns, minus ? " - " : " + ", o));
            ns = (int64_t)r;
            break;
        }
        case 2: {
            const int64_t k = src.chance(1, 4) ? src.range(-100000, 100000) : src.range(-12, 12);
            const i128 r = (i128)ns * k;
            if (r > LIM || r < -(i128)LIM)
                continue;
            ctx.notef(" * %lld", (long long)k);
            t = t * k;
            same(t, (int64_t)r, cat(ns, " * ", k));
            ns = (int64_t)r;
            break;
        }
        case 3: {
            const int64_t k = src.chance(1, 4) ? src.spread(-LIM, LIM) : src.range(-12, 12);
            ctx.notef(" / %lld", (long long)k);
            if (k == 0)
            {
                bool threw = false;
                try
                {
                    const tc::sdk::timedelta z = t / k;
                    (void)z;
                }
                catch (const std::domain_error&)
                {
                    threw = true;
                }
                CHECK(threw, "division by zero did not throw std::domain_error");
                same(t, ns, "after a division by zero");
                nt = true;
                break;
            }
            t = t / k;
            same(t, ns / k, cat(ns, " / ", k));
            nt |= ns % k != 0;
            ns = ns / k;
            break;
        }
        default: {
            const int64_t o = src.chance(1, 2) ? ns + src.range(-1, 1) * (ns < LIM - 1 && ns > -LIM + 1) : gen(src);
            ctx.notef(" ? %lldns", (long long)o);
            const tc::sdk::timedelta ot{std::chrono::nanoseconds(o)};
            CHECK((t == ot) == (ns == o) && (t != ot) == (ns != o), "comparison of ", ns, "ns and ", o, "ns");
        }
        }
        (void)before;
    }
    ctx.label(nt ? "fractional/negative/truncating" : "whole");
    ctx.nontrivial(nt);
}
}
