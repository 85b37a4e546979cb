// C23/C24: datetime composition, decomposition and arithmetic (C23) and its text (C24), against an independent calendar.
#include "calendar.hpp"
#include "pbt.hpp"

#include <teiacare/sdk/datetime/datetime.hpp>

#include <chrono>
#include <sstream>

namespace pbt
{
#ifdef TEXT
const char* const rule = "an instant of the years 1678-2261 (half of them before 1970, many within a second of a boundary), a resolution and a format, or a damaged text; "
                         "non-trivial = before 1970 with sub-resolution digits, or a non-default format, or a rejected text";
#else
const char* const rule = "an instant of the years 1678-2261 composed in a generated way, then a chain of shifts, differences and comparisons; "
                         "non-trivial = before 1970, or a shift crosses a day boundary";
#endif
using namespace std::chrono;
using cal::Civil;
using cal::NS_DAY;
using cal::NS_S;
static const int64_t LO = cal::to_days({1678, 1, 1}), HI = cal::to_days({2261, 12, 31});

static int64_t gen_ns(Src& src)
{
    int64_t day;
    switch (src.below(4))
    {
    case 0:
        day = src.range(-800, 800);
        break;
    case 1:
        day = src.range(LO, HI);
        break;
    case 2: {
        const int64_t y = src.range(1678, 2261);
        const int m = src.pick(std::vector<int>{1, 2, 3, 12});
        day = cal::to_days({y, m, src.coin() ? 1 : cal::dim(y, m)});
        break;
    }
    default:
        day = src.range(10000, 25000);
    }
    int64_t tod;
    switch (src.below(4))
    {
    case 0:
        tod = src.range(0, NS_DAY - 1);
        break;
    case 1:
        tod = src.pick(std::vector<int64_t>{0, 1, NS_DAY - 1, NS_DAY - NS_S, NS_DAY / 2, 999999999, 1000000, 999999, 1000, 999});
        break;
    case 2:
        tod = src.range(0, 86399) * NS_S;
        break;
    default:
        tod = src.range(0, 86399) * NS_S + src.range(0, 999) * src.pick(std::vector<int64_t>{1000000, 1000, 1});
    }
    return day * NS_DAY + tod;
}
static std::string show(int64_t ns)
{
    const int64_t d = cal::fdiv(ns, NS_DAY);
    return cal::format("%FT%T", cal::from_days(d), ns - d * NS_DAY, 9);
}
#ifndef TEXT
static void same(const tc::sdk::datetime& t, int64_t ns, const std::string& how)
{
    CHECK(t.to_time_point().time_since_epoch().count() == ns, how, ": ", t.to_time_point().time_since_epoch().count(), "ns, expected ", ns, " (", show(ns), ")");
    CHECK(t.is_valid(), how, ": ", show(ns), " is not valid");
    const int64_t d = cal::fdiv(ns, NS_DAY), tod = ns - d * NS_DAY;
    const Civil c = cal::from_days(d);
    const tc::sdk::date dd = t.date();
    CHECK((int)dd.year() == c.y && (unsigned)dd.month() == (unsigned)c.m && (unsigned)dd.day() == (unsigned)c.d, how, ": date() of ", show(ns), " is ", (int)dd.year(), "-",
          (unsigned)dd.month(), "-", (unsigned)dd.day());
    const tc::sdk::time tt = t.time();
    CHECK(tt.to_duration().count() == tod, how, ": time() of ", show(ns), " is ", tt.to_duration().count(), "ns, expected ", tod);
    const tc::sdk::datetime back(dd, tt);
    CHECK(back == t && !(back != t), how, ": date() + time() of ", show(ns), " is another instant");
}

void property_case(Src& src, Ctx& ctx)
{
    int64_t ns = gen_ns(src);
    const int64_t day = cal::fdiv(ns, NS_DAY);
    int64_t tod = ns - day * NS_DAY;
    const Civil c = cal::from_days(day);
    const int how = (int)src.below(7);
    bool nt = ns < 0;
    tc::sdk::datetime t;
    CHECK(!t.is_valid(), "a default constructed datetime is valid");
    CHECK(!tc::sdk::datetime(tc::sdk::sys_time_point::max()).is_valid() && !tc::sdk::datetime(tc::sdk::sys_time_point::min()).is_valid(), "an extreme time point is valid");
    const year y((int)c.y);
    const month m((unsigned)c.m);
    const std::chrono::day d((unsigned)c.d);
    switch (how)
    {
    case 0: {
        const tc::sdk::sys_time_point tp{nanoseconds(ns)};
        t = tc::sdk::datetime(tp);
        break;
    }
    case 1:
        t = tc::sdk::datetime(tc::sdk::sys_time_point(nanoseconds(ns)));
        break;
    case 2:
        ns = day * NS_DAY;
        t = tc::sdk::datetime(tc::sdk::date(y, m, d));
        break;
    case 3:
        ns = tod;
        t = tc::sdk::datetime(tc::sdk::time(nanoseconds(tod)));
        break;
    case 4:
        t = tc::sdk::datetime(tc::sdk::date(y, m, d), tc::sdk::time(nanoseconds(tod)));
        break;
    case 5: // all components
        t = tc::sdk::datetime(y, m, d, hours(tod / NS_S / 3600), minutes(tod / NS_S / 60 % 60), seconds(tod / NS_S % 60), milliseconds(tod % NS_S / 1000000),
                              microseconds(tod % 1000000 / 1000), nanoseconds(tod % 1000));
        break;
    default: // components that carry into each other
    {
        const int64_t hh = src.range(0, 50), mm = src.range(0, 130), ss = src.range(0, 4000);
        ns = day * NS_DAY + (hh * 3600 + mm * 60 + ss) * NS_S;
        t = tc::sdk::datetime(y, m, d, hours(hh), minutes(mm), seconds(ss));
        nt = true;
    }
    }
    ctx.note("datetime " + show(ns) + " how=" + std::to_string(how));
    same(t, ns, "constructed");
    const int steps = 1 + (int)src.below(5);
    for (int i = 0; i < steps; ++i)
    {
        if (src.chance(1, 3))
        {
            const int64_t o = src.coin() ? ns + src.range(-1, 1) * src.pick(std::vector<int64_t>{1, NS_S, NS_DAY, 0}) : gen_ns(src);
            const cal::i128 diff = (cal::i128)ns - o;
            if (diff > INT64_MAX || diff < INT64_MIN)
                continue;
            ctx.note(" ? " + show(o));
            const tc::sdk::datetime ot{tc::sdk::sys_time_point(nanoseconds(o))};
            CHECK((t == ot) == (ns == o), "== of ", show(ns), " and ", show(o));
            CHECK((t != ot) == (ns != o), "!= of ", show(ns), " and ", show(o));
            CHECK((t < ot) == (ns < o), "< of ", show(ns), " and ", show(o));
            CHECK((t > ot) == (ns > o), "> of ", show(ns), " and ", show(o));
            CHECK((t - ot).total_nanoseconds().count() == (int64_t)diff, show(ns), " - ", show(o), " = ", (t - ot).total_nanoseconds().count(), "ns");
            same(ot + (t - ot), ns, "other + (this - other)");
            same(t - (t - ot), o, "this - (this - other)");
            continue;
        }
        const int64_t delta = src.coin() ? src.range(-400, 400) * src.pick(std::vector<int64_t>{NS_DAY, 3600 * NS_S, 60 * NS_S, NS_S, 1000000, 1000, 1}) : src.spread(-8000000000000000000ll, 8000000000000000000ll);
        const bool minus = src.coin();
        const cal::i128 r = minus ? (cal::i128)ns - delta : (cal::i128)ns + delta;
        if (r > (cal::i128)HI * NS_DAY || r < (cal::i128)LO * NS_DAY)
            continue;
        ctx.notef(" %c %lldns", minus ? '-' : '+', (long long)delta);
        const tc::sdk::timedelta td{nanoseconds(delta)};
        t = minus ? t - td : t + td;
        same(t, (int64_t)r, cat(show(ns), minus ? " - " : " + ", delta, "ns"));
        nt |= cal::fdiv(ns, NS_DAY) != cal::fdiv((int64_t)r, NS_DAY) || r < 0;
        ns = (int64_t)r;
    }
    if (src.chance(1, 64))
    {
        const auto a = system_clock::now();
        const tc::sdk::datetime n = tc::sdk::datetime::utc_now<nanoseconds>();
        const auto b = system_clock::now();
        CHECK(n.to_time_point() >= a && n.to_time_point() <= b, "utc_now<ns>() is not now");
        const tc::sdk::datetime ms = tc::sdk::datetime::utc_now();
        CHECK(ms.to_time_point().time_since_epoch().count() % 1000000 == 0, "utc_now() is not whole milliseconds");
    }
    ctx.label(ns < 0 ? "before 1970" : "after 1970");
    ctx.nontrivial(nt);
}
#else
template <class D>
static bool try_parse(const std::string& s, const std::string& f, tc::sdk::datetime& out)
{
    try
    {
        out = f.empty() ? tc::sdk::datetime::from_string<D>(s) : tc::sdk::datetime::from_string<D>(s, f);
        return true;
    }
    catch (const std::runtime_error&)
    {
        return false;
    }
}
static const int64_t RES[] = {NS_S, 1000000, 1000, 1};
static const int DIG[] = {0, 3, 6, 9};
static std::string str(const tc::sdk::datetime& t, int res, const std::string& f)
{
    switch (res)
    {
    case 0:
        return t.to_string<seconds>(f);
    case 1:
        return t.to_string<milliseconds>(f);
    case 2:
        return t.to_string<microseconds>(f);
    default:
        return t.to_string<nanoseconds>(f);
    }
}
static bool parse(int res, const std::string& s, const std::string& f, tc::sdk::datetime& out)
{
    switch (res)
    {
    case 0:
        return try_parse<seconds>(s, f, out);
    case 1:
        return try_parse<milliseconds>(s, f, out);
    case 2:
        return try_parse<microseconds>(s, f, out);
    default:
        return try_parse<nanoseconds>(s, f, out);
    }
}
static const std::vector<std::string> FIO = {"%FT%T", "%F %T", "%Y-%m-%dT%H:%M:%S", "%d/%m/%Y %H:%M:%S", "%Y%m%d %H%M%S", "%d %b %Y, %T", "%B %d, %Y at %H.%M.%S", "%T on %F"};
static const std::vector<std::string> FOUT = {"%F", "%T", "%a %F %R", "%A %d %B %Y", "%j", "%D %R", "%y%m%d", "%H", "%S", "%%%FT%T"};

void property_case(Src& src, Ctx& ctx)
{
    const int64_t ns = gen_ns(src);
    const int res = (int)src.below(4);
    const int64_t cut = cal::fdiv(ns, RES[res]) * RES[res];
    const int64_t day = cal::fdiv(cut, NS_DAY), tod = cut - day * NS_DAY;
    const tc::sdk::datetime t{tc::sdk::sys_time_point(nanoseconds(ns))};
    const Civil c = cal::from_days(day);
    ctx.note(show(ns) + " ");
    switch (src.below(5))
    {
    case 0: {
        const std::string f = src.coin() ? cal::gen_out(src, "FYmdbBhaAjDCyeuwUWGgVxTRHMSIprXcZz") : src.coin() ? src.pick(FIO) : src.pick(FOUT);
        ctx.notef("format at resolution %d with ", res);
        ctx.note(f);
        const std::string want = cal::format(f, c, tod, DIG[res]);
        const std::string got = str(t, res, f);
        CHECK(got == want, "to_string(", q(f), ") of ", show(ns), " at resolution ", res, " = ", q(got), ", expected ", q(want));
        const int64_t ms = cal::fdiv(ns, 1000000) * 1000000, msd = cal::fdiv(ms, NS_DAY);
        CHECK(t.to_string() == cal::format("%FT%T", cal::from_days(msd), ms - msd * NS_DAY, 3), "to_string() of ", show(ns), " = ", t.to_string());
        std::ostringstream os;
        os << t;
        CHECK(os.str() == t.to_string(), "operator<< prints ", os.str());
        ctx.label("format");
        ctx.nontrivial((ns < 0 && cut != ns) || f != "%FT%T");
        break;
    }
    case 1: {
        bool whole = false;
        std::string f = src.pick(FIO), offset;
        if (src.coin())
        {
            std::vector<std::string> v = cal::gen_time_fields(src, whole), d = cal::gen_date_fields(src, c);
            if (src.chance(1, 4))
                d.push_back("%Z");
            if (src.coin())
                v.swap(d);
            v.insert(v.end(), d.begin(), d.end());
            f = cal::join(src, v);
        }
        ctx.notef("round trip at resolution %d with ", res);
        ctx.note(f);
        const std::string s = cal::format(f, c, tod, DIG[res]);
        const int64_t want = whole ? cal::fdiv(cut, NS_S) * NS_S : cut;
        tc::sdk::datetime r;
        CHECK(parse(res, s, f, r), "from_string(", q(s), ", ", q(f), ") was rejected");
        CHECK(r.to_time_point().time_since_epoch().count() == want, "from_string(", q(s), ", ", q(f), ") = ", show(r.to_time_point().time_since_epoch().count()));
        {
            // the same moment in another place
            const int away = (int)src.range(-14 * 60, 14 * 60);
            const int64_t there = cut + away * 60 * NS_S, tday = cal::fdiv(there, NS_DAY);
            const std::string digits = cal::pad(std::abs(away) / 60, 2) + (src.coin() ? "" : ":") + cal::pad(std::abs(away) % 60, 2);
            const std::string zf = digits.size() == 5 ? "%FT%T%Ez" : "%FT%T%z";
            const std::string zs = cal::format("%FT%T", cal::from_days(tday), there - tday * NS_DAY, DIG[res]) + (away < 0 ? "-" : "+") + digits;
            if (src.chance(1, 4) && there > INT64_MIN + 2 * NS_DAY && there < INT64_MAX - 2 * NS_DAY)
            {
                CHECK(parse(res, zs, zf, r), "from_string(", q(zs), ", ", q(zf), ") was rejected");
                CHECK(r.to_time_point().time_since_epoch().count() == cut, "from_string(", q(zs), ", ", q(zf), ") = ", show(r.to_time_point().time_since_epoch().count()));
                ctx.label("offset");
                r = tc::sdk::datetime(tc::sdk::sys_time_point(nanoseconds(want)));
            }
        }
        tc::sdk::datetime r2;
        CHECK(parse(res, str(t, res, f), f, r2) && r2 == r, "from_string(to_string()) of ", q(str(t, res, f)), " is not the same instant");
        tc::sdk::datetime r3;
        CHECK(try_parse<milliseconds>(t.to_string(), "", r3) && r3.to_time_point().time_since_epoch().count() == cal::fdiv(ns, 1000000) * 1000000,
              "from_string(to_string()) of ", q(t.to_string()), " is not the same instant");
        ctx.label("round trip");
        ctx.nontrivial(ns < 0 || f != "%FT%T");
        break;
    }
    case 2: // fields, valid or not
    {
        if (src.chance(1, 4)) // by day of the year or by week
        {
            std::string of, txt;
            Civil want{};
            const bool ok = cal::gen_other_fields(src, c, of, txt, want) && want.y >= 1678 && want.y <= 2261;
            if (!ok && (want.y < 1678 || want.y > 2261))
                break;
            of += " %T";
            txt += cal::format(" %T", c, tod, DIG[res]);
            ctx.note("fields " + txt + " with " + of);
            tc::sdk::datetime r;
            const bool acc = parse(res, txt, of, r);
            CHECK(acc == ok, "from_string(", q(txt), ", ", q(of), ") was ", acc ? "accepted as " + r.to_string() : "rejected");
            if (ok)
                CHECK(r.to_time_point().time_since_epoch().count() == cal::to_days(want) * NS_DAY + tod, "from_string(", q(txt), ", ", q(of), ") = ",
                      show(r.to_time_point().time_since_epoch().count()));
            ctx.label(ok ? "valid week or day of the year" : "no such week or day of the year");
            ctx.nontrivial();
            break;
        }
        if (src.chance(1, 4)) // more fields for the time than needed, or fewer
        {
            std::string of, txt;
            const bool ok = cal::gen_clock_fields(src, tod, of, txt);
            const bool first = src.coin();
            of = first ? "%F " + of : of + " %F";
            txt = first ? cal::format("%F ", c, 0, 0) + txt : txt + cal::format(" %F", c, 0, 0);
            ctx.note("fields " + txt + " with " + of);
            tc::sdk::datetime r;
            const bool acc = try_parse<seconds>(txt, of, r);
            CHECK(acc == ok, "from_string(", q(txt), ", ", q(of), ") was ", acc ? "accepted as " + r.to_string() : "rejected");
            if (ok)
                CHECK(r.to_time_point().time_since_epoch().count() == day * NS_DAY + tod / NS_S * NS_S, "from_string(", q(txt), ", ", q(of), ") = ",
                      show(r.to_time_point().time_since_epoch().count()));
            ctx.label(ok ? "redundant fields" : "contradicting fields");
            ctx.nontrivial();
            break;
        }
        int mo = (int)(src.coin() ? c.m : src.range(0, 14)), d = (int)(src.coin() ? c.d : src.range(0, 33)), h = (int)src.range(0, src.coin() ? 23 : 30),
            mi = (int)src.range(0, src.coin() ? 59 : 70), s = (int)src.range(0, src.coin() ? 59 : 70);
        if (src.coin()) // at most one field is wrong, and only just
        {
            mo = c.m, d = c.d, h %= 24, mi %= 60, s %= 60;
            switch (src.below(7))
            {
            case 0: mo = src.pick(std::vector<int>{0, 13, 99}); break;
            case 1: d = src.pick(std::vector<int>{0, cal::dim(c.y, c.m) + 1, 29, 30, 31, 32}); break;
            case 2: h = src.pick(std::vector<int>{24, 25, 99}); break;
            case 3: mi = src.pick(std::vector<int>{60, 61, 99}); break;
            case 4:
            case 5: s = src.pick(std::vector<int>{60, 61, 62, 99}); break;
            default:;
            }
        }
        const int y = src.chance(1, 5) ? src.pick(std::vector<int>{(int)src.range(0, 9999), 1677, 2262, 1, 1600, 2300, 9999}) : c.y;
        bool ok = mo >= 1 && mo <= 12 && d >= 1 && d <= cal::dim(y, mo) && h < 24 && mi < 60 && s < 60;
        const std::string txt = cal::pad(y, 4) + "-" + cal::pad(mo, 2) + "-" + cal::pad(d, 2) + "T" + cal::pad(h, 2) + ":" + cal::pad(mi, 2) + ":" + cal::pad(s, 2);
        ctx.note("fields " + txt);
        if (ok && (y <= 1677 || y >= 2262))
        {
            // the first and the last day the clock can hold are incomplete
            const int64_t dd = cal::to_days({y, mo, d});
            if (dd == -106752 || dd == 106751)
                break;
            ok = dd > -106752 && dd < 106751;
            ctx.label("far years");
        }
        tc::sdk::datetime r;
        const bool acc = parse(res, txt, src.coin() ? "%FT%T" : "%Y-%m-%dT%H:%M:%S", r);
        CHECK(acc == ok, "from_string(", q(txt), ") was ", acc ? "accepted" : "rejected");
        if (ok)
            CHECK(r.to_time_point().time_since_epoch().count() == cal::to_days({y, mo, d}) * NS_DAY + (h * 3600ll + mi * 60 + s) * NS_S, "from_string(", q(txt), ") = ",
                  show(r.to_time_point().time_since_epoch().count()));
        ctx.label(ok ? "valid fields" : "invalid fields");
        ctx.nontrivial(!ok || ns < 0);
        break;
    }
    case 3: {
        const std::string f = src.pick(FIO);
        std::string s = cal::format(f, c, tod / NS_S * NS_S, 0);
        switch (src.below(3))
        {
        case 0:
            s = src.pick(std::vector<std::string>{"", "BOOM!", "x", "-", "now", "#", "2022-01-01Tnoon", "2022-13"});
            break;
        case 1:
            s = s.substr(0, src.below(s.size() - (f == "%T on %F" ? 4 : 2)));
            break;
        default:
            s.insert(0, src.pick(std::vector<std::string>{"x", "#", "("}));
        }
        ctx.note("damaged " + q(s) + " with " + f);
        tc::sdk::datetime r;
        CHECK(!parse(res, s, f, r), "from_string(", q(s), ", ", q(f), ") accepted as ", show(r.to_time_point().time_since_epoch().count()));
        ctx.label("damaged");
        ctx.nontrivial();
        break;
    }
    default: {
        const std::string f = src.pick(FIO);
        std::string s;
        // years stay in four digits: instants outside 1678-2261 are outside the domain
        static const char alpha[] = "0123456789-/T: .,JanFebat";
        s = src.coin() ? cal::format("%F", c, 0, 0) + "T" : "";
        while (src.more(8) && s.size() < 40)
            s += src.chance(1, 12) ? (char)src.below(256) : alpha[src.below(sizeof alpha - 1)];
        ctx.note("arbitrary " + q(s) + " with " + f);
        tc::sdk::datetime r, again;
        bool acc = try_parse<seconds>(s, "%Y-%m-%d", r);
        if (acc)
        {
            const std::string t = r.to_string<seconds>("%Y-%m-%d");
            CHECK(try_parse<seconds>(t, "%Y-%m-%d", again) && again == r, "parsed ", q(s), " to ", t, ", which parses to something else");
        }
        if (s.size() >= 5 && s.rfind(cal::pad(c.y, 4) + "-", 0) == 0)
        {
            acc = parse(res, s, "%FT%T", r);
            if (acc)
            {
                tc::sdk::datetime r2;
                CHECK(parse(res, str(r, res, "%FT%T"), "%FT%T", r2) && r2 == r, "parsed ", q(s), " to ", str(r, res, "%FT%T"), ", which parses to something else");
            }
            ctx.label(acc ? "arbitrary accepted" : "arbitrary rejected");
            ctx.nontrivial(s.size() > 11);
        }
    }
    }
}
#endif
}
