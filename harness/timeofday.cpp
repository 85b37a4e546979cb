// C21: time of day: wrap-around, decomposition, arithmetic and text against exact integer arithmetic.
#include "calendar.hpp"
#include "pbt.hpp"

#include <teiacare/sdk/datetime/time.hpp>

#include <chrono>
#include <sstream>

namespace pbt
{
const char* const rule = "a time of day built from durations that may exceed a day or be negative, then a chain of shifts and comparisons, or a text to parse; "
                         "non-trivial = a sum wraps around midnight, is negative, or has sub-second digits, or a text is rejected";
using namespace std::chrono;
using cal::NS_DAY;
using cal::NS_S;

static int64_t gen(Src& src)
{
    switch (src.below(5))
    {
    case 0:
        return src.range(0, NS_DAY - 1);
    case 1:
        return src.range(0, 86399) * NS_S;
    case 2:
        return src.range(-3, 3) * NS_DAY + src.range(-2, 2);
    case 3:
        return src.range(-100000, 100000) * NS_DAY / 24 + src.range(-2, 2);
    default:
        return src.spread(-9000000000000000000ll, 9000000000000000000ll);
    }
}
static void same(const tc::sdk::time& t, int64_t ns, const std::string& how)
{
    CHECK(t.to_duration().count() == ns, how, ": ", t.to_duration().count(), "ns, expected ", ns);
    CHECK(t.is_valid(), how, ": ", ns, "ns is not valid");
    const int64_t a = ns < 0 ? -ns : ns;
    CHECK(t.hours().count() == a / NS_S / 3600, how, ": hours of ", ns, " = ", t.hours().count());
    CHECK(t.minutes().count() == a / NS_S / 60 % 60, how, ": minutes of ", ns, " = ", t.minutes().count());
    CHECK(t.seconds().count() == a / NS_S % 60, how, ": seconds of ", ns, " = ", t.seconds().count());
    CHECK(t.milliseconds().count() == a % NS_S / 1000000, how, ": milliseconds of ", ns, " = ", t.milliseconds().count());
    CHECK(t.microseconds().count() == a % NS_S / 1000, how, ": microseconds of ", ns, " = ", t.microseconds().count());
    CHECK(t.nanoseconds().count() == a % NS_S, how, ": nanoseconds of ", ns, " = ", t.nanoseconds().count());
}
template <class D>
static bool try_parse(const std::string& s, const std::string& f, tc::sdk::time& out)
{
    try
    {
        out = f.empty() ? tc::sdk::time::from_string<D>(s) : tc::sdk::time::from_string<D>(s, f);
        return true;
    }
    catch (const std::runtime_error&)
    {
        return false;
    }
}
static const int64_t RES[] = {3600 * NS_S, 60 * NS_S, NS_S, 1000000, 1000, 1};
static const int DIG[] = {0, 0, 0, 3, 6, 9};
static std::string str(const tc::sdk::time& t, int res, const std::string& f)
{
    switch (res)
    {
    case 0:
        return t.to_string<hours>(f);
    case 1:
        return t.to_string<minutes>(f);
    case 2:
        return t.to_string<seconds>(f);
    case 3:
        return t.to_string<milliseconds>(f);
    case 4:
        return t.to_string<microseconds>(f);
    default:
        return t.to_string<nanoseconds>(f);
    }
}
static bool parse(int res, const std::string& s, const std::string& f, tc::sdk::time& out)
{
    switch (res)
    {
    case 0:
        return try_parse<hours>(s, f, out);
    case 1:
        return try_parse<minutes>(s, f, out);
    case 2:
        return try_parse<seconds>(s, f, out);
    case 3:
        return try_parse<milliseconds>(s, f, out);
    case 4:
        return try_parse<microseconds>(s, f, out);
    default:
        return try_parse<nanoseconds>(s, f, out);
    }
}

static void arithmetic(Src& src, Ctx& ctx)
{
    bool nt = false;
    int64_t raw = gen(src);
    tc::sdk::time t;
    CHECK(!t.is_valid(), "a default constructed time is valid");
    const int how = (int)src.below(4);
    switch (how)
    {
    case 0:
        t = tc::sdk::time(nanoseconds(raw));
        break;
    case 1: {
        const nanoseconds d(raw);
        t = tc::sdk::time(d);
        break;
    }
    case 2: {
        const hours h(src.range(0, 60));
        const minutes m(src.range(0, 300));
        const seconds s(src.range(-100, 7200));
        raw = (h.count() * 3600 + m.count() * 60 + s.count()) * NS_S;
        t = tc::sdk::time(h, m, s);
        break;
    }
    default: {
        const hours h(src.range(0, 23));
        const minutes m(src.range(0, 59));
        const seconds s(src.range(0, 59));
        const milliseconds ms(src.range(0, 999));
        const microseconds us(src.range(0, 999));
        const nanoseconds ns(src.range(0, 999));
        raw = (h.count() * 3600 + m.count() * 60 + s.count()) * NS_S + ms.count() * 1000000 + us.count() * 1000 + ns.count();
        t = tc::sdk::time(hours(h), minutes(m), seconds(s), milliseconds(ms), microseconds(us), nanoseconds(ns));
    }
    }
    int64_t ns = raw % NS_DAY;
    ctx.notef("time(%lldns) how=%d", (long long)raw, how);
    same(t, ns, "constructed");
    nt |= raw != ns || ns < 0 || ns % NS_S;
    const int steps = 1 + (int)src.below(5);
    for (int i = 0; i < steps; ++i)
    {
        if (src.chance(1, 3))
        {
            int64_t o = src.chance(1, 2) ? ns + src.range(-1, 1) : gen(src);
            o %= NS_DAY;
            ctx.notef(" ? %lldns", (long long)o);
            const tc::sdk::time ot{nanoseconds(o)};
            CHECK((t == ot) == (ns == o), "== of ", ns, " and ", o);
            CHECK((t != ot) == (ns != o), "!= of ", ns, " and ", o);
            CHECK((t < ot) == (ns < o), "< of ", ns, " and ", o);
            CHECK((t > ot) == (ns > o), "> of ", ns, " and ", o);
            CHECK((t - ot).total_nanoseconds().count() == ns - o, ns, " - ", o, " = ", (t - ot).total_nanoseconds().count());
            CHECK((t + ot).total_nanoseconds().count() == ns + o, ns, " + ", o, " = ", (t + ot).total_nanoseconds().count());
            tc::sdk::time back = ot + (t - ot);
            CHECK(back == t, "other + (this - other) is not this: ", ns, ", ", o);
            continue;
        }
        const int64_t d = gen(src);
        const bool minus = src.coin();
        const cal::i128 sum = minus ? (cal::i128)ns - d : (cal::i128)ns + d;
        if (sum > INT64_MAX || sum < INT64_MIN)
            continue;
        ctx.notef(" %c %lldns", minus ? '-' : '+', (long long)d);
        const tc::sdk::timedelta td{nanoseconds(d)};
        t = minus ? t - td : t + td;
        const int64_t r = (int64_t)(sum % NS_DAY);
        same(t, r, cat(ns, minus ? " - " : " + ", d));
        nt |= r != sum || r < 0;
        ns = r;
    }
    ctx.label("arithmetic");
    ctx.nontrivial(nt);
}

static void text(Src& src, Ctx& ctx)
{
    const int res = (int)src.below(6);
    int64_t ns = gen(src) % NS_DAY;
    if (ns < 0)
        ns = -ns;
    static const std::vector<std::string> FT = {"%T", "%H:%M:%S", "%H.%M.%S", "%S %M %H", "h=%H m=%M s=%S", "%H%M%S"};
    static const std::vector<std::string> FO = {"%R", "%H", "%M", "%S", "%H:%M", "at %T", "%%%H"};
    tc::sdk::time t{nanoseconds(ns)};
    const int64_t cut = ns / RES[res] * RES[res];
    switch (src.below(4))
    {
    case 0: {
        const std::string f = src.coin() ? cal::gen_out(src, "TRHMSIprX") : src.coin() ? src.pick(FT) : src.pick(FO);
        ctx.notef("format %lldns at resolution %d with ", (long long)ns, res);
        ctx.note(f);
        const std::string want = cal::format(f, {2000, 1, 1}, cut, DIG[res]);
        const std::string got = str(t, res, f);
        CHECK(got == want, "to_string(", q(f), ") of ", ns, "ns at resolution ", res, " = ", q(got), ", expected ", q(want));
        CHECK(t.to_string() == cal::format("%T", {2000, 1, 1}, ns / 1000000 * 1000000, 3), "to_string() of ", ns, "ns = ", t.to_string());
        std::ostringstream os;
        os << t;
        CHECK(os.str() == t.to_string(), "operator<< prints ", os.str());
        // negative times print as the exact negative (whole multiples only)
        if (cut)
        {
            const tc::sdk::time n{nanoseconds(-cut)};
            CHECK(str(n, res, "%T") == "-" + cal::format("%T", {2000, 1, 1}, cut, DIG[res]), "to_string of ", -cut, "ns = ", str(n, res, "%T"));
        }
        ctx.label("format");
        ctx.nontrivial(ns % NS_S != 0 || f != "%T");
        break;
    }
    case 1: // round trip
    {
        std::string f = src.pick(FT);
        bool whole = false;
        if (src.coin())
            f = cal::join(src, cal::gen_time_fields(src, whole));
        const int rr = res < 2 ? 2 : res;
        const int64_t c2 = ns / RES[whole ? 2 : rr] * RES[whole ? 2 : rr];
        ctx.notef("round trip %lldns at resolution %d with ", (long long)ns, rr);
        ctx.note(f);
        if (f == "%S %M %H" || f == "%H%M%S" || f == "%H.%M.%S" || f == "h=%H m=%M s=%S")
            ctx.label("custom format");
        const std::string s = cal::format(f, {2000, 1, 1}, c2, DIG[rr]);
        tc::sdk::time r;
        CHECK(parse(rr, s, f, r), "from_string(", q(s), ", ", q(f), ") was rejected");
        same(r, c2, cat("from_string(", q(s), ", ", q(f), ")"));
        CHECK(parse(rr, str(t, rr, f), f, r), "from_string(to_string()) was rejected: ", q(str(t, rr, f)));
        same(r, c2, cat("from_string(to_string()) with ", q(f)));
        CHECK(try_parse<milliseconds>(t.to_string(), "", r), "from_string(to_string()) was rejected: ", q(t.to_string()));
        same(r, ns / 1000000 * 1000000, cat("from_string(to_string()) of ", q(t.to_string())));
        CHECK(try_parse<minutes>(t.to_string<minutes>("%R"), "%R", r), "%R was rejected");
        same(r, ns / RES[1] * RES[1], "from_string(to_string()) with %R");
        ctx.label("round trip");
        ctx.nontrivial(c2 % NS_S != 0 || f != "%T");
        break;
    }
    case 2: // fields out of range
    {
        if (src.chance(1, 3)) // more fields than needed, or fewer
        {
            std::string of, txt;
            const bool ok = cal::gen_clock_fields(src, ns, of, txt);
            ctx.note("fields " + q(txt) + " with " + of);
            tc::sdk::time r;
            const bool acc = try_parse<seconds>(txt, of, r);
            CHECK(acc == ok, "from_string(", q(txt), ", ", q(of), ") was ", acc ? "accepted as " + r.to_string() : "rejected");
            if (ok)
                same(r, ns / NS_S * NS_S, cat("from_string(", q(txt), ", ", q(of), ")"));
            ctx.label(ok ? "redundant fields" : "contradicting fields");
            ctx.nontrivial();
            break;
        }
        const int h = (int)(src.coin() ? src.range(0, 23) : src.range(20, 99)), m = (int)(src.coin() ? src.range(0, 59) : src.range(55, 99)),
                  s = (int)(src.coin() ? src.range(0, 59) : src.range(55, 99));
        const bool ok = h < 24 && m < 60 && s < 60;
        const std::string txt = cal::pad(h, 2) + ":" + cal::pad(m, 2) + ":" + cal::pad(s, 2);
        ctx.note("fields " + txt);
        // fields beyond their range may be rejected, or carry over and wrap around as durations given to the constructor do
        tc::sdk::time r;
        const bool acc = try_parse<seconds>(txt, src.coin() ? "%T" : "%H:%M:%S", r);
        CHECK(acc || !ok, "from_string(", q(txt), ") was rejected");
        if (acc)
            same(r, (h * 3600ll + m * 60 + s) * NS_S % NS_DAY, "from_string(" + q(txt) + ")");
        ctx.label(ok ? "valid fields" : "invalid fields");
        ctx.nontrivial(!ok);
        break;
    }
    default: // damaged or arbitrary text
    {
        const std::string f = src.pick(FT);
        std::string s = cal::format(f, {2000, 1, 1}, ns / NS_S * NS_S, 0);
        bool must_reject = true;
        switch (src.below(4))
        {
        case 0:
            s = src.pick(std::vector<std::string>{"", "BOOM!", "x", ":", "noon", "ab:cd:ef", "#"});
            break;
        case 1:
            s = s.substr(0, src.below(s.size() - 2));
            must_reject = f != "%H%M%S";
            break;
        case 2:
            s.insert(0, src.pick(std::vector<std::string>{"x", "#", "("}));
            break;
        default: {
            must_reject = false;
            s.clear();
            static const char alpha[] = "0123456789:. hms=-+\t";
            while (src.more(8) && s.size() < 30)
                s += src.chance(1, 12) ? (char)src.below(256) : alpha[src.below(sizeof alpha - 1)];
        }
        }
        ctx.note("text " + q(s) + " with " + f);
        tc::sdk::time r;
        const bool acc = parse(res, s, f, r);
        CHECK(!(acc && must_reject), "from_string(", q(s), ", ", q(f), ") accepted as ", r.to_duration().count(), "ns");
        if (acc)
            CHECK(r.is_valid() && r.to_duration() < hours(24) && r.to_duration() > -hours(24), "from_string(", q(s), ") returned an invalid time");
        ctx.label(acc ? "arbitrary accepted" : "rejected");
        ctx.nontrivial();
    }
    }
}

void property_case(Src& src, Ctx& ctx)
{
    if (src.coin())
        arithmetic(src, ctx);
    else
        text(src, ctx);
    if (src.chance(1, 64))
    {
        const auto tod = [] { return (system_clock::now().time_since_epoch() % hours(24)); };
        const auto a = tod();
        const tc::sdk::time n = tc::sdk::time::utc_now<nanoseconds>();
        const auto b = tod();
        if (a <= b)
            CHECK(n.to_duration() >= a && n.to_duration() <= b, "utc_now<ns>() is not now");
        const tc::sdk::time s = tc::sdk::time::utc_now<seconds>();
        CHECK(s.to_duration().count() % NS_S == 0 && s.is_valid(), "utc_now<s>() has sub-second digits");
    }
}
}
