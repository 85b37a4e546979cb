// C20: date text: formatting against an independent formatter, round trip, rejection of what is not a date.
#include "calendar.hpp"
#include "pbt.hpp"

#include <teiacare/sdk/datetime/date.hpp>

#include <chrono>
#include <sstream>

namespace pbt
{
const char* const rule = "a date of the years 0-9999 and a format made of the supported specifiers, or a damaged/arbitrary text for a format; "
                         "non-trivial = the text is rejected, or the format is not the default, or the date is a month end or leap day";
using namespace std::chrono;
using cal::Civil;

static const std::vector<std::string> FORMATS = {"%F", "%Y-%m-%d", "%d/%m/%Y", "%m/%d/%Y", "%Y/%b/%d", "%Y-%B-%d", "%d.%m.%Y", "%d %b %Y", "%Y%m%d", "%B %d, %Y"};
static const std::vector<std::string> FORMATS_OUT = {"%a", "%A", "%D", "%m/%d/%y", "%Y", "%m", "%d", "%b", "%B", "%j", "%A %d %B %Y", "week: %a", "%%%F"};

static tc::sdk::date mk(Civil c)
{
    return tc::sdk::date(year((int)c.y), month((unsigned)c.m), day((unsigned)c.d));
}
static bool try_parse(const std::string& s, const std::string& f, tc::sdk::date& out)
{
    try
    {
        out = f.empty() ? tc::sdk::date::from_string(s) : tc::sdk::date::from_string(s, f);
        return true;
    }
    catch (const std::runtime_error&)
    {
        return false;
    }
}

void property_case(Src& src, Ctx& ctx)
{
    Civil c;
    switch (src.below(4))
    {
    case 0:
        c.y = src.range(1950, 2050);
        break;
    case 1:
        c.y = src.range(1, 9999);
        break;
    case 2:
        c.y = 100 * src.range(1, 99);
        break;
    default:
        c.y = src.pick(std::vector<int64_t>{1677, 1678, 2262, 2263, 1600, 3000, 9999, 1, 4, 1969, 1970, 2000, 2068, 2069});
    }
    c.m = (int)src.range(1, 12);
    const int n = cal::dim(c.y, c.m);
    c.d = src.chance(1, 2) ? src.pick(std::vector<int>{1, n, 9, 10}) : (int)src.range(1, n);
    if (src.chance(1, 6)) // where years and their weeks begin and end
    {
        c.m = src.coin() ? 1 : 12;
        c.d = c.m == 1 ? (int)src.range(1, 8) : (int)src.range(24, 31);
    }
    const tc::sdk::date d = mk(c);
    std::string f = src.pick(FORMATS);
    ctx.notef("date %lld-%d-%d ", (long long)c.y, c.m, c.d);
    switch (src.below(5))
    {
    case 0: // formatting
    {
        if (src.coin())
            f = src.pick(FORMATS_OUT);
        else if (src.coin())
            f = cal::gen_out(src, c.y >= 1000 && c.y <= 9998 ? "FYmdbBhaAjDCyeuwUWGgVx" : "FYmdbBhaAjDCyeuwUWx");
        ctx.note("format " + f + "\n");
        const std::string want = cal::format(f, c, 0, 0);
        const std::string got = d.to_string(f);
        CHECK(got == want, "to_string(", q(f), ") = ", q(got), ", expected ", q(want));
        CHECK(d.to_string() == cal::format("%F", c, 0, 0), "to_string() = ", q(d.to_string()));
        std::ostringstream os;
        os << d;
        CHECK(os.str() == d.to_string(), "operator<< prints ", q(os.str()));
        ctx.label("format");
        ctx.nontrivial(f != "%F");
        break;
    }
    case 1: // round trip
    {
        if (src.coin())
            f = cal::join(src, cal::gen_date_fields(src, c));
        ctx.note("round trip " + f + "\n");
        const std::string text = cal::format(f, c, 0, 0);
        tc::sdk::date r;
        CHECK(try_parse(text, f, r), "from_string(", q(text), ", ", q(f), ") was rejected");
        CHECK(r == d && r.is_valid(), "from_string(", q(text), ", ", q(f), ") = ", r.to_string());
        tc::sdk::date r2;
        CHECK(try_parse(d.to_string(f), f, r2) && r2 == d, "from_string(to_string()) of ", q(d.to_string(f)), " with ", q(f), " is not the same date");
        tc::sdk::date r3;
        CHECK(try_parse(d.to_string(), "", r3) && r3 == d, "from_string(to_string()) with the default format is not the same date");
        if (c.y >= 1969 && c.y <= 2068)
        {
            tc::sdk::date r4;
            CHECK(try_parse(d.to_string("%D"), "%D", r4) && r4 == d, "%D does not round trip: ", q(d.to_string("%D")), " -> ", r4.to_string());
            CHECK(try_parse(d.to_string("%m/%d/%y"), "%m/%d/%y", r4) && r4 == d, "%m/%d/%y does not round trip");
        }
        // a field more that says something else
        Civil o = c;
        std::string also = src.pick(std::vector<std::string>{"%a", "%A", "%u", "%w", "%j", "%U", "%W", "%V", "%m", "%b", "%d", "%Y", "%F", "%y", "%C%y", "%G"});
        if (c.y >= 1970 && c.y <= 2060 && src.chance(1, 6))
            also = "%g";
        o = cal::from_days(cal::to_days(c) + src.range(-800, 800));
        if (cal::format(also, o, 0, 0) != cal::format(also, c, 0, 0) && o.y > 0 && o.y < 10000)
        {
            const std::string bad = cal::format("%F ", c, 0, 0) + cal::format(also, o, 0, 0);
            CHECK(!try_parse(bad, "%F " + also, r), "from_string(", q(bad), ", ", q("%F " + also), ") = ", r.to_string());
        }
        ctx.label("round trip");
        ctx.nontrivial(f != "%F" || c.d >= 28);
        break;
    }
    case 2: // numeric fields that are not a calendar day, or are
    {
        if (src.chance(1, 3)) // by day of the year or by week
        {
            std::string of, text;
            Civil want{};
            const bool ok = cal::gen_other_fields(src, c, of, text, want);
            ctx.note("fields " + q(text) + " with " + of + "\n");
            tc::sdk::date r;
            const bool acc = try_parse(text, of, r);
            CHECK(acc == ok, "from_string(", q(text), ", ", q(of), ") was ", acc ? "accepted as " + r.to_string() : "rejected");
            if (ok)
                CHECK(r == mk(want), "from_string(", q(text), ", ", q(of), ") = ", r.to_string());
            ctx.label(ok ? "valid week or day of the year" : "no such week or day of the year");
            ctx.nontrivial();
            break;
        }
        const std::string nf = src.pick(std::vector<std::string>{"%F", "%d/%m/%Y", "%m/%d/%Y", "%Y-%m-%d", "%d.%m.%Y"});
        int m = (int)src.range(0, 14), day_ = (int)(src.coin() ? src.range(27, 33) : src.range(0, 40));
        if (src.chance(1, 8))
            day_ = (int)src.range(41, 99);
        const bool ok = m >= 1 && m <= 12 && day_ >= 1 && day_ <= cal::dim(c.y, m);
        std::string text;
        for (size_t i = 0; i < nf.size(); ++i)
        {
            if (nf[i] != '%')
            {
                text += nf[i];
                continue;
            }
            switch (nf[++i])
            {
            case 'F':
                text += cal::pad(c.y, 4) + "-" + cal::pad(m, 2) + "-" + cal::pad(day_, 2);
                break;
            case 'Y':
                text += cal::pad(c.y, 4);
                break;
            case 'm':
                text += cal::pad(m, 2);
                break;
            default:
                text += cal::pad(day_, 2);
            }
        }
        ctx.note("fields " + q(text) + " with " + nf + "\n");
        tc::sdk::date r;
        const bool acc = try_parse(text, nf, r);
        CHECK(acc == ok, "from_string(", q(text), ", ", q(nf), ") was ", acc ? "accepted" : "rejected");
        if (ok)
            CHECK((int)r.year() == c.y && (unsigned)r.month() == (unsigned)m && (unsigned)r.day() == (unsigned)day_, "from_string(", q(text), ") = ", r.to_string());
        ctx.label(ok ? "valid fields" : "invalid fields");
        ctx.nontrivial(!ok || day_ >= 28);
        break;
    }
    case 3: // damaged text: must be rejected
    {
        std::string text = cal::format(f, c, 0, 0);
        const int kind = (int)src.below(4);
        if (kind == 0)
            text = text.substr(0, src.below(text.size())); // truncated
        else if (kind == 1)
            text = src.pick(std::vector<std::string>{"", "BOOM!", "x", "-", "today", "#", "abcd-ef-gh"}) + "";
        else if (kind == 2)
        {
            size_t p = text.find_first_of("-/. ,");
            if (p != std::string::npos)
                text[p] = src.pick(std::vector<char>{'_', ':', '*', 'x', '\0'});
            else
                text[0] = 'x';
        }
        else
            text.insert(0, src.pick(std::vector<std::string>{"x", "#", "(", "d"}));
        // what remains of a truncated last field may still be a date
        if (kind == 0)
        {
            const size_t full = cal::format(f, c, 0, 0).size();
            const bool last_numeric_field = f.size() > 1 && (f.back() == 'd' || f.back() == 'Y' || f.back() == 'F' || f.back() == 'm');
            const size_t keep = f.back() == 'Y' ? 3 : 1;
            if (last_numeric_field && text.size() + keep >= full)
                break;
        }
        ctx.note("damaged " + q(text) + " with " + f + "\n");
        tc::sdk::date r;
        CHECK(!try_parse(text, f, r), "from_string(", q(text), ", ", q(f), ") accepted: ", r.to_string());
        ctx.label("damaged");
        ctx.nontrivial();
        break;
    }
    default: // arbitrary text: a valid date or std::runtime_error, nothing else
    {
        std::string text;
        static const char alpha[] = "0123456789-/ JanFebuy.,+%T:\t\n";
        if (src.chance(1, 2))
            f = cal::join(src, cal::gen_date_fields(src, c));
        if (src.chance(1, 3)) // nearly right
        {
            text = cal::format(f, c, 0, 0);
            for (int i = 1 + (int)src.below(2); i > 0 && !text.empty(); --i)
                text[src.below(text.size())] = alpha[src.below(sizeof alpha - 1)];
        }
        while (src.more(10) && text.size() < 40)
            text += src.chance(1, 12) ? (char)src.below(256) : alpha[src.below(sizeof alpha - 1)];
        ctx.note("arbitrary " + q(text) + " with " + f + "\n");
        tc::sdk::date r;
        const bool acc = try_parse(text, f, r);
        if (acc)
        {
            CHECK(r.is_valid(), "from_string(", q(text), ", ", q(f), ") returned an invalid date");
            const std::string again = r.to_string(f);
            tc::sdk::date r2;
            if ((int)r.year() >= 0 && (int)r.year() <= 9999)
            {
                CHECK(try_parse(again, f, r2), "parsed ", q(text), " to ", q(again), ", which does not parse");
                // %x keeps two digits of the year only
                const bool same = f.find("%x") == std::string::npos ? r2 == r : r2.to_string(f) == again;
                CHECK(same, "parsed ", q(text), " to ", q(again), ", which parses to something else");
            }
        }
        ctx.label(acc ? "arbitrary accepted" : "arbitrary rejected");
        ctx.nontrivial(text.size() > 2);
    }
    }
}
}
