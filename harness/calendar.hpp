// Independent proleptic Gregorian calendar (year table arithmetic, no std::chrono), used as the date oracle.
#pragma once
#include <algorithm>
#include <cstdint>
#include <string>
#include <vector>

namespace cal
{
using i128 = __int128;
constexpr int64_t NS_S = 1000000000ll, NS_DAY = 86400ll * NS_S;

inline int64_t fdiv(int64_t a, int64_t b)
{
    int64_t q = a / b, r = a % b;
    return (r != 0 && ((r < 0) != (b < 0))) ? q - 1 : q;
}
inline int64_t fmod_(int64_t a, int64_t b)
{
    return a - fdiv(a, b) * b;
}
inline bool leap(int64_t y)
{
    if (fmod_(y, 400) == 0)
        return true;
    if (fmod_(y, 100) == 0)
        return false;
    return fmod_(y, 4) == 0;
}
inline int dim(int64_t y, int m)
{
    static const int d[12] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
    return m == 2 && leap(y) ? 29 : d[m - 1];
}
inline int64_t days_before_year(int64_t y) // days from 0001-01-01 to y-01-01
{
    const int64_t p = y - 1;
    return p * 365 + fdiv(p, 4) - fdiv(p, 100) + fdiv(p, 400);
}
struct Civil
{
    int64_t y;
    int m, d;
    bool operator==(const Civil&) const = default;
};
inline int64_t to_days(Civil c) // since 1970-01-01
{
    int64_t n = days_before_year(c.y) - days_before_year(1970);
    for (int m = 1; m < c.m; ++m)
        n += dim(c.y, m);
    return n + c.d - 1;
}
inline Civil from_days(int64_t n)
{
    int64_t y = 1970 + fdiv(n, 366) - 2;
    while (days_before_year(y + 1) - days_before_year(1970) <= n)
        ++y;
    while (days_before_year(y) - days_before_year(1970) > n)
        --y;
    int64_t r = n - (days_before_year(y) - days_before_year(1970));
    int m = 1;
    while (r >= dim(y, m))
        r -= dim(y, m++);
    return {y, m, (int)r + 1};
}
inline int weekday(int64_t days) // 0 = Sunday
{
    return (int)fmod_(days + 4, 7); // 1970-01-01 was a Thursday
}
inline std::string pad(int64_t v, int w)
{
    std::string s = std::to_string(v < 0 ? -v : v);
    while ((int)s.size() < w)
        s = "0" + s;
    return (v < 0 ? "-" : "") + s;
}
static const char* const MON[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"};
static const char* const MONTH[] = {"January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"};
static const char* const DAY[] = {"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"};
static const char* const WDAY[] = {"Sunday", "Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday"};

// time of day in ns -> text; digits = number of sub-second digits
inline std::string hms(int64_t ns, int digits)
{
    std::string s = pad(ns / NS_S / 3600, 2) + ":" + pad(ns / NS_S / 60 % 60, 2) + ":" + pad(ns / NS_S % 60, 2);
    if (digits)
        s += "." + pad(ns % NS_S, 9).substr(0, (size_t)digits);
    return s;
}
// ISO 8601 week: the weeks begin on Monday, week 1 holds the year's first Thursday
inline int64_t iso_year(Civil c)
{
    const int64_t n = to_days(c);
    return from_days(n - fmod_(weekday(n) + 6, 7) + 3).y; // the year of this week's Thursday
}
inline int iso_week(Civil c)
{
    const int64_t n = to_days(c), thursday = n - fmod_(weekday(n) + 6, 7) + 3;
    return (int)((thursday - to_days({iso_year(c), 1, 1})) / 7) + 1;
}
// days since the last `first` (0 = Sunday) weeks, counted from the year's first such day: %U and %W
inline int week_from(Civil c, int first)
{
    const int64_t yday = to_days(c) - to_days({c.y, 1, 1}), wday = fmod_(weekday(to_days(c)) - first, 7);
    return (int)((yday + 7 - wday) / 7);
}
// the format specifiers the library's users rely on
inline std::string format(const std::string& f, Civil c, int64_t tod_ns, int digits)
{
    std::string o;
    for (size_t i = 0; i < f.size(); ++i)
    {
        if (f[i] != '%' || i + 1 == f.size())
        {
            o += f[i];
            continue;
        }
        switch (f[++i])
        {
        case 'F':
            o += pad(c.y, 4) + "-" + pad(c.m, 2) + "-" + pad(c.d, 2);
            break;
        case 'D':
            o += pad(c.m, 2) + "/" + pad(c.d, 2) + "/" + pad(fmod_(c.y, 100), 2);
            break;
        case 'Y':
            o += pad(c.y, 4);
            break;
        case 'y':
            o += pad(fmod_(c.y, 100), 2);
            break;
        case 'm':
            o += pad(c.m, 2);
            break;
        case 'd':
            o += pad(c.d, 2);
            break;
        case 'b':
            o += MON[c.m - 1];
            break;
        case 'B':
            o += MONTH[c.m - 1];
            break;
        case 'a':
            o += DAY[weekday(to_days(c))];
            break;
        case 'A':
            o += WDAY[weekday(to_days(c))];
            break;
        case 'j': {
            o += pad(to_days(c) - to_days({c.y, 1, 1}) + 1, 3);
            break;
        }
        case 'T':
            o += hms(tod_ns, digits);
            break;
        case 'R':
            o += hms(tod_ns, 0).substr(0, 5);
            break;
        case 'H':
            o += pad(tod_ns / NS_S / 3600, 2);
            break;
        case 'M':
            o += pad(tod_ns / NS_S / 60 % 60, 2);
            break;
        case 'S':
            o += hms(tod_ns, digits).substr(6);
            break;
        case '%':
            o += '%';
            break;
        case 'n':
            o += '\n';
            break;
        case 't':
            o += '\t';
            break;
        case 'C':
            o += pad(fdiv(c.y, 100), 2);
            break;
        case 'e':
            o += (c.d < 10 ? " " : "") + std::to_string(c.d);
            break;
        case 'h':
            o += MON[c.m - 1];
            break;
        case 'G':
            o += pad(iso_year(c), 4);
            break;
        case 'g':
            o += pad(fmod_(iso_year(c), 100), 2);
            break;
        case 'V':
            o += pad(iso_week(c), 2);
            break;
        case 'U':
            o += pad(week_from(c, 0), 2);
            break;
        case 'W':
            o += pad(week_from(c, 1), 2);
            break;
        case 'u':
            o += std::to_string(fmod_(weekday(to_days(c)) + 6, 7) + 1);
            break;
        case 'w':
            o += std::to_string(weekday(to_days(c)));
            break;
        case 'x':
            o += format("%m/%d/%y", c, tod_ns, 0);
            break;
        case 'X':
            o += hms(tod_ns, 0);
            break;
        case 'c':
            o += format("%a %b %e %T %Y", c, tod_ns, 0);
            break;
        case 'I':
            o += pad((tod_ns / NS_S / 3600 + 11) % 12 + 1, 2);
            break;
        case 'p':
            o += tod_ns / NS_S / 3600 < 12 ? "AM" : "PM";
            break;
        case 'r':
            o += format("%I:%M:%S %p", c, tod_ns, 0);
            break;
        case 'z':
            o += "+0000";
            break;
        case 'Z':
            o += "UTC";
            break;
        }
    }
    return o;
}

// ---- formats

// specifiers and literals in any order, to write with
template <class S>
std::string gen_out(S& src, const std::string& specifiers)
{
    std::string f;
    const int n = 1 + (int)src.below(6);
    for (int i = 0; i < n; ++i)
    {
        f += '%';
        f += specifiers[src.below(specifiers.size())];
        switch (src.below(6))
        {
        case 0:
            f += src.pick(std::vector<std::string>{" ", "-", "/", ":", ", ", " of ", "%%", "%n", "%t", "week ", "\xc3\xa9"});
            break;
        case 1:
            f += " ";
            break;
        default:;
        }
    }
    return f;
}
template <class S>
void shuffle(S& src, std::vector<std::string>& v)
{
    for (size_t i = v.size(); i > 1; --i)
        std::swap(v[i - 1], v[src.below(i)]);
}
// fields one after another, with something between them that keeps them apart
template <class S>
std::string join(S& src, const std::vector<std::string>& v)
{
    static const std::string fixed = "YmdjCyHMSUWVGFTI";
    std::string f = src.chance(1, 8) ? "at " : "";
    for (size_t i = 0; i < v.size(); ++i)
    {
        if (i)
        {
            const bool apart = fixed.find(v[i - 1].back()) == std::string::npos || fixed.find(v[i][1]) == std::string::npos || src.chance(3, 4);
            if (apart)
                f += src.pick(v[i - 1] == "%Z" ? std::vector<std::string>{" ", ", "} : std::vector<std::string>{" ", "-", "/", ".", ", ", " of ", "_", "%t", "%n", "%%"});
        }
        if (v[i] == "%e" && (f.empty() || f.back() != ' '))
            f += ' '; // %e writes a blank before a single digit, which only a blank takes
        f += v[i];
    }
    return f + (src.chance(1, 10) ? "." : "");
}
// fields that determine the date
template <class S>
std::vector<std::string> gen_date_fields(S& src, Civil c)
{
    const bool recent = c.y >= 1969 && c.y <= 2068, inner = c.y >= 2 && c.y <= 9998;
    const std::string y = recent && src.chance(1, 6) ? "%y" : src.chance(1, 6) ? "%C%y" : "%Y";
    const std::string wd = src.pick(std::vector<std::string>{"%a", "%A", "%u", "%w"});
    std::vector<std::string> v;
    switch (src.weighted({6, 2, 2, 1, 1, 3}))
    {
    case 0:
        v = {y, src.pick(std::vector<std::string>{"%m", "%b", "%B", "%h"}), src.pick(std::vector<std::string>{"%d", "%e"})};
        shuffle(src, v);
        break;
    case 1:
        v = {y, "%j"};
        shuffle(src, v);
        break;
    case 2:
        if (!inner)
            return {"%F"};
        v = {c.y >= 1970 && c.y <= 2067 && src.chance(1, 3) ? "%g" : "%G", "%V", wd};
        shuffle(src, v);
        break;
    case 3:
        v = {y, "%U", wd};
        shuffle(src, v);
        break;
    case 4:
        v = {y, "%W", wd};
        shuffle(src, v);
        break;
    default:
        v = {recent && src.coin() ? src.pick(std::vector<std::string>{"%D", "%x"}) : "%F"};
    }
    if (src.chance(1, 4))
    {
        // a two digit ISO year means one of 1969-2068, and %C is the century of %g too
        std::vector<std::string> also{"%a", "%A", "%u", "%w", "%j", "%U", "%W", "%m", "%b", "%d", "%F", "%Y"};
        if (recent || (std::find(v.begin(), v.end(), "%G") == v.end() && std::find(v.begin(), v.end(), "%g") == v.end()))
            also.push_back("%y");
        if (inner)
            also.push_back("%G");
        if (c.y >= 1970 && c.y <= 2067 && y != "%C%y")
            also.push_back("%g");
        v.push_back(src.pick(also));
        shuffle(src, v);
    }
    return v;
}
// fields other than month and day that name a date, or name none: the format, its text and whether there is such a date
template <class S>
bool gen_other_fields(S& src, Civil c, std::string& format_, std::string& text, Civil& date)
{
    std::vector<std::pair<std::string, std::string>> value; // specifier -> what to write for it
    const std::string sunday = src.coin() ? "%w" : "%u";
    const int wd = (int)src.range(sunday == "%u" ? 1 : 0, sunday == "%u" ? 7 : 6);
    int64_t day = 0;
    bool ok;
    const bool recent = c.y >= 1969 && c.y <= 2068;
    const std::string ys = recent && src.chance(1, 4) ? "%y" : src.chance(1, 5) ? "%C%y" : "%Y";
    const std::pair<std::string, std::string> year{ys, ys == "%y" ? pad(c.y % 100, 2) : pad(c.y, 4)};
    switch (src.below(4))
    {
    case 0: {
        const int j = (int)(src.chance(1, 3) ? src.pick(std::vector<int>{0, 1, 365, 366, 367, 999, 59, 60, 61}) : src.chance(1, 3) ? src.range(0, 999) : src.range(1, 365));
        ok = j >= 1 && j <= 365 + leap(c.y);
        day = to_days({c.y, 1, 1}) + j - 1;
        value = {year, {"%j", pad(j, 3)}};
        break;
    }
    case 1: {
        const int week = (int)(src.chance(1, 2) ? src.pick(std::vector<int>{0, 1, 52, 53, 54, 99}) : src.range(1, 52));
        const int64_t fourth = to_days({c.y, 1, 4}), monday = fourth - fmod_(weekday(fourth) + 6, 7); // the 4th of January is always in week 1
        day = monday + (week - 1) * 7 + fmod_(wd + 6, 7);
        ok = week >= 1 && iso_year(from_days(day)) == c.y;
        value = {recent && src.chance(1, 4) ? std::pair<std::string, std::string>{"%g", pad(c.y % 100, 2)} : std::pair<std::string, std::string>{"%G", pad(c.y, 4)}, {"%V", pad(week, 2)}, {sunday, std::to_string(wd)}};
        break;
    }
    default: {
        const int first = (int)src.below(2), week = (int)(src.chance(1, 2) ? src.pick(std::vector<int>{0, 1, 52, 53, 54, 99}) : src.range(0, 53));
        const int64_t jan1 = to_days({c.y, 1, 1}), start = jan1 + fmod_(first - weekday(jan1), 7);
        day = start + (week - 1) * 7 + fmod_(wd - first, 7);
        ok = from_days(day).y == c.y;
        value = {year, {first ? "%W" : "%U", pad(week, 2)}, {sunday, std::to_string(wd)}};
    }
    }
    for (size_t i = value.size(); i > 1; --i)
        std::swap(value[i - 1], value[src.below(i)]);
    for (auto& [spec, t] : value)
    {
        format_ += (format_.empty() ? "" : "-") + spec;
        text += (text.empty() ? "" : "-") + t;
    }
    date = from_days(day);
    return ok;
}
// fields that determine the time; whole: only to the second
template <class S>
std::vector<std::string> gen_time_fields(S& src, bool& whole)
{
    std::vector<std::string> v;
    whole = false;
    switch (src.weighted({3, 3, 3, 1, 1, 1}))
    {
    case 0:
        return {"%T"};
    case 1:
        v = {"%H", "%M", "%S"};
        break;
    case 2:
        v = {"%I", "%M", "%S", "%p"};
        break;
    case 3:
        v = {"%R", "%S"};
        break;
    default:
        whole = true;
        return {src.coin() ? "%r" : "%X"};
    }
    shuffle(src, v);
    return v;
}
// fields that name a time to the second, or contradict one another, or leave the half of the day open
template <class S>
bool gen_clock_fields(S& src, int64_t tod_ns, std::string& format_, std::string& text)
{
    const int64_t s = tod_ns / NS_S, other = src.coin() ? (s + src.pick(std::vector<int64_t>{43200, 3600, 60, 1, 86399})) % 86400 : src.range(0, 86399);
    bool ok = true;
    auto put = [&](const std::string& spec, int64_t t) {
        return std::pair<std::string, std::string>{spec, format(spec, {2000, 1, 1}, t * NS_S, 0)};
    };
    std::vector<std::pair<std::string, std::string>> v{put("%M", s), put("%S", s)};
    const int form = (int)src.below(4);
    if (form < 2)
        v.push_back(put("%H", s));
    else
        v.push_back(put("%I", s));
    if (form == 2)
        v.push_back(put("%p", s));
    if (form == 3)
    {
        ok = false; // before or after noon?
        if (src.coin())
        {
            const int64_t h = src.pick(std::vector<int64_t>{0, 13, 14, 15, 23, 24, 99}); // no hour of twelve
            v.back().second = pad(h, 2);
            v.push_back(put("%p", s));
        }
    }
    else if (src.chance(3, 4))
    {
        const std::string spec = src.pick(form == 2 ? std::vector<std::string>{"%H", "%I", "%M", "%S", "%R", "%p", "%r"} : std::vector<std::string>{"%I", "%H", "%M", "%S", "%R", "%T"});
        const auto same = put(spec, s), extra = put(spec, src.coin() ? s : other);
        v.push_back(extra);
        ok = extra.second == same.second;
    }
    for (size_t i = v.size(); i > 1; --i)
        std::swap(v[i - 1], v[src.below(i)]);
    for (auto& [spec, t] : v)
    {
        format_ += (format_.empty() ? "" : " ") + spec;
        text += (text.empty() ? "" : " ") + t;
    }
    return ok;
}
}
