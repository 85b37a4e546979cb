// C29: conversion of one argument value to its declared type, in every position a value can be given.
#include "pbt.hpp"

#include <climits>
#include <cmath>
#include <cstdlib>
#include <filesystem>
#include <iostream>
#include <limits>
#include <memory>
#include <optional>
#include <sstream>
#include <teiacare/sdk/argparse/argument_parser.hpp>

namespace pbt
{
const char* const rule = "a declared type, a position (--name=value, --name value, -n value, -n=value, positional, environment) and a text: formatted from a value, damaged, at a range boundary, or arbitrary; "
                         "non-trivial = a damaged or boundary text, or a list of at least two items, or a text with special characters";

struct Silence
{
    std::ostringstream out, err;
    std::streambuf *o, *e;
    Silence()
        : o(std::cout.rdbuf(out.rdbuf()))
        , e(std::cerr.rdbuf(err.rdbuf()))
    {
    }
    ~Silence()
    {
        std::cout.rdbuf(o);
        std::cerr.rdbuf(e);
    }
};

// ---- oracle: independent reader per type; nullopt = cannot be converted; `unknown` = left open
template <typename T>
struct Oracle;
static bool is_ws(char c)
{
    return c == ' ' || (c >= 9 && c <= 13);
}
// optional sign and digits at p; exact value in v; overflow flagged
static bool digits(const std::string& s, size_t& p, bool& neg, unsigned __int128& v, bool& any)
{
    neg = false;
    v = 0;
    any = false;
    if (p < s.size() && (s[p] == '+' || s[p] == '-'))
        neg = s[p++] == '-';
    bool big = false;
    while (p < s.size() && s[p] >= '0' && s[p] <= '9')
    {
        any = true;
        if (v > (((unsigned __int128)1) << 100))
            big = true;
        else
            v = v * 10 + (unsigned)(s[p] - '0');
        ++p;
    }
    return big;
}
template <typename T>
static std::optional<T> whole_integer(const std::string& s, bool prefix, bool& unknown)
{
    size_t p = 0;
    while (p < s.size() && is_ws(s[p]))
        ++p;
    bool neg, any;
    unsigned __int128 v;
    const bool big = digits(s, p, neg, v, any);
    if (!any)
        return {};
    if (!prefix && p != s.size())
        return {};
    if (neg && !std::is_signed_v<T> && v)
    {
        unknown = true;
        return {};
    }
    const unsigned __int128 lim = neg ? (unsigned __int128)(-(__int128)std::numeric_limits<T>::min()) : (unsigned __int128)std::numeric_limits<T>::max();
    if (big || v > lim)
        return {};
    return neg ? (T)(-(__int128)v) : (T)v;
}
template <typename T>
static std::optional<T> prefix_real(const std::string& s, bool& unknown)
{
    // the longest decimal prefix: [ws][sign]digits[.digits][e[sign]digits]; hexadecimal, inf and nan are left open
    size_t p = 0;
    while (p < s.size() && is_ws(s[p]))
        ++p;
    const size_t start = p;
    if (p < s.size() && (s[p] == '+' || s[p] == '-'))
        ++p;
    if (p < s.size() && (s[p] == 'i' || s[p] == 'I' || s[p] == 'n' || s[p] == 'N'))
        unknown = true;
    if (p + 1 < s.size() && s[p] == '0' && (s[p + 1] == 'x' || s[p + 1] == 'X'))
        unknown = true;
    size_t nd = 0;
    while (p < s.size() && isdigit((unsigned char)s[p]))
        ++p, ++nd;
    if (p < s.size() && s[p] == '.')
    {
        size_t k = p + 1, f = 0;
        while (k < s.size() && isdigit((unsigned char)s[k]))
            ++k, ++f;
        if (nd + f)
            p = k, nd += f;
    }
    if (!nd)
        return {};
    if (p < s.size() && (s[p] == 'e' || s[p] == 'E'))
    {
        size_t k = p + 1, f = 0;
        if (k < s.size() && (s[k] == '+' || s[k] == '-'))
            ++k;
        while (k < s.size() && isdigit((unsigned char)s[k]))
            ++k, ++f;
        if (f)
            p = k;
    }
    std::istringstream is(s.substr(start, p - start));
    const std::string t = s.substr(start, p - start);
    const long double x = strtold(t.c_str(), nullptr);
    const long double a = std::fabs(x);
    if (a > (long double)std::numeric_limits<T>::max())
    {
        if (a < (long double)std::numeric_limits<T>::max() * 1.0001L)
            unknown = true;
        return {};
    }
    if (x != 0 && a < (long double)std::numeric_limits<T>::min() * 1.001L)
        unknown = true;
    return sizeof(T) == 4 ? (T)strtof(t.c_str(), nullptr) : (T)strtod(t.c_str(), nullptr);
}
template <>
struct Oracle<std::string>
{
    static std::optional<std::string> get(const std::string& s, bool&)
    {
        return s;
    }
};
template <>
struct Oracle<const char*>
{
    static std::optional<std::string> get(const std::string& s, bool&)
    {
        return s;
    }
};
template <>
struct Oracle<std::filesystem::path>
{
    static std::optional<std::string> get(const std::string& s, bool&)
    {
        return s;
    }
};
template <>
struct Oracle<int>
{
    static std::optional<int> get(const std::string& s, bool& u)
    {
        return whole_integer<int>(s, true, u);
    }
};
template <>
struct Oracle<float>
{
    static std::optional<float> get(const std::string& s, bool& u)
    {
        return prefix_real<float>(s, u);
    }
};
template <>
struct Oracle<double>
{
    static std::optional<double> get(const std::string& s, bool& u)
    {
        return prefix_real<double>(s, u);
    }
};
template <>
struct Oracle<bool>
{
    static std::optional<bool> get(const std::string& s, bool& u)
    {
        auto v = whole_integer<long>(s, false, u);
        if (!v || *v < 0 || *v > 1)
            return {};
        return *v == 1;
    }
};
template <>
struct Oracle<char>
{
    static std::optional<char> get(const std::string& s, bool&)
    {
        size_t p = 0;
        while (p < s.size() && is_ws(s[p]))
            ++p;
        if (s.size() != p + 1)
            return {};
        return s[p];
    }
};
#define GENERIC(T)                                                  \
    template <>                                                     \
    struct Oracle<T>                                                \
    {                                                               \
        static std::optional<T> get(const std::string& s, bool& u)  \
        {                                                           \
            return whole_integer<T>(s, false, u);                   \
        }                                                           \
    };
GENERIC(short)
GENERIC(unsigned short)
GENERIC(unsigned)
GENERIC(long)
GENERIC(unsigned long)
GENERIC(long long)
#undef GENERIC
template <typename V>
struct Oracle<std::vector<V>>
{
    static auto get(const std::string& s, bool& u)
    {
        using E = typename decltype(Oracle<V>::get(s, u))::value_type;
        std::optional<std::vector<E>> out;
        std::vector<E> v;
        std::string t = s;
        // a list ends with its last item: one trailing separator adds nothing
        if (!t.empty() && t.back() == ',')
            t.pop_back();
        else if (t.empty())
            return std::optional<std::vector<E>>(v);
        size_t p = 0;
        for (;;)
        {
            const size_t k = t.find(',', p);
            const auto e = Oracle<V>::get(t.substr(p, k == std::string::npos ? k : k - p), u);
            if (!e)
                return out;
            v.push_back(*e);
            if (k == std::string::npos)
                break;
            p = k + 1;
        }
        out = v;
        return out;
    }
};
template <typename A, typename B>
static bool same(const A& got, const B& want)
{
    return got == want;
}
template <>
bool same(const std::filesystem::path& got, const std::string& want)
{
    return got.string() == want;
}
template <>
bool same(const char* const& got, const std::string& want)
{
    return got && want == got;
}
static std::string show(const std::string& s)
{
    return q(s);
}
static std::string show(const char* s)
{
    return s ? q(s) : "null";
}
static std::string show(const std::filesystem::path& s)
{
    return q(s.string());
}
template <typename T>
static std::string show(const T& v)
{
    return cat(v);
}
template <typename T>
static std::string show(const std::vector<T>& v)
{
    std::string s = "[";
    for (auto&& x : v)
        s += show(static_cast<const T&>(x)) + " ";
    return s + "]";
}
static std::string show(const std::vector<bool>& v)
{
    std::string s = "[";
    for (bool x : v)
        s += x ? "1 " : "0 ";
    return s + "]";
}

// ---- generators of texts
static std::string item_text(Src& src, int cls)
{
    // cls 0 free text, 1 integer-like, 2 real-like, 3 bool-like, 4 char-like
    std::string s;
    static const char odd[] = "0123456789+-.eE xXabz,=/\\\"'$\t";
    switch (cls)
    {
    case 1:
        switch (src.below(4))
        {
        case 0:
            s = std::to_string(src.spread(INT64_MIN + 1, INT64_MAX));
            break;
        case 1: {
            static const std::vector<std::string> edge = {"2147483647", "2147483648", "-2147483648", "-2147483649", "32767", "32768", "-32768", "-32769", "65535", "65536", "4294967295", "4294967296",
                                                          "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616",
                                                          "99999999999999999999999999999", "0", "-0", "+5", "007", "08", "1", "-1", "-", "+", ""};
            s = src.pick(edge);
            break;
        }
        default:
            s = std::to_string(src.range(-1000, 1000));
        }
        break;
    case 2:
        switch (src.below(4))
        {
        case 0:
            s = cat((double)src.range(-100000, 100000) / 64.0);
            break;
        case 1:
            s = src.pick(std::vector<std::string>{"1e10", "-1E-5", ".5", "5.", "-.25", "1e400", "-1e400", "1e39", "1e308", "3.4e38", "0.1", "+2.5", "1e", "1e+", ".", "-", "e5", "1.2.3", "0", "-0.0", "1e-10", "3.141592653589793"});
            break;
        case 2:
            s = std::to_string(src.range(-1000000, 1000000));
            break;
        default:
            s = cat((double)src.range(-1000000, 1000000) / 1e3, src.coin() ? "e" + std::to_string(src.range(-20, 20)) : "");
        }
        break;
    case 3:
        s = src.pick(std::vector<std::string>{"0", "1", "2", "-1", "true", "false", "", "01", "10", " 1"});
        break;
    case 4:
        s = src.chance(1, 4) ? std::string(src.below(4), 'c') : std::string(1, (char)(33 + src.below(94)));
        break;
    default:
        while (src.more(6) && s.size() < 30)
            s += src.chance(1, 10) ? (char)(1 + src.below(255)) : odd[src.below(sizeof odd - 1)];
    }
    // damage
    if (src.chance(1, 4))
    {
        const size_t at = src.below(s.size() + 1);
        if (src.coin() && at < s.size())
            s.erase(at, 1);
        else
            s.insert(at, 1, odd[src.below(sizeof odd - 1)]);
    }
    return s;
}

struct Case
{
    int how;          // 0 --name=v 1 --name v 2 -n v 3 -n=v 4 positional 5 environment
    std::string text; // the value
    std::vector<std::string> before, after; // other, valid arguments around it
};

template <typename T, typename Want>
static void check(const Case& c, T init, bool unknown, const std::optional<Want>& want)
{
    Silence quiet;
    tc::sdk::argument_parser parser("prog", "1.2.3", "a description");
    T var = init;
    std::string other;
    bool flag = false;
    parser.add_option<std::string>("other", 'o', other, std::string("none"));
    parser.add_flag("flag", 'f', flag);
    if (c.how == 4)
        parser.add_positional<T>("value", var);
    else
        parser.add_option<T>("value", 'x', var, init, "", false, c.how == 5 ? "PBT_ARG_VALUE" : "");
    std::vector<std::string> args{"prog"};
    args.insert(args.end(), c.before.begin(), c.before.end());
    switch (c.how)
    {
    case 0:
        args.push_back("--value=" + c.text);
        break;
    case 1:
        args.push_back("--value");
        args.push_back(c.text);
        break;
    case 2:
        args.push_back("-x");
        args.push_back(c.text);
        break;
    case 3:
        args.push_back("-x=" + c.text);
        break;
    case 4:
        args.push_back(c.text);
        break;
    default:
        setenv("PBT_ARG_VALUE", c.text.c_str(), 1);
    }
    args.insert(args.end(), c.after.begin(), c.after.end());
    std::vector<std::vector<char>> store;
    for (auto& a : args)
        store.emplace_back(a.c_str(), a.c_str() + a.size() + 1);
    std::vector<char*> argv;
    for (auto& a : store)
        argv.push_back(a.data());
    argv.push_back(nullptr);
    const auto res = parser.parse((int)args.size(), argv.data());
    unsetenv("PBT_ARG_VALUE");
    // the arguments may be gone when the values are used
    for (auto& a : store)
        std::fill(a.begin(), a.end(), '#');
    store.clear();
    if (unknown)
        return;
    if (!want)
    {
        CHECK(res == tc::sdk::parse_result::error, "a text that is not a value of the type was accepted: ", q(c.text), " as ", show(var));
        CHECK(!quiet.err.str().empty(), "the error was not reported");
        if (c.how != 4)
            CHECK(same(var, init), "the variable was changed by a rejected value ", q(c.text));
        return;
    }
    CHECK(res == tc::sdk::parse_result::success, "value ", q(c.text), " was rejected: ", quiet.err.str().substr(0, quiet.err.str().find('\n')));
    CHECK(same(var, *want), "value ", q(c.text), " was read as ", show(var), ", expected ", show(*want));
    for (auto& b : {c.before, c.after})
        for (auto& a : b)
        {
            if (a == "-f" || a == "--flag")
                CHECK(flag, "the flag beside the value was not set");
            if (a == "--other=zz")
                CHECK(other == "zz", "the option beside the value is ", q(other));
        }
}
template <typename T>
static void run(Src& src, Ctx& ctx, int cls, const char* name, T init)
{
    Case c;
    c.how = (int)src.below(6);
    constexpr bool list = tc::sdk::is_vector<T>::value;
    bool nt = false;
    if (list)
    {
        const int n = (int)src.below(5);
        for (int i = 0; i < n; ++i)
        {
            std::string it = item_text(src, cls);
            if (cls == 0 && src.coin())
                std::erase(it, ',');
            c.text += (i ? "," : "") + it;
        }
        if (src.chance(1, 8))
            c.text += ",";
        nt |= n > 1;
    }
    else
        c.text = item_text(src, cls);
    std::erase(c.text, '\0');
    // other readings of the same words: an empty value after '=' asks for the next argument, a leading dash makes an option, an empty variable is no value
    if (c.text.empty() && (c.how == 0 || c.how == 3 || c.how == 5))
        c.how = src.coin() ? 1 : 2;
    if (!c.text.empty() && c.text[0] == '-' && c.how == 4)
        c.how = src.coin() ? 1 : 2;
    static const std::vector<std::string> around = {"-f", "--flag", "--other=zz"};
    if (src.chance(1, 3))
        c.before.push_back(src.pick(around));
    if (src.chance(1, 3))
        c.after.push_back(src.pick(around));
    ctx.notef("%s how=%d %zu before %zu after text ", name, c.how, c.before.size(), c.after.size());
    ctx.note(q(c.text));
    bool unknown = false;
    const auto want = Oracle<T>::get(c.text, unknown);
    nt |= !want || (cls == 0 && c.text.find_first_of(",=-\"' ") != std::string::npos) || c.text.size() > 8;
    ctx.label(unknown ? "left open" : want ? "valid" : "invalid");
    ctx.nontrivial(nt && !unknown);
    check<T>(c, init, unknown, want);
}

void property_case(Src& src, Ctx& ctx)
{
    switch (src.below(18))
    {
    case 0:
        return run<std::string>(src, ctx, 0, "string", "init");
    case 1:
        return run<const char*>(src, ctx, 0, "const char*", "init");
    case 2:
        return run<std::filesystem::path>(src, ctx, 0, "path", "init");
    case 3:
        return run<int>(src, ctx, 1, "int", -77);
    case 4:
        return run<float>(src, ctx, 2, "float", -7.5f);
    case 5:
        return run<double>(src, ctx, 2, "double", -7.5);
    case 6:
        return run<bool>(src, ctx, 3, "bool", true);
    case 7:
        return run<char>(src, ctx, 4, "char", '?');
    case 8:
        return run<short>(src, ctx, 1, "short", -77);
    case 9:
        return run<unsigned short>(src, ctx, 1, "unsigned short", 77);
    case 10:
        return run<unsigned>(src, ctx, 1, "unsigned", 77u);
    case 11:
        return run<long>(src, ctx, 1, "long", -77l);
    case 12:
        return run<unsigned long>(src, ctx, 1, "unsigned long", 77ul);
    case 13:
        return run<long long>(src, ctx, 1, "long long", -77ll);
    case 14:
        return run<std::vector<int>>(src, ctx, 1, "vector<int>", {7, 7});
    case 15:
        return run<std::vector<std::string>>(src, ctx, 0, "vector<string>", {"init"});
    case 16:
        return run<std::vector<double>>(src, ctx, 2, "vector<double>", {7.5});
    default:
        return run<std::vector<unsigned>>(src, ctx, 1, "vector<unsigned>", {7u});
    }
}
}
