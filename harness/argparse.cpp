// C30/C31: argument_parser against a reference reader of command lines.
// C30 (default): lines built from intended arguments, environment and validators, and equivalent lines compared.
// C31 (-DANYLINE): arbitrary tokens, help and version anywhere, the texts printed.
#include "pbt.hpp"

#include <cstdlib>
#include <filesystem>
#include <functional>
#include <iostream>
#include <memory>
#include <optional>
#include <set>
#include <sstream>
#include <teiacare/sdk/argparse/argument_parser.hpp>

namespace pbt
{
#ifdef ANYLINE
const char* const rule = "0-4 positionals, 0-5 options and 0-4 flags of 9 types (long names that contain one another, short names), 0-14 tokens: names, near-names, values, '-', '--', '=', help and version forms, raw bytes; "
                         "non-trivial = the line holds at least 3 tokens of which one is a declared name and one is not";
#else
const char* const rule = "0-4 positionals, 0-5 options and 0-4 flags of 9 types, environment values, required options, validators that refuse or throw, a line of given, repeated and missing arguments in any form and order; "
                         "non-trivial = at least two of: environment used, validator called, option repeated, required option, order or form changed in the equivalent line";
#endif
struct Silence
{
    std::ostringstream out, err;
    std::streambuf *o, *e;
    Silence()
        : o(std::cout.rdbuf(out.rdbuf()))
        , e(std::cerr.rdbuf(err.rdbuf()))
    {
    }
    ~Silence()
    {
        std::cout.rdbuf(o);
        std::cerr.rdbuf(e);
    }
};
enum class Ok
{
    yes,
    no,
    unknown // left open here, C29 decides conversions
};
// ---- types: how a text converts, as a printed value
static std::vector<std::string> split(const std::string& s)
{
    std::vector<std::string> r;
    if (s.empty())
        return r;
    size_t b = 0;
    for (;;)
    {
        const size_t e = s.find(',', b);
        r.push_back(s.substr(b, e == std::string::npos ? e : e - b));
        if (e == std::string::npos)
            return r;
        b = e + 1;
    }
}
static Ok plain_int(const std::string& s, std::string& out, bool sign)
{
    size_t p = 0;
    if (sign && p < s.size() && s[p] == '-')
        ++p;
    size_t n = 0;
    while (p + n < s.size() && s[p + n] >= '0' && s[p + n] <= '9')
        ++n;
    if (n && n <= 9 && p + n == s.size())
    {
        out = std::to_string(atoll(s.c_str()));
        return Ok::yes;
    }
    if (s.empty() || isalpha((unsigned char)s[0]) || s == "-" || s[0] == '=' || s[0] == '/')
        return Ok::no;
    return Ok::unknown;
}
static Ok convert(const std::string& type, const std::string& s, std::string& out)
{
    if (type == "string" || type == "const char*" || type == "path")
    {
        out = s;
        return Ok::yes;
    }
    if (type == "int")
        return plain_int(s, out, true);
    if (type == "unsigned")
        return plain_int(s, out, false);
    if (type == "double" || type == "float")
    {
        const Ok whole = plain_int(s, out, true);
        if (whole == Ok::no && !s.empty() && strchr("iInN", s[0]))
            return Ok::unknown;
        if (whole != Ok::unknown)
            return whole == Ok::yes && s.size() > 6 ? Ok::unknown : whole;
        const size_t dot = s.find('.');
        std::string a, b;
        if (dot != std::string::npos && dot < 5 && s.size() - dot <= 4 && plain_int(s.substr(0, dot), a, true) == Ok::yes && plain_int(s.substr(dot + 1), b, false) == Ok::yes)
        {
            std::ostringstream o;
            o << strtod(s.c_str(), nullptr);
            out = o.str();
            return Ok::yes;
        }
        return Ok::unknown;
    }
    const std::string item = type == "vector<int>" ? "int" : "string";
    out.clear();
    if (!s.empty() && s.back() == ',')
        return Ok::unknown;
    for (auto& i : split(s))
    {
        std::string v;
        const Ok k = convert(item, i, v);
        if (k != Ok::yes)
            return k;
        out += v + "|";
    }
    return Ok::yes;
}
template <class T>
static std::string show(const T& v)
{
    std::ostringstream o;
    o << v;
    return o.str();
}
static std::string show(const std::string& v) { return v; }
static std::string show(const char* v) { return v ? v : "(null)"; }
static std::string show(const std::filesystem::path& v) { return v.string(); }
template <class T>
static std::string show(const std::vector<T>& v)
{
    std::string r;
    for (auto& x : v)
        r += show(x) + "|";
    return r;
}
// what a validator thinks of a printed value
static bool likes(const std::string& v)
{
    unsigned h = 0;
    for (unsigned char c : v)
        h = h * 31 + c;
    return h % 3 != 0;
}
struct Refused
{
};
enum Refusal
{
    NONE,
    RETURNS,
    THROWS,
    THROWS_OTHER
};
struct Arg
{
    enum
    {
        POS,
        OPT,
        FLAG
    } kind;
    std::string type, name, env, description;
    char shortname = 0;
    bool required = false, by_pointer = false;
    Refusal refusal = NONE;
    int def = 0;
    std::optional<std::string> env_value;
};
struct Bound // the variable of a declared argument
{
    virtual ~Bound() = default;
    virtual std::string value() const = 0;
    std::vector<std::string> validated;
};
template <class T>
static T default_of(int i);
template <> int default_of<int>(int i) { return i * 111; }
template <> unsigned default_of<unsigned>(int i) { return (unsigned)i * 7; }
template <> double default_of<double>(int i) { return i * 0.5; }
template <> float default_of<float>(int i) { return (float)i * 0.25f; }
template <> std::string default_of<std::string>(int i) { return i ? "default " + std::to_string(i) : std::string(); }
template <> const char* default_of<const char*>(int i) { return i ? "literal" : ""; }
template <> std::filesystem::path default_of<std::filesystem::path>(int i) { return i ? "/tmp/x" : ""; }
template <> std::vector<int> default_of<std::vector<int>>(int i) { return std::vector<int>((size_t)i, i); }
template <> std::vector<std::string> default_of<std::vector<std::string>>(int i) { return std::vector<std::string>((size_t)i, "d"); }
template <class T>
struct Typed : Bound
{
    T var{};
    std::string value() const override { return show(var); }
    Typed(const Arg& a, tc::sdk::argument_parser& p)
    {
        if (a.kind == Arg::POS)
        {
            var = default_of<T>(3);
            if (a.by_pointer && a.description.empty())
                p.add_positional(std::make_unique<tc::sdk::positional_argument<T>>(a.name, var));
            else if (a.description.empty())
                p.add_positional(a.name, var);
            else if (a.by_pointer)
                p.add_positional(std::make_unique<tc::sdk::positional_argument<T>>(a.name, var, a.description));
            else
                p.add_positional(a.name, var, a.description);
            return;
        }
        var = default_of<T>(4);
        const T def = default_of<T>(a.def);
        const bool plain = a.description.empty() && a.env.empty() && !a.required; // leave out what has a default
        const bool zero = !std::is_same_v<T, const char*> && a.def == 0;
        using Opt = tc::sdk::optional_argument<T>;
        if (a.by_pointer || a.refusal)
        {
            auto o = plain && zero ? a.shortname ? std::make_unique<Opt>(a.name, a.shortname, var) : std::make_unique<Opt>(a.name, var)
                     : plain       ? a.shortname ? std::make_unique<Opt>(a.name, a.shortname, var, def) : std::make_unique<Opt>(a.name, var, def)
                     : a.shortname ? std::make_unique<tc::sdk::optional_argument<T>>(a.name, a.shortname, var, def, a.description, a.required, a.env)
                                 : std::make_unique<tc::sdk::optional_argument<T>>(a.name, var, def, a.description, a.required, a.env);
            if (const Refusal how = a.refusal)
                o->set_validator([this, how](const T& v) -> bool {
                    validated.push_back(show(v));
                    if (likes(validated.back()))
                        return true;
                    if (how == THROWS)
                        throw std::out_of_range("refused");
                    if (how == THROWS_OTHER)
                        throw Refused{};
                    return false;
                });
            p.add_option(std::move(o));
        }
        else if (plain && zero)
            a.shortname ? p.add_option(a.name, a.shortname, var) : p.add_option(a.name, var);
        else if (plain)
            a.shortname ? p.add_option(a.name, a.shortname, var, def) : p.add_option(a.name, var, def);
        else if (a.env.empty() && !a.required)
            a.shortname ? p.add_option(a.name, a.shortname, var, def, a.description) : p.add_option(a.name, var, def, a.description);
        else if (a.shortname)
            p.add_option(a.name, a.shortname, var, def, a.description, a.required, a.env);
        else
            p.add_option(a.name, var, def, a.description, a.required, a.env);
    }
};
struct FlagVar : Bound
{
    bool var = true; // declared, not initialised
    std::string value() const override { return var ? "true" : "false"; }
    FlagVar(const Arg& a, tc::sdk::argument_parser& p)
    {
        const bool plain = a.description.empty() && a.env.empty();
        if (a.by_pointer && plain)
            p.add_flag(a.shortname ? std::make_unique<tc::sdk::flag_argument>(a.name, a.shortname, var) : std::make_unique<tc::sdk::flag_argument>(a.name, var));
        else if (plain)
            a.shortname ? p.add_flag(a.name, a.shortname, var) : p.add_flag(a.name, var);
        else if (a.by_pointer)
            p.add_flag(a.shortname ? std::make_unique<tc::sdk::flag_argument>(a.name, a.shortname, var, a.description, a.env)
                                   : std::make_unique<tc::sdk::flag_argument>(a.name, var, a.description, a.env));
        else if (a.shortname)
            p.add_flag(a.name, a.shortname, var, a.description, a.env);
        else
            p.add_flag(a.name, var, a.description, a.env);
    }
};
static std::unique_ptr<Bound> bind(const Arg& a, tc::sdk::argument_parser& p)
{
    if (a.kind == Arg::FLAG)
        return std::make_unique<FlagVar>(a, p);
    if (a.type == "int") return std::make_unique<Typed<int>>(a, p);
    if (a.type == "unsigned") return std::make_unique<Typed<unsigned>>(a, p);
    if (a.type == "double") return std::make_unique<Typed<double>>(a, p);
    if (a.type == "float") return std::make_unique<Typed<float>>(a, p);
    if (a.type == "string") return std::make_unique<Typed<std::string>>(a, p);
    if (a.type == "const char*") return std::make_unique<Typed<const char*>>(a, p);
    if (a.type == "path") return std::make_unique<Typed<std::filesystem::path>>(a, p);
    if (a.type == "vector<int>") return std::make_unique<Typed<std::vector<int>>>(a, p);
    return std::make_unique<Typed<std::vector<std::string>>>(a, p);
}
static std::string default_text(const std::string& t, int i)
{
    if (t == "int") return show(default_of<int>(i));
    if (t == "unsigned") return show(default_of<unsigned>(i));
    if (t == "double") return show(default_of<double>(i));
    if (t == "float") return show(default_of<float>(i));
    if (t == "string") return default_of<std::string>(i);
    if (t == "const char*") return show(default_of<const char*>(i));
    if (t == "path") return show(default_of<std::filesystem::path>(i));
    if (t == "vector<int>") return show(default_of<std::vector<int>>(i));
    return show(default_of<std::vector<std::string>>(i));
}

// ---- the reference reader
enum class Out
{
    success,
    error,
    help,
    version,
    unknown
};
static const char* oname[] = {"success", "error", "quit (help)", "quit (version)", "left open"};
struct Expect
{
    Out out = Out::success;
    std::vector<std::string> values;                  // by argument
    std::vector<std::vector<std::string>> validated;  // values each validator is asked about
    int refused = -1;                                 // whose value was refused
    bool conversion = false;                          // by its type
    std::string why;
};
static Expect expect(const std::vector<Arg>& args, const std::vector<std::string>& line)
{
    Expect x;
    std::vector<bool> given(args.size());
    x.validated.resize(args.size());
    for (auto& a : args)
        x.values.push_back(a.kind == Arg::FLAG ? "false" : a.kind == Arg::POS ? (a.type == "const char*" ? "(null)" : default_text(a.type, 0)) : default_text(a.type, a.def));
    auto give = [&](size_t i, const std::string& text) {
        std::string v;
        const Ok ok = convert(args[i].type, text, v);
        if (ok == Ok::unknown)
        {
            x.out = Out::unknown;
            x.why = "conversion left open";
            return false;
        }
        if (ok == Ok::yes && args[i].refusal)
            x.validated[i].push_back(v);
        if (ok == Ok::no || (args[i].refusal && !likes(v)))
        {
            x.out = Out::error;
            x.refused = (int)i;
            x.conversion = ok == Ok::no;
            x.why = cat("bad value of ", args[i].name, ": ", q(text));
            return false;
        }
        x.values[i] = v;
        given[i] = true;
        return true;
    };
    bool bad_env = false;
    for (size_t i = 0; i < args.size(); ++i)
        if (args[i].env_value)
        {
            if (args[i].kind == Arg::FLAG)
                x.values[i] = "true";
            else if (!give(i, *args[i].env_value))
            {
                if (x.out == Out::unknown)
                    return x;
                bad_env = true;
                break;
            }
        }
    if (bad_env)
    {
        // an error for certain only if nothing on the line could come before it
        for (auto& t : line)
            if (!t.empty() && t[0] == '-')
                x.out = Out::unknown;
        return x;
    }
    auto open = [&](const std::string& why) {
        x.out = Out::unknown;
        x.why = why;
        return x;
    };
    auto error = [&](const std::string& why) {
        x.out = Out::error;
        x.why = why;
        return x;
    };
    size_t next = 0; // positional
    for (size_t t = 0; t < line.size(); ++t)
    {
        const std::string& s = line[t];
        if (s.empty() || s[0] != '-')
        {
            while (next < args.size() && args[next].kind != Arg::POS)
                ++next;
            if (next == args.size())
                return error(cat("excess positional ", q(s)));
            if (!give(next, s))
                return x;
            ++next;
            continue;
        }
        const bool is_long = s.size() > 2 && s[1] == '-' && s[2] != '-', is_short = s.size() > 1 && s[1] != '-';
        if (!is_long && !is_short)
            return error(cat("no name: ", q(s)));
        std::string key = s.substr(is_long ? 2 : 1), value;
        const size_t eq = key.find('=');
        const bool has_value = eq != std::string::npos;
        if (has_value)
        {
            value = key.substr(eq + 1);
            key = key.substr(0, eq);
        }
        for (auto [l, sh, o] : {std::tuple("help", "h", Out::help), std::tuple("version", "v", Out::version)})
        {
            if (key == l || key == sh)
            {
                if (has_value || is_long != (key == l))
                    return open("a lenient form of help or version");
                x.out = o;
                return x;
            }
        }
        int found = -1;
        bool form = false;
        for (size_t i = 0; i < args.size() && found < 0; ++i)
            if (args[i].kind != Arg::POS && !key.empty() && (key == args[i].name || (args[i].shortname && key == std::string(1, args[i].shortname))))
            {
                found = (int)i;
                form = is_long == (key == args[i].name);
            }
        if (found < 0)
            return error(cat("unknown ", q(s)));
        if (!form)
            return open("a lenient form of a name");
        if (args[found].kind == Arg::FLAG)
        {
            if (has_value)
                return open("a flag with a value");
            x.values[found] = "true";
            continue;
        }
        if (has_value && value.empty())
            return open("an empty value");
        if (!has_value)
        {
            if (t + 1 == line.size())
                return error(cat("missing value of ", q(s)));
            value = line[++t];
        }
        if (!give((size_t)found, value))
            return x;
    }
    for (size_t i = 0; i < args.size(); ++i)
        if (!given[i] && (args[i].kind == Arg::POS || args[i].required))
            return error(cat("missing ", args[i].name));
    return x;
}
struct Result
{
    tc::sdk::parse_result r{};
    std::vector<std::string> values;
    std::vector<std::vector<std::string>> validated;
    std::string out, err;
};
static Result run(const std::vector<Arg>& args, const std::vector<std::string>& line, bool const_parser)
{
    Result res;
    Silence quiet;
    tc::sdk::argument_parser p("prog-name", "v1.2.3-x", "what it does");
    std::vector<std::unique_ptr<Bound>> bound;
    for (auto& a : args)
        bound.push_back(bind(a, p));
    std::vector<std::string> copy = line;
    std::string program = "./program";
    std::vector<std::unique_ptr<char[]>> own;
    std::vector<char*> argv;
    auto put = [&](const std::string& s) {
        own.push_back(std::make_unique<char[]>(s.size() + 1));
        memcpy(own.back().get(), s.c_str(), s.size() + 1);
        argv.push_back(own.back().get());
    };
    put(program);
    for (auto& s : line)
        put(s);
    argv.push_back(nullptr);
    try
    {
        const auto& cp = p;
        res.r = const_parser ? cp.parse((int)argv.size() - 1, argv.data()) : p.parse((int)argv.size() - 1, argv.data());
    }
    catch (const std::exception& e)
    {
        throw Failure{cat("parse() let an exception escape: ", e.what())};
    }
    catch (...)
    {
        throw Failure{"parse() let an exception escape"};
    }
    for (size_t i = 0; i < line.size(); ++i)
        if (line[i] != argv[i + 1])
            throw Failure{"parse() changed the arguments"};
    // the values do not depend on the arguments any more
    own.clear();
    for (auto& b : bound)
    {
        res.values.push_back(b->value());
        res.validated.push_back(b->validated);
    }
    res.out = quiet.out.str();
    res.err = quiet.err.str();
    return res;
}
static void judge(const std::vector<Arg>& args, const std::vector<std::string>& line, const Expect& x, const Result& r)
{
    (void)line;
    const Out got = r.r == tc::sdk::parse_result::success ? Out::success : r.r == tc::sdk::parse_result::error ? Out::error : Out::help;
    if (got == Out::error)
        CHECK(!r.err.empty(), "an error without a message on the error stream");
    if (got == Out::help)
    {
        CHECK(r.out.find("prog-name") != std::string::npos, "help or version without the program's name: ", q(r.out));
        CHECK(r.out.find("v1.2.3-x") != std::string::npos, "help or version without the program's version: ", q(r.out));
    }
    if (x.out == Out::unknown)
        return;
    const Out want = x.out == Out::version ? Out::help : x.out;
    CHECK(got == want, "parse() = ", got == Out::success ? "success" : got == Out::error ? "error" : "quit", ", expected ", oname[(int)x.out], x.why.empty() ? "" : " because of ", x.why, got == Out::error ? cat("; message ", q(r.err)) : std::string());
    if (x.out == Out::help)
    {
        std::multiset<std::string> words;
        std::string w;
        for (char c : r.out)
            if (strchr(" \n\t,[]<>=:", c))
                words.insert(w), w.clear();
            else
                w += c;
        for (const char* n : {"--help", "-h", "--version", "-v"})
            CHECK(words.count(n), "the help text does not name ", n, ": ", q(r.out));
        for (auto& a : args)
        {
            CHECK(words.count(a.kind == Arg::POS ? a.name : "--" + a.name), "the help text does not name ", a.name, ": ", q(r.out));
            if (a.kind != Arg::POS && a.shortname)
                CHECK(words.count(std::string("-") + a.shortname), "the help text does not name -", a.shortname, ": ", q(r.out));
            CHECK(r.out.find(a.description) != std::string::npos, "the help text lacks the description of ", a.name, ": ", q(r.out));
            if (!a.env.empty())
                CHECK(words.count(a.env), "the help text does not name the environment variable of ", a.name, ": ", q(r.out));
        }
    }
    if (x.out == Out::success)
        for (size_t i = 0; i < args.size(); ++i)
        {
            CHECK(r.values[i] == x.values[i], args[i].name, " is ", q(r.values[i]), ", expected ", q(x.values[i]));
            CHECK(r.validated[i] == x.validated[i], "the validator of ", args[i].name, " was asked about ", r.validated[i].size(), " values, expected ", x.validated[i].size());
        }
    // whatever else happened: a refused value is not stored
    if (x.refused >= 0 && x.out == Out::error)
        CHECK(r.values[x.refused] == x.values[x.refused], args[x.refused].name, " is ", q(r.values[x.refused]), " after its value was refused, it was ", q(x.values[x.refused]));
}

static const std::vector<std::string> TYPES{"int", "string", "double", "vector<int>", "vector<string>", "path", "unsigned", "const char*", "float"};
static const std::vector<std::string> LONG{"out", "output", "in", "o", "dry-run", "out-put", "x1", "helper", "ver", "version2", "N", "outputs", "a_b", "ou", "9", "no", "a-name-that-is-longer-than-any-column-of-the-help-text"};
static const std::string SHORT = "oinaxNe19?";
static std::string value_text(Src& src, const std::string& type)
{
    if (type == "int")
        return src.pick(std::vector<std::string>{"0", "7", "42", "-3", "123456789", "-1"});
    if (type == "unsigned")
        return src.pick(std::vector<std::string>{"0", "7", "42", "123456789"});
    if (type == "double" || type == "float")
        return src.pick(std::vector<std::string>{"0", "0.5", "-2", "12.25", "-0.125", "77"});
    if (type == "vector<int>")
        return src.pick(std::vector<std::string>{"1", "1,2,3", "-1,0", "5,5"});
    if (type == "vector<string>")
        return src.pick(std::vector<std::string>{"a", "a,b", "x=y,z", "-v,--help", "one two,three"});
    return src.pick(std::vector<std::string>{"value", "a=b", "-x", "--output", "with space", "1", "=", "a,b", "--help", "-", "/etc/passwd", "-v", "x\ny", ""});
}
static std::vector<Arg> declare(Src& src)
{
    std::vector<Arg> r;
    std::vector<std::string> names = LONG;
    std::string shorts = SHORT;
    auto name = [&] {
        const size_t i = src.below(names.size());
        std::string n = names[i];
        names.erase(names.begin() + (long)i);
        return n;
    };
    auto shortname = [&]() -> char {
        if (!src.chance(3, 5) || shorts.empty())
            return 0;
        const size_t i = src.below(shorts.size());
        const char c = shorts[i];
        shorts.erase(i, 1);
        // a one letter long name of another argument would be the same key
        for (auto& a : r)
            if (a.kind != Arg::POS && a.name == std::string(1, c))
                return 0;
        for (auto it = names.begin(); it != names.end(); ++it)
            if (*it == std::string(1, c))
            {
                names.erase(it);
                break;
            }
        return c;
    };
    const int np = (int)src.below(5), no = (int)src.below(6), nf = (int)src.below(5);
    int envs = 0;
    for (int i = 0; i < np + no + nf; ++i)
    {
        Arg a;
        a.kind = i < np ? Arg::POS : i < np + no ? Arg::OPT : Arg::FLAG;
        a.type = a.kind == Arg::FLAG ? "flag" : src.pick(TYPES);
        a.name = a.kind == Arg::POS ? cat("pos", i) : name();
        if (src.chance(3, 4))
            a.description = cat("describes ", i, src.chance(1, 4) ? " in more words than its column has room for" : "", ".");
        a.by_pointer = src.chance(1, 3);
        if (a.kind != Arg::POS)
        {
            a.shortname = shortname();
            if (a.shortname && a.name == std::string(1, a.shortname))
                a.shortname = 0;
        }
        if (a.kind == Arg::OPT)
        {
            a.def = (int)src.below(3);
            a.required = src.chance(1, 4);
            a.refusal = (Refusal)src.weighted({5, 2, 1, 1});
        }
        if (a.kind != Arg::POS && src.chance(1, 3))
        {
            a.env = cat("PBT_ARG_", envs++);
            if (src.coin())
                a.env_value = a.kind == Arg::FLAG ? std::string(src.coin() ? "1" : "true") : src.chance(1, 10) ? std::string("bad") : value_text(src, a.type);
            if (a.env_value && a.kind == Arg::OPT && a.type.rfind("vector", 0) != 0 && src.chance(1, 8))
                a.env_value = ""; // set to nothing is not the same as not set
            else if (a.env_value && a.env_value->empty())
                a.env_value = "e";
        }
        r.push_back(a);
    }
    // declaration order is free among kinds
    std::vector<Arg> order;
    while (!r.empty())
    {
        const size_t i = src.chance(1, 3) ? src.below(r.size()) : 0;
        order.push_back(r[i]);
        r.erase(r.begin() + (long)i);
    }
    return order;
}
struct Env
{
    const std::vector<Arg>& args;
    explicit Env(const std::vector<Arg>& a)
        : args(a)
    {
        for (auto& x : args)
            if (!x.env.empty())
            {
                if (x.env_value)
                    setenv(x.env.c_str(), x.env_value->c_str(), 1);
                else
                    unsetenv(x.env.c_str());
            }
    }
    ~Env()
    {
        for (auto& x : args)
            if (!x.env.empty())
                unsetenv(x.env.c_str());
    }
};
static void describe(Ctx& ctx, const std::vector<Arg>& args, const std::vector<std::string>& line)
{
    for (auto& a : args)
        ctx.note(cat("  ", a.kind == Arg::POS ? "positional " : a.kind == Arg::OPT ? "option " : "flag ", a.name, a.shortname ? cat(" -", a.shortname) : std::string(), " ", a.type, a.required ? " required" : "",
                     a.kind == Arg::OPT ? cat(" default ", q(default_text(a.type, a.def))) : std::string(), a.env_value ? cat(" env ", q(*a.env_value)) : std::string(),
                     a.refusal == NONE ? "" : a.refusal == RETURNS ? " validated" : " validated (throws)", "\n"));
    ctx.note("  line:");
    for (auto& s : line)
        ctx.note(" " + q(s));
    ctx.note("\n");
}
// one intended argument, in a form of its own
struct Item
{
    int arg; // -1: a token that is wrong
    std::string text;
};
static void emit(Src& src, const std::vector<Arg>& args, const Item& it, std::vector<std::string>& line)
{
    if (it.arg < 0 || args[it.arg].kind == Arg::POS)
    {
        line.push_back(it.text);
        return;
    }
    const Arg& a = args[it.arg];
    const bool s = a.shortname && src.coin();
    const std::string name = s ? std::string("-") + a.shortname : "--" + a.name;
    if (a.kind == Arg::FLAG)
        line.push_back(name);
    else if (!it.text.empty() && src.coin())
        line.push_back(name + "=" + it.text);
    else
    {
        line.push_back(name);
        line.push_back(it.text);
    }
}

void property_case(Src& src, Ctx& ctx)
{
    const std::vector<Arg> args = declare(src);
    std::vector<std::string> line;
#ifdef ANYLINE
    const int n = (int)src.below(src.chance(1, 5) ? 15 : 8);
    bool known = false, unknown = false;
    for (int i = 0; i < n; ++i)
    {
        std::string s;
        const Arg* a = args.empty() ? nullptr : &args[src.below(args.size())];
        switch (src.weighted({6, 4, 2, 2, 2, 1}))
        {
        case 0:
            if (a && a->kind != Arg::POS)
            {
                emit(src, args, {(int)(a - args.data()), a->kind == Arg::OPT ? value_text(src, a->type) : std::string()}, line);
                known = true;
                if (src.chance(1, 8) && !line.empty())
                    line.pop_back();
                continue;
            }
            s = a ? value_text(src, a->type) : "v";
            break;
        case 1:
            s = value_text(src, src.pick(TYPES));
            break;
        case 2:
            s = src.pick(std::vector<std::string>{"--help", "-h", "--version", "-v", "-help", "--h", "--help=1", "-v=2", "--versio", "---help", "--helper", "-hv"});
            unknown = true;
            break;
        case 3:
            s = src.pick(std::vector<std::string>{"-", "--", "---", "=", "-=", "--=", "--=x", "-=x", "", " ", "--no-such", "-z", "-zz", "--out=", "-o=", "--no=1", "- x", "-- x"});
            unknown = true;
            break;
        case 4:
            if (a)
            {
                s = (src.coin() ? "-" : "--") + (a->shortname && src.coin() ? std::string(1, a->shortname) : a->name);
                switch (src.below(5))
                {
                case 0: s += "="; break;
                case 1: s.pop_back(); break;
                case 2: s += "x"; break;
                case 3: s = "-" + s; break;
                default: s += "=" + value_text(src, src.pick(TYPES));
                }
            }
            unknown = true;
            break;
        default: {
            const int len = (int)src.below(src.chance(1, 10) ? 300 : 12);
            for (int k = 0; k < len; ++k)
                s += (char)(src.coin() ? "-=h1,vo. \t"[src.below(10)] : 1 + src.below(255));
            unknown = true;
        }
        }
        line.push_back(s);
    }
    if (!args.empty() && src.chance(1, 300))
        for (int k = 200 + (int)src.below(2000); k-- > 0;)
        {
            const int i = (int)src.below(args.size());
            emit(src, args, {i, args[(size_t)i].kind == Arg::FLAG ? std::string() : "1"}, line);
        }
    ctx.nontrivial(known && unknown && line.size() >= 3);
    describe(ctx, args, line);
    Env env(args);
    const Expect x = expect(args, line);
    ctx.note(cat("  expected: ", oname[(int)x.out], " ", x.why, "\n"));
    ctx.label(oname[(int)x.out]);
    judge(args, line, x, run(args, line, src.coin()));
    if (src.chance(1, 50))
    {
        // no arguments at all, not even the program's name
        Silence quiet;
        tc::sdk::argument_parser p("prog-name", "v1.2.3-x");
        char* none[] = {nullptr};
        (void)p.parse(0, none);
    }
#else
    // intended arguments
    std::vector<Item> items;
    bool repeated = false, required = false, from_env = false;
    std::vector<int> wanted;
    for (size_t i = 0; i < args.size(); ++i)
    {
        const Arg& a = args[i];
        int times = a.kind == Arg::POS ? !src.chance(1, 25) : a.kind == Arg::FLAG ? (int)src.weighted({2, 2, 1}) : (int)src.weighted({a.required && !a.env_value ? 1u : 8u, 8, 3, 1});
        if (times && a.kind != Arg::POS && src.chance(1, 1500))
            times = 100 + (int)src.below(400);
        repeated |= times > 1;
        required |= a.required;
        from_env |= a.env_value.has_value();
        for (int k = 0; k < times; ++k)
            items.push_back({(int)i, a.kind == Arg::FLAG ? std::string() : src.chance(1, 40) ? std::string("bad") : value_text(src, a.type)});
    }
    // positionals cannot begin with a dash
    for (auto& it : items)
        if (args[it.arg].kind == Arg::POS)
            while (!it.text.empty() && it.text[0] == '-')
                it.text.erase(0, 1);
    for (auto& it : items)
        if (args[it.arg].kind == Arg::POS && it.text.empty() && src.coin())
            it.text = "1";
    if (src.chance(1, 25))
        items.push_back({-1, src.pick(std::vector<std::string>{"--no-such", "-z", "excess", "--", "--no-such=1"})});
    // two lines with the same arguments: positionals among themselves and repetitions of an option keep their order
    auto positional = [&](const Item& it) { return it.arg < 0 ? it.text[0] != '-' : args[it.arg].kind == Arg::POS; };
    auto arrange = [&] {
        std::vector<Item> rest = items, done;
        while (!rest.empty())
        {
            const size_t i = src.below(rest.size());
            size_t first = i;
            for (size_t j = 0; j < i; ++j)
                if (rest[j].arg == rest[i].arg || (positional(rest[j]) && positional(rest[i])))
                {
                    first = j;
                    break;
                }
            done.push_back(rest[first]);
            rest.erase(rest.begin() + (long)first);
        }
        std::vector<std::string> l;
        for (auto& it : done)
            emit(src, args, it, l);
        return l;
    };
    line = arrange();
    const std::vector<std::string> other = arrange();
    describe(ctx, args, line);
    const Expect x = expect(args, line);
    ctx.note(cat("  expected: ", oname[(int)x.out], " ", x.why, "\n"));
    ctx.label(oname[(int)x.out]);
    size_t asked = 0;
    for (auto& v : x.validated)
        asked += v.size();
    ctx.nontrivial(from_env + (asked > 0) + repeated + required + (line != other) >= 2);
    Env env(args);
    const Result r = run(args, line, src.coin());
    judge(args, line, x, r);
    const Expect y = expect(args, other);
    const Result s = run(args, other, src.coin());
    ctx.note("  equivalent line:");
    for (auto& t : other)
        ctx.note(" " + q(t));
    ctx.note("\n");
    judge(args, other, y, s);
    if (x.out != Out::unknown && y.out != Out::unknown)
    {
        CHECK(r.r == s.r, "the same arguments in another order or form give another result");
        if (r.r == tc::sdk::parse_result::success)
            CHECK(r.values == s.values, "the same arguments in another order or form give other values");
    }
#endif
}
}
