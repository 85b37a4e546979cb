// Choice-sequence property-based testing core (integrated shrinking, process isolation, replay).
//
// A *case* is a sequence of bounded integer choices.  A generator draws choices from a Src; every random
// decision of a case (inputs, operations, schedule seed, fault points) is such a draw, so a case is replayed
// by feeding the same choices back and shrunk by deleting/minimising choices (missing choices read as 0,
// the simplest value).  The same representation is used as fuzz input (see pbt_fuzz in pbt_main.cpp).
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <sstream>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>

namespace pbt
{
struct Failure
{
    std::string msg;
};
struct Discard
{
};

// Raw storage a Src records into; lives in shared memory so that the choices of a crashing case survive it.
struct Record
{
    static constexpr size_t MAX = 1 << 16;
    uint64_t n;
    uint64_t v[MAX];
    char note[1 << 14];
    uint64_t note_len;
    char msg[1 << 13];
    uint64_t failed;
};

class Src
{
public:
    Src(uint64_t seed, Record* rec)
        : _s(seed ^ 0x9e3779b97f4a7c15ull)
        , _rec(rec)
        , _random(true)
    {
        _rec->n = 0;
    }
    Src(const std::vector<uint64_t>& choices, Record* rec)
        : _s(0)
        , _rec(rec)
        , _random(false)
        , _in(choices)
    {
        _rec->n = 0;
    }

    // uniform in [0, n); shrinks toward 0
    uint64_t below(uint64_t n);
    // uniform in [lo, hi]; shrinks toward 0 when 0 is inside, else toward lo
    int64_t range(int64_t lo, int64_t hi);
    // true with probability num/den; shrinks toward false
    bool chance(uint64_t num, uint64_t den)
    {
        return below(den) >= den - num;
    }
    bool coin()
    {
        return below(2) == 1;
    }
    // "one more element?" with the given mean length; shrinks toward "no"
    bool more(uint64_t mean)
    {
        return below(mean + 1) != 0;
    }
    template <typename T>
    const T& pick(const std::vector<T>& xs)
    {
        return xs[below(xs.size())];
    }
    // index by weight; shrinks toward the first
    size_t weighted(std::initializer_list<unsigned> w) { return weighted(std::vector<unsigned>(w)); }
    size_t weighted(const std::vector<unsigned>& w)
    {
        uint64_t tot = 0;
        for (auto x : w)
            tot += x;
        uint64_t r = below(tot);
        size_t i = 0;
        for (auto x : w)
        {
            if (r < x)
                return i;
            r -= x;
            ++i;
        }
        return 0;
    }
    // integers of very different magnitude: small, boundary-ish (powers of two +-1), anything in [lo,hi]
    int64_t spread(int64_t lo, int64_t hi);
    uint64_t bits64();

private:
    uint64_t next();
    uint64_t record(uint64_t v);
    uint64_t _s;
    Record* _rec;
    bool _random;
    std::vector<uint64_t> _in;
    size_t _pos = 0;
};

class Ctx
{
public:
    explicit Ctx(Record* rec)
        : _rec(rec)
    {
        _rec->note_len = 0;
        _rec->note[0] = 0;
    }
    // human-readable rendering of the case; also its identity when distinct cases are counted
    void note(const std::string& s);
    template <typename... A>
    void notef(const char* fmt, A... a)
    {
        char b[512];
        snprintf(b, sizeof b, fmt, a...);
        note(b);
    }
    void nontrivial(bool b = true)
    {
        if (b)
            _nontrivial = true;
    }
    void label(const char* l)
    {
        labels.push_back(l);
    }
    bool is_nontrivial() const
    {
        return _nontrivial;
    }
    Record* rec()
    {
        return _rec;
    }
    std::vector<const char*> labels;

private:
    Record* _rec;
    bool _nontrivial = false;
};

[[noreturn]] void fail(const std::string& msg);

// Every harness defines these.
extern const char* const rule;                // non-triviality rule, for evidence
void property_case(Src& src, Ctx& ctx);       // generate one case, run it, throw Failure when the property breaks
}

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
#define PBT_STR2(x) #x
#define PBT_STR(x) PBT_STR2(x)
#define CHECK(cond, ...)                                                                          \
    do                                                                                            \
    {                                                                                             \
        if (!(cond))                                                                              \
            ::pbt::fail(::pbt::cat("check failed: " #cond " -- ", __VA_ARGS__));                  \
    } while (0)

namespace pbt
{
inline std::string q(const std::string& s)
{
    std::string o = "\"";
    char b[8];
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\')
        {
            o += '\\';
            o += (char)c;
        }
        else if (c < 32 || c >= 127)
        {
            snprintf(b, sizeof b, "\\x%02x", c);
            o += b;
        }
        else
            o += (char)c;
    }
    return o + "\"";
}
template <typename... A>
std::string cat(const A&... a)
{
    std::ostringstream os;
    os.precision(17);
    ((os << a), ...);
    return os.str();
}
}
