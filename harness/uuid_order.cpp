// C17: a uuid is a value: comparisons agree with one total order of the 16 bytes, copies are equal and independent.
#include "pbt.hpp"

#include <algorithm>
#include <array>
#include <sstream>
#include <teiacare/sdk/uuid.hpp>
#include <teiacare/sdk/uuid_generator.hpp>
#include <vector>

namespace pbt
{
const char* const rule = "2-6 uuids of generated bytes (equal, differing in one byte or one bit, sharing a prefix, or unrelated); "
                         "non-trivial = two of them share at least the first byte or differ in the top bit of a byte";
using Bytes = std::array<uint8_t, 16>;

static std::string text(const Bytes& b)
{
    std::string s;
    char t[3];
    for (size_t i = 0; i < 16; ++i)
    {
        if (i == 4 || i == 6 || i == 8 || i == 10)
            s += '-';
        snprintf(t, sizeof t, "%02x", b[i]);
        s += t;
    }
    return s;
}
static int order(const Bytes& a, const Bytes& b)
{
    for (size_t i = 0; i < 16; ++i)
        if (a[i] != b[i])
            return (unsigned)a[i] < (unsigned)b[i] ? -1 : 1;
    return 0;
}
static void relate(const tc::sdk::uuid& a, const tc::sdk::uuid& b, int o, const std::string& what)
{
    CHECK((a == b) == (o == 0), "== ", what);
    CHECK((a != b) == (o != 0), "!= ", what);
    CHECK((a < b) == (o < 0), "< ", what);
    CHECK((a > b) == (o > 0), "> ", what);
    CHECK((a <= b) == (o <= 0), "<= ", what);
    CHECK((a >= b) == (o >= 0), ">= ", what);
}

void property_case(Src& src, Ctx& ctx)
{
    const auto& g = tc::sdk::uuid_generator::instance();
    const size_t n = 2 + src.below(5);
    std::vector<Bytes> bs;
    bool close = false;
    for (size_t i = 0; i < n; ++i)
    {
        Bytes b{};
        const size_t kind = i ? src.below(6) : 5;
        if (kind < 5)
            b = bs[src.below(i)];
        size_t p = src.below(16);
        switch (kind)
        {
        case 0:
            break; // equal
        case 1:
            b[p] ^= (uint8_t)(1u << src.below(8));
            break;
        case 2:
            b[p] = (uint8_t)src.below(256);
            break;
        case 3: // two bytes in opposite directions: the earlier one decides
        {
            size_t r = src.below(16);
            b[p]++;
            b[r]--;
            break;
        }
        case 4:
            for (size_t k = p; k < 16; ++k)
                b[k] = (uint8_t)src.below(256);
            break;
        default:
            for (auto& x : b)
                x = src.chance(1, 4) ? (uint8_t)src.pick(std::vector<int>{0, 0xff, 0x80, 0x7f}) : (uint8_t)src.below(256);
            if (src.chance(1, 8))
                b.fill((uint8_t)src.pick(std::vector<int>{0, 0xff}));
        }
        close |= kind < 5;
        bs.push_back(b);
        ctx.note(text(b) + "\n");
    }
    std::vector<tc::sdk::uuid> us;
    for (auto& b : bs)
        us.push_back(g.from_string(text(b)));
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < n; ++j)
        {
            relate(us[i], us[j], order(bs[i], bs[j]), text(bs[i]) + " and " + text(bs[j]));
            // text order and value order are the same
            const int t = us[i].to_string().compare(us[j].to_string());
            CHECK((t < 0) == (us[i] < us[j]) && (t == 0) == (us[i] == us[j]), "text order differs from value order: ", text(bs[i]), " and ", text(bs[j]));
        }
    // sorting is by bytes
    std::vector<size_t> idx(n);
    for (size_t i = 0; i < n; ++i)
        idx[i] = i;
    std::stable_sort(idx.begin(), idx.end(), [&](size_t a, size_t b) { return us[a] < us[b]; });
    for (size_t i = 0; i + 1 < n; ++i)
        CHECK(order(bs[idx[i]], bs[idx[i + 1]]) <= 0, "sorting by < leaves ", text(bs[idx[i]]), " before ", text(bs[idx[i + 1]]));
    // copies and moves carry the value, and are independent of their source
    {
        const size_t a = src.below(n), b = src.below(n);
        tc::sdk::uuid c(us[a]);
        CHECK(c == us[a] && c.to_string() == text(bs[a]), "copy of ", text(bs[a]), " is ", c.to_string());
        tc::sdk::uuid d(std::move(c));
        CHECK(d.to_string() == text(bs[a]), "moved ", text(bs[a]), " is ", d.to_string());
        d = us[b];
        CHECK(d.to_string() == text(bs[b]) && us[a].to_string() == text(bs[a]), "assignment of ", text(bs[b]), " gives ", d.to_string());
        tc::sdk::uuid e;
        CHECK(e.to_string() == "00000000-0000-0000-0000-000000000000", "a default uuid is ", e.to_string());
        relate(e, us[a], order(Bytes{}, bs[a]), "null and " + text(bs[a]));
        e = std::move(d);
        CHECK(e.to_string() == text(bs[b]), "move assignment of ", text(bs[b]), " gives ", e.to_string());
        std::ostringstream os;
        os << e;
        CHECK(os.str() == text(bs[b]), "operator<< prints ", os.str(), " for ", text(bs[b]));
    }
    ctx.nontrivial(close);
    ctx.label(close ? "related" : "unrelated");
}
}
