// C16: UUID text <-> value.  Oracle: an independent reader of the accepted grammar.
#include "pbt.hpp"

#include <optional>
#include <teiacare/sdk/uuid.hpp>
#include <teiacare/sdk/uuid_generator.hpp>

namespace pbt
{
const char* const rule = "text built from a grammar (hex digits, dashes, braces, case) then mutated, some lengthened by 32 to 65600 digits or dashes, or arbitrary bytes; "
                         "non-trivial = accepted text, or rejected text within 3 edits of an accepted one";

// Accepted: optional surrounding {}, dashes anywhere, exactly 32 hex digits of any case. Canonical form, or nothing.
static std::optional<std::string> model(std::string s)
{
    if (s.empty())
        return {};
    if (s.front() == '{')
    {
        if (s.size() < 2 || s.back() != '}')
            return {};
        s = s.substr(1, s.size() - 2);
    }
    std::string d;
    for (char c : s)
    {
        if (c == '-')
            continue;
        if (c >= '0' && c <= '9')
            d += c;
        else if (c >= 'a' && c <= 'f')
            d += c;
        else if (c >= 'A' && c <= 'F')
            d += char(c - 'A' + 'a');
        else
            return {};
    }
    if (d.size() != 32)
        return {};
    for (int p : {20, 16, 12, 8})
        d.insert((size_t)p, "-");
    return d;
}

void property_case(Src& src, Ctx& ctx)
{
    auto& g = tc::sdk::uuid_generator::instance();
    std::string s;
    int edits = 0;
    bool arbitrary = src.chance(1, 12);
    if (arbitrary)
    {
        ctx.label("arbitrary bytes");
        while (src.more(20))
            s += (char)src.below(256);
    }
    else
    {
        std::string digits;
        int casing = (int)src.below(3);
        int rep = (int)src.below(4); // 0: all-zero-ish, else random
        for (int i = 0; i < 32; ++i)
        {
            int v = rep == 0 ? (int)(src.chance(1, 8) ? src.below(16) : 0) : (int)src.below(16);
            bool up = casing == 1 || (casing == 2 && src.coin());
            digits += v < 10 ? char('0' + v) : char((up ? 'A' : 'a') + v - 10);
        }
        size_t dash = src.below(4);
        for (size_t i = 0; i < 32; ++i)
        {
            if (dash == 0 && (i == 8 || i == 12 || i == 16 || i == 20))
                s += '-';
            if (dash == 2 && src.chance(1, 6))
                s += '-';
            if (dash == 3 && i && i % 4 == 0)
                s += '-';
            s += digits[i];
        }
        if (dash == 2 && src.coin())
            s += '-';
        if (src.chance(1, 3))
            s = "{" + s + "}";
        static const std::vector<char> odd{'-', '{', '}', 'g', 'G', '/', ':', '@', '`', ' ', '\0', '\n', (char)0xff, 'x', '0', 'f', 'F', '9', 'a', 'A', 'z', '_'};
        edits = (int)src.weighted({5, 4, 2, 1});
        for (int e = 0; e < edits; ++e)
        {
            size_t at = src.chance(1, 4) ? (src.coin() ? s.size() : 0) : src.below(s.size() + 1);
            switch (src.below(5))
            {
            case 0:
                s.insert(at, 1, src.pick(odd));
                break;
            case 1:
                if (at < s.size())
                    s.erase(at, 1);
                break;
            case 2:
                if (at < s.size())
                    s[at] = src.coin() ? src.pick(odd) : (char)src.below(256);
                break;
            case 3:
                s = s.substr(0, at);
                break;
            default:
                s.insert(at, 1 + src.below(2), "0123456789abcdefABCDEF"[src.below(22)]);
            }
        }
        if (src.chance(1, 15)) // long: counters that wrap, digits beyond the sixteenth byte, many dashes
        {
            ctx.label("long");
            edits += 1;
            const size_t more = src.pick(std::vector<size_t>{32, 33, 64, 224, 256, 480, 512, 992, 1024, 8192, 65536}) + (src.coin() ? 0 : src.below(64));
            s.insert(src.below(s.size() + 1), more, src.coin() ? '-' : "0123456789abcdefABCDEF"[src.below(22)]);
        }
    }
    ctx.note("text " + q(s));
    const auto want = model(s);
    ctx.label(want ? "accepted" : "rejected");
    ctx.nontrivial(want.has_value() || (!arbitrary && edits));
    // the view is not NUL-terminated and is exactly s.size() long (heap copy: an overread is an ASan report)
    std::vector<char> exact(s.begin(), s.end());
    std::string_view sv(exact.data(), exact.size());
    std::optional<tc::sdk::uuid> u;
    auto judge = [&](std::string_view sv, const std::optional<std::string>& want) {
        const bool valid = g.is_valid(sv);
        u.reset();
        try
        {
            u.emplace(g.from_string(sv));
        }
        catch (const std::runtime_error&)
        {
        }
        CHECK(valid == want.has_value(), "is_valid(", q(std::string(sv)), ") = ", valid);
        CHECK(u.has_value() == want.has_value(), "from_string(", q(std::string(sv)), ") ", u ? "returned" : "threw");
        CHECK(!u || u->to_string() == *want, "to_string of parsed ", q(std::string(sv)), " is ", q(u->to_string()), ", expected ", q(*want));
    };
    // other content in the same place
    if (!exact.empty() && src.chance(1, 4))
    {
        const size_t at = src.below(std::min<size_t>(exact.size(), 40));
        const char was = exact[at];
        exact[at] = "0123456789abcdef-{}gX "[src.below(22)];
        ctx.note("\nafter " + q(std::string(sv)));
        judge(sv, model(std::string(sv)));
        exact[at] = was;
    }
    judge(sv, want);
    if (!u)
        return;
    const std::string t = u->to_string();
    CHECK(t == *want, "to_string of parsed ", q(s), " is ", q(t), ", expected ", q(*want));
    // canonical text is a fixed point, and case / braces / dashes do not matter
    CHECK(g.is_valid(t), "canonical text not valid: ", t);
    CHECK(g.from_string(t) == *u, "canonical text reads back as another uuid: ", t);
    std::string up;
    for (char c : t)
        if (c != '-')
            up += (char)toupper(c);
    CHECK(g.from_string("{" + up + "}") == *u, "undecorated upper-case text reads back as another uuid: ", up);
    std::ostringstream os;
    os << *u;
    CHECK(os.str() == t, "operator<< gives ", q(os.str()));
    // a freshly created uuid round-trips too
    const auto c = g.create();
    CHECK(g.from_string(c.to_string()) == c, "created uuid does not survive to_string/from_string: ", c.to_string());
}
}
