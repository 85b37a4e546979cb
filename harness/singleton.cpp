// C34: singleton<T>::instance() raced by generated threads, with constructors that take time, depend on another singleton or fail.
// Oracle: one address, one completed construction, failures reach exactly the caller that constructed; races by the runtime's detector.
#include "simcase.hpp"

#include <array>
#include <memory>
#include <teiacare/sdk/singleton.hpp>
#include <thread>
#include <type_traits>
#include <utility>

namespace pbt
{
const char* const rule = "two singleton classes never used before, 1-6 threads of 1-4 calls of instance(), constructors of 0-6 steps that fail 0-2 times or need the other class, under a generated schedule; "
                         "non-trivial = at least two threads asked before the first construction was complete";
struct Boom
{
    int attempt;
};
struct Ledger
{
    int attempts = 0, completed = 0, failures_left = 0, steps = 0, constructing = 0;
    bool needs_other = false;
    void* first = nullptr;
    int asking_before = 0; // threads that called before it was complete
    int by = -1;
};
static Ledger* g[2];
static void* other_instance();
template <int K>
struct S : public tc::sdk::singleton<S<K>>
{
    int a = 0, b = 0;
    std::array<int, 12> c{};
    void* other = nullptr;

private:
    friend class tc::sdk::singleton<S<K>>;
    S()
    {
        const int which = K % 2;
        int at, steps;
        bool fail, needs;
        {
            sim::Quiet q;
            Ledger& l = *g[which];
            at = ++l.attempts;
            steps = l.steps;
            fail = l.failures_left > 0;
            needs = l.needs_other;
            l.failures_left -= fail;
            l.by = sim::self();
            sim::event("constructor", which, at);
            if (++l.constructing > 1)
                sim::fail(cat("class ", which, " is constructed twice at once"));
            if (l.completed)
                sim::fail(cat("class ", which, " is constructed again"));
        }
        a = 17;
        for (int i = 0; i < steps; ++i)
        {
            sim::yield();
            c[i] = i + 100;
        }
        if (needs)
            other = other_instance();
        {
            sim::Quiet q;
            --g[which]->constructing;
            sim::event(fail ? "  constructor throws" : "  constructed", which);
        }
        if (fail)
            throw Boom{at};
        b = 2 * K + 1;
        sim::Quiet q;
        ++g[which]->completed;
    }
};
static const int pairs = 64;
struct Entry
{
    void* (*get)();
    bool (*intact)(void*, int steps, void* other);
};
template <int K>
static Entry entry()
{
    return {[]() -> void* { S<K>& s = S<K>::instance(); return &s; },
            [](void* p, int steps, void* other) {
                S<K>& s = *(S<K>*)p;
                bool ok = s.a == 17 && s.b == 2 * K + 1 && s.other == other;
                for (int i = 0; i < steps; ++i)
                    ok &= s.c[i] == i + 100;
                return ok;
            }};
}
template <int... K>
static std::array<Entry, sizeof...(K)> make(std::integer_sequence<int, K...>)
{
    return {entry<K>()...};
}
static const auto table = make(std::make_integer_sequence<int, 2 * pairs>());
static int used, base;
static void* other_instance()
{
    return table[base + 1].get();
}
static_assert(!std::is_copy_constructible_v<S<0>> && !std::is_move_constructible_v<S<0>> && !std::is_copy_assignable_v<S<0>>, "a singleton can be copied");

void property_case(Src& src, Ctx& ctx)
{
    if (used >= pairs)
        throw Discard{};
    base = 2 * used++;
    const int nt = 1 + (int)src.weighted({1, 4, 4, 2, 2, 1});
    std::vector<std::vector<int>> prog((size_t)nt);
    for (auto& p : prog)
    {
        const int n = 1 + (int)src.below(4);
        for (int i = 0; i < n; ++i)
            p.push_back((int)src.weighted({3, 1}));
    }
    Ledger l[2];
    g[0] = &l[0];
    g[1] = &l[1];
    for (auto& x : l)
    {
        x.steps = (int)src.below(7);
        x.failures_left = src.chance(1, 3) ? 1 + (int)src.below(2) : 0;
    }
    l[0].needs_other = src.chance(1, 3);
    if (l[0].needs_other)
        l[1].failures_left = 0;
    sim::Config cfg = draw_schedule(src, ctx, true);
    for (int i = 0; i < 2; ++i)
        ctx.notef("class %d: constructor of %d steps%s%s\n", i, l[i].steps, l[i].failures_left ? cat(", fails ", l[i].failures_left, " times").c_str() : "", l[i].needs_other ? ", needs class 1" : "");
    for (auto& p : prog)
    {
        ctx.note("  thread:");
        for (int k : p)
            ctx.notef(" %d", k);
        ctx.note("\n");
    }
    const int steps[2] = {l[0].steps, l[1].steps};
    const int failures[2] = {l[0].failures_left, l[1].failures_left};
    sim::run(cfg, [&] {
        int threw[2] = {}, calls[2] = {};
        auto call = [&](int k) {
            {
                sim::Quiet q;
                sim::event("instance()", k);
                if (!l[k].completed)
                    ++l[k].asking_before;
                ++calls[k];
            }
            try
            {
                void* p = table[base + k].get();
                void* other = nullptr;
                if (k == 0 && l[0].needs_other)
                    other = table[base + 1].get();
                if (!table[base + k].intact(p, steps[k], other))
                    sim::fail(cat("a caller got an instance of class ", k, " that is not completely constructed"));
                sim::Quiet q;
                sim::event("  returned", k);
                if (l[k].completed != 1)
                    sim::fail(cat("instance() of class ", k, " returned after ", l[k].completed, " constructions"));
                if (!l[k].first)
                    l[k].first = p;
                if (l[k].first != p)
                    sim::fail(cat("instance() of class ", k, " returned different objects"));
                if (l[1 - k].first == p)
                    sim::fail("two classes share their instance");
            }
            catch (Boom& e)
            {
                sim::Quiet q;
                sim::event("  threw", k, e.attempt);
                ++threw[k];
                if (threw[k] > failures[k])
                    sim::fail("more exceptions than constructors that threw");
            }
        };
        std::vector<std::thread> ts;
        for (auto& p : prog)
            ts.emplace_back([&] {
                for (int k : p)
                    call(k);
            });
        for (auto& t : ts)
            t.join();
        sim::Quiet q;
        for (int k = 0; k < 2; ++k)
        {
            if (threw[k] + l[k].completed != l[k].attempts)
                sim::fail(cat("class ", k, ": ", l[k].attempts, " constructions begun, ", l[k].completed, " completed, ", threw[k], " exceptions"));
            if (calls[k] > failures[k] && l[k].completed != 1)
                sim::fail(cat("class ", k, " was constructed ", l[k].completed, " times"));
        }
    });
    ctx.nontrivial(l[0].asking_before > 1 || l[1].asking_before > 1);
}
}
