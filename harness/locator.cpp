// C32: service_locator against a reference registry: histories of registrations, look-ups and removals, with a ledger of every service's life.
#include "pbt.hpp"

#include <functional>
#include <map>
#include <memory>
#include <string>
#include <teiacare/sdk/service_locator.hpp>

namespace pbt
{
const char* const rule = "1-40 operations over 6 keys (4 interfaces, a concrete class, int): register a service of 8 classes (interface first, second, third or virtual base; arguments; throwing constructor), register an instance, get, hold, release, unregister; "
                         "non-trivial = a registration is refused or replaced after a removal, and at least two keys are registered at once";
struct Life
{
    int built = 0, live = 0;
};
static std::map<int, Life> g_life;
struct Boom
{
};
struct Tracked // first member of no service: services derive from it last
{
    int id;
    std::string s;
    uint64_t magic = 0xfeedface;
    Tracked(int i, std::string x)
        : id(i)
        , s(std::move(x))
    {
        if (i < 0)
            throw Boom{};
        ++g_life[id].built;
        ++g_life[id].live;
    }
    Tracked(const Tracked&) = delete;
    ~Tracked()
    {
        magic = 0;
        --g_life[id].live;
    }
};
struct IA
{
    virtual ~IA() = default;
    virtual int a() = 0;
    virtual const Tracked* whose_a() const = 0;
};
struct IB
{
    virtual ~IB() = default;
    virtual const Tracked* whose_b() const = 0;
    virtual std::string b(int) = 0;
};
struct IC // nothing deletes through it
{
    virtual const Tracked* whose_c() = 0;

protected:
    ~IC() = default;
};
struct ID
{
    int field = 17;
    virtual ~ID() = default;
    virtual const Tracked* whose_d() = 0;
};
struct Pad
{
    long room[3] = {1, 2, 3};
    virtual ~Pad() = default;
};
#define A_ int a() override { return id * 10 + 1; } const Tracked* whose_a() const override { return this; }
#define B_ std::string b(int n) override { return s + std::to_string(n); } const Tracked* whose_b() const override { return this; }
struct OnlyA : IA, Tracked
{
    explicit OnlyA(int i)
        : Tracked(i, "one")
    {
    }
    A_
};
struct AB : IA, IB, Tracked
{
    AB(int i, const std::string& x, double d)
        : Tracked(i, x + std::to_string((int)d))
    {
    }
    A_ B_
};
struct PadBA : Pad, IB, IA, Tracked
{
    std::unique_ptr<int> p;
    PadBA(int i, std::unique_ptr<int> x)
        : Tracked(i, std::to_string(x ? *x : -1))
        , p(std::move(x))
    {
    }
    A_ B_
};
struct CD : IC, virtual ID, Tracked
{
    explicit CD(int i)
        : Tracked(i, "cd")
    {
    }
    const Tracked* whose_c() override { return this; }
    const Tracked* whose_d() override { return this; }
};
struct Mid1 : virtual ID
{
    long x = 1;
};
struct Mid2 : virtual ID
{
    long y = 2;
};
struct Diamond : Mid1, Mid2, IA, Tracked
{
    Diamond(int i, const char* x)
        : Tracked(i, x)
    {
    }
    A_
    const Tracked* whose_d() override { return this; }
};
static tc::sdk::service_locator& L() { return tc::sdk::service_locator::instance(); }

// keys
enum
{
    KA,
    KB,
    KC,
    KD,
    KConcrete,
    KInt,
    KEYS
};
static const char* kname[] = {"IA", "IB", "IC", "ID", "AB", "int"};
struct Held
{
    std::shared_ptr<void> p;
    const void* address = nullptr; // of the interface
    int id = 0;
};
static std::string tag; // what the service should say of its arguments

struct Entry
{
    int id;
    const void* address; // of the object as that type
    std::string says;
};
static const Tracked* who(IA* x) { return x->whose_a(); }
static const Tracked* who(IB* x) { return x->whose_b(); }
static const Tracked* who(IC* x) { return x->whose_c(); }
static const Tracked* who(ID* x) { return x->whose_d(); }
static const Tracked* who(AB* x) { return x; }
template <class T>
static void look(const Entry* e, int k, std::map<int, Held>* hold)
{
    const tc::sdk::service_locator& c = L();
    std::shared_ptr<T> p = c.get<T>();
    CHECK(L().is_registered<T>() == (e != nullptr), "is_registered<", kname[k], ">() is ", e ? "false" : "true");
    CHECK((p != nullptr) == (e != nullptr), "get<", kname[k], ">() is ", p ? "not null" : "null");
    if (!e)
        return;
    if (e->address)
        CHECK(p.get() == e->address, "get<", kname[k], ">() is another object than before or than the instance registered");
    if constexpr (std::is_same_v<T, int>)
        CHECK(*p == e->id, "get<int>() is ", *p, ", expected ", e->id);
    else
    {
        const Tracked* t = who(p.get());
        CHECK(t->magic == 0xfeedface && t->id == e->id, "get<", kname[k], ">() is service ", t->id, ", expected ", e->id);
        CHECK(t->s == e->says, "service ", t->id, " was built from ", q(t->s), ", expected ", q(e->says));
        if constexpr (std::is_same_v<T, IA>)
            CHECK(p->a() == e->id * 10 + 1, "a() of service ", e->id);
        if constexpr (std::is_same_v<T, IB>)
            CHECK(p->b(3) == e->says + "3", "b() of service ", e->id);
        if constexpr (std::is_same_v<T, ID>)
            CHECK(p->field == 17, "field of service ", e->id);
        CHECK(g_life[e->id].built == 1 && g_life[e->id].live == 1, "service ", e->id, " built ", g_life[e->id].built, " times, ", g_life[e->id].live, " alive");
    }
    const_cast<Entry*>(e)->address = p.get();
    if (hold)
        (*hold)[k] = Held{p, p.get(), e->id};
}
static void look(int k, const Entry* e, std::map<int, Held>* hold = nullptr)
{
    switch (k)
    {
    case KA: return look<IA>(e, k, hold);
    case KB: return look<IB>(e, k, hold);
    case KC: return look<IC>(e, k, hold);
    case KD: return look<ID>(e, k, hold);
    case KConcrete: return look<AB>(e, k, hold);
    default: return look<int>(e, k, hold);
    }
}
static bool unregister(int k)
{
    switch (k)
    {
    case KA: return L().unregister<IA>();
    case KB: return L().unregister<IB>();
    case KC: return L().unregister<IC>();
    case KD: return L().unregister<ID>();
    case KConcrete: return L().unregister<AB>();
    default: return L().unregister<int>();
    }
}
struct Way
{
    int key;
    const char* name;
    std::function<bool(int, std::string&)> go; // registers service id, says what it was built from
};
static const std::vector<Way> ways{
    {KA, "OnlyA", [](int i, std::string& s) { s = "one"; return L().register_service<IA, OnlyA>(i); }},
    {KA, "AB", [](int i, std::string& s) { s = "x2"; return L().register_service<IA, AB>(i, "x", 2.5); }},
    {KA, "PadBA", [](int i, std::string& s) { s = "9"; return L().register_service<IA, PadBA>(i, std::make_unique<int>(9)); }},
    {KA, "Diamond", [](int i, std::string& s) { s = "dia"; return L().register_service<IA, Diamond>(i, "dia"); }},
    {KB, "AB", [](int i, std::string& s) { s = std::string(50, 'y') + "-1"; std::string a(50, 'y'); return L().register_service<IB, AB>(i, a, -1.0); }},
    {KB, "PadBA", [](int i, std::string& s) { s = "-1"; return L().register_service<IB, PadBA>(i, std::unique_ptr<int>()); }},
    {KC, "CD", [](int i, std::string& s) { s = "cd"; return L().register_service<IC, CD>(i); }},
    {KD, "CD", [](int i, std::string& s) { s = "cd"; return L().register_service<ID, CD>(i); }},
    {KD, "Diamond", [](int i, std::string& s) { s = "d"; return L().register_service<ID, Diamond>(i, "d"); }},
};

void property_case(Src& src, Ctx& ctx)
{
    g_life.clear();
    std::map<int, Entry> reg;
    std::map<int, std::map<int, Held>> held; // by number
    int next = 1, holds = 0;
    bool refused = false, again = false, two = false;
    std::map<int, bool> was;
    struct Clean
    {
        ~Clean()
        {
            for (int k = 0; k < KEYS; ++k)
                unregister(k);
        }
    } clean;
    auto alive = [&](int id) {
        for (auto& [k, e] : reg)
            if (k != KInt && e.id == id)
                return true;
        for (auto& [n, m] : held)
            for (auto& [k, h] : m)
                if (k != KInt && h.id == id)
                    return true;
        return false;
    };
    auto lives = [&] {
        for (auto& [id, l] : g_life)
            if (alive(id))
                CHECK(l.live == 1, "service ", id, " is registered or held, and ", l.live, " are alive");
            else
                CHECK(l.live == 0, "service ", id, " is neither registered nor held, and ", l.live, " are alive");
    };
    const int n = 1 + (int)src.below(40);
    for (int i = 0; i < n; ++i)
    {
        switch (src.weighted({5, 3, 4, 2, 2, 3, 1, 2}))
        {
        case 0: {
            const Way& w = ways[src.below(ways.size())];
            const int id = next++;
            const bool free = !reg.count(w.key);
            std::string says;
            ctx.note(cat("  register_service<", kname[w.key], ", ", w.name, ">: service ", id, "\n"));
            const bool r = w.go(id, says);
            CHECK(r == free, "register_service<", kname[w.key], "> is ", r, " although ", free ? "nothing is" : "a service is", " registered");
            refused |= !free;
            again |= free && was[w.key];
            if (free)
                reg[w.key] = Entry{id, nullptr, says};
            break;
        }
        case 1: {
            const int k = (int)src.below(KEYS), id = next++;
            const bool free = !reg.count(k);
            bool r = false;
            const void* address = nullptr;
            std::string says = "one";
            ctx.note(cat("  register_instance<", kname[k], ">: service ", id, "\n"));
            // a service already registered under another key can be shared
            auto ab = std::make_shared<AB>(id, "i", 0.0);
            switch (k)
            {
            case KA: {
                std::shared_ptr<IA> p = ab;
                address = p.get();
                r = L().register_instance(p);
                says = "i0";
                break;
            }
            case KB: {
                std::shared_ptr<IB> p = ab;
                address = p.get();
                r = L().register_instance<IB>(std::move(p));
                says = "i0";
                break;
            }
            case KC:
            case KD: {
                ab.reset();
                g_life.erase(id);
                auto cd = std::make_shared<CD>(id);
                says = "cd";
                if (k == KC)
                {
                    std::shared_ptr<IC> p = cd;
                    address = p.get();
                    r = L().register_instance<IC>(p);
                }
                else
                {
                    std::shared_ptr<ID> p = cd;
                    address = p.get();
                    r = L().register_instance<ID>(p);
                }
                break;
            }
            case KConcrete:
                address = ab.get();
                r = L().register_instance(ab);
                says = "i0";
                break;
            default: {
                ab.reset();
                auto p = std::make_shared<int>(id);
                address = p.get();
                r = L().register_instance(p);
            }
            }
            ab.reset();
            CHECK(r == free, "register_instance<", kname[k], "> is ", r, " although ", free ? "nothing is" : "an instance is", " registered");
            refused |= !free;
            again |= free && was[k];
            if (free)
                reg[k] = Entry{id, address, says};
            break;
        }
        case 2: {
            const int k = (int)src.below(KEYS);
            ctx.note(cat("  get<", kname[k], ">\n"));
            look(k, reg.count(k) ? &reg[k] : nullptr);
            break;
        }
        case 3: {
            const int k = (int)src.below(KEYS);
            ctx.note(cat("  hold ", kname[k], "\n"));
            look(k, reg.count(k) ? &reg[k] : nullptr, &held[holds++]);
            break;
        }
        case 4:
            if (!held.empty())
            {
                auto it = held.begin();
                std::advance(it, (long)src.below(held.size()));
                ctx.note("  release\n");
                held.erase(it);
            }
            break;
        case 5: {
            const int k = (int)src.below(KEYS);
            ctx.note(cat("  unregister<", kname[k], ">\n"));
            const bool there = reg.count(k);
            const bool r = unregister(k);
            CHECK(r == there, "unregister<", kname[k], "> is ", r);
            reg.erase(k);
            was[k] |= there;
            break;
        }
        case 7: {
            // the same instance under another type
            static const std::vector<int> ks{KA, KB, KConcrete};
            const int from = src.pick(ks), to = src.pick(ks);
            std::shared_ptr<AB> ab;
            if (reg.count(from))
                ab = from == KA ? std::dynamic_pointer_cast<AB>(L().get<IA>()) : from == KB ? std::dynamic_pointer_cast<AB>(L().get<IB>()) : L().get<AB>();
            if (!ab)
                break;
            const Entry e = reg[from];
            const bool free = !reg.count(to);
            ctx.note(cat("  register_instance<", kname[to], ">: service ", e.id, " of ", kname[from], "\n"));
            const bool r = to == KA ? L().register_instance<IA>(ab) : to == KB ? L().register_instance<IB>(ab) : L().register_instance<AB>(ab);
            CHECK(r == free, "register_instance<", kname[to], "> is ", r, " although ", free ? "nothing is" : "an instance is", " registered");
            refused |= !free;
            if (free)
            {
                reg[to] = Entry{e.id, to == KA ? (const void*)(IA*)ab.get() : to == KB ? (const void*)(IB*)ab.get() : ab.get(), e.says};
                ctx.label("an instance under several types");
            }
            break;
        }
        default: {
            ctx.note("  register_service of a service whose constructor throws\n");
            const bool b = src.coin();
            bool r = false;
            try
            {
                r = b ? L().register_service<IB, AB>(-1, std::string("t"), 1.0) : L().register_service<IA, OnlyA>(-1);
            }
            catch (const Boom&)
            {
            }
            CHECK(!r, "a service that was never built is registered");
        }
        }
        two |= reg.size() > 1;
        lives();
        // every key, not just the one used
        for (int k = 0; k < KEYS; ++k)
            look(k, reg.count(k) ? &reg[k] : nullptr);
        // held services outlive their registration
        for (auto& [x, m] : held)
            for (auto& [k, h] : m)
                if (k == KInt)
                    CHECK(*(int*)h.p.get() == h.id, "a held int changed");
    }
    held.clear();
    for (int k = 0; k < KEYS; ++k)
    {
        CHECK(unregister(k) == (reg.count(k) == 1), "unregister<", kname[k], "> at the end");
        reg.erase(k);
        lives();
    }
    ctx.nontrivial(two && (refused || again));
}
}
