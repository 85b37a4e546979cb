// C33: a task owns its callable and runs it exactly once per call: histories of construction, moves, calls and destruction against a ledger.
#include "pbt.hpp"

#include <functional>
#include <future>
#include <memory>
#include <optional>
#include <teiacare/sdk/task.hpp>

namespace pbt
{
const char* const rule = "2-30 operations on up to 6 tasks of 11 kinds of callable: construct (lvalue, const lvalue, rvalue, const rvalue), call, move, destroy, change or destroy the original; "
                         "non-trivial = a task is called after its original changed or went, after a move, or after its callable threw";
struct Boom
{
    int call;
};
struct Ledger
{
    int calls = 0, copies = 0, live = 0, made = 0, wrong = 0;
    int throw_at = -1;   // the call that throws
    int copy_throws = 0; // copies that throw
    int depth = 0, recurse = 0;
    const tc::sdk::task* self = nullptr;
};
// what happened to a callable's state while it sits in a task
struct Tracked
{
    Ledger* l;
    int state; // number of calls seen by this object and those it was made of
    std::string payload;
    uint64_t magic = 0x1234567;
    explicit Tracked(Ledger& x)
        : l(&x)
        , state(0)
        , payload(40, 'p')
    {
        ++l->live;
        ++l->made;
    }
    Tracked(const Tracked& o)
        : l(o.l)
        , state(o.state)
        , payload(o.payload)
    {
        if (l->copy_throws > 0)
        {
            --l->copy_throws;
            throw Boom{-1};
        }
        ++l->copies;
        ++l->live;
        ++l->made;
    }
    Tracked(Tracked&& o) noexcept
        : l(o.l)
        , state(o.state)
        , payload(std::move(o.payload))
    {
        o.payload.clear();
        ++l->live;
        ++l->made;
    }
    Tracked& operator=(const Tracked&) = delete;
    ~Tracked()
    {
        if (magic != 0x1234567)
            ++l->wrong;
        magic = 0;
        --l->live;
    }
    void call()
    {
        if (magic != 0x1234567 || payload != std::string(40, 'p'))
            ++l->wrong;
        if (l->depth == 0 && state != l->calls)
            ++l->wrong;
        ++l->calls;
        ++state;
        const int now = l->calls;
        if (l->depth < l->recurse && l->self)
        {
            ++l->depth;
            (*l->self)();
            --l->depth;
        }
        if (now == l->throw_at)
            throw Boom{now};
    }
};
struct Functor : Tracked
{
    using Tracked::Tracked;
    void operator()() { call(); }
};
struct ConstFunctor : Tracked
{
    using Tracked::Tracked;
    int operator()() const
    {
        const_cast<ConstFunctor*>(this)->call();
        return 7;
    }
};
struct Overloaded : Tracked
{
    using Tracked::Tracked;
    void operator()() & { call(); }
    void operator()() && { ++l->wrong; }
    void operator()(int) { ++l->wrong; }
};
struct alignas(64) Big : Tracked
{
    char room[300];
    explicit Big(Ledger& x)
        : Tracked(x)
    {
        memset(room, 'r', sizeof room);
    }
    void operator()()
    {
        for (char c : room)
            if (c != 'r')
                ++l->wrong;
        if (reinterpret_cast<uintptr_t>(this) % 64)
            ++l->wrong;
        call();
    }
};
struct MoveOnly : Tracked
{
    std::unique_ptr<int> own = std::make_unique<int>(5);
    using Tracked::Tracked;
    MoveOnly(MoveOnly&&) noexcept = default;
    void operator()()
    {
        if (!own || *own != 5)
            ++l->wrong;
        call();
    }
};
struct Member
{
    Tracked t;
    explicit Member(Ledger& l)
        : t(l)
    {
    }
    void run() { t.call(); }
};
static Ledger* g_ledger;
static void free_function()
{
    if (g_ledger)
    {
        ++g_ledger->calls;
        if (g_ledger->calls == g_ledger->throw_at)
            throw Boom{g_ledger->calls};
    }
}

// an original the task was made of, and the task
struct Entry
{
    std::unique_ptr<Ledger> l = std::make_unique<Ledger>();
    std::unique_ptr<tc::sdk::task> t;
    std::function<void()> spoil; // change and destroy the original
    bool once = false;           // packaged task: one call only
    std::shared_future<void> fut;
    int kind = 0, expected = 0, holds = 1; // objects alive while only the task exists
    bool original = false, shared = false, moved = false, spoiled = false, threw = false;
};
template <class F, class... A>
static void make(Entry& e, int how, A&... args)
{
    auto original = std::make_shared<std::optional<F>>();
    original->emplace(args...);
    const int before = e.l->copies;
    e.original = true;
    e.spoil = [original] {
        if constexpr (std::is_base_of_v<Tracked, F>)
        {
            (*original)->payload = "spoilt";
            (*original)->state = 1000;
        }
        original->reset();
    };
    if constexpr (std::is_copy_constructible_v<F>)
    {
        if (how == 0)
            e.t = std::make_unique<tc::sdk::task>(**original);
        else if (how == 1)
            e.t = std::make_unique<tc::sdk::task>(std::as_const(**original));
        else if (how == 2)
            e.t = std::make_unique<tc::sdk::task>(std::move(std::as_const(**original)));
    }
    if constexpr (std::is_base_of_v<Tracked, F>)
        if (e.t)
            CHECK((*original)->payload == std::string(40, 'p'), "a task made of an lvalue took the original's content");
    if constexpr (std::is_same_v<F, std::function<void()>>)
        if (e.t)
            CHECK(bool(**original), "a task made of an lvalue took the original's content");
    if (!e.t)
    {
        e.t = std::make_unique<tc::sdk::task>(std::move(**original));
        CHECK(e.l->copies == before, "a task made of an rvalue copied it");
    }
}
static const char* kinds[] = {"functor", "const functor", "overloaded functor", "aligned functor", "move-only functor", "lambda", "std::function", "bound member", "packaged task", "free function", "throwing copy"};
static const char* hows[] = {"an lvalue", "a const lvalue", "a const rvalue", "an rvalue"};

static void build(Entry& e, int kind, int how)
{
    e.kind = kind;
    Ledger& l = *e.l;
    switch (kind)
    {
    case 0: make<Functor>(e, how, l); break;
    case 1: make<ConstFunctor>(e, how, l); break;
    case 2: make<Overloaded>(e, how, l); break;
    case 3: make<Big>(e, how, l); break;
    case 4: make<MoveOnly>(e, 3, l); break;
    case 5: {
        auto f = [t = Tracked(l)]() mutable { t.call(); };
        make<decltype(f)>(e, how == 2 ? 0 : how, f);
        break;
    }
    case 6: {
        std::function<void()> f{Functor(l)};
        make<std::function<void()>>(e, how, f);
        break;
    }
    case 7: {
        auto m = std::make_shared<Member>(l);
        auto f = std::bind(&Member::run, m);
        make<decltype(f)>(e, how == 2 ? 0 : how, f);
        break;
    }
    case 8: {
        auto original = std::make_shared<std::packaged_task<void()>>(Functor(l));
        e.fut = original->get_future().share();
        e.t = std::make_unique<tc::sdk::task>(std::move(*original));
        e.once = true;
        e.original = true;
        e.spoil = [original]() mutable { original.reset(); };
        break;
    }
    case 9:
        g_ledger = &l;
        if (how == 0)
            e.t = std::make_unique<tc::sdk::task>(free_function);
        else
            e.t = std::make_unique<tc::sdk::task>(&free_function);
        break;
    default: {
        // a copy that throws leaves nothing behind
        Functor original(l);
        l.copy_throws = 1;
        bool threw = false;
        try
        {
            tc::sdk::task t(std::as_const(original));
            (void)t;
        }
        catch (const Boom&)
        {
            threw = true;
        }
        l.copy_throws = 0;
        CHECK(threw, "an exception of the callable's copy did not reach the caller");
        CHECK(l.live == 1, l.live, " callables alive after a failed construction, expected the original only");
        e.t = std::make_unique<tc::sdk::task>(original);
        break;
    }
    }
}

void property_case(Src& src, Ctx& ctx)
{
    std::vector<std::unique_ptr<Entry>> es;
    bool interesting = false;
    g_ledger = nullptr;
    auto check = [&](Entry& e, const char* when) {
        CHECK(e.l->calls == e.expected, "a ", kinds[e.kind], " ran ", e.l->calls, " times, expected ", e.expected, ", ", when);
        CHECK(e.l->wrong == 0, "a ", kinds[e.kind], " ran with a state that is not its own, ", when);
    };
    auto end = [&](Entry& e) {
        if (e.spoil)
            e.spoil();
        e.spoil = nullptr;
        e.t.reset();
        check(e, "after its task ended");
        e.fut = {};
        CHECK(e.l->live == 0, e.l->live, " callables of kind ", kinds[e.kind], " alive after task and original ended");
        if (g_ledger == e.l.get())
            g_ledger = nullptr;
    };
    auto index = [&] { return (size_t)src.below(es.size()); };
    const int n = 2 + (int)src.below(29);
    for (int i = 0; i < n; ++i)
    {
        const unsigned op = es.empty() ? 0 : src.weighted({3, 6, 4, 2, 2});
        if (op == 0)
        {
            if (es.size() >= 6)
                continue;
            const int kind = (int)src.below(11), how = (int)src.below(4);
            if (kind == 9 && g_ledger)
                continue;
            auto e = std::make_unique<Entry>();
            if (src.chance(1, 4))
                e->l->throw_at = 1 + (int)src.below(3);
            else if (kind < 4 && src.chance(1, 5))
                e->l->recurse = 1 + (int)src.below(2);
            ctx.note(cat("  t", es.size(), " = task of ", hows[how], " ", kinds[kind], e->l->throw_at > 0 ? cat(", call ", e->l->throw_at, " throws") : std::string(), "\n"));
            build(*e, kind, how);
            e->l->self = e->t.get();
            check(*e, "after construction");
            es.push_back(std::move(e));
            continue;
        }
        const size_t k = index();
        Entry& e = *es[k];
        if (op == 1)
        {
            if (e.once && e.expected)
                continue;
            const bool by_operator = src.coin();
            ctx.note(cat("  t", k, by_operator ? "()\n" : ".invoke()\n"));
            interesting |= e.moved || e.spoiled || e.threw;
            // with recursion the outer call makes further calls before it is asked to throw
            const bool should = !e.once && e.l->throw_at == e.expected + 1;
            e.expected += 1 + e.l->recurse;
            e.l->self = e.t.get();
            bool threw = false;
            int from = 0;
            const tc::sdk::task& t = *e.t;
            try
            {
                if (by_operator)
                    t();
                else
                    t.invoke();
            }
            catch (const Boom& b)
            {
                threw = true;
                from = b.call;
            }
            CHECK(threw == should, "a call of a ", kinds[e.kind], threw ? " threw" : " did not throw", " in call ", e.expected);
            CHECK(!threw || from == e.expected, "the exception is not that of this call");
            e.threw |= threw;
            check(e, "after a call");
            if (e.once)
            {
                CHECK(e.fut.wait_for(std::chrono::seconds(0)) == std::future_status::ready, "a packaged task ran without its future being ready");
                bool boom = false;
                try
                {
                    e.fut.get();
                }
                catch (const Boom&)
                {
                    boom = true;
                }
                CHECK(boom == (e.l->throw_at == 1), "the packaged task's exception is not in its future");
            }
        }
        else if (op == 2)
        {
            ctx.note(cat("  move t", k, "\n"));
            const int copies = e.l->copies;
            const unsigned way = (unsigned)src.below(3);
            if (way == 0)
                e.t = std::make_unique<tc::sdk::task>(std::move(*e.t));
            else if (way == 1)
            {
                std::vector<tc::sdk::task> v;
                v.push_back(std::move(*e.t));
                v.reserve(v.capacity() + 4);
                e.t = std::make_unique<tc::sdk::task>(std::move(v.front()));
            }
            else
            {
                auto pass = [](tc::sdk::task t) { return t; };
                e.t = std::make_unique<tc::sdk::task>(pass(std::move(*e.t)));
            }
            e.moved = true;
            CHECK(e.l->copies == copies, "moving a task copied its ", kinds[e.kind]);
            check(e, "after a move");
        }
        else if (op == 3)
        {
            if (!e.spoil)
                continue;
            ctx.note(cat("  the original of t", k, " is changed and destroyed\n"));
            e.spoil();
            e.spoil = nullptr;
            e.spoiled = true;
            check(e, "after its original ended");
            if (e.kind != 9)
                CHECK(e.l->live == 1, e.l->live, " callables of kind ", kinds[e.kind], " alive in one task");
        }
        else
        {
            ctx.note(cat("  end t", k, "\n"));
            end(e);
            es.erase(es.begin() + (long)k);
        }
    }
    for (auto& e : es)
        end(*e);
    ctx.nontrivial(interesting);
}
}
