// C13: observable under generated thread programs of assignments, reads, conversions and enabling, with callbacks that throw and that assign another observable.
// Oracle: linearizability against a register with change notification; every notification belongs to the assignment that made it.
#include "simcase.hpp"

#include <teiacare/sdk/observable.hpp>

#include <cmath>
#include <memory>
#include <set>
#include <string>
#include <thread>

namespace pbt
{
const char* const rule = "1-4 threads of 1-8 assignments (lvalue, rvalue), reads, conversions, enabling and its query on 1-2 observables of int, string, double (-0.0, NaN) or a class that compares its key only, callbacks that throw or assign the other observable, "
                         "under a generated schedule; non-trivial = at least 2 changes were notified and one assignment was not (equal value or disabled), or two threads' operations overlap";
enum Kind
{
    ASSIGN_L,
    ASSIGN_R,
    READ,
    CONVERT,
    CONVERT_CONST,
    ENABLE,
    ENABLED
};
static const char* kname[] = {"= lvalue", "= rvalue", "value()", "T(o)", "T(const o)", "callback_enabled(b)", "callback_enabled()"};
struct Op
{
    Kind k;
    int obs = 0;
    int arg = 0;
    bool throws = false;  // the callback throws
    bool yields = false;  // the callback takes its time
    bool other = false;   // the other representation of the value
    // history
    int thread = 0;
    uint64_t call = 0, ret = UINT64_MAX;
    int res = 0;
    bool threw = false;
    std::vector<size_t> notes; // indices of the notifications it made
};
struct Note
{
    int value;
    Op* by;
    uint64_t end = UINT64_MAX;
};
struct Boom
{
    int v;
};
static std::string text(int v) // long enough to live on the heap, equal length: a torn value shows
{
    return std::string(40, (char)('a' + (v + 1) % 26)) + std::to_string(v);
}
template <class T>
struct Val;
template <>
struct Val<int>
{
    static constexpr const char* name = "int";
    static int make(int v, bool) { return v; }
    static int back(int v) { return v; }
    static bool alike(int, bool) { return true; }
    static bool eq(int a, int b) { return a == b; }
};
// a value that equals another representation of itself (-0.0), and one that does not equal itself
template <>
struct Val<double>
{
    static constexpr const char* name = "double";
    static double make(int v, bool other) { return v == 3 ? std::nan("") : v == 0 && other ? -0.0 : v; }
    static int back(double d) { return std::isnan(d) ? 3 : (int)d; }
    static bool alike(double d, bool other) { return d != 0 || std::signbit(d) == other; }
    static bool eq(int a, int b) { return a == b && a != 3; }
};
// equality looks at the key only
struct Keyed
{
    char first = 0;
    int key = 0;
    std::string tag;
    bool operator==(const Keyed& o) const { return key == o.key; }
};
template <>
struct Val<Keyed>
{
    static constexpr const char* name = "a class that compares its key only";
    static Keyed make(int v, bool other)
    {
        Keyed k;
        k.first = other ? 'x' : 'y';
        k.key = v;
        k.tag = text(v + other);
        return k;
    }
    static int back(const Keyed& k)
    {
        if (k.tag != text(k.key + (k.first == 'x')))
            sim::fail(cat("a value that was never assigned: ", k.key, " ", q(k.tag)));
        return k.key;
    }
    static bool alike(const Keyed& k, bool other) { return (k.first == 'x') == other; }
    static bool eq(int a, int b) { return a == b; }
};
template <>
struct Val<std::string>
{
    static constexpr const char* name = "string";
    static std::string make(int v, bool) { return text(v); }
    static bool alike(const std::string&, bool) { return true; }
    static bool eq(int a, int b) { return a == b; }
    static int back(const std::string& s)
    {
        if (s.size() < 41)
            sim::fail(cat("a value that was never assigned: ", q(s)));
        const int v = atoi(s.c_str() + 40);
        if (s != text(v))
            sim::fail(cat("a value that was never assigned: ", q(s)));
        return v;
    }
};
struct World
{
    uint64_t seq = 0;
    std::vector<std::unique_ptr<Op>> ops;
    std::vector<Note> notes[2];
    bool inside[2] = {};
    std::vector<Op*> current[8]; // by thread
    int live[2] = {};
};
static bool (*equal)(int, int);
// a register with notification: some order of the operations, each between its call and its return, explains every result and the sequence of notifications
static bool linearizable(const std::vector<Op*>& ops, size_t i0, int value, bool enabled, size_t note, uint64_t done, const std::vector<Note>& notes,
                         std::set<std::tuple<uint64_t, int, bool>>& seen)
{
    (void)i0;
    const size_t n = ops.size();
    if (done == (n == 64 ? ~0ull : (1ull << n) - 1))
        return note == notes.size();
    if (!seen.insert({done, value, enabled}).second)
        return false;
    uint64_t min_ret = UINT64_MAX;
    for (size_t i = 0; i < n; ++i)
        if (!(done >> i & 1))
            min_ret = std::min(min_ret, ops[i]->ret);
    for (size_t i = 0; i < n; ++i)
    {
        if (done >> i & 1)
            continue;
        const Op& o = *ops[i];
        if (o.call > min_ret)
            break;
        int v = value;
        bool en = enabled, ok = true;
        size_t nn = note;
        switch (o.k)
        {
        case ASSIGN_L:
        case ASSIGN_R:
            if (equal(o.arg, value) || !enabled)
                ok = o.notes.empty();
            else
            {
                ok = o.notes.size() == 1 && o.notes[0] == note && note < notes.size();
                ++nn;
                // once disabling has returned no callback runs: an assignment still notifying comes after it
                for (size_t j = 0; ok && j < n; ++j)
                    ok = done >> j & 1 || ops[j]->k != ENABLE || ops[j]->ret > notes[note].end;
            }
            v = o.arg;
            break;
        case ENABLE:
            en = o.arg;
            break;
        case ENABLED:
            ok = o.res == enabled;
            break;
        default:
            ok = o.res == value;
        }
        if (ok && linearizable(ops, 0, v, en, nn, done | 1ull << i, notes, seen))
            return true;
    }
    return false;
}

template <class T>
static void run_case(Src& src, Ctx& ctx)
{
    const int nobs = 1 + (int)src.chance(1, 4);
    const int nt = (int)src.weighted({2, 4, 3, 1});
    const bool chain = nobs == 2 && src.coin(); // the callback of the first assigns the second
    const bool rvalue_ctor = src.coin();
    std::vector<std::vector<Op>> prog((size_t)std::max(1, nt));
    const int values = 2 + (int)src.below(3);
    for (auto& p : prog)
    {
        const int n = nt ? 1 + (int)src.below(nt >= 3 ? 4 : 6) : 2 + (int)src.below(14);
        for (int i = 0; i < n; ++i)
        {
            Op o;
            o.k = (Kind)src.weighted({5, 5, 3, 1, 1, 2, 1});
            o.obs = (int)src.below(nobs);
            o.arg = o.k == ENABLE ? (int)src.below(2) : (int)src.below(values);
            o.throws = o.k <= ASSIGN_R && src.chance(1, 8);
            o.yields = src.chance(1, 2);
            o.other = src.chance(1, 2);
            p.push_back(o);
        }
    }
    sim::Config cfg = draw_schedule(src, ctx, true);
    ctx.notef("%d observable(s) of %s, initially 0%s\n", nobs, Val<T>::name, chain ? ", the callback of #0 assigns #1" : "");
    for (size_t t = 0; t < prog.size(); ++t)
    {
        ctx.notef(" T%zu:", nt ? t + 1 : t);
        for (auto& o : prog[t])
        {
            ctx.notef(" #%d %s", o.obs, kname[o.k]);
            if (o.k <= ASSIGN_R || o.k == ENABLE)
                ctx.notef(" %d%s", o.arg, o.k <= ASSIGN_R && o.other ? "'" : "");
            ctx.notef("%s;", o.throws ? " (callback throws)" : "");
        }
        ctx.note("\n");
    }
    bool nontrivial = false;
    equal = Val<T>::eq;
    sim::run(cfg, [&] {
        World w;
        World* W = &w;
        using O = tc::sdk::observable<T>;
        O* obs[2] = {};
        std::function<void(int, int, Op*)> nested;
        auto callback = [W, &nested](int which) {
            return [W, which, &nested](T got) {
                Op* o = nullptr;
                {
                    sim::Quiet q;
                    const int v = Val<T>::back(got);
                    sim::event("callback", which, v);
                    auto& stack = W->current[sim::self()];
                    if (stack.empty() || stack.back()->obs != which)
                        sim::fail(cat("the callback of #", which, " runs in thread ", sim::self(), " which is not assigning it"));
                    o = stack.back();
                    if (o->k > ASSIGN_R)
                        sim::fail(cat("the callback is invoked by ", kname[o->k]));
                    if (v != o->arg)
                        sim::fail(cat("the assignment of ", o->arg, " is notified with ", v));
                    if (!Val<T>::alike(got, o->other))
                        sim::fail(cat("the assignment of ", o->arg, " is notified with an equal value, not with the one assigned"));
                    if (W->inside[which])
                        sim::fail("two callbacks of one observable run at once");
                    W->inside[which] = true;
                    o->notes.push_back(W->notes[which].size());
                    W->notes[which].push_back({v, o});
                }
                if (o->yields)
                    sim::yield();
                if (which == 0 && nested)
                    nested(1, o->arg, o);
                {
                    sim::Quiet q;
                    W->inside[which] = false;
                    W->notes[which][o->notes.back()].end = ++W->seq;
                }
                if (o->throws)
                    throw Boom{o->arg};
            };
        };
        auto exec = [&](const Op& plan) {
            Op* o;
            T input{};
            {
                sim::Quiet q;
                w.ops.push_back(std::make_unique<Op>(plan));
                o = w.ops.back().get();
                o->thread = sim::self();
                w.current[sim::self()].push_back(o);
                o->call = ++w.seq;
                sim::event(kname[o->k], o->obs, o->arg);
            }
            O& b = *obs[o->obs];
            const O& cb = b;
            try
            {
                switch (o->k)
                {
                case ASSIGN_L: {
                    const T in = Val<T>::make(o->arg, o->other);
                    O& r = (b = in);
                    if (&r != &b)
                        sim::fail("assignment does not return the observable");
                    if (Val<T>::back(in) != o->arg || !Val<T>::alike(in, o->other))
                        sim::fail("assigning changed the lvalue");
                    break;
                }
                case ASSIGN_R: {
                    O& r = (b = Val<T>::make(o->arg, o->other));
                    if (&r != &b)
                        sim::fail("assignment does not return the observable");
                    break;
                }
                case READ:
                    o->res = Val<T>::back(b.value());
                    break;
                case CONVERT: {
                    T v = b.operator T();
                    o->res = Val<T>::back(v);
                    break;
                }
                case CONVERT_CONST: {
                    const T v = cb.operator const T();
                    o->res = Val<T>::back(v);
                    break;
                }
                case ENABLE:
                    b.callback_enabled(o->arg != 0);
                    break;
                case ENABLED:
                    o->res = cb.callback_enabled();
                    break;
                }
            }
            catch (Boom& e)
            {
                o->threw = true;
                if (e.v != o->arg)
                    sim::fail("another call's exception");
            }
            sim::Quiet q;
            o->ret = ++w.seq;
            w.current[sim::self()].pop_back();
            sim::event("  returned", o->obs, o->res, o->threw);
            if (o->threw != (o->throws && !o->notes.empty()))
                sim::fail(cat("the callback ", o->throws && !o->notes.empty() ? "threw" : "did not throw", ", the assignment ", o->threw ? "did" : "did not"));
        };
        for (int i = 0; i < nobs; ++i)
        {
            if (rvalue_ctor)
                obs[i] = new O(Val<T>::make(0, false), callback(i));
            else
            {
                const T v = Val<T>::make(0, false);
                obs[i] = new O(v, callback(i));
            }
        }
        if (chain)
            nested = [&](int which, int v, Op* by) {
                Op o;
                o.k = by->k;
                o.obs = which;
                o.arg = v;
                o.yields = by->yields;
                o.other = by->other;
                exec(o);
            };
        if (nt == 0)
            for (auto& o : prog[0])
                exec(o);
        else
        {
            std::vector<std::thread> ts;
            for (auto& p : prog)
                ts.emplace_back([&] {
                    for (auto& o : p)
                        exec(o);
                });
            for (auto& t : ts)
                t.join();
        }
        for (int i = 0; i < nobs; ++i)
            for (Kind k : {READ, ENABLED})
            {
                Op o;
                o.k = k;
                o.obs = i;
                exec(o);
            }
        {
            sim::Quiet q;
            bool silent = false, overlap = false;
            size_t notes = 0;
            for (int i = 0; i < nobs; ++i)
            {
                std::vector<Op*> ops;
                for (auto& o : w.ops)
                    if (o->obs == i)
                    {
                        ops.push_back(o.get());
                        silent |= o->k <= ASSIGN_R && o->notes.empty();
                        for (auto& p : w.ops)
                            overlap |= p->obs == i && p->thread != o->thread && p->call < o->ret && o->call < p->ret;
                    }
                notes = std::max(notes, w.notes[i].size());
                std::sort(ops.begin(), ops.end(), [](auto a, auto b) { return a->call < b->call; });
                std::set<std::tuple<uint64_t, int, bool>> seen;
                if (ops.size() <= 60 && !linearizable(ops, 0, 0, true, 0, 0, w.notes[i], seen))
                    sim::fail(cat("the history of #", i, " fits no order of its operations on a register with change notification"));
            }
            nontrivial = (notes >= 2 && silent) || overlap;
        }
        for (auto o : obs)
            delete o;
    });
    ctx.nontrivial(nontrivial);
}
void property_case(Src& src, Ctx& ctx)
{
    switch (src.weighted({4, 4, 2, 2}))
    {
    case 0:
        return run_case<int>(src, ctx);
    case 1:
        return run_case<std::string>(src, ctx);
    case 2:
        return run_case<double>(src, ctx);
    default:
        return run_case<Keyed>(src, ctx);
    }
}
}
