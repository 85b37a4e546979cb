// C35: several instances of the components side by side, each compared with its own model. C36: what they are given is destroyed when they are done with it.
#include "simcase.hpp"

#include <deque>
#include <future>
#include <iostream>
#include <map>
#include <memory>
#include <optional>
#include <teiacare/sdk/argparse/argument_parser.hpp>
#include <teiacare/sdk/blocking_queue.hpp>
#include <teiacare/sdk/event_dispatcher.hpp>
#include <teiacare/sdk/high_precision_timer.hpp>
#include <teiacare/sdk/observable.hpp>
#include <teiacare/sdk/task.hpp>
#include <teiacare/sdk/task_scheduler.hpp>
#include <teiacare/sdk/thread_pool.hpp>
#include <thread>

namespace pbt
{
#if FOCUS == 35
const char* const rule = "2-5 instances of one or two component types (queue, pool, dispatcher, scheduler, timer, observable, parser, task) that are created, used with equal names and ids and destroyed in any order by one thread while callables of some block, after "
                         "two threads used their own ones at the same time; non-trivial = at least two instances of a type did something while both existed";
#else
const char* const rule = "2-5 instances of one or two component types (queue, pool, dispatcher, scheduler, timer, observable, task) that are given callables, arguments and items which count themselves, replaced, removed, executed, stopped "
                         "and destroyed in any order; non-trivial = something was released while its component went on";
#endif
using ns_t = int64_t;
static constexpr ns_t U = 1000;

// what is handed to a component: how many of each exist (moved-from ones own nothing)
struct Ledger
{
    std::map<int, int> live;
    int next = 1;
};
static Ledger* L;
struct Tok
{
    int id = 0;
    uint64_t magic = 0x600df00d;
    explicit Tok(int i)
        : id(i)
    {
        sim::Quiet q;
        if (id)
            ++L->live[id];
    }
    Tok(const Tok& o)
    {
        sim::Quiet q;
        o.check();
        id = o.id;
        if (id)
            ++L->live[id];
    }
    Tok(Tok&& o) noexcept
    {
        sim::Quiet q;
        o.check();
        id = o.id;
        o.id = 0;
    }
    Tok& operator=(const Tok& o)
    {
        sim::Quiet q;
        o.check();
        if (o.id)
            ++L->live[o.id];
        drop();
        id = o.id;
        return *this;
    }
    Tok& operator=(Tok&& o) noexcept
    {
        sim::Quiet q;
        o.check();
        const int i = o.id;
        o.id = 0;
        drop();
        id = i;
        return *this;
    }
    ~Tok()
    {
        sim::Quiet q;
        check();
        drop();
        magic = 0xdead;
    }
    void check() const
    {
        if (magic != 0x600df00d)
            sim::fail(cat("something given to a component is used or destroyed after it was destroyed (", id, ")"));
    }
    int use() const
    {
        sim::Quiet q;
        check();
        if (!id || L->live[id] < 1)
            sim::fail(cat("a component uses something that was moved away or destroyed (", id, ")"));
        return id;
    }
    bool operator==(const Tok& o) const
    {
        return id == o.id;
    }

private:
    void drop()
    {
        if (id && --L->live[id] < 0)
            sim::fail(cat("#", id, " was destroyed more often than constructed"));
        id = 0;
    }
};

enum Kind
{
    QUEUE,
    POOL,
    EVENTS,
    SCHED,
    TIMER,
    OBS,
    PARSER,
    TASK,
    NKIND
};
static const char* kname[] = {"queue", "pool", "dispatcher", "scheduler", "timer", "observable", "parser", "task"};

struct Op
{
    int what = 0, inst = 0;
    unsigned a = 0, b = 0, c = 0;
};
struct Expect
{
    std::map<int, std::pair<int, int>> live; // tok -> least and most of it that may exist; nothing else may
    void must(int id, int most = 1 << 20)
    {
        live[id] = {1, most};
    }
    void may(int id)
    {
        if (!live.count(id))
            live[id] = {0, 1 << 20};
    }
};
struct Inst
{
    int no = 0;
    bool touched = false, released = false;
    explicit Inst(int n)
        : no(n)
    {
    }
    virtual ~Inst() = default;
    virtual Kind kind() const = 0;
    virtual void op(unsigned what, unsigned a, unsigned b, bool free) = 0; // free: two threads are at work and time stands still
    virtual void compare() = 0;                                           // nothing can run
    virtual void pass(ns_t to)                                            // the clock has moved to `to`
    {
    }
    virtual void expect(Expect&) = 0;
    int tok()
    {
        sim::Quiet q;
        return L->next++;
    }
    std::string me() const
    {
        return cat(kname[kind()], " ", no);
    }
    void ran(const Tok& t, int times = 1)
    {
        {
            sim::Quiet q;
            runs[t.use()] += times;
        }
        if (FOCUS != 35)
            return;
        std::unique_lock lock(gate_m);
        gate.wait(lock, [this] { return !held; });
    }
    // from now on, what this instance executes blocks; the others must not notice
    virtual void hold(unsigned)
    {
        std::scoped_lock lock(gate_m);
        held = true;
    }
    virtual void release()
    {
        {
            std::scoped_lock lock(gate_m);
            held = false;
        }
        gate.notify_all();
        if (helper.joinable())
            helper.join();
    }
    // stop() waits for what is held
    template <class F>
    void hold_stop(unsigned a, bool on, F stop)
    {
        Inst::hold(a);
        if (!on || !(a & 2))
            return;
        sim::quiesce();
        stopped = true;
        helper = std::thread(stop);
    }
    void resync() // what stop() dropped is not this property's matter
    {
        sim::Quiet q;
        want = runs;
        stopped = false;
    }
    bool stopped = false;
    std::mutex gate_m;
    std::condition_variable gate;
    std::thread helper;
    bool held = false;
    // what was executed against what should have been
    void same_runs()
    {
        if (FOCUS != 35)
            return;
        for (auto& [id, n] : runs)
            if (n != want[id])
                sim::fail(cat(me(), ": #", id, " was executed ", n, " times, expected ", want[id]));
        for (auto& [id, n] : want)
            if (n != runs[id])
                sim::fail(cat(me(), ": #", id, " was executed ", runs[id], " times, expected ", n));
    }
    template <class A, class B>
    void eq(const A& got, const B& exp, const char* what)
    {
        sim::Quiet q;
        sim::event(what);
        if (FOCUS == 35 && !(got == exp))
            sim::fail(cat(me(), ": ", what, " = ", got, ", expected ", exp));
    }
    std::map<int, int> runs, want;
};

struct Queue : Inst
{
    size_t cap;
    tc::sdk::blocking_queue<Tok> q;
    std::deque<int> m;
    Queue(int n, unsigned a)
        : Inst(n)
        , cap(1 + a % 4)
        , q(cap)
    {
    }
    Kind kind() const override { return QUEUE; }
    void op(unsigned what, unsigned a, unsigned, bool) override
    {
        switch (what % 4)
        {
        case 0: {
            const int id = tok();
            const bool room = m.size() < cap;
            Tok t(id);
            const bool r = a & 1 ? q.try_push(t) : q.try_push(std::move(t));
            eq(r, room, "try_push");
            if (room)
                m.push_back(id);
            break;
        }
        case 1: {
            if (m.size() >= cap)
                break;
            const int id = tok();
            Tok t(id);
            a & 1 ? q.push(t) : q.push(std::move(t));
            m.push_back(id);
            break;
        }
        case 2: {
            auto r = q.try_pop();
            eq(r ? r->use() : 0, m.empty() ? 0 : m.front(), "try_pop");
            if (!m.empty())
            {
                m.pop_front();
                released = true;
            }
            break;
        }
        default:
            if (m.empty())
                break;
            eq(q.pop().use(), m.front(), "pop");
            m.pop_front();
            released = true;
        }
    }
    void hold(unsigned) override
    {
        held = true;
        if (!m.empty() && m.size() < cap)
            return;
        // blocks in pop() or push()
        helper = std::thread([this, pops = m.empty()] {
            if (pops)
                popped = q.pop().use();
            else
            {
                Tok t(late);
                q.push(std::move(t));
            }
        });
    }
    void release() override
    {
        held = false;
        if (!helper.joinable())
            return;
        if (m.empty())
        {
            const int id = tok();
            Tok t(id);
            q.push(t);
            helper.join();
            eq(popped, id, "pop");
        }
        else
        {
            eq(q.pop().use(), m.front(), "pop");
            m.pop_front();
            helper.join();
            m.push_back(late);
            late = tok();
        }
    }
    int popped = 0, late = tok();
    void compare() override
    {
        eq(q.size(), m.size(), "size");
        eq(q.capacity(), cap, "capacity");
    }
    void expect(Expect& e) override
    {
        for (int id : m)
            e.must(id, 1);
    }
};

struct Pool : Inst
{
    tc::sdk::thread_pool p;
    bool on = false;
    unsigned n = 0;
    std::vector<int> pending;
    std::map<int, std::future<int>> kept;
    using Inst::Inst;
    Kind kind() const override { return POOL; }
    void op(unsigned what, unsigned a, unsigned b, bool free) override
    {
        switch (what % 6)
        {
        case 0:
            eq(p.start(1 + a % 4), !on, "start");
            if (!on)
                n = 1 + a % 4;
            on = true;
            break;
        case 1:
            if (free)
                break;
            if (FOCUS == 35 || b & 1)
                sim::quiesce();
            settle();
            eq(p.stop(), on, "stop");
            if (on)
            {
                n = 0;
                on = false;
            }
            break;
        case 2:
            if (!kept.empty() && !free)
            {
                sim::quiesce();
                settle();
                kept.erase(kept.begin());
                released = true;
            }
            break;
        default: {
            const int id = tok();
            const bool throws = b % 5 == 0;
            Tok t(id);
            auto f = a & 1 ? p.run([this, t, throws]() -> int { ran(t); if (throws) throw 1; return t.use(); })
                           : p.run([this, throws](const Tok& x) -> int { ran(x); if (throws) throw 1; return x.use(); }, std::move(t));
            sim::Quiet q;
            pending.push_back(id);
            if (b & 1)
                kept[id] = std::move(f);
        }
        }
    }
    void hold(unsigned a) override
    {
        Inst::hold(a);
        if (a & 1)
            op(3, a, 1, true);
        hold_stop(a, on, [this] { eq(p.stop(), true, "stop"); });
    }
    void release() override
    {
        Inst::release();
        if (!stopped)
            return;
        on = false;
        n = 0;
        pending.clear();
        kept.clear();
        resync();
    }
    void settle()
    {
        sim::Quiet q;
        if (on)
        {
            for (int id : pending)
                ++want[id];
            released |= !pending.empty();
            pending.clear();
        }
    }
    void compare() override
    {
        settle();
        same_runs();
        eq(p.is_running(), on, "is_running");
        eq(p.threads_count(), n, "threads_count");
        sim::Quiet q;
        for (auto& [id, f] : kept)
            if (FOCUS == 35 && (f.wait_for(std::chrono::seconds(0)) == std::future_status::ready) != (want[id] > 0))
                sim::fail(cat(me(), ": the future of #", id, want[id] ? " is not ready" : " is ready"));
    }
    void expect(Expect& e) override
    {
        for (int id : pending)
            e.must(id);
        for (auto& k : kept)
            e.may(k.first);
    }
};

static const std::vector<std::string> NAMES = {"a", "b", "", "ab"};
struct Events : Inst
{
    tc::sdk::event_dispatcher d;
    bool on = false;
    struct H
    {
        unsigned long id;
        int tok, name;
        bool arg;
    };
    std::vector<H> hs;
    std::map<unsigned long, int> ids;
    std::vector<std::pair<int, int>> pending; // handler tok, argument tok
    using Inst::Inst;
    Kind kind() const override { return EVENTS; }
    void op(unsigned what, unsigned a, unsigned b, bool free) override
    {
        const int name = (int)(a % NAMES.size());
        const bool arg = b & 1;
        switch (what % 8)
        {
        case 0:
            eq(d.start(1 + a % 3), !on, "start");
            on = true;
            break;
        case 1:
            if (free || !on)
                break;
            if (FOCUS == 35 || b & 1)
                sim::quiesce();
            settle();
            eq(d.stop(), true, "stop");
            on = false;
            released |= !hs.empty();
            hs.clear();
            break;
        case 2:
        case 3: {
            const int id = tok();
            Tok t(id);
            unsigned long h;
            if (arg)
                h = d.add_handler<Tok>(NAMES[(size_t)name], [this, t](Tok x) { ran(t); ran(x); });
            else
                h = d.add_handler<>(NAMES[(size_t)name], [this, t]() { ran(t); });
            sim::Quiet q;
            if (FOCUS == 35 && ids.count(h))
                sim::fail(cat(me(), ": the handler id ", h, " is given again"));
            ids[h] = id;
            hs.push_back({h, id, name, arg});
            break;
        }
        case 4: {
            if (!free)
            {
                sim::quiesce();
                settle();
            }
            // an id of this dispatcher, or one that only others have given
            const unsigned long id = hs.empty() || b % 4 == 0 ? 1 + b % 9 : hs[b % hs.size()].id;
            bool known = false;
            for (size_t i = 0; i < hs.size(); ++i)
                if (hs[i].id == id)
                {
                    known = true;
                    released = true;
                    hs.erase(hs.begin() + (long)i);
                    break;
                }
            eq(d.remove_handler(id), known, "remove_handler");
            break;
        }
        case 5: {
            if (!free)
            {
                sim::quiesce();
                settle();
            }
            const size_t before = hs.size();
            std::erase_if(hs, [&](auto& h) { return h.name == name; });
            released |= hs.size() != before;
            eq(d.remove_event(NAMES[(size_t)name]), hs.size() != before, "remove_event");
            break;
        }
        default: {
            const int id = arg ? tok() : 0;
            bool any = false;
            for (auto& h : hs)
                if (h.name == name && h.arg == arg)
                {
                    pending.emplace_back(h.tok, id);
                    any = true;
                }
            eq(arg ? d.emit(NAMES[(size_t)name], Tok(id)) : d.emit(NAMES[(size_t)name]), any, "emit");
        }
        }
    }
    void hold(unsigned a) override
    {
        Inst::hold(a);
        if (a & 1)
            op(6, a, 0, true);
        hold_stop(a, on, [this] { eq(d.stop(), true, "stop"); });
    }
    void release() override
    {
        Inst::release();
        if (!stopped)
            return;
        on = false;
        hs.clear();
        pending.clear();
        resync();
    }
    void settle()
    {
        sim::Quiet q;
        if (!on)
            return;
        for (auto& [h, x] : pending)
        {
            ++want[h];
            if (x)
                ++want[x];
        }
        released |= !pending.empty();
        pending.clear();
    }
    void compare() override
    {
        settle();
        same_runs();
    }
    void expect(Expect& e) override
    {
        for (auto& h : hs)
            e.must(h.tok);
        for (auto& [h, x] : pending)
        {
            e.must(h);
            if (x)
                e.must(x);
        }
    }
};

static const std::vector<std::string> IDS = {"a", "b", "c"};
struct Sched : Inst
{
    tc::sdk::task_scheduler ts;
    bool on = false;
    struct E
    {
        int tok;
        std::string id;
        ns_t due, every;
        bool enabled = true;
    };
    std::vector<E> es;
    std::map<int, std::future<int>> kept;
    ns_t seen = 0; // everything due up to here is accounted for
    using Inst::Inst;
    Kind kind() const override { return SCHED; }
    E* find(const std::string& id)
    {
        for (auto& e : es)
            if (!e.id.empty() && e.id == id)
                return &e;
        return nullptr;
    }
    void op(unsigned what, unsigned a, unsigned b, bool free) override
    {
        if (!free && (FOCUS == 35 || what % 10 != 1 || b & 1))
            sim::quiesce();
        if (!free)
            pass((ns_t)sim::now());
        const std::string id = IDS[a % IDS.size()];
        switch (what % 10)
        {
        case 0:
            eq(ts.start(1 + a % 3), !on, "start");
            on = true;
            break;
        case 1:
            if (free)
                break;
            eq(ts.stop(), on, "stop");
            on = false;
            released |= !es.empty();
            es.clear();
            break;
        case 2:
            eq(ts.remove_task(id), find(id) != nullptr, "remove_task");
            if (auto e = find(id))
            {
                es.erase(es.begin() + (e - es.data()));
                released = true;
            }
            break;
        case 3:
            eq(ts.set_enabled(id, b & 1), find(id) != nullptr, "set_enabled");
            if (auto e = find(id))
                e->enabled = b & 1;
            break;
        case 4:
            eq(ts.is_enabled(id), find(id) && find(id)->enabled, "is_enabled");
            eq(ts.is_scheduled(id), find(id) != nullptr, "is_scheduled");
            break;
        case 5:
            if (!kept.empty())
                kept.erase(kept.begin());
            break;
        default: {
            E e{tok(), b & 1 ? id : "", 0, 0};
            const ns_t delay = (ns_t)(1 + b / 2 % 6) * U;
            const bool periodic = what % 10 >= 8;
            Tok t(e.tok);
            const bool ok = on && (e.id.empty() || !find(e.id));
            const ns_t now = (ns_t)sim::now();
            bool got;
            if (periodic)
            {
                e.every = (ns_t)(1 + a / 4 % 4) * U;
                if (e.id.empty())
                    e.id = id; // with a delay there is an id
                const bool fine = on && !find(e.id);
                e.due = now + delay;
                got = ts.every(std::string(e.id), std::chrono::nanoseconds(e.every), std::chrono::nanoseconds(delay), [this, t](const Tok& x) { ran(t); x.use(); }, t);
                eq(got, fine, "every");
                if (fine)
                    es.push_back(e);
                break;
            }
            e.due = now + delay;
            auto f = [this](const Tok& x) -> int { ran(x); return x.use(); };
            std::optional<std::future<int>> r;
            if (e.id.empty())
                r = a & 4 ? ts.in(std::chrono::nanoseconds(delay), f, t) : ts.at(tc::sdk::clock::time_point(std::chrono::nanoseconds(now + delay)), [f, t] { return f(t); });
            else
                r = a & 4 ? ts.in(std::string(e.id), std::chrono::nanoseconds(delay), f, t) : ts.at(std::string(e.id), tc::sdk::clock::time_point(std::chrono::nanoseconds(now + delay)), f, t);
            eq(r.has_value(), ok, "at/in");
            sim::Quiet q;
            if (ok)
                es.push_back(e);
            if (r && a & 8)
                kept[e.tok] = std::move(*r);
        }
        }
    }
    void hold(unsigned a) override
    {
        hold_stop(a, on, [this] { eq(ts.stop(), true, "stop"); });
    }
    void release() override
    {
        Inst::release();
        if (!stopped)
            return;
        on = false;
        es.clear();
        kept.clear();
        resync();
    }
    void pass(ns_t to) override
    {
        sim::Quiet q;
        for (size_t i = 0; i < es.size();)
        {
            E& e = es[i];
            while (e.due <= to)
            {
                want[e.tok] += e.enabled;
                if (!e.every)
                    break;
                e.due += e.every;
            }
            if (e.due <= to)
            {
                es.erase(es.begin() + (long)i);
                released = true;
            }
            else
                ++i;
        }
        seen = to;
    }
    void compare() override
    {
        pass((ns_t)sim::now());
        same_runs();
        eq(ts.tasks_size(), es.size(), "tasks_size");
    }
    void expect(Expect& x) override
    {
        for (auto& e : es)
            x.must(e.tok);
        for (auto& k : kept)
            x.may(k.first);
    }
};

struct Timer : Inst
{
    tc::sdk::high_precision_timer t;
    bool on = false;
    int cb = 0;
    ns_t from = 0, every = 1;
    uint64_t count = 0;
    using Inst::Inst;
    Kind kind() const override { return TIMER; }
    void op(unsigned what, unsigned a, unsigned b, bool free) override
    {
        if (!free)
        {
            sim::quiesce();
            pass((ns_t)sim::now());
        }
        switch (what % 4)
        {
        case 0: {
            if (on)
                break;
            const int id = tok();
            Tok k(id);
            a & 1 ? t.set_callback([this, k] { ran(k); }) : t.set_callback([this](const Tok& x) { ran(x); }, k);
            released |= cb != 0;
            cb = id;
            break;
        }
        case 1:
        case 2:
            every = (ns_t)(1 + b % 5) * U;
            from = (ns_t)sim::now();
            eq(t.start(std::chrono::nanoseconds(every)), cb != 0, "start");
            if (cb)
            {
                on = true;
                count = missed = 0;
            }
            break;
        default:
            t.stop();
            on = false;
        }
    }
    void pass(ns_t to) override
    {
        sim::Quiet q;
        if (!on)
            return;
        const uint64_t n = (uint64_t)((to - from) / every);
        want[cb] += (int)(n - count);
        count = n;
    }
    void compare() override
    {
        pass((ns_t)sim::now());
        same_runs();
        if (cb)
            eq(t.invoked_callback_count(), count, "invoked_callback_count");
        eq(t.missed_callback_count(), missed, "missed_callback_count");
    }
    void hold(unsigned a) override
    {
        sim::quiesce();
        pass((ns_t)sim::now());
        Inst::hold(a);
    }
    void release() override
    {
        Inst::release();
        t.stop();
        on = false;
        // the periods that were missed are C12's matter
        count = t.invoked_callback_count();
        missed = t.missed_callback_count();
        sim::Quiet q;
        want = runs;
    }
    uint64_t missed = 0;
    void expect(Expect& e) override
    {
        if (cb)
            e.must(cb);
    }
};

struct Obs : Inst
{
    int cb, value;
    bool on = true;
    std::unique_ptr<tc::sdk::observable<Tok>> o;
    explicit Obs(int n)
        : Inst(n)
        , cb(tok())
        , value(tok())
    {
        Tok c(cb), v(value);
        o = std::make_unique<tc::sdk::observable<Tok>>(v, [this, c](Tok x) { ran(c); ran(x); });
    }
    Kind kind() const override { return OBS; }
    void op(unsigned what, unsigned a, unsigned b, bool) override
    {
        switch (what % 4)
        {
        case 0:
            o->callback_enabled(b & 1);
            on = b & 1;
            break;
        case 1: {
            Tok same(value);
            *o = same;
            break;
        }
        default: {
            const int id = tok();
            {
                Tok v(id);
                if (a & 1)
                    *o = v;
                else
                    *o = std::move(v);
            }
            value = id;
            released = true;
            want[cb] += on;
            want[id] += on;
        }
        }
    }
    void hold(unsigned a) override
    {
        Inst::hold(a);
        helper = std::thread([this, a] { op(2, a, 0, true); });
    }
    void compare() override
    {
        same_runs();
        eq(o->value().use(), value, "value");
        eq(o->callback_enabled(), on, "callback_enabled");
    }
    void expect(Expect& e) override
    {
        e.must(cb);
        e.must(value);
    }
};

struct Parser : Inst
{
    tc::sdk::argument_parser p;
    int num = -1, want_num = 5;
    bool flag = false, want_flag = false;
    std::string word = "none", want_word = "w";
    int pos = -1;
    bool done = false;
    explicit Parser(int n)
        : Inst(n)
        , p("prog", "1")
    {
        p.add_option("num", 'n', num, 5 + n);
        want_num += n;
        p.add_flag("flag", 'f', flag);
        p.add_option<std::string>("word", word, "w" + std::to_string(n));
        want_word += std::to_string(n);
        if (n % 2)
            p.add_positional("pos", pos);
    }
    Kind kind() const override { return PARSER; }
    void op(unsigned what, unsigned a, unsigned b, bool) override
    {
        if (done || what % 3)
            return;
        done = true;
        std::vector<std::string> line{"prog"};
        if (a & 1)
        {
            line.push_back("--num=" + std::to_string(b));
            want_num = (int)b;
        }
        if (a & 2)
        {
            line.push_back("-f");
            want_flag = true;
        }
        const bool missing = no % 2 && b % 3 == 0;
        if (no % 2 && !missing)
            line.push_back("7");
        if (a & 4)
        {
            line.push_back("--word");
            line.push_back(want_word = "x" + std::to_string(b));
        }
        std::vector<char*> argv;
        for (auto& s : line)
            argv.push_back(s.data());
        argv.push_back(nullptr);
        eq(p.parse((int)line.size(), argv.data()) == tc::sdk::parse_result::success, !missing, "parse");
        eq(pos, no % 2 == 0 ? -1 : missing ? 0 : 7, "pos");
        if (missing)
            num = want_num, flag = want_flag, word = want_word; // what an error leaves behind is open
    }
    void compare() override
    {
        eq(num, want_num, "num");
        eq(flag, want_flag, "flag");
        eq(word, want_word, "word");
    }
    void expect(Expect&) override
    {
    }
};

struct Task : Inst
{
    std::vector<std::pair<std::unique_ptr<tc::sdk::task>, int>> ts;
    using Inst::Inst;
    Kind kind() const override { return TASK; }
    void op(unsigned what, unsigned a, unsigned, bool) override
    {
        if (ts.empty() || what % 4 == 0)
        {
            const int id = tok();
            Tok t(id);
            auto f = [this, t] { ran(t); };
            ts.emplace_back(a & 1 ? std::make_unique<tc::sdk::task>(f) : std::make_unique<tc::sdk::task>(std::move(f)), id);
            return;
        }
        auto& [t, id] = ts[a % ts.size()];
        switch (what % 4)
        {
        case 1:
            (*t)();
            ++want[id];
            break;
        case 2:
            t = std::make_unique<tc::sdk::task>(std::move(*t));
            break;
        default:
            ts.erase(ts.begin() + a % (long)ts.size());
            released = true;
        }
    }
    void hold(unsigned a) override
    {
        Inst::hold(a);
        if (!ts.empty())
            helper = std::thread([this, a] { op(1, a, 0, true); });
    }
    void compare() override
    {
        same_runs();
    }
    void expect(Expect& e) override
    {
        for (auto& t : ts)
            e.must(t.second, 1);
    }
};

static std::unique_ptr<Inst> make(Kind k, int no, unsigned a)
{
    switch (k)
    {
    case QUEUE: return std::make_unique<Queue>(no, a);
    case POOL: return std::make_unique<Pool>(no);
    case EVENTS: return std::make_unique<Events>(no);
    case SCHED: return std::make_unique<Sched>(no);
    case TIMER: return std::make_unique<Timer>(no);
    case OBS: return std::make_unique<Obs>(no);
    case PARSER: return std::make_unique<Parser>(no);
    default: return std::make_unique<Task>(no);
    }
}

void property_case(Src& src, Ctx& ctx)
{
    std::vector<Kind> kinds;
    const int nk = 1 + (int)src.weighted({3, 1});
    for (int i = 0; i < nk; ++i)
    {
        Kind k = (Kind)src.weighted({1, 3, 3, 3, 2, 1, 1, 1});
        if (FOCUS == 36 && k == PARSER)
            k = SCHED;
        kinds.push_back(k);
    }
    const int slots = 2 + (int)src.below(4);
    std::vector<Kind> kind_of;
    for (int i = 0; i < slots; ++i)
        kind_of.push_back(kinds[(size_t)i % kinds.size()]);
    struct Step
    {
        int what; // 0 operation, 1 create, 2 destroy, 3 sleep, 4 checkpoint, 5 hold, 6 release
        int slot;
        unsigned op, a, b;
    };
    auto draw = [&](int s, bool free) {
        Step t;
        t.what = free ? 0 : FOCUS == 35 ? (int)src.weighted({16, 1, 1, 3, 3, 2, 1}) : (int)src.weighted({16, 1, 1, 3, 3});
        t.slot = s;
        t.op = (unsigned)src.below(120);
        t.a = (unsigned)src.below(64);
        t.b = (unsigned)src.below(64);
        return t;
    };
    // two threads with their own instances, then one with all
    std::vector<std::vector<Step>> par(src.coin() ? 2 : 0);
    for (size_t t = 0; t < par.size(); ++t)
        for (int n = 1 + (int)src.below(10); n > 0; --n)
        {
            int s = (int)(2 * src.below((uint64_t)(slots + 1 - (int)t) / 2) + t);
            par[t].push_back(draw(s, true));
        }
    std::vector<Step> prog;
    for (int n = 2 + (int)src.below(24); n > 0; --n)
        prog.push_back(draw((int)src.below((uint64_t)slots), false));
    sim::Config cfg = draw_schedule(src, ctx, true);
    cfg.poll_reads = 1 << 30;
    auto show = [&](const char* who, const std::vector<Step>& l) {
        ctx.notef("%s:", who);
        for (auto& t : l)
            ctx.notef(" %s%d:%s(%u,%u,%u)", kname[kind_of[(size_t)t.slot]], t.slot, t.what == 0 ? "op" : t.what == 1 ? "create" : t.what == 2 ? "destroy" : t.what == 3 ? "sleep" : t.what == 4 ? "check" : t.what == 5 ? "hold" : "release", t.op, t.a, t.b);
        ctx.note("\n");
    };
    for (auto& l : par)
        show("thread", l);
    show("then", prog);
    // the parsers print
    struct Null : std::streambuf
    {
        int overflow(int c) override { return c; }
    };
    static Null null;
    struct Silence
    {
        std::streambuf *o = std::cout.rdbuf(&null), *e = std::cerr.rdbuf(&null);
        ~Silence()
        {
            std::cout.rdbuf(o);
            std::cerr.rdbuf(e);
        }
    } silence;
    int both = 0;
    bool released = false;
    sim::run(cfg, [&] {
        Ledger ledger;
        L = &ledger;
        std::vector<std::unique_ptr<Inst>> in((size_t)slots);
        auto create = [&](int s) {
            if (!in[(size_t)s])
                in[(size_t)s] = make(kind_of[(size_t)s], s, (unsigned)s + 2);
        };
        auto check = [&] {
            sim::quiesce();
            for (auto& i : in)
                if (i && !i->held)
                    i->compare();
            sim::Quiet q;
            Expect e;
            for (auto& i : in)
                if (i)
                    i->expect(e);
            if (FOCUS != 36)
                return;
            for (auto& [id, n] : ledger.live)
            {
                auto it = e.live.find(id);
                const int lo = it == e.live.end() ? 0 : it->second.first, hi = it == e.live.end() ? 0 : it->second.second;
                if (n < lo)
                    sim::fail(cat("#", id, " is gone although its component still has it"));
                if (n > hi)
                    sim::fail(cat(n, " copies of #", id, " are left, at most ", hi, " are needed"));
            }
        };
        auto step = [&](const Step& s, bool free) {
            switch (s.what)
            {
            case 0: {
                if (in[(size_t)s.slot] && in[(size_t)s.slot]->held)
                    break;
                create(s.slot);
                {
                    sim::Quiet q;
                    sim::event(kname[kind_of[(size_t)s.slot]], s.slot, s.op);
                }
                in[(size_t)s.slot]->op(s.op, s.a, s.b, free);
                in[(size_t)s.slot]->touched = true;
                break;
            }
            case 1:
                create(s.slot);
                break;
            case 2:
                if (in[(size_t)s.slot])
                {
                    if (in[(size_t)s.slot]->held)
                        in[(size_t)s.slot]->release();
                    released |= in[(size_t)s.slot]->released;
                    sim::quiesce();
                    in[(size_t)s.slot]->compare();
                    in[(size_t)s.slot].reset();
                }
                break;
            case 3:
                sim::sleep_ns((uint64_t)U * (1 + s.a % 7));
                break;
            case 5:
                if (auto& i = in[(size_t)s.slot]; i && !i->held)
                {
                    sim::event("hold", s.slot);
                    i->hold(s.a);
                }
                break;
            case 6:
                if (auto& i = in[(size_t)s.slot]; i && i->held)
                {
                    sim::event("release", s.slot);
                    i->release();
                }
                break;
            default:
                check();
            }
        };
        if (!par.empty())
        {
            std::vector<std::thread> ts;
            for (int s = 0; s < slots; ++s)
                if (par[(size_t)s % 2].size())
                    create(s);
            for (auto& p : par)
                ts.emplace_back([&] {
                    for (auto& s : p)
                        step(s, true);
                });
            for (auto& t : ts)
                t.join();
            check();
        }
        for (auto& s : prog)
            step(s, false);
        check();
        for (auto& i : in)
            if (i && i->held)
                i->release();
        check();
        for (auto& i : in)
            if (i)
            {
                sim::Quiet q;
                released |= i->released;
                for (auto& j : in)
                    both += j && i.get() != j.get() && i->kind() == j->kind() && i->touched && j->touched;
            }
        for (auto& i : in)
            i.reset();
        sim::Quiet q;
        if (FOCUS == 36)
            for (auto& [id, n] : ledger.live)
                if (n)
                    sim::fail(cat(n, " copies of #", id, " outlive every component"));
    });
    for (auto k : kinds)
        ctx.label(kname[k]);
    ctx.nontrivial(FOCUS == 35 ? both > 0 : released);
}
}
