// C06/C07: event_dispatcher under generated histories of add/remove/emit/start/stop on one or several threads, with handlers that act themselves.
// Oracle: a reference registry with intervals: what was certainly (or possibly) registered while an emit ran must (or may) be delivered, once.
#include "simcase.hpp"

#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <teiacare/sdk/event_dispatcher.hpp>
#include <thread>

#ifndef REMOVAL
#define REMOVAL 0 // 1: C07, biased to removal, several dispatchers, start/stop
#endif

namespace pbt
{
const char* const rule = REMOVAL ? "1-3 dispatchers, 1-4 threads with 2-16 operations in all (add, remove_handler, remove_event, emit, start, stop), handlers that sleep, emit, add, remove or throw; "
                                   "non-trivial = a removal found something and an emit followed on the same name, or operations of different threads overlapped on one dispatcher"
                                 : "one dispatcher, 1-4 workers, 1-4 threads adding, removing and emitting over colliding names and 10 argument type lists, handlers that sleep, emit, add, remove or throw; "
                                   "non-trivial = an emit met handlers of the same name with other argument types, or of another name with the same types, or an operation of another thread";

struct Payload
{
    int v = 0;
    std::vector<int> data;
    bool operator==(const Payload&) const = default;
};
static const char* sname[] = {"()", "(int)", "(string)", "(int,int)", "(int,string)", "(string,int)", "(double)", "(long)", "(Payload)", "(int,int,int)"};
constexpr int NS = 10;
static const std::vector<std::vector<std::string>> NAME_SETS = {
    {"a", "b", "", "aa", "ai", "a i", "event", "eventi"},
    {"a", std::string("a\0", 2), std::string("a\0b", 3), std::string("\0", 1), "A", " a", "a ", "b"},
    {std::string(300, 'x') + "1", std::string(300, 'x') + "2", std::string(300, 'x'), "2" + std::string(300, 'x'), "x", "scheduled-task-1",
     "schedul3\xcf\x04\x07\x9d\xff\x85\xa8\xe6", "Scheduled-task-1"}}; // the two at the end have the same std::hash
static std::vector<std::string> NAMES;

struct Handler;
struct World;
struct Act // what a handler does besides being called
{
    int kind = 0; // 0 nothing 1 sleep 2 yield 3 emit 4 add 5 remove self 6 remove_event 7 remove another
    uint64_t ns = 0;
    int name = 0, sig = 0, other = 0;
    int left = 2;
};
struct Window
{
    uint64_t call, ret;
    bool definite;
};
struct Handler
{
    int no = 0;
    int disp = 0, name = 0, sig = 0, how = 0;
    Act act;
    // observed
    unsigned long id = 0;
    uint64_t ac = UINT64_MAX, ar = UINT64_MAX;
    std::vector<Window> removed;
    std::map<int, int> got; // tag -> deliveries
    std::vector<uint64_t> begins;
};
struct Delivery
{
    Handler* h;
    int tag;
    uint64_t begin;
};
struct Emit
{
    int tag = 0, disp = 0, name = 0, sig = 0;
    uint64_t call = 0, ret = UINT64_MAX;
    int res = -1;
    bool judged = false;
    bool started = false; // the dispatcher was certainly running
};
enum Kind
{
    ADD,
    EMIT,
    REMOVE,
    REMOVE_EVENT,
    START,
    STOP,
    SETTLE,
    NK
};
struct Op
{
    Kind k = ADD;
    int disp = 0, name = 0, sig = 0, which = 0, how = 0;
    unsigned n = 1;
    Act act;
};
struct Disp
{
    tc::sdk::event_dispatcher* d = nullptr; // not owned: handlers read it until the destructor has waited for them
    bool running = false; // sequential truth
    uint64_t start_ret = UINT64_MAX, stop_call = 0, stop_ret = 0;
    std::vector<std::pair<uint64_t, uint64_t>> stops; // [call, ret]
    std::vector<std::pair<uint64_t, uint64_t>> halts; // of those, the ones that stopped something
    std::vector<uint64_t> start_calls;
};
struct World
{
    uint64_t seq = 1;
    int running = 0;
    int workers = 0; // of the only dispatcher, 0: there are several or it is restarted
    bool sequential = true;
    std::vector<Delivery> deliveries;
    std::vector<Disp> disps;
    std::vector<std::unique_ptr<Handler>> handlers;
    std::vector<std::unique_ptr<Emit>> emits;
    struct Removal
    {
        int disp;
        int kind; // REMOVE, REMOVE_EVENT
        unsigned long id;
        int name;
        uint64_t call, ret;
        bool res;
        Handler* h;
    };
    std::vector<Removal> removals;
    bool hit = false;
};

static void act(World& w, Handler& h);
static void delivered(World& w, Handler* h, int tag)
{
    {
        sim::Quiet q;
        h->begins.push_back(w.seq++);
        sim::event("delivered to", h->no, tag);
        const int n = ++h->got[tag];
        if (n > 1 && h->sig != 0)
            sim::fail(cat("handler #", h->no, " got emit ", tag, " twice"));
        w.deliveries.push_back({h, tag, h->begins.back()});
        if (++w.running > w.workers && w.workers)
            sim::fail(cat(w.running, " handlers run at the same time on ", w.workers, " thread(s)"));
    }
    bool throws = false;
    {
        sim::Quiet q;
        throws = h->act.kind == 8 && h->act.left > 0;
    }
    act(w, *h);
    {
        sim::Quiet q;
        --w.running;
    }
    if (throws) // concerns nobody but this delivery
        throw std::runtime_error("a handler fails");
}
static void expect(bool ok, Handler* h)
{
    if (!ok)
    {
        sim::Quiet q;
        sim::fail(cat("handler #", h->no, " ", sname[h->sig], " got values that were not emitted together"));
    }
}
static std::string text(int t)
{
    return "s" + std::to_string(t);
}
static void add(World& w, int disp, int name, int sig, int how, const Act& a)
{
    Handler* h;
    {
        sim::Quiet q;
        w.handlers.push_back(std::make_unique<Handler>());
        h = w.handlers.back().get();
        h->no = (int)w.handlers.size();
        h->disp = disp;
        h->name = name;
        h->sig = sig;
        h->how = how;
        h->act = a;
        sim::event("add_handler", disp, name, sig);
        h->ac = w.seq++;
    }
    World* W = &w;
    auto& d = *w.disps[(size_t)disp].d;
    const std::string& n = NAMES[(size_t)name];
    unsigned long id = 0;
    switch (sig)
    {
    case 0:
        id = how == 2 ? d.add_handler(n, std::function<void()>([W, h] { delivered(*W, h, 0); })) : d.add_handler(n, [W, h] { delivered(*W, h, 0); });
        break;
    case 1:
        if (how == 2)
            id = d.add_handler<int>(n, std::function<void(int)>([W, h](int t) { delivered(*W, h, t); }));
        else if (how == 1)
            id = d.add_handler<const int&>(n, [W, h](const int& t) { delivered(*W, h, t); });
        else
            id = d.add_handler<int>(n, [W, h](int t) { delivered(*W, h, t); });
        break;
    case 2:
        if (how)
            id = d.add_handler<const std::string&>(n, [W, h](const std::string& s) { expect(s.size() > 1 && s[0] == 's', h); delivered(*W, h, std::stoi(s.substr(1))); });
        else
            id = d.add_handler<std::string>(n, [W, h](std::string s) { expect(s.size() > 1 && s[0] == 's', h); delivered(*W, h, std::stoi(s.substr(1))); });
        break;
    case 3:
        id = d.add_handler<int, int>(n, [W, h](int a, int b) { expect(b == a + 1, h); delivered(*W, h, a); });
        break;
    case 4:
        if (how)
            id = d.add_handler<int, const std::string&>(n, [W, h](int a, const std::string& s) { expect(s == text(a), h); delivered(*W, h, a); });
        else
            id = d.add_handler<int, std::string>(n, [W, h](int a, std::string s) { expect(s == text(a), h); delivered(*W, h, a); });
        break;
    case 5:
        id = d.add_handler<std::string, int>(n, [W, h](std::string s, int a) { expect(s == text(a), h); delivered(*W, h, a); });
        break;
    case 6:
        id = d.add_handler<double>(n, [W, h](double x) { delivered(*W, h, (int)(x - 0.5)); });
        break;
    case 7:
        id = d.add_handler<long>(n, [W, h](long x) { delivered(*W, h, (int)x); });
        break;
    case 8:
        if (how)
            id = d.add_handler<const Payload&>(n, [W, h](const Payload& p) { expect(p == Payload{p.v, {p.v, p.v, 3}}, h); delivered(*W, h, p.v); });
        else
            id = d.add_handler<Payload>(n, [W, h](Payload p) { expect(p == Payload{p.v, {p.v, p.v, 3}}, h); delivered(*W, h, p.v); });
        break;
    default:
        id = d.add_handler<int, int, int>(n, [W, h](int a, int b, int c) { expect(b == a + 1 && c == a + 2, h); delivered(*W, h, a); });
    }
    sim::Quiet q;
    h->ar = w.seq++;
    h->id = id;
    sim::event("  id", (int64_t)id);
    for (auto& o : w.handlers)
        if (o.get() != h && o->disp == disp && o->ar != UINT64_MAX && o->id == id)
            sim::fail(cat("two add_handler calls returned the id ", id));
}
static void emit(World& w, int disp, int name, int sig)
{
    Emit* e;
    {
        sim::Quiet q;
        w.emits.push_back(std::make_unique<Emit>());
        e = w.emits.back().get();
        e->tag = (int)w.emits.size();
        e->disp = disp;
        e->name = name;
        e->sig = sig;
        sim::event("emit", disp, name, sig);
        e->call = w.seq++;
        const Disp& D = w.disps[(size_t)disp];
        e->started = D.start_ret < e->call && D.stop_call < D.start_ret;
    }
    auto& d = *w.disps[(size_t)disp].d;
    const std::string& n = NAMES[(size_t)name];
    const int t = e->tag;
    bool r = false;
    switch (sig)
    {
    case 0:
        r = d.emit(n);
        break;
    case 1: {
        int a = t;
        r = d.emit(n, a);
        a = -5;
        break;
    }
    case 2: {
        std::string s = text(t);
        r = d.emit(n, s);
        s = "changed";
        break;
    }
    case 3:
        r = d.emit(n, t, t + 1);
        break;
    case 4: {
        std::string s = text(t);
        r = d.emit(n, t, s);
        s.clear();
        break;
    }
    case 5:
        r = d.emit(n, text(t), t);
        break;
    case 6:
        r = d.emit(n, t + 0.5);
        break;
    case 7:
        r = d.emit(n, (long)t);
        break;
    case 8: {
        Payload p{t, {t, t, 3}};
        r = d.emit(n, p);
        p.data.clear();
        p.v = 0;
        break;
    }
    default:
        r = d.emit(n, t, t + 1, t + 2);
    }
    sim::Quiet q;
    e->res = r;
    e->ret = w.seq++;
    sim::event("  returned", r);
}
static void remove(World& w, int disp, unsigned long id, Handler* h)
{
    size_t k;
    {
        sim::Quiet q;
        sim::event("remove_handler", disp, (int64_t)id);
        k = w.removals.size();
        w.removals.push_back({disp, REMOVE, id, -1, w.seq++, UINT64_MAX, false, h});
    }
    const bool r = w.disps[(size_t)disp].d->remove_handler(id);
    sim::Quiet q;
    w.removals[k].res = r;
    w.removals[k].ret = w.seq++;
    sim::event("  returned", r);
}
static void remove_event(World& w, int disp, int name)
{
    size_t k;
    {
        sim::Quiet q;
        sim::event("remove_event", disp, name);
        k = w.removals.size();
        w.removals.push_back({disp, REMOVE_EVENT, 0, name, w.seq++, UINT64_MAX, false, nullptr});
    }
    const bool r = w.disps[(size_t)disp].d->remove_event(NAMES[(size_t)name]);
    sim::Quiet q;
    w.removals[k].res = r;
    w.removals[k].ret = w.seq++;
    sim::event("  returned", r);
}
static void act(World& w, Handler& h)
{
    Act a;
    {
        sim::Quiet q;
        a = h.act;
        if (h.act.left-- <= 0)
            a.kind = 2;
        else if (a.kind >= 4 && a.kind < 8)
            h.act.left = 0;
        if (w.emits.size() > 60 && a.kind == 3)
            a.kind = 2;
    }
    switch (a.kind)
    {
    case 1:
        sim::sleep_ns(a.ns);
        break;
    case 3:
        emit(w, h.disp, a.name, a.sig);
        break;
    case 4: {
        add(w, h.disp, a.name, a.sig, 0, Act{});
        break;
    }
    case 5:
    case 7: {
        Handler* o = &h;
        bool ok;
        {
            sim::Quiet q;
            if (a.kind == 7)
                o = w.handlers[(size_t)a.other % w.handlers.size()].get();
            ok = o->ar != UINT64_MAX && o->disp == h.disp;
        }
        if (ok)
            remove(w, h.disp, o->id, o);
        break;
    }
    case 6:
        remove_event(w, h.disp, a.name);
        break;
    default:
        sim::yield();
    }
}

static void build_windows(World& w)
{
    for (auto& h : w.handlers)
        h->removed.clear();
    for (auto& r : w.removals)
    {
        if (r.kind == REMOVE && r.res && r.ret != UINT64_MAX)
        {
            for (auto& h : w.handlers)
                if (h->disp == r.disp && h->id == r.id && h->ar != UINT64_MAX)
                    h->removed.push_back({r.call, r.ret, true});
        }
        else if (r.kind == REMOVE && r.ret == UINT64_MAX)
        {
            for (auto& h : w.handlers)
                if (h->disp == r.disp && h->id == r.id)
                    h->removed.push_back({r.call, r.ret, false});
        }
        else if (r.kind == REMOVE_EVENT)
            for (auto& h : w.handlers)
                if (h->disp == r.disp && h->name == r.name && h->ac < r.ret)
                    h->removed.push_back({r.call, r.ret, r.ret != UINT64_MAX && h->ar < r.call});
    }
    for (size_t i = 0; i < w.disps.size(); ++i)
        for (auto& s : w.disps[i].stops)
            for (auto& h : w.handlers)
                if (h->disp == (int)i && h->ac < s.second)
                    h->removed.push_back({s.first, s.second, s.second != UINT64_MAX && h->ar < s.first});
}
static bool certain(const Handler& h, uint64_t a, uint64_t b) // registered all through [a,b]
{
    if (h.ar > a)
        return false;
    for (auto& r : h.removed)
        if (r.call < b)
            return false;
    return true;
}
static bool possible(const Handler& h, uint64_t a, uint64_t b)
{
    if (h.ac > b)
        return false;
    for (auto& r : h.removed)
        if (r.definite && r.ret < a)
            return false;
    return true;
}
static void judge(World& w, bool settled)
{
    build_windows(w);
    std::string bad;
    for (auto& ep : w.emits)
    {
        Emit& e = *ep;
        if (e.ret == UINT64_MAX)
            continue;
        bool must = false, may = false;
        for (auto& hp : w.handlers)
        {
            Handler& h = *hp;
            const bool match = h.disp == e.disp && h.name == e.name && h.sig == e.sig;
            const int n = e.sig == 0 ? 0 : (h.got.count(e.tag) ? h.got[e.tag] : 0);
            const bool can = match && possible(h, e.call, e.ret);
            if (e.sig != 0 && n && !can)
                sim::fail(cat("emit ", e.tag, " of \"", NAMES[(size_t)e.name], "\"", sname[e.sig], " was delivered to handler #", h.no, " of \"", NAMES[(size_t)h.name], "\"", sname[h.sig],
                              match ? ", which was not registered" : ""));
            may |= can;
            const bool has = match && certain(h, e.call, e.ret);
            must |= has;
            // nothing but stop() takes a delivery back
            bool stopped = false;
            for (auto& s : w.disps[(size_t)e.disp].stops)
                stopped |= s.second > e.call;
            if (settled && has && e.started && !stopped && e.sig != 0 && n != 1)
                sim::fail(cat("emit ", e.tag, " of \"", NAMES[(size_t)e.name], "\"", sname[e.sig], " was delivered ", n, " times to handler #", h.no));
            if (e.sig != 0 && e.res == 0 && n)
                sim::fail(cat("emit ", e.tag, " returned false but was delivered"));
        }
        if (must && e.res == 0)
            sim::fail(cat("emit ", e.tag, " of \"", NAMES[(size_t)e.name], "\"", sname[e.sig], " returned false although a handler is registered"));
        if (!may && e.res == 1)
            sim::fail(cat("emit ", e.tag, " of \"", NAMES[(size_t)e.name], "\"", sname[e.sig], " returned true although no handler is registered"));
    }
    // events without arguments: count
    for (auto& hp : w.handlers)
    {
        Handler& h = *hp;
        if (h.sig != 0)
            continue;
        int lo = 0, hi = 0;
        for (auto& ep : w.emits)
        {
            const Emit& e = *ep;
            if (e.disp != h.disp || e.name != h.name || e.sig != 0)
                continue;
            bool stopped = false;
            for (auto& s : w.disps[(size_t)e.disp].stops)
                stopped |= s.second > e.call;
            if (e.ret != UINT64_MAX && certain(h, e.call, e.ret) && e.started && !stopped)
                ++lo;
            if (possible(h, e.call, e.ret) && e.res != 0)
                ++hi;
        }
        const int n = h.got.count(0) ? h.got[0] : 0;
        if (n > hi || (settled && n < lo))
            sim::fail(cat("handler #", h.no, " of \"", NAMES[(size_t)h.name], "\"() was called ", n, " times, emitted ", lo, " to ", hi, " times"));
    }
    for (auto& r : w.removals)
    {
        if (r.ret == UINT64_MAX)
            continue;
        bool must = false, may = false;
        for (auto& hp : w.handlers)
        {
            Handler& h = *hp;
            if (h.disp != r.disp || (r.kind == REMOVE ? h.id != r.id || h.ar == UINT64_MAX : h.name != r.name))
                continue;
            // look at the handler without this removal itself
            Handler k;
            k.ac = h.ac;
            k.ar = h.ar;
            for (auto& x : h.removed)
                if (!(x.call == r.call))
                    k.removed.push_back(x);
            must |= certain(k, r.call, r.ret);
            may |= possible(k, r.call, r.ret);
        }
        const char* what = r.kind == REMOVE ? "remove_handler" : "remove_event";
        const std::string of = r.kind == REMOVE ? cat("(", r.id, ")") : cat("(\"", NAMES[(size_t)r.name], "\")");
        if (r.res && !may)
            sim::fail(cat(what, of, " returned true although nothing of the kind is registered"));
        if (!r.res && must)
            sim::fail(cat(what, of, " returned false although it is registered"));
        w.hit |= r.res;
    }
    for (auto& a : w.removals)
        for (auto& b : w.removals)
            if (&a < &b && a.kind == REMOVE && b.kind == REMOVE && a.res && b.res && a.disp == b.disp && a.id == b.id)
                sim::fail(cat("remove_handler(", a.id, ") returned true twice"));
    // one thread: in the order of the emits
    if (w.workers == 1)
        for (auto& a : w.deliveries)
            for (auto& b : w.deliveries)
                if (&a < &b && a.h->sig && b.h->sig && w.emits[(size_t)b.tag - 1]->ret < w.emits[(size_t)a.tag - 1]->call)
                    sim::fail(cat("emit ", a.tag, " was delivered to handler #", a.h->no, " before the earlier emit ", b.tag, " to handler #", b.h->no, " on one thread"));
    // stop() lets nothing begin afterwards: neither before the next start, nor of what was emitted before
    for (auto& hp : w.handlers)
        for (uint64_t t : hp->begins)
        {
            const Disp& D = w.disps[(size_t)hp->disp];
            for (auto& s : D.halts)
                if (t > s.second)
                {
                    bool restarted = false;
                    for (uint64_t c : D.start_calls)
                        restarted |= c > s.first && c < t;
                    if (!restarted)
                        sim::fail(cat("handler #", hp->no, " was run after stop()"));
                    if (hp->ar < s.first)
                        sim::fail(cat("handler #", hp->no, ", which stop() removed, was run after it"));
                }
        }
}

static Act draw_act(Src& src, int names)
{
    Act a;
    a.kind = (int)src.weighted({8, 3, 2, 2, 1, 1, 1, 1, 1});
    a.ns = 1000 * (1 + src.below(4));
    a.name = (int)src.below((uint64_t)names);
    a.sig = (int)src.below(NS);
    a.other = (int)src.below(8);
    return a;
}

// thousands of handlers, emits and removals by one thread: an exact model of who gets what
static void crowd(Src& src, Ctx& ctx)
{
    NAMES = NAME_SETS[src.weighted({7, 2, 2})];
    // a dispatcher with a long past: more registrations than sixteen bits can count
    const int churn = src.chance(1, 10) ? 65400 + (int)src.below(400) : 0;
    const int many = churn ? 30 + (int)src.below(200) : 200 + (int)src.below(src.chance(1, 3) ? 4000 : 800);
    const int names = 1 + (int)src.below(NAMES.size()), sigs = 1 + (int)src.below(3);
    const int emits = 3 + (int)src.below(40);
    const unsigned workers = 1 + (unsigned)src.below(4);
    const int drop = (int)src.below(4); // none, few, half, nearly all of the handlers are removed again
    const bool burst = src.coin();      // all emits while the workers are busy with the first
    const uint64_t seed = src.below(1u << 30);
    sim::Config cfg = draw_schedule(src, ctx, true);
    cfg.max_steps = 40000000;
    ctx.notef("crowd: %d handlers of %d name(s) and %d argument list(s), %s removed, %d emits, %u workers, %d handlers come and go\n", many, names, sigs, drop == 0 ? "none" : drop == 1 ? "few" : drop == 2 ? "half" : "nearly all", emits, workers, churn);
    sim::run(cfg, [&] {
        struct One
        {
            unsigned long id = 0;
            int name, sig, got = 0, due = 0;
            bool in = true;
        };
        std::vector<One> all((size_t)many);
        uint64_t s = seed;
        auto rnd = [&s](uint64_t n) {
            s = s * 6364136223846793005ull + 1442695040888963407ull;
            return (s >> 33) % n;
        };
        {
            tc::sdk::event_dispatcher d;
            if (!d.start(workers))
                sim::fail("start() of a stopped dispatcher returned false");
            std::set<unsigned long> ids;
            auto enter = [&](One& o) {
                o.name = (int)rnd((uint64_t)names);
                o.sig = (int)rnd((uint64_t)sigs);
                const std::string& n = NAMES[(size_t)o.name];
                One* p = &o;
                auto hit = [p] {
                    sim::Quiet q;
                    ++p->got;
                };
                o.id = o.sig == 0 ? d.add_handler(n, [hit] { hit(); }) : o.sig == 1 ? d.add_handler<int>(n, [hit](int) { hit(); }) : d.add_handler<const std::string&>(n, [hit](const std::string&) { hit(); });
                sim::Quiet q;
                if (!ids.insert(o.id).second)
                    sim::fail(cat("two add_handler calls returned the id ", o.id));
            };
            auto leave = [&](One& o) {
                if (d.remove_handler(o.id) != o.in)
                    sim::fail(cat("remove_handler(", o.id, ") of a handler that is ", o.in ? "" : "not ", "registered returned ", !o.in));
                o.in = false;
            };
            auto send = [&](int n, int sig) {
                for (auto& o : all)
                    o.due += o.in && o.name == n && o.sig == sig;
                sig == 0 ? d.emit(NAMES[(size_t)n]) : sig == 1 ? d.emit(NAMES[(size_t)n], 5) : d.emit(NAMES[(size_t)n], std::string("text"));
            };
            auto check = [&](const char* when) {
                sim::quiesce();
                sim::Quiet q;
                for (auto& o : all)
                    if (o.got != o.due)
                        sim::fail(cat("handler ", o.id, " of \"", NAMES[(size_t)o.name], "\" was called ", o.got, " times, ", o.due, " emits were for it, ", when));
            };
            for (auto& o : all)
                enter(o);
            int stray = 0;
            for (int i = 0; i < churn; ++i)
            {
                const std::string n = "come and gone";
                const unsigned long id = i & 1 ? d.add_handler<int>(n, [&stray](int) { ++stray; }) : d.add_handler(n, [&stray] { ++stray; });
                {
                    sim::Quiet q;
                    if (ids.count(id))
                        sim::fail(cat("add_handler returned the id ", id, " of a registered handler"));
                }
                if (!d.remove_handler(id))
                    sim::fail(cat("remove_handler(", id, ") of a registered handler returned false"));
            }
            if (churn)
            {
                send((int)rnd((uint64_t)names), (int)rnd((uint64_t)sigs));
                d.emit("come and gone");
                d.emit("come and gone", 1);
                check("after many handlers came and went");
                if (stray)
                    sim::fail("a removed handler was called");
            }
            for (int i = 0; i < emits; ++i)
            {
                send((int)rnd((uint64_t)names), (int)rnd((uint64_t)sigs));
                if (!burst && i % 8 == 0)
                    check("after some emits");
            }
            check("after the first emits");
            for (auto& o : all)
                if (drop && rnd(16) < (drop == 1 ? 2u : drop == 2 ? 8u : 15u))
                    leave(o);
            for (int i = 0; i < 5; ++i)
                leave(all[rnd((uint64_t)many)]);
            for (int i = 0; i < emits / 2; ++i)
                send((int)rnd((uint64_t)names), (int)rnd((uint64_t)sigs));
            check("after some were removed");
            if (rnd(2))
            {
                const int n = (int)rnd((uint64_t)names);
                bool any = false;
                for (auto& o : all)
                    if (o.in && o.name == n)
                        any = true, o.in = false;
                const bool r = d.remove_event(NAMES[(size_t)n]);
                if (any && !r)
                    sim::fail("remove_event of an event with handlers returned false");
                for (int g = 0; g < sigs; ++g)
                    send(n, g);
                check("after remove_event");
            }
            if (!d.stop())
                sim::fail("stop() of a running dispatcher returned false");
        }
        sim::Quiet q;
        for (auto& o : all)
            if (o.got != o.due)
                sim::fail(cat("handler ", o.id, " was called ", o.got, " times in all, ", o.due, " emits were for it"));
    });
    ctx.label("crowd");
    ctx.nontrivial(true);
}

void property_case(Src& src, Ctx& ctx)
{
    if (src.chance(1, 600))
        return crowd(src, ctx);
    const int nd = REMOVAL ? 1 + (int)src.weighted({4, 2, 1}) : 1;
    NAMES = NAME_SETS[src.weighted({7, 2, 2})];
    const int names = 2 + (int)src.below(NAMES.size() - 1);
    const int few = src.coin() ? NS : 2 + (int)src.below(3); // few argument lists: more matches
    const int nt = (int)src.weighted({4, 0, 2, 1, 1});       // 0: all by the main thread
    const int lists = std::max(1, nt);
    const unsigned workers = 1 + (unsigned)src.below(4);
    const bool late_start = src.chance(1, 6);
    std::vector<int> sigs;
    for (int i = 0; i < few; ++i)
        sigs.push_back(few == NS ? i : (int)src.below(NS));
    std::vector<std::vector<Op>> prog((size_t)lists);
    const int nops = 2 + (int)src.below(14);
    for (int i = 0; i < nops; ++i)
    {
        Op o;
        const bool front = i < 2 || (i < nops / 3);
        if (REMOVAL)
            o.k = (Kind)(front ? src.weighted({6, 1, 1, 1}) : src.weighted({3, 4, 4, 3, 1, nt ? 0u : 1u, nt ? 0u : 1u}));
        else
            o.k = (Kind)(front ? src.weighted({6, 2, 1, 0}) : src.weighted({3, 6, 1, 1, 0, 0, nt ? 0u : 1u}));
        o.disp = (int)src.below((uint64_t)nd);
        o.name = (int)src.below((uint64_t)names);
        o.sig = src.pick(sigs);
        o.how = (int)src.below(3);
        o.which = (int)src.below(12);
        o.n = 1 + (unsigned)src.below(3);
        if (o.k == ADD)
            o.act = draw_act(src, names);
        auto& list = prog[(size_t)src.below((uint64_t)lists)];
        list.push_back(o);
        if (o.k <= EMIT && src.chance(1, 300)) // a crowd of handlers or emits
            for (int c = 20 + (int)src.below(80); c-- > 0;)
            {
                o.act.kind = 0;
                o.how = (int)src.below(3);
                list.push_back(o);
            }
    }
    sim::Config cfg = draw_schedule(src, ctx, true);
    ctx.notef("%d dispatcher(s), %u workers, %d thread(s)%s\n", nd, workers, nt, late_start ? ", started late" : "");
    for (size_t t = 0; t < prog.size(); ++t)
    {
        ctx.notef(" T%zu:", nt ? t + 1 : t);
        for (auto& o : prog[t])
        {
            const std::string who = nd > 1 ? cat("d", o.disp, ".") : std::string();
            switch (o.k)
            {
            case ADD:
                ctx.note(cat(" ", who, "add(\"", NAMES[(size_t)o.name], "\"", sname[o.sig], o.act.kind ? cat(" act", o.act.kind) : std::string(), ")"));
                break;
            case EMIT:
                ctx.note(cat(" ", who, "emit(\"", NAMES[(size_t)o.name], "\"", sname[o.sig], ")"));
                break;
            case REMOVE:
                ctx.note(cat(" ", who, "remove_handler(of ", o.which, ")"));
                break;
            case REMOVE_EVENT:
                ctx.note(cat(" ", who, "remove_event(\"", NAMES[(size_t)o.name], "\")"));
                break;
            case START:
                ctx.note(cat(" ", who, "start"));
                break;
            case STOP:
                ctx.note(cat(" ", who, "stop"));
                break;
            default:
                ctx.note(" settle");
            }
        }
        ctx.note("\n");
    }
    bool nontrivial = false;
    sim::run(cfg, [&] {
        World w;
        w.sequential = nt == 0;
        w.disps.resize((size_t)nd);
        w.workers = REMOVAL ? 0 : (int)workers;
        for (auto& d : w.disps)
            d.d = new tc::sdk::event_dispatcher();
        auto start = [&](Disp& d, unsigned n) {
            {
                sim::Quiet q;
                sim::event("start", n);
                d.start_calls.push_back(w.seq++);
            }
            const bool r = n == 1 ? d.d->start() : d.d->start(n); // one thread is the default
            sim::Quiet q;
            sim::event("  returned", r);
            if (nt == 0 && r == d.running)
                sim::fail(cat("start() of a ", d.running ? "running" : "stopped", " dispatcher returned ", r));
            if (r)
                d.start_ret = w.seq++;
            d.running = true;
        };
        auto stop = [&](Disp& d) {
            size_t k;
            {
                sim::Quiet q;
                sim::event("stop");
                d.stop_call = w.seq++;
                k = d.stops.size();
                d.stops.push_back({d.stop_call, UINT64_MAX});
            }
            const bool r = d.d->stop();
            sim::Quiet q;
            sim::event("  returned", r);
            d.stops[k].second = w.seq++;
            if (r != d.running)
                sim::fail(cat("stop() of a ", d.running ? "running" : "stopped", " dispatcher returned ", r));
            if (r)
                d.halts.push_back(d.stops[k]);
            d.running = false;
        };
        auto settle = [&] {
            for (int i = 0; i < 200; ++i)
            {
                sim::quiesce();
                {
                    sim::Quiet q;
                    if (!w.running)
                        break;
                }
                sim::sleep_ns(2000);
            }
            sim::quiesce();
            sim::Quiet q;
            if (w.running)
                sim::fail("handlers do not finish");
            judge(w, true);
        };
        auto exec = [&](const Op& o) {
            Disp& d = w.disps[(size_t)o.disp];
            switch (o.k)
            {
            case ADD:
                add(w, o.disp, o.name, o.sig, o.how, o.act);
                break;
            case EMIT:
                emit(w, o.disp, o.name, o.sig);
                break;
            case REMOVE: {
                unsigned long id = 4242;
                Handler* h = nullptr;
                {
                    sim::Quiet q;
                    if (o.which < 11 && !w.handlers.empty())
                    {
                        h = w.handlers[(size_t)o.which % w.handlers.size()].get();
                        if (h->ar == UINT64_MAX)
                            h = nullptr;
                        else
                            id = h->id;
                    }
                }
                remove(w, o.disp, id, h);
                break;
            }
            case REMOVE_EVENT:
                remove_event(w, o.disp, o.name);
                break;
            case START:
                if (nt == 0)
                    start(d, o.n);
                break;
            case STOP:
                stop(d);
                break;
            default:
                settle();
            }
        };
        if (!late_start || nt)
            for (auto& d : w.disps)
                start(d, workers);
        if (nt == 0)
        {
            size_t i = 0;
            for (auto& o : prog[0])
            {
                if (late_start && i++ == prog[0].size() / 2)
                    for (auto& d : w.disps)
                        if (!d.running)
                            start(d, workers);
                exec(o);
            }
        }
        else
        {
            std::vector<std::thread> ts;
            for (auto& p : prog)
                ts.emplace_back([&] {
                    for (auto& o : p)
                        exec(o);
                });
            for (auto& t : ts)
                t.join();
        }
        settle();
        for (size_t i = 0; i < w.disps.size(); ++i)
            if (i % 2 == 0 && w.disps[i].running)
                stop(w.disps[i]);
        // after a stop, or by the destructor, nothing is registered any more
        for (size_t i = 0; i < w.disps.size(); ++i)
            if (i % 2 == 0)
                for (int n = 0; n < 2; ++n)
                    emit(w, (int)i, n, 1);
        {
            sim::Quiet q;
            judge(w, false);
        }
        for (auto& d : w.disps)
            delete d.d;
        sim::Quiet q;
        if (sim::live_threads() > 1)
            sim::fail("workers outlive the dispatcher");
        // classification
        for (auto& e : w.emits)
            for (auto& h : w.handlers)
                if (h->disp == e->disp && h->ar < e->call)
                {
                    if (REMOVAL ? w.hit && h->name == e->name : (h->name == e->name) != (h->sig == e->sig))
                        nontrivial = true;
                }
        if (nt > 1 && w.emits.size() > 2 && w.handlers.size() > 1)
            nontrivial = true;
    });
    ctx.label(nt ? "several threads" : "one thread");
    ctx.nontrivial(nontrivial);
}
}
