// C08-C11: task_scheduler under generated histories of at/in/every/remove/enable/update/query/start/stop, on one or several threads, with tasks that act themselves.
// Oracle: a reference registry on the virtual clock. What is certain (or possible) about a task at a moment is derived from the history, then every result,
// every execution, its time and every future is compared with it.
#include "simcase.hpp"

#include <algorithm>
#include <functional>
#include <future>
#include <memory>
#include <set>
#include <string>
#include <teiacare/sdk/task_scheduler.hpp>
#include <thread>

#ifndef FOCUS
#define FOCUS 8
#endif

namespace pbt
{
const char* const rule =
    FOCUS == 8    ? "1-3 threads, 3-22 operations, mostly at/in with due times in the past, now, colliding and far away, on 1-4 workers; tasks return, throw, sleep, add, remove; "
                    "non-trivial = two one-shot tasks were executed, or one was and another was cancelled"
    : FOCUS == 9  ? "one thread, 3-22 operations, mostly every() with and without delay, enable/disable, update_interval, removal, clock jumps; "
                    "non-trivial = a periodic task reached 3 grid points and was disabled, updated, removed, met a clock jump or another task"
    : FOCUS == 10 ? "1-3 threads, 3-24 operations over 5 ids, mostly queries and changes of the registry, tasks that act on the registry; "
                    "non-trivial = at least 3 calls named an id that was registered"
                  : "1-4 threads, 3-24 operations, start and stop among all other operations, tasks that sleep and act; "
                    "non-trivial = a stop met pending or running tasks, or start/stop overlapped other calls";

using ns_t = uint64_t;
constexpr uint64_t INF = UINT64_MAX;
static ns_t U = 1000; // unit of all times of a case
using tc::sdk::clock;

enum Kind
{
    ADD,
    REMOVE,
    SET,
    UPDATE,
    GET,
    SCHEDULED,
    ENABLED,
    SIZE,
    START,
    STOP,
    SLEEP,
    JUMP,
    QUIET,
    SETTLE,
    NK
};
static const char* kname[] = {"add", "remove_task", "set_enabled", "update_interval", "get_interval", "is_scheduled", "is_enabled", "tasks_size", "start", "stop", "sleep", "clock jump", "quiesce", "settle"};
using namespace std::string_literals;
// ids that differ as little as strings can: in one place, in length, in an embedded zero, and not even in std::hash
static const std::vector<std::vector<std::string>> ID_SETS = {
    {"a", "b", "", "task", "ab"},
    {"scheduled-task-1", "schedul3\xcf\x04\x07\x9d\xff\x85\xa8\xe6", "Scheduled-task-1", "scheduled-task-2", "scheduled-task-1 "},
    {"a", "a\0"s, "a\0b"s, "\0"s, "A"},
    {std::string(300, 'x') + "1", std::string(300, 'x') + "2", std::string(300, 'x'), "2" + std::string(300, 'x'), "x"}};
static std::vector<std::string> IDS;
static std::string id_text(int i)
{
    return IDS[(size_t)i].size() > 40 ? "id" + std::to_string(i) : q(IDS[(size_t)i]);
}

struct Live // an argument that knows how many of it exist
{
    static int count;
    std::vector<int> data;
    explicit Live(int v)
        : data{v, v + 1}
    {
        sim::Quiet q;
        ++count;
    }
    Live(const Live& o)
        : data(o.data)
    {
        sim::Quiet q;
        ++count;
    }
    Live(Live&& o) noexcept
        : data(std::move(o.data))
    {
        sim::Quiet q;
        ++count;
    }
    ~Live()
    {
        sim::Quiet q;
        --count;
    }
};
int Live::count = 0;

struct Span
{
    uint64_t call = INF, ret = INF;
    bool definite = false;
    const struct Call* by = nullptr;
};
struct Write
{
    Span s;
    int64_t v;
};
struct Run
{
    uint64_t b = INF, e = INF;
    ns_t tb = 0, te = 0;
};
struct Entry
{
    int no = 0;
    // specification
    int id = -1; // -1: none
    bool every = false;
    int form = 0; // which overload and which callable
    bool rel = false; // in() instead of at()
    int64_t delay = 0; // relative to the call
    bool has_delay = false;
    ns_t interval = 0;
    ns_t sleep = 0;
    bool throws = false;
    int act = 0; // 0 nothing 1 add child 2 remove own id 3 remove another 4 size 5 is_scheduled own 6 disable own
    int act_id = 0;
    Entry* child = nullptr;
    // observation
    uint64_t ac = INF, ar = INF;
    ns_t tc_ = 0, tr = 0;
    bool accepted = false;
    ns_t due_lo = 0, due_hi = 0;
    std::vector<Run> runs;
    std::future<int> fi;
    std::future<void> fv;
    bool has_future = false;
    // derived
    std::vector<Span> ends;
    std::vector<Write> enabled, ivs;
    // periodic grid, exact time: segments
    struct Seg
    {
        ns_t base, interval;
        ns_t from;           // points before are not of this segment
        ns_t optional = INF; // a point that may be skipped
        ns_t until = INF;    // points after are of the next one
        uint64_t since = 0;  // mark at which it began
    };
    std::vector<Seg> grid;
    bool grid_known = true;
    int acts = 0;
    bool claimed = false;
};
struct Call
{
    Kind k = SIZE;
    int id = 0;
    int64_t arg = 0; // SET: value; UPDATE: interval
    uint64_t call = 0, ret = INF;
    ns_t tc_ = 0, tr = 0;
    int64_t res = 0; // GET: -1 none
    Entry* e = nullptr;
    uint64_t workers = 0;
};
struct World
{
    tc::sdk::task_scheduler* ts = nullptr;
    std::vector<ns_t> at{0}; // time of each mark
    uint64_t mark()
    {
        at.push_back(sim::now());
        return at.size() - 1;
    }
    std::vector<uint64_t> quiet; // marks at which nothing could run
    struct Jump
    {
        ns_t from, to;
        uint64_t m1, m2;
    };
    std::vector<Jump> jumps;
    std::vector<Entry*> entries;
    std::vector<std::unique_ptr<Call>> calls;
    int running = 0;
    bool exact = true;
    bool single = true;
    bool sleepers = false;
    unsigned workers = 1;
    uint64_t settled = 0;
};

static void act(World& w, Entry& e);
static void body(World& w, Entry& e)
{
    size_t k;
    {
        sim::Quiet q;
        k = e.runs.size();
        e.runs.push_back({});
        e.runs[k].b = w.mark();
        e.runs[k].tb = sim::now();
        ++w.running;
        sim::event("task begins", e.no);
        if (!e.every && k)
            sim::fail(cat("task #", e.no, " is executed a second time"));
        if (e.runs.size() > 1000)
            sim::fail(cat("task #", e.no, " does not stop being executed"));
    }
    if (e.sleep)
        sim::sleep_ns(e.sleep);
    else
        sim::yield();
    act(w, e);
    {
        sim::Quiet q;
        --w.running;
        e.runs[k].e = w.mark();
        e.runs[k].te = sim::now();
        sim::event("task ends", e.no);
    }
    if (e.throws)
        throw 5000 + e.no;
}
static void got(Entry& e, int a, const std::string& s, const Live& l)
{
    sim::Quiet q;
    if (a != e.no * 7 || s != "arg" + std::to_string(e.no) || l.data != std::vector<int>{e.no, e.no + 1})
        sim::fail(cat("task #", e.no, " did not get the arguments given"));
}
static Call* begin(World& w, Kind k, int id, int64_t arg = 0)
{
    sim::Quiet q;
    w.calls.push_back(std::make_unique<Call>());
    Call* c = w.calls.back().get();
    c->k = k;
    c->id = id;
    c->arg = arg;
    sim::event(kname[k], id, arg);
    c->tc_ = sim::now();
    c->call = w.mark();
    return c;
}
static void end(World& w, Call* c, int64_t res)
{
    sim::Quiet q;
    c->res = res;
    c->tr = sim::now();
    c->ret = w.mark();
    sim::event("  returned", res);
}
static void add(World& w, Entry& e)
{
    Call* c = begin(w, ADD, e.id, e.no);
    World* W = &w;
    Entry* E = &e;
    std::string id = e.id >= 0 ? IDS[(size_t)e.id] : "";
    {
        sim::Quiet q;
        c->e = E;
        e.ac = c->call;
        e.tc_ = c->tc_;
        w.entries.push_back(E);
    }
    auto& ts = *w.ts;
    bool ok = false;
    const std::string s = "arg" + std::to_string(e.no);
    std::string changed = s;
    int n = e.no * 7;
    if (e.every)
    {
        std::chrono::nanoseconds iv((int64_t)e.interval), dl(e.delay);
        auto args = [W, E](int a, const std::string& x, const Live& l) { got(*E, a, x, l); body(*W, *E); };
        auto plain = [W, E] { body(*W, *E); };
        if (e.has_delay)
        {
            if (e.form & 1)
                ok = ts.every(std::move(id), std::move(iv), std::move(dl), plain);
            else
                ok = ts.every(std::move(id), std::move(iv), std::move(dl), args, n, changed, Live(e.no));
        }
        else if (e.id >= 0)
        {
            if (e.form & 1)
                ok = ts.every(std::move(id), std::move(iv), plain);
            else
                ok = ts.every(std::move(id), std::move(iv), args, n, changed, Live(e.no));
        }
        else if (e.form & 1)
            ok = ts.every(std::move(iv), plain);
        else
            ok = ts.every(std::move(iv), args, n, changed, Live(e.no));
        changed = "changed";
        n = -1;
    }
    else
    {
        std::chrono::nanoseconds dl(e.delay);
        auto args = [W, E](int a, const std::string& x, const Live& l) -> int { got(*E, a, x, l); body(*W, *E); return 1000 + E->no; };
        auto plain = [W, E]() -> int { body(*W, *E); return 1000 + E->no; };
        auto nothing = [W, E] { body(*W, *E); };
        std::optional<std::future<int>> fi;
        std::optional<std::future<void>> fv;
        auto tp = [&] { return clock::now() + std::chrono::nanoseconds(e.delay); };
        clock::time_point when;
        {
            sim::Quiet q;
            when = tp();
        }
        const ns_t abs = (ns_t)when.time_since_epoch().count();
        if (e.delay == INT64_MAX)
            when = clock::time_point::max();
        if (e.delay == INT64_MIN)
            when = clock::time_point::min();
        const int form = e.form % 3;
        if (e.id >= 0)
        {
            if (e.rel)
            {
                if (form == 0)
                    fi = ts.in(std::move(id), std::move(dl), plain);
                else if (form == 1)
                    fi = ts.in(std::move(id), std::move(dl), args, n, changed, Live(e.no));
                else
                    fv = ts.in(std::move(id), std::move(dl), nothing);
            }
            else
            {
                if (form == 0)
                    fi = ts.at(std::move(id), std::move(when), plain);
                else if (form == 1)
                    fi = ts.at(std::move(id), std::move(when), args, n, changed, Live(e.no));
                else
                    fv = ts.at(std::move(id), std::move(when), nothing);
            }
        }
        else if (e.rel)
        {
            if (form == 0)
                fi = ts.in(std::move(dl), plain);
            else if (form == 1)
                fi = ts.in(std::move(dl), args, n, changed, Live(e.no));
            else
                fv = ts.in(std::move(dl), nothing);
        }
        else
        {
            if (form == 0)
                fi = ts.at(std::move(when), plain);
            else if (form == 1)
                fi = ts.at(std::move(when), args, n, changed, Live(e.no));
            else
                fv = ts.at(std::move(when), nothing);
        }
        changed = "changed";
        n = -1;
        sim::Quiet q;
        ok = fi || fv;
        if (fi)
            e.fi = std::move(*fi);
        if (fv)
            e.fv = std::move(*fv);
        e.has_future = ok;
        e.due_lo = abs;
    }
    end(w, c, ok);
    sim::Quiet q;
    e.accepted = ok;
    e.ar = c->ret;
    e.tr = c->tr;
    const int64_t d = e.every ? (e.has_delay ? e.delay : 0) : e.delay;
    const bool relative = e.rel || e.every;
    auto plus = [](ns_t t, int64_t x) -> ns_t {
        if (x == INT64_MAX)
            return INF / 2;
        if (x < 0 && (x == INT64_MIN || (ns_t)-x > t))
            return 0;
        return (ns_t)((int64_t)t + x);
    };
    const ns_t abs = e.due_lo;
    e.due_lo = plus(e.tc_, d);
    e.due_hi = plus(e.tr, d);
    if (!relative && d != INT64_MAX && d != INT64_MIN)
        e.due_lo = e.due_hi = abs;
    if (e.due_lo != e.due_hi)
        e.grid_known = !w.exact;
    if (e.every)
        e.grid.push_back({e.due_lo, e.interval, 0, INF, INF});
}
static bool ready(Entry& e)
{
    return e.fi.valid() ? e.fi.wait_for(std::chrono::seconds(0)) == std::future_status::ready : e.fv.wait_for(std::chrono::seconds(0)) == std::future_status::ready;
}

// ---- what is certain and what is possible about an entry between two marks
static bool certain(const Entry& e, uint64_t a, uint64_t b, const Call* except = nullptr)
{
    if (!e.accepted || e.ar > a)
        return false;
    for (auto& x : e.ends)
        if (x.call < b && !(except && x.by == except))
            return false;
    return true;
}
static bool possible(const Entry& e, uint64_t a, uint64_t b, const Call* except = nullptr)
{
    if ((!e.accepted && e.ar != INF) || e.ac > b)
        return false;
    for (auto& x : e.ends)
        if (x.definite && x.ret < a && !(except && x.by == except))
            return false;
    return true;
}
static std::set<int64_t> values(const std::vector<Write>& ws, int64_t initial, uint64_t a, uint64_t b)
{
    std::set<int64_t> r;
    bool init = true;
    for (auto& x : ws)
        if (x.s.definite && x.s.ret < a)
            init = false;
    if (init)
        r.insert(initial);
    for (auto& x : ws)
    {
        if (x.s.call > b)
            continue;
        bool over = false;
        for (auto& y : ws)
            over |= &x != &y && y.s.definite && y.s.call > x.s.ret && y.s.ret < a;
        if (!over)
            r.insert(x.v);
    }
    return r;
}
static bool certainly_running(const World& w, uint64_t a, uint64_t b)
{
    for (auto& s : w.calls)
    {
        if (s->k != START || s->res != 1 || s->ret > a)
            continue;
        bool ok = true;
        for (auto& p : w.calls)
            ok &= !(p->k == STOP && p->res == 1 && p->ret > s->call && p->call < b);
        if (ok)
            return true;
    }
    return false;
}
static bool possibly_running(const World& w, uint64_t a, uint64_t b)
{
    for (auto& s : w.calls)
    {
        if (s->k != START || s->res != 1 || s->call > b)
            continue;
        bool ok = true;
        for (auto& p : w.calls)
            ok &= !(p->k == STOP && p->res == 1 && p->call > s->ret && p->ret < a);
        if (ok)
            return true;
    }
    return false;
}
// the moments at which the scheduler thread may act on something of an entry due at d: d itself, or where clock jumps led before any thread could run
static std::vector<ns_t> arrivals(const World& w, const Entry& e, ns_t d, uint64_t since)
{
    d = std::max(d, e.ar == INF ? e.tc_ : e.tr);
    std::vector<ns_t> r{d};
    bool inside = true; // d lies in a jump, not where it began
    for (auto& j : w.jumps) // in order
    {
        if (!(d >= j.from && d < j.to))
            continue;
        if (e.ac > j.m1)
            continue; // a task added after the jump
        bool handled = false;
        for (uint64_t q : w.quiet)
            handled |= q > since && w.at[q] >= d && q < j.m1;
        if (handled)
            break;
        if (d > j.from && r.size() == 1 && inside)
            r.clear();
        inside = false;
        d = j.to;
        r.push_back(d);
    }
    return r;
}
static ns_t arrival(const World& w, const Entry& e, ns_t d, uint64_t since)
{
    return arrivals(w, e, d, since).back();
}
// marks between which something due at d (registered by mark `since`) is handed to the workers
static Span processing(const World& w, const Entry& e, ns_t lo, ns_t hi, uint64_t since = 0)
{
    since = std::max(since, e.ar);
    Span p{e.ac, INF, true};
    for (size_t m = w.at.size() - 1; m > e.ac; --m)
        if (w.at[m] < lo)
        {
            p.call = std::max<uint64_t>(p.call, m);
            break;
        }
    if (e.ar == INF)
        return p;
    const ns_t when = std::max(arrival(w, e, hi, since), e.tr);
    if (w.exact)
        for (size_t m = since; m < w.at.size(); ++m)
            if (w.at[m] > when)
            {
                p.ret = m;
                break;
            }
    for (uint64_t m : w.quiet)
        if (m > since && w.at[m] >= hi)
            p.ret = std::min(p.ret, m);
    return p;
}
static void derive(World& w)
{
    for (auto e : w.entries)
    {
        e->ends.clear();
        e->enabled.clear();
        e->ivs.clear();
    }
    for (auto& c : w.calls)
        if (c->k == STOP && c->res == 1)
            for (auto e : w.entries)
                if (e->ac < c->ret)
                    e->ends.push_back({c->call, c->ret, e->ar < c->call});
    for (auto e : w.entries)
        if (!e->every)
        {
            Span p = processing(w, *e, e->due_lo, e->due_hi);
            for (auto& r : e->runs)
                p.ret = std::min(p.ret, r.b);
            p.definite = p.ret != INF;
            if (p.call < w.at.size() && (w.at.back() >= e->due_lo || p.ret != INF))
                e->ends.push_back(p);
        }
    std::vector<Call*> order;
    for (auto& c : w.calls)
        order.push_back(c.get());
    std::sort(order.begin(), order.end(), [](auto a, auto b) { return a->call < b->call; });
    for (auto c : order)
        if (c->k == REMOVE && c->res == 1)
        {
            std::vector<Entry*> who;
            for (auto e : w.entries)
                if (e->id == c->id && possible(*e, c->call, c->ret))
                    who.push_back(e);
            for (auto e : who)
                e->ends.push_back({c->call, c->ret, who.size() == 1, c});
        }
    for (auto c : order)
        if ((c->k == SET || c->k == UPDATE) && c->res == 1)
        {
            std::vector<Entry*> who;
            for (auto e : w.entries)
                if (e->id == c->id && possible(*e, c->call, c->ret))
                    who.push_back(e);
            for (auto e : who)
                (c->k == SET ? e->enabled : e->ivs).push_back({{c->call, c->ret, who.size() == 1}, c->arg});
        }
}
static std::string desc(const Entry& e)
{
    return cat("task #", e.no, e.every ? " every(" : e.rel ? " in(" : " at(", e.id >= 0 ? id_text(e.id) : std::string("-"), ")");
}
static bool after_stop(const World& w, const Entry& e)
{
    for (auto& c : w.calls)
        if (c->k == STOP && c->res == 1 && c->ret > e.ac)
            return true;
    return false;
}
static void judge_calls(World& w)
{
    for (auto& cp : w.calls)
    {
        Call& c = *cp;
        if (c.ret == INF)
            continue;
        bool must = false, may = false, certain_true = false, possible_true = false, must_periodic = false, may_periodic = false;
        int lo = 0, hi = 0;
        bool iv_ok = false;
        for (auto e : w.entries)
        {
            if (e == c.e)
                continue;
            const bool ce = certain(*e, c.call, c.ret, &c), po = possible(*e, c.call, c.ret, &c);
            lo += ce;
            hi += po;
            if (c.id < 0 || e->id != c.id)
                continue;
            must |= ce;
            may |= po;
            if (po && c.k == ENABLED)
            {
                auto v = values(e->enabled, 1, c.call, c.ret);
                possible_true |= v.count(1) > 0;
                certain_true |= ce && !v.count(0);
            }
            if (e->every)
            {
                must_periodic |= ce;
                may_periodic |= po;
                if (po && c.k == GET)
                    iv_ok |= values(e->ivs, (int64_t)e->interval, c.call, c.ret).count(c.res) > 0;
            }
        }
        auto bad = [&](const char* what) {
            sim::fail(cat(kname[c.k], c.e ? " of " : "(", c.e ? desc(*c.e) : c.id >= 0 ? id_text(c.id) : std::string(), c.e ? "" : ")", " returned ", c.res, " between marks ", c.call, " and ", c.ret, ": ", what));
        };
        switch (c.k)
        {
        case ADD:
            if (c.res && must)
                bad("the id is in use");
            if (c.res && !possibly_running(w, c.call, c.ret))
                bad("the scheduler is not running");
            if (!c.res && !may && certainly_running(w, c.call, c.ret))
                bad("the scheduler is running and the id is free");
            break;
        case REMOVE:
        case SET:
        case SCHEDULED:
            if (c.res && !may)
                bad("no such task is registered");
            if (!c.res && must)
                bad("the task is registered");
            break;
        case ENABLED:
            if (c.res && !possible_true)
                bad("no such task is registered and enabled");
            if (!c.res && certain_true)
                bad("the task is registered and enabled");
            break;
        case UPDATE:
            if (c.res && !may_periodic)
                bad("no such periodic task is registered");
            if (!c.res && must_periodic)
                bad("the periodic task is registered");
            break;
        case GET:
            if (c.res < 0 ? must_periodic : !iv_ok)
                bad("not the interval of the task");
            break;
        case SIZE:
            if (c.res < lo || c.res > hi)
                bad(cat("registered are ", lo, " to ", hi).c_str());
            break;
        default:;
        }
        // no call but start and stop waits for anything that takes time
        bool jumped = false;
        for (auto& j : w.jumps)
            jumped |= j.m2 > c.call && j.m1 < c.ret;
        if (w.exact && c.k < START && c.tr != c.tc_ && !jumped)
            bad("the call waited for the clock");
    }
}
static void judge_stops(World& w)
{
    for (auto& sp : w.calls)
    {
        Call& s = *sp;
        if (s.k != STOP || s.res != 1)
            continue;
        ns_t limit = s.tc_;
        for (auto e : w.entries)
            for (auto& r : e->runs)
            {
                bool restarted = false, overlap = false;
                for (auto& st : w.calls)
                {
                    if (st->k != START || st->res != 1)
                        continue;
                    if (st->ret > s.call && st->call < r.b)
                        restarted = true;
                    if (st->ret > s.call && st->call < s.ret)
                        overlap = true;
                }
                if (r.b > s.ret && e->ar < s.call)
                    sim::fail(cat(desc(*e), " was executed at mark ", r.b, ", stop() had cancelled it at ", s.ret));
                if (r.b > s.ret && !restarted)
                    sim::fail(cat(desc(*e), " was executed at mark ", r.b, " of a scheduler stopped at ", s.ret));
                if (r.b < s.ret && r.e > s.ret && !overlap)
                    sim::fail(cat(desc(*e), " was still being executed when stop() returned at mark ", s.ret));
                if (r.b < s.ret)
                    limit = std::max(limit, r.e == INF ? INF : r.te);
            }
        if (w.exact && s.tr > limit)
            sim::fail(cat("stop() took from ", s.tc_, " to ", s.tr, " ns, no task ran later than ", limit));
    }
}
// all workers were busy just after time t
static bool all_busy(const World& w, ns_t t)
{
    unsigned n = 0;
    for (auto e : w.entries)
        for (auto& r : e->runs)
            n += r.tb <= t && (r.e == INF || r.te > t);
    return n >= w.workers;
}
static void judge_oneshot(World& w, Entry& e, bool settled)
{
    const size_t n = e.runs.size();
    if (n && !e.accepted)
        sim::fail(cat(desc(e), " was refused and is executed"));
    if (!e.accepted)
        return;
    const Span p = processing(w, e, e.due_lo, e.due_hi);
    bool cancelled = false, maybe_cancelled = false;
    for (auto& c : w.calls)
    {
        if (c->k == REMOVE && c->res == 1 && c->id == e.id && c->ret > e.ac)
        {
            bool mine = false, sole = false;
            for (auto& x : e.ends)
                if (x.by == c.get())
                {
                    mine = true;
                    sole = x.definite;
                }
            if (mine)
            {
                maybe_cancelled = true;
                cancelled |= sole && c->call > e.ar;
            }
        }
        if (c->k == STOP && c->res == 1 && c->ret > e.ac && !(w.settled && c->call > w.settled && p.ret < w.settled))
            maybe_cancelled = true;
    }
    const auto en = values(e.enabled, 1, p.call, p.ret == INF ? w.at.size() : p.ret);
    if (n)
    {
        if (cancelled)
            sim::fail(cat(desc(e), " was removed and is executed"));
        if (!en.count(1))
            sim::fail(cat(desc(e), " was disabled when due and is executed"));
        const Run& r = e.runs[0];
        if (r.tb < e.due_lo)
            sim::fail(cat(desc(e), " is executed at ", r.tb, " ns, due at ", e.due_lo));
        if (w.exact)
        {
            const ns_t t = arrival(w, e, e.due_hi, e.ar);
            if (r.tb > t && !all_busy(w, t))
                sim::fail(cat(desc(e), " is executed at ", r.tb, " ns, due at ", e.due_lo, ", a worker was free at ", t));
        }
    }
    else if (settled && p.ret != INF && !maybe_cancelled && en.count(1) && en.size() == 1)
        sim::fail(cat(desc(e), " was due at ", e.due_hi, " ns and is not executed"));
}
static void judge_periodic(World& w, Entry& e, bool settled)
{
    const size_t n = e.runs.size();
    if (n && !e.accepted)
        sim::fail(cat(desc(e), " was refused and is executed"));
    if (!e.accepted)
        return;
    std::vector<ns_t> starts;
    for (auto& r : e.runs)
        starts.push_back(r.tb);
    std::sort(starts.begin(), starts.end());
    // (what update_interval makes of a delay that is still running is not specified)
    if (!starts.empty() && starts[0] < e.due_lo && e.ivs.empty())
        sim::fail(cat(desc(e), " is executed at ", starts[0], " ns, first due at ", e.due_lo));
    if (!e.grid_known)
        return;
    // latest moment at which a handover can have happened
    ns_t horizon = w.at.back();
    for (auto& x : e.ends)
        if (x.definite)
            horizon = std::min(horizon, w.at[x.ret]);
    if (!w.exact)
    {
        // at most one execution for each grid point
        const auto ivs = values(e.ivs, (int64_t)e.interval, 0, w.at.size());
        const ns_t iv = (ns_t)*ivs.begin();
        for (size_t i = 0; i < n; ++i)
            if (i >= (starts[i] - e.due_lo) / iv + 1 + (ivs.size() > 1 ? e.ivs.size() : 0))
                sim::fail(cat(desc(e), " was executed ", i + 1, " times by ", starts[i], " ns, first due at ", e.due_lo, ", interval ", iv));
        if (n > (horizon < e.due_lo ? 0 : (horizon - e.due_lo) / iv + 1 + (ivs.size() > 1 ? e.ivs.size() : 0)))
            sim::fail(cat(desc(e), " was executed ", n, " times, and removed by ", horizon, " ns, first due at ", e.due_lo, ", interval ", iv));
        return;
    }
    struct Slot
    {
        int lo = 0, hi = 0;
    };
    std::map<ns_t, Slot> slots;
    struct Group
    {
        bool later = false, sure = false;
        std::set<ns_t> from;
    };
    std::map<ns_t, Group> groups;
    for (auto& s : e.grid)
        for (ns_t g = s.base; g <= horizon && g <= s.until; g += s.interval)
        {
            if (g < s.from)
                continue;
            const Span p = processing(w, e, g, g, s.since);
            const uint64_t pr = p.ret == INF ? w.at.size() : p.ret;
            if (!possible(e, p.call, pr))
                continue;
            const auto en = values(e.enabled, 1, p.call, pr);
            if (!en.count(1))
                continue;
            bool sure = p.ret != INF && certain(e, std::max(p.call, e.ar), pr) && en.size() == 1 && g != s.optional;
            const auto when = arrivals(w, e, g, std::max(e.ar, s.since));
            if (when.size() == 1 && when[0] == g)
            {
                ++slots[g].hi;
                slots[g].lo += sure;
                continue;
            }
            for (size_t i = 0; i < when.size(); ++i)
            {
                if (when[i] == g)
                    ++slots[g].hi;
                else
                    groups[when[i]].later = true;
                // handed over here, it may be executed after the next jump
                for (size_t j = 0; j < i; ++j)
                    groups[when[i]].from.insert(when[j]);
            }
            // sure only if the scheduler thread was certainly idle when the clock jumped: what it handles during a jump, it handles as at its end
            for (auto& j : w.jumps)
                if (when.size() == 1 && j.from < g && g <= j.to && j.m2 > std::max(e.ar, s.since))
                {
                    bool idle = false;
                    for (uint64_t q : w.quiet)
                        idle |= q > std::max(e.ar, s.since) && q < j.m1 && w.at[q] == j.from;
                    sure &= idle;
                }
            if (when.size() == 1)
                groups[when[0]].sure |= sure;
        }
    int distinct = 0;
    for (auto& [a, g] : groups)
        slots[a].hi += g.later;
    for (auto& [t, s] : slots)
        distinct += s.hi;
    auto plain = slots;
    for (auto& [a, g] : groups)
    {
        for (ns_t x : g.from)
            slots[a].hi += plain[x].hi;
        // what was missed is made up for once, and the point at the end of a jump may stand for it
        if (g.later)
            slots[a].lo = std::min(1, slots[a].lo + g.sure);
    }
    if ((int)n > distinct)
        sim::fail(cat(desc(e), " was executed ", n, " times, due ", distinct, " times"));
    std::map<ns_t, int> count;
    for (ns_t t : starts)
        ++count[t];
    if (!w.sleepers)
        for (auto& [t, k] : count)
            if (!slots.count(t) || k > slots[t].hi)
                sim::fail(cat(desc(e), " is executed ", k, " time(s) at ", t, " ns, which ", slots.count(t) ? "is too often" : "is not on its grid", " (first due at ", e.due_lo, ", interval ", e.interval, ")"));
    bool stopped = after_stop(w, e);
    int sum_hi = 0;
    size_t i = 0;
    int must = 0;
    for (auto& [t, s] : slots)
    {
        while (i < n && starts[i] < t)
            if ((int)++i > sum_hi)
                sim::fail(cat(desc(e), " was executed ", i, " times by ", starts[i - 1], " ns, at most ", sum_hi, " were due"));
        sum_hi += s.hi;
        must += s.lo;
        if (!w.sleepers && !stopped && settled && t <= horizon && (count.count(t) ? count[t] : 0) < s.lo)
            sim::fail(cat(desc(e), " was due at ", t, " ns and is not executed (first due at ", e.due_lo, ", interval ", e.interval, ")"));
    }
    if ((int)n > sum_hi)
        sim::fail(cat(desc(e), " was executed ", n, " times, due ", sum_hi, " times"));
    if (settled && !stopped && (int)n < must)
        sim::fail(cat(desc(e), " was executed ", n, " times, due ", must, " times"));
}
static void judge(World& w, bool settled)
{
    derive(w);
    judge_calls(w);
    judge_stops(w);
    for (auto e : w.entries)
        e->every ? judge_periodic(w, *e, settled) : judge_oneshot(w, *e, settled);
    if (settled)
        w.settled = w.at.size() - 1;
}

static void call(World& w, Kind k, int id, int64_t arg)
{
    auto& ts = *w.ts;
    const std::string s = id >= 0 ? IDS[(size_t)id] : "";
    Call* c = begin(w, k, id, arg);
    switch (k)
    {
    case REMOVE:
        end(w, c, ts.remove_task(s));
        break;
    case SET:
        end(w, c, ts.set_enabled(s, arg != 0));
        break;
    case UPDATE:
        end(w, c, ts.update_interval(s, std::chrono::nanoseconds(arg)));
        break;
    case GET: {
        auto r = ts.get_interval(s);
        end(w, c, r ? r->count() : -1);
        break;
    }
    case SCHEDULED:
        end(w, c, ts.is_scheduled(s));
        break;
    case ENABLED:
        end(w, c, ts.is_enabled(s));
        break;
    case SIZE:
        end(w, c, (int64_t)ts.tasks_size());
        break;
    case START: {
        bool threw = false, r = false;
        sim::deny_thread((int)arg); // the system refuses this many-th thread
        try
        {
            r = ts.start(w.workers);
        }
        catch (const std::system_error&)
        {
            threw = true;
        }
        if (threw != (arg && sim::deny_thread(0) == 0))
            sim::fail(cat("start() ", threw ? "throws although every thread could be created" : "does not throw although a thread could not be created"));
        if (threw)
        {
            // it did not happen: the scheduler has no task and stays stopped
            if (ts.tasks_size() || sim::live_threads() != 1)
                sim::fail(cat("after a start() that failed: ", ts.tasks_size(), " tasks, ", sim::live_threads() - 1, " threads alive"));
            c->k = SIZE;
        }
        end(w, c, r);
        break;
    }
    case STOP:
        end(w, c, ts.stop());
        break;
    default:;
    }
}
static void act(World& w, Entry& e)
{
    int a;
    {
        sim::Quiet q;
        a = e.acts++ < 2 ? e.act : 0;
        if (a == 1 && (!e.child || e.child->claimed))
            a = 0;
        if (a == 1)
            e.child->claimed = true;
    }
    switch (a)
    {
    case 1:
        add(w, *e.child);
        break;
    case 2:
        if (e.id >= 0)
            call(w, REMOVE, e.id, 0);
        break;
    case 3:
        call(w, REMOVE, e.act_id, 0);
        break;
    case 4:
        call(w, SIZE, -1, 0);
        break;
    case 5:
        if (e.id >= 0)
            call(w, SCHEDULED, e.id, 0);
        break;
    case 6:
        if (e.id >= 0)
            call(w, SET, e.id, 0);
        break;
    default:;
    }
}

// start and stop as a boolean register
static bool linearizable(const World& w)
{
    std::vector<const Call*> ops;
    for (auto& c : w.calls)
        if (c->k == START || c->k == STOP)
            ops.push_back(c.get());
    std::sort(ops.begin(), ops.end(), [](auto a, auto b) { return a->call < b->call; });
    const size_t n = ops.size();
    if (n > 40)
        return true;
    std::set<std::pair<uint64_t, bool>> seen;
    auto go = [&](auto& self, uint64_t done, bool on) -> bool {
        if (done == (1ull << n) - 1)
            return true;
        if (!seen.insert({done, on}).second)
            return false;
        uint64_t min_ret = INF;
        for (size_t i = 0; i < n; ++i)
            if (!(done >> i & 1))
                min_ret = std::min(min_ret, ops[i]->ret);
        for (size_t i = 0; i < n; ++i)
        {
            if (done >> i & 1)
                continue;
            if (ops[i]->call > min_ret)
                break;
            const bool start = ops[i]->k == START, r = ops[i]->res == 1;
            if (r != (start ? !on : on))
                continue;
            if (self(self, done | 1ull << i, start))
                return true;
        }
        return false;
    };
    return go(go, 0, false);
}

struct Op
{
    Kind k = SIZE;
    int id = 0;
    int64_t arg = 0;
    Entry* e = nullptr;
    ns_t ns = 0;
};

// hundreds or thousands of tasks in one scheduler: an exact model of what runs when
static void crowd(Src& src, Ctx& ctx)
{
    const int many = 150 + (int)src.below(src.chance(1, 4) ? 5000 : 600);
    const int periodic = FOCUS == 9 ? 10 + (int)src.below(40) : (int)src.below(5);
    const uint64_t span = 1 + src.below(src.coin() ? 2000 : 20);
    const unsigned workers = 1 + (unsigned)src.below(4);
    const int named = (int)src.below(3);                                  // none, some, all have an id
    const int drop = (int)src.weighted({1, 2, 2}), steps = 1 + (int)src.below(12); // removed tasks: none, few, many
    const int order = (int)src.below(3);                                  // due times at random, rising, falling
    const uint64_t seed = src.below(1u << 30);
    sim::Config cfg = draw_schedule(src, ctx, true);
    cfg.max_steps = 40000000;
    cfg.poll_reads = 1000000;
    cfg.stall_den = 0;
    ctx.notef("crowd: %d one-shot tasks due within %llu us, %d periodic ones, %u workers, id: %s, removed: %s, %d steps, order %d\n", many, (unsigned long long)span, periodic, workers,
              named == 0 ? "none" : named == 1 ? "some" : "all", drop == 0 ? "none" : drop == 1 ? "few" : "many", steps, order);
    sim::run(cfg, [&] {
        struct One
        {
            std::string id;
            ns_t due = 0, iv = 0;
            int runs = 0;
            bool in = true;
            ns_t gone = INF; // removed then
            std::future<int> f;
        };
        std::vector<std::unique_ptr<One>> all;
        uint64_t s = seed;
        auto rnd = [&s](uint64_t n) {
            s = s * 6364136223846793005ull + 1442695040888963407ull;
            return (s >> 33) % n;
        };
        tc::sdk::task_scheduler ts;
        if (!ts.start(workers))
            sim::fail("start() of a stopped scheduler returned false");
        auto due = [&](const One& o, ns_t now) -> int { // how often it ran until now, given that everything is done
            const ns_t until = std::min(now, o.gone);
            if (o.due > until)
                return 0;
            return o.iv ? (int)((until - o.due) / o.iv + 1) : 1;
        };
        auto check = [&](const char* when) {
            sim::quiesce();
            const ns_t now = sim::now();
            size_t left = 0;
            for (auto& p : all)
            {
                sim::Quiet q;
                if (p->runs != due(*p, now))
                    sim::fail(cat("the task \"", p->id, "\" due at ", p->due, p->iv ? cat(" and every ", p->iv) : std::string(), p->gone == INF ? "" : cat(", removed at ", p->gone), " was executed ", p->runs, " times until ", now, ", ", when));
                left += p->gone == INF && (p->iv || p->due > now);
            }
            if (const size_t n = ts.tasks_size(); n != left)
                sim::fail(cat("tasks_size() = ", n, ", ", left, " tasks are registered, ", when));
        };
        for (int i = 0; i < many + periodic; ++i)
        {
            all.push_back(std::make_unique<One>());
            One* p = all.back().get();
            if (named == 2 || (named == 1 && rnd(2)) || i >= many)
                p->id = "task " + std::to_string(i);
            const ns_t now = sim::now();
            const uint64_t k = order == 0 ? 1 + rnd(span) : order == 1 ? 1 + (uint64_t)i * span / (uint64_t)(many + periodic) : 1 + (uint64_t)(many + periodic - i) * span / (uint64_t)(many + periodic);
            p->due = now + 1000 * k;
            auto body = [p]() -> int {
                sim::Quiet q;
                ++p->runs;
                const ns_t t = sim::now();
                if (t < p->due || (p->iv ? (t - p->due) % p->iv != 0 : t != p->due))
                    sim::fail(cat("the task \"", p->id, "\" due at ", p->due, " is executed at ", t));
                return p->runs;
            };
            bool ok = true;
            std::chrono::nanoseconds in((int64_t)(p->due - now));
            if (i >= many)
            {
                p->iv = 1000 * (1 + rnd(1 + span / 8));
                ok = ts.every(std::string(p->id), std::chrono::nanoseconds((int64_t)p->iv), std::move(in), [body] { body(); });
            }
            else
            {
                std::optional<std::future<int>> f;
                clock::time_point when{std::chrono::duration_cast<clock::duration>(std::chrono::nanoseconds((int64_t)p->due))};
                if (p->id.empty())
                    f = rnd(2) ? ts.in(std::move(in), body) : ts.at(std::move(when), body);
                else
                    f = rnd(2) ? ts.in(std::string(p->id), std::move(in), body) : ts.at(std::string(p->id), std::move(when), body);
                ok = f.has_value();
                if (ok)
                    p->f = std::move(*f);
            }
            if (!ok)
                sim::fail(cat("the task \"", p->id, "\" was refused"));
        }
        auto pick = [&]() -> One* { return all[rnd(all.size())].get(); };
        check("after all were added");
        for (int step = 0; step < steps; ++step)
        {
            for (int i = drop == 0 ? 0 : drop == 1 ? 3 : std::min(60, many / 8); i-- > 0;)
                if (One* p = pick(); !p->id.empty())
                {
                    const ns_t now = sim::now();
                    const bool there = p->gone == INF && (p->iv || p->due > now);
                    if (ts.is_scheduled(p->id) != there)
                        sim::fail(cat("is_scheduled(\"", p->id, "\") = ", !there));
                    if (ts.remove_task(p->id) != there)
                        sim::fail(cat("remove_task(\"", p->id, "\") = ", !there));
                    if (there)
                        p->gone = now;
                    if (ts.is_scheduled(p->id))
                        sim::fail(cat("\"", p->id, "\" is scheduled after remove_task"));
                }
            sim::sleep_ns(500 + 1000 * rnd(2 + span / (uint64_t)steps));
            check("after some time");
        }
        if (rnd(2))
        {
            sim::sleep_ns(1000 * (span + 2));
            check("after all were due");
        }
        const ns_t now = sim::now();
        if (!ts.stop())
            sim::fail("stop() of a running scheduler returned false");
        sim::sleep_ns(1000 * 5);
        for (auto& p : all)
        {
            {
                sim::Quiet q;
                if (p->runs != due(*p, now))
                    sim::fail(cat("the task \"", p->id, "\" was executed after stop()"));
            }
            if (p->iv)
                continue;
            if (p->f.wait_for(std::chrono::seconds(0)) != std::future_status::ready)
                sim::fail("the future of a task is not ready after stop()");
            int v = 0;
            try
            {
                v = p->f.get();
            }
            catch (const std::future_error&)
            {
            }
            sim::Quiet q;
            if (v != p->runs)
                sim::fail("the future of a task does not tell whether it was executed");
        }
    });
    ctx.label("crowd");
    ctx.nontrivial(true);
}

void property_case(Src& src, Ctx& ctx)
{
    if (src.chance(1, 2500))
        return crowd(src, ctx);
    std::vector<std::unique_ptr<Entry>> pool;
    const bool exact = FOCUS == 9 ? src.chance(9, 10) : src.chance(4, 5);
    const int nt = FOCUS == 9 ? 0 : FOCUS == 11 ? (int)src.weighted({3, 0, 2, 2, 1}) : (int)src.weighted({5, 0, 2, 1});
    const int lists = std::max(1, nt);
    bool crowd = false;
    const bool sleepers = src.chance(1, 3);
    // A noisy clock must not outrun the periods; an exact one does not care how long they are.
    U = exact ? 1000 * (ns_t)(src.chance(1, 6) ? src.pick(std::vector<int>{10007, 3000017, 86400003}) : 1) : 1000000;
    const unsigned workers = 1 + (unsigned)src.below(4);
    const int nid = 1 + (int)src.below(5);
    IDS = ID_SETS[src.weighted({7, 2, 1, 1})];
    auto time_step = [&]() -> ns_t { return src.chance(1, 4) ? U / 2 * (1 + src.below(10)) : U * (1 + src.below(6)); };
    auto mk = [&](auto& self, int depth) -> Entry* {
        pool.push_back(std::make_unique<Entry>());
        Entry* e = pool.back().get();
        e->no = (int)pool.size();
        e->id = src.chance(FOCUS == 10 ? 5 : 3, FOCUS == 10 ? 6 : 5) ? (int)src.below((uint64_t)nid) : -1;
        e->every = FOCUS == 9 ? src.chance(4, 5) : FOCUS == 8 ? src.chance(1, 8) : src.chance(2, 5);
        e->form = (int)src.below(6);
        if (e->every)
        {
            e->interval = U * (ns_t)src.pick(std::vector<int>{2, 1, 3, 5, 7, 1000});
            if (src.chance(1, 8))
                e->interval = U * 3 / 2;
            e->has_delay = e->id >= 0 && src.coin();
            if (e->has_delay)
                e->delay = (int64_t)U * src.pick(std::vector<int>{1, 0, 3, 5, -2, 100000});
        }
        else
        {
            e->rel = src.coin();
            e->delay = (int64_t)U * src.pick(std::vector<int>{1, 2, 0, 3, 5, 8, -4, 100000});
            if (!e->rel && src.chance(1, 16))
                e->delay = src.coin() && exact ? INT64_MAX : INT64_MIN;
            e->throws = src.chance(1, 6);
        }
        if (sleepers && src.chance(1, 2))
            e->sleep = e->every ? U / 2 * (1 + src.below(4)) : U / 2 * (1 + src.below(12));
        e->act = depth > 1 ? 0 : (int)src.weighted({8, 2, 1, 1, 1, 1, 1});
        e->act_id = (int)src.below((uint64_t)nid);
        if (e->act == 1)
            e->child = self(self, depth + 1);
        return e;
    };
    std::vector<std::vector<Op>> prog((size_t)lists);
    const int nops = 3 + (int)src.below(FOCUS == 8 || FOCUS == 9 ? 20 : 22);
    for (int i = 0; i < nops; ++i)
    {
        Op o;
        //                                              ADD RM SET UPD GET SCH ENA SIZ STA STO SLP JMP QUI SET
        std::vector<unsigned> wt;
        if (FOCUS == 8)
            wt = {10, 2, 2, 0, 0, 1, 0, 1, 1, 1, 6, 1, 2, 1};
        else if (FOCUS == 9)
            wt = {5, 2, 3, 3, 1, 0, 1, 0, 1, 1, 9, 2, 3, 2};
        else if (FOCUS == 10)
            wt = {8, 3, 3, 2, 3, 3, 3, 3, 1, 1, 5, 1, 3, 1};
        else
            wt = {8, 1, 1, 1, 0, 1, 0, 1, 4, 4, 4, 0, 1, 1};
        if (nt)
        {
            wt[JUMP] = wt[QUIET] = wt[SETTLE] = wt[UPDATE] = 0;
            if (FOCUS == 10)
                wt[UPDATE] = 2;
        }
        if (i < 2)
            for (Kind k : {REMOVE, SET, UPDATE, GET, ENABLED, STOP})
                wt[k] = 0;
        o.k = (Kind)src.weighted(wt);
        o.id = (int)src.below((uint64_t)nid + (src.chance(1, 10) ? 1 : 0)) % 5;
        switch (o.k)
        {
        case ADD:
            o.e = mk(mk, 0);
            break;
        case SET:
            o.arg = src.below(2);
            break;
        case UPDATE:
            o.arg = (int64_t)U * src.pick(std::vector<int>{1, 2, 3, 4, 9, 500});
            break;
        case START:
            if (FOCUS == 11 && !nt && src.chance(1, 6))
                o.arg = 1 + src.below(src.coin() ? workers : workers + 1);
            break;
        case SLEEP:
            o.ns = time_step();
            break;
        case JUMP:
            o.ns = time_step() * (1 + src.below(3));
            o.arg = src.below(4) != 0;
            if (src.chance(1, 8))
                o.ns = 123 * U;
            break;
        default:;
        }
        auto& list = prog[(size_t)src.below((uint64_t)lists)];
        list.push_back(o);
        if (o.k == ADD && src.chance(1, 400)) // a crowd of simple tasks
        {
            crowd = true;
            for (int c = 20 + (int)src.below(60); c-- > 0;)
            {
                Op m;
                m.k = ADD;
                m.e = mk(mk, 2);
                list.push_back(m);
            }
        }
    }
    const bool stop_last = src.coin();
    const bool late = FOCUS == 11 ? src.coin() : src.chance(1, 20);
    sim::Config cfg = draw_schedule(src, ctx, exact);
    cfg.max_steps = 1000000;
    // Every reading of the clock costs time: a crowd of periodic tasks must still fit into their periods.
    cfg.noise_ns = std::min<uint64_t>(cfg.noise_ns, crowd ? 100 : 2000);
    for (auto& e : pool)
        if (e->every)
            cfg.stall_den = 0;
    const std::vector<int64_t> wall = draw_wall_steps(src, ctx, 12, U);
    ctx.notef("%u workers, %d thread(s)%s%s\n", workers, nt, late ? ", not started" : "", exact ? "" : ", noisy clock");
    for (size_t t = 0; t < prog.size(); ++t)
    {
        ctx.notef(" T%zu:", nt ? t + 1 : t);
        for (auto& o : prog[t])
        {
            ctx.notef(" %s", kname[o.k]);
            if (o.ns)
                ctx.notef("(%llu)", (unsigned long long)o.ns);
            if (o.k <= ENABLED && o.k != ADD)
                ctx.notef("(%s%s)", id_text(o.id).c_str(), o.k == SET || o.k == UPDATE ? cat(", ", o.arg).c_str() : "");
            if (o.k == START && o.arg)
                ctx.notef("[thread %d refused]", (int)o.arg);
            for (Entry* e = o.e; e; e = e->child)
                ctx.note(cat(e == o.e ? "{#" : " >{#", e->no, " ", e->id >= 0 ? id_text(e->id) : std::string("-"), e->every ? " every " : e->rel ? " in " : " at +",
                             e->every ? cat(e->interval, e->has_delay ? cat(" from ", e->delay) : std::string()) : cat(e->delay), e->sleep ? cat(" sleeps ", e->sleep) : std::string(),
                             e->throws ? " throws" : "", e->act ? cat(" act", e->act) : std::string(), "}"));
            ctx.note(";");
        }
        ctx.note("\n");
    }
    bool nontrivial = false;
    sim::run(cfg, [&] {
        World w;
        w.exact = exact;
        w.single = nt == 0;
        w.workers = workers;
        w.sleepers = sleepers;
        Live::count = 0;
        {
            sim::Quiet q;
            w.at.push_back(sim::now());
        }
        w.ts = new tc::sdk::task_scheduler;
        if (!late)
            call(w, START, -1, 0);
        auto quiesce = [&] {
            sim::quiesce();
            sim::Quiet q;
            w.quiet.push_back(w.mark());
        };
        auto settle = [&] {
            for (int i = 0; i < 100; ++i)
            {
                quiesce();
                sim::Quiet q;
                if (!w.running)
                    break;
                // periodic tasks may keep the workers busy for ever
                bool busy = false;
                for (auto e : w.entries)
                    busy |= e->every && e->sleep;
                if (busy)
                {
                    judge(w, false);
                    return;
                }
                sim::sleep_ns(U / 2);
            }
            sim::Quiet q;
            judge(w, !w.running);
        };
        size_t executed = 0;
        auto exec = [&](const Op& o) {
            {
                sim::Quiet q;
                const size_t n = executed++;
                if (n < wall.size() && wall[n])
                    sim::wall_jump(wall[n]);
            }
            switch (o.k)
            {
            case ADD:
                add(w, *o.e);
                break;
            case SLEEP:
                sim::sleep_ns(o.ns);
                break;
            case JUMP: {
                if (exact && o.arg)
                    quiesce();
                sim::Quiet q;
                if (exact)
                {
                    sim::event("clock jumps by", (int64_t)o.ns);
                    const ns_t from = sim::now();
                    const uint64_t m = w.mark();
                    sim::advance(o.ns);
                    w.jumps.push_back({from, from + o.ns, m, m + 1});
                    w.mark();
                }
                break;
            }
            case QUIET:
                quiesce();
                break;
            case SETTLE:
                settle();
                break;
            case UPDATE: {
                // the grid after an update is only specified when the task has been due before, and known when nothing happens at the same moment
                Entry* e = nullptr;
                if (nt == 0 && exact)
                {
                    quiesce();
                    sim::Quiet q;
                    derive(w);
                    for (auto x : w.entries)
                        if (x->id == o.id && x->every && possible(*x, w.at.size() - 1, w.at.size() - 1))
                            e = e ? nullptr : x;
                }
                call(w, UPDATE, o.id, o.arg);
                sim::Quiet q;
                const Call& c = *w.calls.back();
                for (auto x : w.entries)
                    if (x->every && x->id == o.id && x != e)
                        x->grid_known &= !possible(*x, c.call, c.ret);
                if (!e)
                    break;
                bool others = false;
                for (auto& x : w.calls)
                    others |= x->call > c.call; // a running task acted meanwhile
                if (c.k != UPDATE || others || c.res != 1)
                {
                    e->grid_known = false;
                    break;
                }
                auto& s = e->grid.back();
                if (s.base > c.tc_)
                {
                    e->grid_known = false; // not due yet
                    break;
                }
                const ns_t last = s.base + (c.tc_ - s.base) / s.interval * s.interval;
                if (s.until == INF)
                    s.until = c.tc_;
                const ns_t iv = (ns_t)o.arg;
                Entry::Seg g{last, iv, c.tc_, INF, INF, c.ret};
                if ((c.tc_ - last) % iv == 0)
                    g.optional = c.tc_;
                const ns_t first = last + (c.tc_ - last + iv - 1) / iv * iv;
                g.base = first;
                // later updates reckon from the last due point, which may or may not be an optional one: the grid is the same
                e->grid.push_back(g);
                break;
            }
            default:
                call(w, o.k, o.id, o.arg);
            }
        };
        if (nt == 0)
            for (auto& o : prog[0])
                exec(o);
        else
        {
            std::vector<std::thread> ts;
            for (auto& p : prog)
                ts.emplace_back([&] {
                    for (auto& o : p)
                        exec(o);
                });
            for (auto& t : ts)
                t.join();
        }
        settle();
        if (stop_last)
            call(w, STOP, -1, 0);
        ns_t from, to;
        {
            sim::Quiet q;
            from = sim::now();
        }
        delete w.ts;
        {
            sim::Quiet q;
            to = sim::now();
            if (sim::live_threads() > 1)
                sim::fail("threads outlive the scheduler");
            if (w.running)
                sim::fail("tasks outlive the scheduler");
            ns_t limit = from;
            for (auto e : w.entries)
                for (auto& r : e->runs)
                    limit = std::max(limit, r.te);
            if (exact && to > limit)
                sim::fail(cat("the destructor took from ", from, " to ", to, " ns, no task ran later than ", limit));
            w.mark();
            if (!linearizable(w))
                sim::fail("the results of start and stop fit no order of these calls");
        }
        // every future has its outcome
        for (auto e : w.entries)
        {
            if (!e->has_future)
                continue;
            if (!ready(*e))
                sim::fail(cat("the future of ", desc(*e), " is not ready after the scheduler is gone"));
            int got = 0;
            try
            {
                if (e->fv.valid())
                    e->fv.get();
                else if (int v = e->fi.get(); v != 1000 + e->no)
                    sim::fail(cat("the future of ", desc(*e), " delivers ", v));
                got = 1;
                if (e->throws)
                    sim::fail(cat("the future of ", desc(*e), " delivers a value, it threw"));
            }
            catch (int x)
            {
                if (!e->throws || x != 5000 + e->no)
                    sim::fail(cat("the future of ", desc(*e), " throws ", x));
                got = 1;
            }
            catch (const std::future_error& x)
            {
                if (x.code() != std::future_errc::broken_promise)
                    sim::fail(cat("the future of ", desc(*e), " throws ", x.what()));
            }
            if (got != (int)e->runs.size())
                sim::fail(cat(desc(*e), " was executed ", e->runs.size(), " times, its future ", got ? "has a value" : "is broken"));
        }
        sim::Quiet q;
        if (Live::count != 0)
            sim::fail(cat(Live::count, " arguments of tasks are still alive"));
        derive(w);
        judge_stops(w);
        for (auto e : w.entries)
            e->every ? judge_periodic(w, *e, false) : judge_oneshot(w, *e, false);
        // classification
        int once = 0, cancelled = 0, hits = 0;
        bool touched = false, long_run = false, met = false;
        for (auto e : w.entries)
        {
            if (!e->every)
            {
                once += !e->runs.empty();
                cancelled += e->accepted && e->runs.empty();
            }
            else if (e->runs.size() >= 3)
            {
                long_run = true;
                touched |= !e->enabled.empty() || !e->ivs.empty() || !w.jumps.empty() || w.entries.size() > 1;
            }
        }
        for (auto& c : w.calls)
        {
            if (c->k <= ENABLED && c->id >= 0 && c->k != ADD)
                for (auto e : w.entries)
                    if (e->id == c->id && possible(*e, c->call, c->ret))
                    {
                        ++hits;
                        break;
                    }
            if (c->k == STOP && c->res == 1)
                for (auto e : w.entries)
                    met |= e->accepted && e->ac < c->call && (e->runs.empty() || e->every || e->runs[0].e > c->call);
            if (c->k == START || c->k == STOP)
                for (auto& d : w.calls)
                    met |= c != d && c->call < d->ret && d->call < c->ret;
        }
        nontrivial = FOCUS == 8 ? once >= 2 || (once && cancelled) : FOCUS == 9 ? long_run && touched : FOCUS == 10 ? hits >= 3 : met;
    });
    ctx.label(exact ? "exact clock" : "noisy clock");
    ctx.label(nt ? "several threads" : "one thread");
    ctx.nontrivial(nontrivial);
}
}
