// See simrt.hpp.  Compiled WITHOUT thread instrumentation.
#include "simrt.hpp"

#include <algorithm>
#include <array>
#include <atomic>
#include <cerrno>
#include <climits>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <cxxabi.h>
#include <dlfcn.h>
#include <linux/futex.h>
#include <map>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>
#include <unordered_map>
#include <vector>

namespace pbt
{
[[noreturn]] void fail_now(const std::string& msg);
}

extern "C" {
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
}

namespace
{
inline long raw6(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0)
{
    long r;
    register long r10 asm("r10") = d;
    register long r8 asm("r8") = e;
    register long r9 asm("r9") = f;
    asm volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return r;
}

constexpr int MAXT = 64;
using VC = std::array<uint32_t, MAXT>;
inline void vjoin(VC& a, const VC& b)
{
    for (int i = 0; i < MAXT; ++i)
        if (b[i] > a[i])
            a[i] = b[i];
}

enum St
{
    RUN,
    B_MUTEX,
    B_COND,
    B_FUTEX,
    B_JOIN,
    B_SLEEP,
    B_QUIESCE,
    B_RW,
    B_GUARD,
    B_SEM,
    DONE
};
const char* st_name(St s)
{
    static const char* n[] = {"runnable", "mutex", "condition variable", "futex/atomic wait", "join", "sleep", "quiesce", "rwlock", "one-time init", "semaphore", "done"};
    return n[s];
}

struct Th
{
    int id = 0;
    St st = RUN;
    const void* obj = nullptr;
    uint32_t bitset = ~0u;
    bool has_deadline = false;
    uint64_t deadline = 0;
    bool deadline_rt = false, next_rt = false; // the deadline is one of the wall clock
    bool timed_out = false;
    VC irq_vc{};
    std::function<void()> irq; // runs in this thread at its next step, as a signal handler would
    bool interrupted = false, in_irq = false;
    std::atomic<int> go{0};
    VC vc{};
    int prio = 0;
    int quiet = 0;
    bool detached = false, real_joined = false;
    pthread_t real{};
    void* (*fn)(void*) = nullptr;
    void* arg = nullptr;
    void* ret = nullptr;
    void* stack = nullptr;
    uint64_t run_len = 0;
    uint64_t clock_reads = 0;
    uint64_t yields = 0;
};

struct Mu
{
    Th* owner = nullptr;
    int depth = 0;
    VC vc{};
};
struct Rw
{
    Th* writer = nullptr;
    int readers = 0;
    VC vc{};
};

constexpr size_t STACK = 512 * 1024;
uintptr_t const ARENA = 0x200000000000ull;

struct World
{
    sim::Config cfg;
    uint64_t rng = 0;
    std::vector<Th*> th;
    Th* cur = nullptr;
    uint64_t vnow = 0, steps = 0, switches = 0;
    uint64_t rt_off = 1700000000ull * 1000000000ull; // the wall clock is ahead of the monotonic one by
    std::unordered_map<const void*, Mu> mu;
    std::unordered_map<const void*, Rw> rw;
    std::unordered_map<const void*, VC> at;
    std::unordered_map<const void*, Th*> guard;
    VC fence{};
    std::vector<sim::Event> ev;
    std::vector<uint64_t> change; // PCT change points
    int low_prio = 0;
    std::string context;
    std::function<void()> on_deadlock;
    uint64_t access_countdown = UINT64_MAX;
    int deny = 0; // this many-th thread creation from now fails
};
World* W = nullptr;
bool g_on = false;
unsigned g_ncpu = 4;
__thread Th* self = nullptr;
__thread int in_rt = 0;
struct RT
{
    RT() { ++in_rt; }
    ~RT() { --in_rt; }
};

inline uint64_t rnd()
{
    uint64_t z = (W->rng += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
inline uint64_t rnd(uint64_t n)
{
    return n <= 1 ? 0 : (uint64_t)(((unsigned __int128)rnd() * n) >> 64);
}

// ------------------------------------------------------------------------------------------------ arena
struct Arena
{
    uint8_t* st = nullptr; // per 8 bytes: 0 none, 1 live, 2 freed
    size_t size = 0, top = 0;
    uint64_t total = 0;
    bool ready = false;
} A;

void arena_init(size_t mb)
{
    size_t sz = mb << 20;
    if (!A.ready)
    {
        void* p = mmap((void*)ARENA, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        if (p != (void*)ARENA)
        {
            fprintf(stderr, "simrt: cannot map arena\n");
            _exit(99);
        }
        A.st = (uint8_t*)mmap(nullptr, sz / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        A.size = sz;
        A.ready = true;
    }
    else if (A.top)
    {
        memset(A.st, 0, (A.top + 7) / 8);
        memset((void*)ARENA, 0xA5, A.top);
    }
    A.top = 0;
    A.total = 0;
}
inline bool in_arena(const void* p)
{
    return (uintptr_t)p - ARENA < A.size && A.ready;
}
void* arena_alloc(size_t n, size_t align)
{
    if (align < 16)
        align = 16;
    size_t at = (A.top + 16 + align - 1) / align * align;
    size_t nn = (n + 7) & ~size_t{7};
    if (nn == 0)
        nn = 8;
    if (at + nn + 32 > A.size)
    {
        // Memory from elsewhere is reused while its access history is kept: no more race detection here.
        if (W)
            W->cfg.races = false;
        return nullptr;
    }
    uint8_t* p = (uint8_t*)ARENA + at;
    ((size_t*)p)[-1] = n;
    memset(A.st + at / 8, 1, nn / 8);
    A.top = at + nn + 16;
    A.total += n;
    return p;
}
}

namespace
{
std::string whence(const void* pc)
{
    Dl_info i;
    char b[64];
    snprintf(b, sizeof b, "%p", pc);
    if (dladdr(pc, &i) && i.dli_sname)
    {
        int stt = 0;
        char* d = abi::__cxa_demangle(i.dli_sname, nullptr, nullptr, &stt);
        std::string s = d ? d : i.dli_sname;
        free(d);
        if (s.size() > 160)
            s = s.substr(0, 160) + "...";
        return s + " [" + b + "]";
    }
    return b;
}
std::string describe_threads()
{
    std::string s;
    char b[256];
    for (auto t : W->th)
    {
        if (t->st == DONE)
            continue;
        snprintf(b, sizeof b, "  T%d: %s", t->id, t->st == RUN ? "runnable" : "blocked on ");
        s += b;
        if (t->st != RUN)
        {
            s += st_name(t->st);
            if (t->has_deadline)
            {
                snprintf(b, sizeof b, " until +%lld ns", (long long)(t->deadline - W->vnow));
                s += b;
            }
        }
        s += "\n";
    }
    return s;
}
}

namespace sim
{
std::string dump_events(size_t max)
{
    RT rt;
    std::string s;
    char b[256];
    size_t n = W->ev.size(), from = n > max ? n - max : 0;
    for (size_t i = from; i < n; ++i)
    {
        auto& e = W->ev[i];
        snprintf(b, sizeof b, "  [%5llu t=%10lld ns T%d] %s %lld %lld %lld\n", (unsigned long long)e.step, (long long)e.t, e.thread, e.what,
                 (long long)e.a, (long long)e.b, (long long)e.c);
        s += b;
    }
    return s;
}
void fail(const std::string& msg)
{
    ++in_rt;
    std::string m = msg + "\n";
    if (!W->context.empty())
        m += "context: " + W->context + "\n";
    m += "threads:\n" + describe_threads() + "history (step, virtual time, thread):\n" + dump_events(120);
    pbt::fail_now(m);
}
}

namespace
{
// -------------------------------------------------------------------------------------------- scheduler
void to_thread(Th* n)
{
    Th* me = self;
    W->cur = n;
    ++W->switches;
    n->run_len = 0;
    n->go.store(1, std::memory_order_release);
    raw6(SYS_futex, (long)&n->go, FUTEX_WAKE_PRIVATE, 1);
    if (me && me->st != DONE)
    {
        while (me->go.load(std::memory_order_acquire) == 0)
            raw6(SYS_futex, (long)&me->go, FUTEX_WAIT_PRIVATE, 0, 0);
        me->go.store(0, std::memory_order_relaxed);
    }
}

void expire()
{
    for (auto t : W->th)
        if (t->st != RUN && t->st != DONE && t->has_deadline && t->deadline <= W->vnow)
        {
            t->timed_out = true;
            t->st = RUN;
        }
}
bool next_deadline(uint64_t& d)
{
    bool any = false;
    for (auto t : W->th)
        if (t->st != RUN && t->st != DONE && t->has_deadline && (!any || t->deadline < d))
        {
            d = t->deadline;
            any = true;
        }
    return any;
}

// Select who runs next.  `can_stay`: the current thread is runnable.  `want_other`: prefer another (sched_yield).
void reschedule(bool can_stay, bool want_other)
{
    World& w = *W;
    Th* me = self;
    int rounds = 0;
    for (;;)
    {
        expire();
        Th* run[256];
        int n = 0;
        for (auto t : w.th)
            if (t->st == RUN && n < 256)
                run[n++] = t;
        if (n == 0)
        {
            Th* qs = nullptr;
            for (auto t : w.th)
                if (t->st == B_QUIESCE)
                    qs = t;
            if (qs)
            {
                qs->st = RUN;
                continue;
            }
            uint64_t d;
            if (next_deadline(d))
            {
                if (d > w.vnow)
                    w.vnow = d;
                if (w.cfg.noisy_time && w.cfg.noise_ns)
                    w.vnow += rnd(w.cfg.noise_ns + 1);
                if (++rounds > 1000000)
                    sim::fail("simrt: no progress");
                continue;
            }
            bool all_done = true;
            for (auto t : w.th)
                if (t->st != DONE)
                    all_done = false;
            if (all_done)
                return;
            if (w.on_deadlock)
            {
                auto f = w.on_deadlock;
                w.on_deadlock = nullptr;
                ++in_rt;
                f();
                --in_rt;
            }
            sim::fail("DEADLOCK: no thread can run and no deadline is pending (lost wakeup or circular wait)");
        }
        Th* pick = nullptr;
        if (want_other && n > 1 && me)
        {
            int k = 0;
            for (int i = 0; i < n; ++i)
                if (run[i] != me)
                    run[k++] = run[i];
            n = k;
            can_stay = false;
        }
        switch (w.cfg.strategy)
        {
        case 1: { // PCT
            for (int i = 0; i < n; ++i)
                if (!pick || run[i]->prio > pick->prio)
                    pick = run[i];
            break;
        }
        case 2: // run until blocked
            pick = can_stay ? me : run[rnd(n)];
            break;
        case 3: // eager switching: newest-first or oldest-first by the parity of the seed
            pick = (w.cfg.seed & 1) ? run[n - 1] : run[0];
            if (rnd(8) == 0)
                pick = run[rnd(n)];
            break;
        default:
            if (can_stay && rnd(w.cfg.preempt_den) != 0)
                pick = me;
            else
                pick = run[rnd(n)];
        }
        if (pick == me)
            return;
        to_thread(pick);
        return;
    }
}

void hb_acquire(VC& v);
void deliver()
{
    Th* me = self;
    if (!me->irq || me->quiet || me->in_irq)
        return;
    auto f = std::move(me->irq);
    hb_acquire(me->irq_vc);
    me->irq = nullptr;
    me->in_irq = true;
    const int saved_rt = in_rt, saved_errno = errno;
    const bool saved_next = me->next_rt;
    in_rt = 0;
    f();
    in_rt = saved_rt;
    errno = saved_errno;
    me->next_rt = saved_next;
    me->in_irq = false;
    me->timed_out = false;
}
bool interruptible(St st) { return st == B_FUTEX || st == B_COND || st == B_MUTEX || st == B_SEM; }

void block(St st, const void* obj, bool has_dl, uint64_t dl)
{
    Th* me = self;
    if (me->irq && interruptible(st))
    {
        me->timed_out = false;
        deliver();
        if (!me->irq)
            return; // a spurious wakeup
    }
    me->st = st;
    me->obj = obj;
    me->has_deadline = has_dl;
    me->deadline = dl;
    me->deadline_rt = has_dl && me->next_rt;
    me->next_rt = false;
    me->timed_out = false;
    reschedule(false, false);
    me->has_deadline = false;
    me->obj = nullptr;
    if (me->interrupted)
    {
        me->interrupted = false;
        deliver();
    }
}

void point(bool want_other = false)
{
    World& w = *W;
    Th* me = self;
    if (me->quiet && !want_other)
        return;
    if (++w.steps > w.cfg.max_steps)
        sim::fail("LIVELOCK: the program did not finish within the step limit of " + std::to_string(w.cfg.max_steps) + " scheduling points");
    if (w.cfg.noisy_time)
    {
        if (w.cfg.noise_ns)
            w.vnow += rnd(2 * w.cfg.noise_ns + 1);
        uint64_t d;
        if (w.cfg.stall_den && rnd(w.cfg.stall_den) == 0 && next_deadline(d))
        {
            if (d > w.vnow)
                w.vnow = d;
            if (rnd(2))
                w.vnow += rnd(1 + (1ull << rnd(24)));
        }
    }
    if (w.cfg.strategy == 1)
    {
        for (auto c : w.change)
            if (c == w.steps)
                me->prio = --w.low_prio;
        if (want_other || ++me->run_len > 3000)
        {
            me->prio = --w.low_prio;
            me->run_len = 0;
        }
    }
    else if (++me->run_len > 3000)
    {
        me->run_len = 0;
        want_other = true;
    }
    reschedule(true, want_other);
    if (me->irq)
        deliver();
}

inline bool simd()
{
    return g_on && self && in_rt == 0;
}

void wake_all(St st, const void* obj)
{
    for (auto t : W->th)
        if (t->st == st && t->obj == obj)
            t->st = RUN;
}

// --------------------------------------------------------------------------------------- happens-before
void hb_acquire(VC& v)
{
    vjoin(self->vc, v);
}
void hb_release(VC& v)
{
    vjoin(v, self->vc);
    if (self->id < MAXT)
        self->vc[self->id]++;
}
void hb_release_store(VC& v)
{
    v = self->vc;
    if (self->id < MAXT)
        self->vc[self->id]++;
}

struct Cell
{
    uint32_t clk;
    uint8_t tid, mask, write, atomic;
    const void* pc;
    uint32_t step;
};
struct Shadow
{
    uintptr_t key;
    uint32_t gen;
    uint8_t rr;
    Cell c[4];
};
constexpr size_t SHN = 1 << 16;
Shadow* SH = nullptr;
uint32_t g_gen = 0;

Shadow* shadow(uintptr_t k)
{
    size_t h = (size_t)((k * 0x9e3779b97f4a7c15ull) >> 48) & (SHN - 1);
    for (int i = 0; i < 8; ++i)
    {
        Shadow& s = SH[(h + (size_t)i) & (SHN - 1)];
        if (s.gen == g_gen && s.key == k)
            return &s;
        if (s.gen != g_gen)
        {
            memset(&s, 0, sizeof s);
            s.gen = g_gen;
            s.key = k;
            return &s;
        }
    }
    Shadow& s = SH[h];
    memset(&s, 0, sizeof s);
    s.gen = g_gen;
    s.key = k;
    return &s;
}

void race(uintptr_t a, const Cell& o, bool w, bool at, const void* pc)
{
    RT rt;
    char b[160];
    snprintf(b, sizeof b, "DATA RACE on %p: T%d %s%s at ", (void*)a, self->id, at ? "atomic " : "", w ? "write" : "read");
    std::string m = b + whence(pc);
    snprintf(b, sizeof b, "; not ordered with T%d's %s%s (step %u) at ", o.tid, o.atomic ? "atomic " : "", o.write ? "write" : "read", o.step);
    m += b + whence(o.pc);
    sim::fail(m);
}

void one(uintptr_t a, unsigned off, unsigned n, bool w, bool at, const void* pc)
{
    Th* me = self;
    Shadow* s = shadow(a >> 3);
    uint8_t mask = (uint8_t)(((1u << n) - 1) << off);
    int slot = -1;
    for (int i = 0; i < 4; ++i)
    {
        Cell& c = s->c[i];
        if (!c.mask)
        {
            if (slot < 0)
                slot = i;
            continue;
        }
        if (c.tid == me->id)
        {
            if (c.mask == mask && c.write == w && c.atomic == at)
                slot = i;
            else if ((c.mask & ~mask) == 0 && (w || !c.write) && !at)
                slot = i;
            continue;
        }
        if ((c.mask & mask) && (c.write || w) && !(c.atomic && at) && me->vc[c.tid] < c.clk)
            race(a, c, w, at, pc);
        if (me->vc[c.tid] >= c.clk && (c.mask & ~mask) == 0 && w && slot < 0)
            slot = i;
    }
    if (slot < 0)
        slot = s->rr++ & 3;
    Cell& c = s->c[slot];
    c.clk = me->vc[me->id];
    c.tid = (uint8_t)me->id;
    c.mask = mask;
    c.write = w;
    c.atomic = at;
    c.pc = pc;
    c.step = (uint32_t)W->steps;
}

inline void mem(const void* p, size_t n, bool w, bool at, const void* pc)
{
    if (!g_on || !self || in_rt)
        return;
    Th* me = self;
    if (in_arena(p))
    {
        size_t o = ((uintptr_t)p - ARENA) / 8, e = ((uintptr_t)p + (n ? n - 1 : 0) - ARENA) / 8;
        for (size_t i = o; i <= e && i < A.size / 8; ++i)
            if (A.st[i] != 1)
            {
                RT rt;
                sim::fail(std::string(A.st[i] == 2 ? "USE AFTER FREE: " : "OUT OF BOUNDS heap access: ") + (w ? "write" : "read") + " at " + whence(pc));
            }
    }
    if (me->quiet)
        return;
    if (W->cfg.races && me->id < MAXT)
    {
        uintptr_t a = (uintptr_t)p;
        size_t left = n;
        while (left)
        {
            unsigned off = (unsigned)(a & 7);
            unsigned k = (unsigned)std::min<size_t>(left, 8 - off);
            one(a - off, off, k, w, at, pc);
            a += k;
            left -= k;
        }
    }
    if (!at && W->cfg.access_den && --W->access_countdown == 0)
    {
        RT rt;
        W->access_countdown = 1 + rnd(2 * W->cfg.access_den);
        point();
    }
}

template <typename F>
F real(const char* n, const char* ver = nullptr)
{
    void* p = ver ? dlvsym(RTLD_NEXT, n, ver) : nullptr;
    if (!p)
        p = dlsym(RTLD_NEXT, n);
    return (F)p;
}
#define REAL(name, ver) static auto r = real<decltype(&name)>(#name, ver)

uint64_t ns_of(const timespec* ts)
{
    if (ts->tv_sec < 0)
        return 0;
    if ((uint64_t)ts->tv_sec > 9000000000ull)
        return 9000000000ull * 1000000000ull;
    return (uint64_t)ts->tv_sec * 1000000000ull + (uint64_t)ts->tv_nsec;
}
uint64_t to_mono(clockid_t c, uint64_t t) // of a deadline the caller is about to wait for
{
    self->next_rt = c == CLOCK_REALTIME;
    return c == CLOCK_REALTIME ? (t > W->rt_off ? t - W->rt_off : 0) : t;
}

// ------------------------------------------------------------------------------------------- primitives
bool mutex_try(const void* m, bool recursive)
{
    Mu& x = W->mu[m];
    if (x.owner == nullptr)
    {
        x.owner = self;
        x.depth = 1;
        hb_acquire(x.vc);
        return true;
    }
    if (x.owner == self && recursive)
    {
        ++x.depth;
        return true;
    }
    return false;
}
int mutex_lock(pthread_mutex_t* m, bool has_dl, uint64_t dl)
{
    bool rec = (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP;
    while (!mutex_try(m, rec))
    {
        block(B_MUTEX, m, has_dl, dl);
        if (has_dl && self->timed_out && !mutex_try(m, rec))
            return ETIMEDOUT;
        else if (has_dl && self->timed_out)
            return 0;
    }
    return 0;
}
void mutex_unlock(const void* m)
{
    Mu& x = W->mu[m];
    if (x.owner != self)
    {
        if (x.owner == nullptr)
            sim::fail("unlock of a mutex that is not locked");
        sim::fail("unlock of a mutex owned by another thread");
    }
    if (--x.depth)
        return;
    hb_release(x.vc);
    x.owner = nullptr;
    wake_all(B_MUTEX, m);
}
int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, bool has_dl, uint64_t dl)
{
    point();
    if (W->cfg.spurious_den && rnd(W->cfg.spurious_den) == 0)
    {
        mutex_unlock(m);
        point(true);
        mutex_lock(m, false, 0);
        return 0;
    }
    mutex_unlock(m);
    block(B_COND, c, has_dl, dl);
    bool to = self->timed_out;
    mutex_lock(m, false, 0);
    return to ? ETIMEDOUT : 0;
}

void* trampoline(void* p)
{
    Th* t = (Th*)p;
    while (t->go.load(std::memory_order_acquire) == 0)
        raw6(SYS_futex, (long)&t->go, FUTEX_WAIT_PRIVATE, 0, 0);
    t->go.store(0, std::memory_order_relaxed);
    self = t;
    in_rt = 0;
    t->ret = t->fn(t->arg);
    ++in_rt;
    t->st = DONE;
    for (auto x : W->th)
        if (x->st == B_JOIN && x->obj == t)
            x->st = RUN;
    reschedule(false, false);
    self = nullptr;
    return t->ret;
}
}

namespace sim
{
uint64_t now()
{
    return W->vnow;
}
uint64_t step()
{
    return W->steps;
}
int self()
{
    return ::self ? ::self->id : -1;
}
void event(const char* what, int64_t a, int64_t b, int64_t c)
{
    RT rt;
    W->ev.push_back({W->steps, W->vnow, self(), what, a, b, c});
    if (W->ev.size() > 2000000)
        fail("too many events");
}
const std::vector<Event>& events()
{
    return W->ev;
}
int live_threads()
{
    int n = 0;
    for (auto t : W->th)
        n += t->st != DONE;
    return n;
}
int blocked_threads()
{
    int n = 0;
    for (auto t : W->th)
        n += t->st != DONE && t->st != RUN && !t->has_deadline;
    return n;
}
uint64_t switches()
{
    return W->switches;
}
uint64_t allocated_bytes()
{
    return A.total;
}
void yield()
{
    if (!simd())
        return;
    RT rt;
    point();
}
void sleep_ns(uint64_t ns)
{
    RT rt;
    point();
    ::self->next_rt = false;
    block(B_SLEEP, nullptr, true, W->vnow + ns);
}
// the machine sleeps: the clock has moved before any thread runs again
void advance(uint64_t ns)
{
    RT rt;
    W->vnow += ns;
}
int deny_thread(int nth)
{
    const int before = W->deny;
    W->deny = nth;
    return before;
}
void wall_jump(int64_t ns)
{
    RT rt;
    W->rt_off += (uint64_t)ns;
    for (auto t : W->th)
        if (t->st != RUN && t->st != DONE && t->has_deadline && t->deadline_rt)
            t->deadline = ns > 0 ? (t->deadline > (uint64_t)ns ? t->deadline - (uint64_t)ns : 0) : t->deadline + (uint64_t)-ns;
}
bool interrupt(int id, std::function<void()> f)
{
    RT rt;
    for (auto t : W->th)
        if (t->id == id && t->st != DONE && !t->irq && !t->in_irq)
        {
            t->irq = std::move(f);
            hb_release(t->irq_vc); // sending the signal happens before its handler
            if (interruptible(t->st))
            {
                t->st = RUN;
                t->interrupted = true;
            }
            return true;
        }
    return false;
}
void quiesce()
{
    RT rt;
    point();
    block(B_QUIESCE, nullptr, false, 0);
}
Quiet::Quiet()
{
    if (::self)
        ::self->quiet++;
}
Quiet::~Quiet()
{
    if (::self)
        ::self->quiet--;
}
void set_context(const std::string& s)
{
    RT rt;
    W->context = s;
}
void on_deadlock(std::function<void()> f)
{
    RT rt;
    W->on_deadlock = std::move(f);
}

void run(const Config& cfg, const std::function<void()>& body)
{
    ++in_rt;
    if (W)
        delete W;
    W = new World;
    W->cfg = cfg;
    W->rng = cfg.seed * 0x2545F4914F6CDD1Dull + 12345;
    W->vnow = 1000ull * 1000000000ull;
    g_ncpu = cfg.ncpu;
    if (!SH)
        SH = (Shadow*)mmap(nullptr, SHN * sizeof(Shadow), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    ++g_gen;
    arena_init(cfg.arena_mb);
    W->access_countdown = cfg.access_den ? 1 + rnd(2 * cfg.access_den) : UINT64_MAX;
    for (int i = 0; i < cfg.depth; ++i)
        W->change.push_back(1 + rnd(cfg.est_steps));
    W->low_prio = 0;
    Th* t0 = new Th;
    t0->id = 0;
    t0->vc[0] = 1;
    t0->prio = 1 + (int)rnd(1000);
    W->th.push_back(t0);
    W->cur = t0;
    ::self = t0;
    g_on = true;
    --in_rt;
    body();
    ++in_rt;
    // every other thread must end
    for (;;)
    {
        bool all = true;
        Th* other = nullptr;
        for (auto t : W->th)
            if (t != t0 && t->st != DONE)
            {
                all = false;
                other = t;
            }
        if (all)
            break;
        block(B_JOIN, other, false, 0);
    }
    g_on = false;
    for (auto t : W->th)
        if (t != t0 && !t->real_joined)
        {
            REAL(pthread_join, "GLIBC_2.34");
            r(t->real, nullptr);
        }
    for (auto t : W->th)
        if (t != t0)
            munmap(t->stack, STACK);
    ::self = nullptr;
    for (auto t : W->th)
        delete t;
    W->th.clear();
    --in_rt;
}
}

// =============================================================================================== interposed
extern "C" {
// ---- memory
void* malloc(size_t n)
{
    if (simd())
        if (void* p = arena_alloc(n, 16))
            return p;
    return __libc_malloc(n);
}
void free(void* p)
{
    if (in_arena(p))
    {
        size_t o = ((uintptr_t)p - ARENA) / 8;
        if (g_on && A.st[o] == 2)
        {
            ++in_rt;
            sim::fail("DOUBLE FREE");
        }
        if (g_on && A.st[o] != 1)
        {
            ++in_rt;
            sim::fail("INVALID FREE");
        }
        size_t n = ((size_t*)p)[-1];
        size_t nn = n ? (n + 7) / 8 : 1;
        memset(A.st + o, 2, nn);
        return;
    }
    __libc_free(p);
}
void* calloc(size_t a, size_t b)
{
    if (simd() && (b == 0 || a < (size_t)-1 / b))
        if (void* p = arena_alloc(a * b, 16))
        {
            memset(p, 0, a * b);
            return p;
        }
    return __libc_calloc(a, b);
}
void* realloc(void* p, size_t n)
{
    if (in_arena(p))
    {
        size_t o = ((size_t*)p)[-1];
        void* q = malloc(n);
        if (q)
        {
            memcpy(q, p, o < n ? o : n);
            free(p);
        }
        return q;
    }
    return __libc_realloc(p, n);
}
void* memalign(size_t al, size_t n)
{
    if (simd())
        if (void* p = arena_alloc(n, al))
            return p;
    return __libc_memalign(al, n);
}
void* aligned_alloc(size_t al, size_t n)
{
    return memalign(al, n);
}
int posix_memalign(void** out, size_t al, size_t n)
{
    *out = memalign(al, n);
    return *out ? 0 : ENOMEM;
}

}
// Deallocation counts as a write: a racing reader of freed memory is reported even when it ran first.
static void del(void* p, const void* pc)
{
    if (simd() && in_arena(p) && A.st[((uintptr_t)p - ARENA) / 8] == 1)
    {
        size_t n = ((size_t*)p)[-1];
        mem(p, n < 256 ? n : 256, true, false, pc);
    }
    free(p);
}
void operator delete(void* p) noexcept { del(p, __builtin_return_address(0)); }
void operator delete(void* p, size_t) noexcept { del(p, __builtin_return_address(0)); }
void operator delete[](void* p) noexcept { del(p, __builtin_return_address(0)); }
void operator delete[](void* p, size_t) noexcept { del(p, __builtin_return_address(0)); }
extern "C" {
// ---- threads
int pthread_create(pthread_t* out, const pthread_attr_t* attr, void* (*fn)(void*), void* arg)
{
    REAL(pthread_create, "GLIBC_2.34");
    if (!simd())
        return r(out, attr, fn, arg);
    RT rt;
    point();
    if (W->deny > 0 && --W->deny == 0)
        return EAGAIN;
    if (W->th.size() >= 200)
        return EAGAIN;
    Th* t = new Th;
    t->id = (int)W->th.size();
    t->fn = fn;
    t->arg = arg;
    t->vc = self->vc;
    if (t->id < MAXT)
        t->vc[t->id] = 1;
    if (self->id < MAXT)
        self->vc[self->id]++;
    t->prio = 1 + (int)rnd(1000);
    t->stack = mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_STACK, -1, 0);
    pthread_attr_t a;
    pthread_attr_init(&a);
    pthread_attr_setstack(&a, t->stack, STACK);
    int rc = r(&t->real, &a, trampoline, t);
    pthread_attr_destroy(&a);
    if (rc)
    {
        fprintf(stderr, "simrt: pthread_create failed %d\n", rc);
        _exit(98);
    }
    *out = t->real;
    W->th.push_back(t);
    point();
    return 0;
}
static Th* by_real(pthread_t p)
{
    for (auto it = W->th.rbegin(); it != W->th.rend(); ++it)
        if (!(*it)->real_joined && (*it)->id && pthread_equal((*it)->real, p))
            return *it;
    return nullptr;
}
int pthread_join(pthread_t p, void** ret)
{
    REAL(pthread_join, "GLIBC_2.34");
    if (!simd())
        return r(p, ret);
    RT rt;
    point();
    Th* t = by_real(p);
    if (!t)
        return ESRCH;
    if (t == self)
        return EDEADLK;
    while (t->st != DONE)
        block(B_JOIN, t, false, 0);
    vjoin(self->vc, t->vc);
    t->real_joined = true;
    r(t->real, nullptr);
    if (ret)
        *ret = t->ret;
    return 0;
}
int pthread_detach(pthread_t p)
{
    REAL(pthread_detach, "GLIBC_2.34");
    if (!simd())
        return r(p);
    if (Th* t = by_real(p))
        t->detached = true;
    return 0;
}
int get_nprocs()
{
    return (int)g_ncpu;
}
int get_nprocs_conf()
{
    return (int)g_ncpu;
}
int sched_yield()
{
    if (!simd())
        return (int)raw6(SYS_sched_yield);
    RT rt;
    if (++self->yields % 64 == 0)
        W->vnow += 1000;
    point(true);
    return 0;
}

// ---- mutex
int pthread_mutex_lock(pthread_mutex_t* m)
{
    REAL(pthread_mutex_lock, nullptr);
    if (!simd())
        return g_on && in_rt ? r(m) : r(m);
    RT rt;
    point();
    return mutex_lock(m, false, 0);
}
int pthread_mutex_trylock(pthread_mutex_t* m)
{
    REAL(pthread_mutex_trylock, nullptr);
    if (!simd())
        return r(m);
    RT rt;
    point();
    return mutex_try(m, (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP) ? 0 : EBUSY;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* ts)
{
    REAL(pthread_mutex_timedlock, nullptr);
    if (!simd())
        return r(m, ts);
    RT rt;
    point();
    return mutex_lock(m, true, to_mono(CLOCK_REALTIME, ns_of(ts)));
}
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const timespec* ts)
{
    REAL(pthread_mutex_clocklock, nullptr);
    if (!simd())
        return r(m, c, ts);
    RT rt;
    point();
    return mutex_lock(m, true, to_mono(c, ns_of(ts)));
}
int pthread_mutex_unlock(pthread_mutex_t* m)
{
    REAL(pthread_mutex_unlock, nullptr);
    if (!simd())
        return r(m);
    RT rt;
    mutex_unlock(m);
    point();
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m)
{
    REAL(pthread_mutex_destroy, nullptr);
    if (!simd())
        return r(m);
    RT rt;
    W->mu.erase(m);
    return 0;
}

// ---- condition variables
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    REAL(pthread_cond_wait, "GLIBC_2.3.2");
    if (!simd())
        return r(c, m);
    RT rt;
    return cond_wait(c, m, false, 0);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* ts)
{
    REAL(pthread_cond_timedwait, "GLIBC_2.3.2");
    if (!simd())
        return r(c, m, ts);
    RT rt;
    return cond_wait(c, m, true, to_mono(CLOCK_REALTIME, ns_of(ts)));
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* ts)
{
    REAL(pthread_cond_clockwait, nullptr);
    if (!simd())
        return r(c, m, k, ts);
    RT rt;
    return cond_wait(c, m, true, to_mono(k, ns_of(ts)));
}
int pthread_cond_signal(pthread_cond_t* c)
{
    REAL(pthread_cond_signal, "GLIBC_2.3.2");
    if (!simd())
        return r(c);
    RT rt;
    point();
    Th* w[256];
    int n = 0;
    for (auto t : W->th)
        if (t->st == B_COND && t->obj == c && n < 256)
            w[n++] = t;
    if (n)
        w[rnd((uint64_t)n)]->st = RUN;
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c)
{
    REAL(pthread_cond_broadcast, "GLIBC_2.3.2");
    if (!simd())
        return r(c);
    RT rt;
    point();
    wake_all(B_COND, c);
    return 0;
}
int pthread_cond_destroy(pthread_cond_t* c)
{
    REAL(pthread_cond_destroy, "GLIBC_2.3.2");
    if (!simd())
        return r(c);
    RT rt;
    for (auto t : W->th)
        if (t->st == B_COND && t->obj == c)
            sim::fail("condition variable destroyed while a thread waits on it");
    return 0;
}

// ---- rwlock
static int rd(pthread_rwlock_t* l, bool tr)
{
    RT rt;
    point();
    for (;;)
    {
        Rw& x = W->rw[l];
        if (!x.writer)
        {
            ++x.readers;
            hb_acquire(x.vc);
            return 0;
        }
        if (tr)
            return EBUSY;
        block(B_RW, l, false, 0);
    }
}
static int wr(pthread_rwlock_t* l, bool tr)
{
    RT rt;
    point();
    for (;;)
    {
        Rw& x = W->rw[l];
        if (!x.writer && !x.readers)
        {
            x.writer = self;
            hb_acquire(x.vc);
            return 0;
        }
        if (tr)
            return EBUSY;
        block(B_RW, l, false, 0);
    }
}
int pthread_rwlock_rdlock(pthread_rwlock_t* l)
{
    REAL(pthread_rwlock_rdlock, nullptr);
    return simd() ? rd(l, false) : r(l);
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l)
{
    REAL(pthread_rwlock_tryrdlock, nullptr);
    return simd() ? rd(l, true) : r(l);
}
int pthread_rwlock_wrlock(pthread_rwlock_t* l)
{
    REAL(pthread_rwlock_wrlock, nullptr);
    return simd() ? wr(l, false) : r(l);
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* l)
{
    REAL(pthread_rwlock_trywrlock, nullptr);
    return simd() ? wr(l, true) : r(l);
}
int pthread_rwlock_unlock(pthread_rwlock_t* l)
{
    REAL(pthread_rwlock_unlock, nullptr);
    if (!simd())
        return r(l);
    RT rt;
    Rw& x = W->rw[l];
    hb_release(x.vc);
    if (x.writer == self)
        x.writer = nullptr;
    else if (x.readers)
        --x.readers;
    else
        sim::fail("unlock of a rwlock that is not locked");
    wake_all(B_RW, l);
    point();
    return 0;
}

// ---- semaphores (the count lives in the object's first word, as an int)
static int sem_take(sem_t* s, bool tr, bool has_dl, uint64_t dl)
{
    RT rt;
    point();
    int* v = (int*)s;
    while (*v <= 0)
    {
        if (tr)
        {
            errno = EAGAIN;
            return -1;
        }
        block(B_SEM, s, has_dl, dl);
        if (has_dl && self->timed_out && *v <= 0)
        {
            errno = ETIMEDOUT;
            return -1;
        }
    }
    --*v;
    hb_acquire(W->at[s]);
    return 0;
}
int sem_wait(sem_t* s)
{
    REAL(sem_wait, nullptr);
    return simd() ? sem_take(s, false, false, 0) : r(s);
}
int sem_trywait(sem_t* s)
{
    REAL(sem_trywait, nullptr);
    return simd() ? sem_take(s, true, false, 0) : r(s);
}
int sem_timedwait(sem_t* s, const timespec* ts)
{
    REAL(sem_timedwait, nullptr);
    return simd() ? sem_take(s, false, true, to_mono(CLOCK_REALTIME, ns_of(ts))) : r(s, ts);
}
int sem_clockwait(sem_t* s, clockid_t c, const timespec* ts)
{
    REAL(sem_clockwait, nullptr);
    return simd() ? sem_take(s, false, true, to_mono(c, ns_of(ts))) : r(s, c, ts);
}
int sem_post(sem_t* s)
{
    REAL(sem_post, nullptr);
    if (!simd())
        return r(s);
    RT rt;
    point();
    ++*(int*)s;
    hb_release(W->at[s]);
    wake_all(B_SEM, s);
    return 0;
}

// ---- one-time initialisation
int pthread_once(pthread_once_t* o, void (*fn)(void))
{
    REAL(pthread_once, nullptr);
    if (!simd())
        return r(o, fn);
    ++in_rt;
    point();
    for (;;)
    {
        if (*o == 2)
        {
            hb_acquire(W->at[o]);
            --in_rt;
            return 0;
        }
        if (!W->guard.count(o))
            break;
        block(B_GUARD, o, false, 0);
    }
    W->guard[o] = self;
    --in_rt;
    try
    {
        fn();
    }
    catch (...)
    {
        ++in_rt;
        W->guard.erase(o);
        wake_all(B_GUARD, o);
        --in_rt;
        throw;
    }
    ++in_rt;
    *o = 2;
    W->guard.erase(o);
    hb_release(W->at[o]);
    wake_all(B_GUARD, o);
    --in_rt;
    return 0;
}
int __cxa_guard_acquire(long long int* g)
{
    uint8_t* b = (uint8_t*)g;
    if (!simd())
    {
        if (*b)
            return 0;
        return 1;
    }
    RT rt;
    point();
    for (;;)
    {
        if (*b)
        {
            hb_acquire(W->at[g]);
            return 0;
        }
        if (!W->guard.count(g))
            break;
        block(B_GUARD, g, false, 0);
    }
    hb_acquire(W->at[g]); // an attempt before may have failed
    W->guard[g] = self;
    return 1;
}
void __cxa_guard_release(long long int* g)
{
    *(uint8_t*)g = 1;
    if (!simd())
        return;
    RT rt;
    W->guard.erase(g);
    hb_release(W->at[g]);
    wake_all(B_GUARD, g);
}
void __cxa_guard_abort(long long int* g)
{
    if (!simd())
        return;
    RT rt;
    W->guard.erase(g);
    hb_release(W->at[g]);
    wake_all(B_GUARD, g);
}

// destructors of statics first used in a case: the process ends without running them, and glibc's list must not live in a case's arena
int __cxa_atexit(void (*f)(void*), void* p, void* d)
{
    if (simd())
        return 0;
    static auto r = (int (*)(void (*)(void*), void*, void*))dlsym(RTLD_NEXT, "__cxa_atexit");
    return r(f, p, d);
}

// ---- futex (atomic wait/notify, latch, semaphore, future)
long syscall(long n, ...)
{
    va_list ap;
    va_start(ap, n);
    long a[6];
    for (auto& x : a)
        x = va_arg(ap, long);
    va_end(ap);
    if (n == SYS_futex && simd())
    {
        RT rt;
        int op = (int)a[1], cmd = op & FUTEX_CMD_MASK;
        int* addr = (int*)a[0];
        if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET)
        {
            point();
            if (*(volatile int*)addr != (int)a[2])
            {
                errno = EAGAIN;
                return -1;
            }
            bool dl = a[3] != 0;
            uint64_t d = 0;
            if (dl)
            {
                d = ns_of((const timespec*)a[3]);
                if (cmd == FUTEX_WAIT)
                    d = to_mono(CLOCK_MONOTONIC, d + W->vnow);
                else
                    d = to_mono((op & FUTEX_CLOCK_REALTIME) ? CLOCK_REALTIME : CLOCK_MONOTONIC, d);
            }
            if (W->cfg.spurious_den && rnd(W->cfg.spurious_den) == 0)
            {
                errno = EINTR;
                return -1;
            }
            block(B_FUTEX, addr, dl, d);
            if (self->timed_out)
            {
                errno = ETIMEDOUT;
                return -1;
            }
            return 0;
        }
        if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET)
        {
            point();
            long cnt = a[2], k = 0;
            for (auto t : W->th)
                if (k < cnt && t->st == B_FUTEX && t->obj == addr)
                {
                    t->st = RUN;
                    ++k;
                }
            return k;
        }
    }
    long rc = raw6(n, a[0], a[1], a[2], a[3], a[4], a[5]);
    if (rc < 0 && rc > -4096)
    {
        errno = (int)-rc;
        return -1;
    }
    return rc;
}

// ---- time
static void vtime()
{
    if (!simd())
        return;
    RT rt;
    // code that polls the clock must see it move
    if (++self->clock_reads % W->cfg.poll_reads == 0)
        W->vnow += 1000;
    point();
}
int clock_gettime(clockid_t c, timespec* ts)
{
    if (!simd())
    {
        long rc = raw6(SYS_clock_gettime, c, (long)ts);
        if (rc < 0)
        {
            errno = (int)-rc;
            return -1;
        }
        return 0;
    }
    vtime();
    uint64_t t = W->vnow + (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? W->rt_off : 0);
    ts->tv_sec = (time_t)(t / 1000000000ull);
    ts->tv_nsec = (long)(t % 1000000000ull);
    return 0;
}
int gettimeofday(timeval* __restrict tv, void* __restrict)
{
    timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
time_t time(time_t* p)
{
    timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (p)
        *p = ts.tv_sec;
    return ts.tv_sec;
}
int nanosleep(const timespec* q, timespec*)
{
    if (!simd())
        return (int)raw6(SYS_nanosleep, (long)q, 0);
    sim::sleep_ns(ns_of(q));
    return 0;
}
int clock_nanosleep(clockid_t c, int flags, const timespec* q, timespec*)
{
    if (!simd())
        return (int)-raw6(SYS_clock_nanosleep, c, flags, (long)q, 0);
    RT rt;
    point();
    uint64_t d = ns_of(q);
    d = (flags & TIMER_ABSTIME) ? to_mono(c, d) : to_mono(CLOCK_MONOTONIC, W->vnow + d);
    block(B_SLEEP, nullptr, true, d);
    return 0;
}
int usleep(useconds_t us)
{
    timespec ts{(time_t)(us / 1000000), (long)(us % 1000000) * 1000};
    return nanosleep(&ts, nullptr);
}

// ---- instrumentation entry points
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define PC __builtin_return_address(0)
#define ACC(n)                                                              \
    void __tsan_read##n(void* p) { mem(p, n, false, false, PC); }           \
    void __tsan_write##n(void* p) { mem(p, n, true, false, PC); }           \
    void __tsan_unaligned_read##n(void* p) { mem(p, n, false, false, PC); } \
    void __tsan_unaligned_write##n(void* p) { mem(p, n, true, false, PC); } \
    void __tsan_volatile_read##n(void* p) { mem(p, n, false, false, PC); }  \
    void __tsan_volatile_write##n(void* p) { mem(p, n, true, false, PC); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void* p, size_t n) { mem(p, n, false, false, PC); }
void __tsan_write_range(void* p, size_t n) { mem(p, n, true, false, PC); }
void __tsan_vptr_update(void** p, void* v)
{
    // re-storing the same vptr (destructor prologue) is not a conflicting write
    if (*p != v)
        mem(p, 8, true, false, PC);
}
void __tsan_vptr_read(void** p) { mem(p, 8, false, false, PC); }

static inline bool acq(int mo) { return mo != __ATOMIC_RELAXED && mo != __ATOMIC_RELEASE; }
static inline bool rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static void at_pre()
{
    if (simd() && !self->quiet)
    {
        RT rt;
        point();
    }
}
static void at_load(const volatile void* p, int mo)
{
    if (!simd())
        return;
    RT rt;
    if (acq(mo))
        hb_acquire(W->at[(const void*)p]);
}
static void at_store(const volatile void* p, int mo)
{
    if (!simd())
        return;
    RT rt;
    VC& v = W->at[(const void*)p];
    if (rel(mo))
        hb_release_store(v);
    else
        v.fill(0);
}
static void at_rmw(const volatile void* p, int mo)
{
    if (!simd())
        return;
    RT rt;
    VC& v = W->at[(const void*)p];
    if (acq(mo))
        hb_acquire(v);
    if (rel(mo))
        hb_release(v);
}
#define ATOM(bits, T)                                                                                                  \
    T __tsan_atomic##bits##_load(const volatile T* a, int mo)                                                          \
    {                                                                                                                  \
        at_pre();                                                                                                      \
        mem((const void*)a, sizeof(T), false, true, PC);                                                               \
        T v = __atomic_load_n(a, __ATOMIC_SEQ_CST);                                                                    \
        at_load(a, mo);                                                                                                \
        return v;                                                                                                      \
    }                                                                                                                  \
    void __tsan_atomic##bits##_store(volatile T* a, T v, int mo)                                                       \
    {                                                                                                                  \
        at_pre();                                                                                                      \
        mem((void*)a, sizeof(T), true, true, PC);                                                                      \
        at_store(a, mo);                                                                                               \
        __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                                                      \
    }                                                                                                                  \
    T __tsan_atomic##bits##_exchange(volatile T* a, T v, int mo)                                                       \
    {                                                                                                                  \
        at_pre();                                                                                                      \
        mem((void*)a, sizeof(T), true, true, PC);                                                                      \
        at_rmw(a, mo);                                                                                                 \
        return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                                                            \
    }
#define RMW(bits, T, op)                                                                                               \
    T __tsan_atomic##bits##_fetch_##op(volatile T* a, T v, int mo)                                                     \
    {                                                                                                                  \
        at_pre();                                                                                                      \
        mem((void*)a, sizeof(T), true, true, PC);                                                                      \
        at_rmw(a, mo);                                                                                                 \
        return __atomic_fetch_##op(a, v, __ATOMIC_SEQ_CST);                                                            \
    }
#define CAS(bits, T)                                                                                                   \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo)                       \
    {                                                                                                                  \
        at_pre();                                                                                                      \
        mem((void*)a, sizeof(T), true, true, PC);                                                                      \
        T e = *c;                                                                                                      \
        bool ok = __atomic_compare_exchange_n(a, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                    \
        if (ok)                                                                                                        \
            at_rmw(a, mo);                                                                                             \
        else                                                                                                           \
        {                                                                                                              \
            *c = e;                                                                                                    \
            at_load(a, fmo);                                                                                           \
        }                                                                                                              \
        return ok;                                                                                                     \
    }                                                                                                                  \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo)                         \
    {                                                                                                                  \
        return __tsan_atomic##bits##_compare_exchange_strong(a, c, v, mo, fmo);                                        \
    }                                                                                                                  \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo)                             \
    {                                                                                                                  \
        __tsan_atomic##bits##_compare_exchange_strong(a, &c, v, mo, fmo);                                              \
        return c;                                                                                                      \
    }
#define ALL(bits, T) ATOM(bits, T) RMW(bits, T, add) RMW(bits, T, sub) RMW(bits, T, and) RMW(bits, T, or) RMW(bits, T, xor) RMW(bits, T, nand) CAS(bits, T)
ALL(8, uint8_t) ALL(16, uint16_t) ALL(32, uint32_t) ALL(64, uint64_t)
void __tsan_atomic_thread_fence(int mo)
{
    if (!simd())
        return;
    RT rt;
    point();
    if (acq(mo))
        hb_acquire(W->fence);
    if (rel(mo))
        hb_release(W->fence);
}
void __tsan_atomic_signal_fence(int) {}
}
