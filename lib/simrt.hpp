// Deterministic simulation runtime for real multi-threaded C++ code.
//
// The code under test is compiled with -fsanitize=thread and linked against this runtime instead of libtsan.
// Real OS threads run strictly one at a time; which one runs next, when time passes, and where a thread is
// preempted is decided by a seeded scheduler.  All pthread synchronisation, futexes, sleeps and clocks used by
// the program are simulated, so a schedule is a pure function of the case, deadlock and lost wakeups are
// decided exactly (nothing can run and no deadline is pending), and time is virtual.
// Every instrumented memory access feeds a vector-clock race detector and a use-after-free check.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace sim
{
struct Config
{
    uint64_t seed = 1;
    int strategy = 0;          // 0 random walk, 1 PCT, 2 run-until-block (switch only when blocked), 3 round robin-ish
    unsigned preempt_den = 4;  // random walk: switch with probability 1/preempt_den at a scheduling point
    unsigned access_den = 0;   // also preempt at plain memory accesses with probability 1/access_den (0 = never)
    int depth = 3;             // PCT change points
    unsigned est_steps = 400;  // PCT length estimate
    bool noisy_time = false;   // time also advances while threads run
    uint64_t noise_ns = 0;     // mean advance per scheduling point when noisy
    unsigned stall_den = 0;    // with probability 1/stall_den per scheduling point, time jumps to (or past) the next deadline
    unsigned spurious_den = 0; // spurious condition-variable wakeups with probability 1/spurious_den
    unsigned ncpu = 4;         // std::thread::hardware_concurrency()
    bool races = true;         // report data races
    uint64_t max_steps = 2000000;
    uint64_t poll_reads = 1024; // the clock moves a little after so many readings of one thread
    uint64_t arena_mb = 128;
};

// Run body as thread 0 of a fresh simulated world; returns when body has returned and every thread has ended.
// Deadlock, livelock, data races, use-after-free abort the case via fail_now().
void run(const Config& cfg, const std::function<void()>& body);

// All of these are invisible to the scheduler and the race detector.
uint64_t now();                       // virtual nanoseconds
uint64_t step();                      // scheduling points passed so far (a total order of what happened)
int self();                           // simulated thread id
void event(const char* what, int64_t a = 0, int64_t b = 0, int64_t c = 0);
struct Event
{
    uint64_t step, t;
    int thread;
    const char* what;
    int64_t a, b, c;
};
const std::vector<Event>& events();
std::string dump_events(size_t max = 200);
int live_threads();                   // threads created and not finished
int blocked_threads();                // of those, blocked without a deadline
bool joined_or_done(int id);
uint64_t switches();
uint64_t context_kinds();
uint64_t allocated_bytes();
int deny_thread(int nth);              // the nth thread creation from now fails with EAGAIN (0: none); returns what was left
void wall_jump(int64_t ns);            // CLOCK_REALTIME is set forwards or backwards
// f runs in thread `id` between two of its steps, as a signal handler would (while it is blocked, too); false if it has ended or one is pending
bool interrupt(int id, std::function<void()> f);
void yield();                         // explicit scheduling point
void sleep_ns(uint64_t ns);           // virtual sleep
void advance(uint64_t ns);            // the clock jumps although threads could run (a suspended machine)
// Wait until nothing but the caller can run without the clock moving (all others blocked or waiting for a time).
void quiesce();
// Latch-like flag usable between simulated threads without introducing happens-before edges into the detector.
struct Quiet
{
    Quiet();
    ~Quiet();
};                                    // scope: instrumented accesses are neither checked nor recorded, no preemption
// failure from any thread, with the event history appended
[[noreturn]] void fail(const std::string& msg);
// label the harness wants shown on deadlock
void set_context(const std::string& s);
// called on deadlock before failing; may return false to treat the deadlock as the normal end of the case
// (the process then exits the case through `done`), used for programs whose model says "blocks forever"
void on_deadlock(std::function<void()> f);
}
