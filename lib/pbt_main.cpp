// Runner for pbt.hpp harnesses: generation, process isolation, crash/hang attribution, shrinking, replay.
#include "pbt.hpp"

#include <cerrno>
#include <csignal>
#include <ctime>
#include <fcntl.h>
#include <functional>
#include <sched.h>
#include <set>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

#ifndef PBT_BATCH
#define PBT_BATCH 256
#endif
#ifndef PBT_CASE_TIMEOUT
#define PBT_CASE_TIMEOUT 30
#endif

namespace pbt
{
static uint64_t splitmix(uint64_t& s)
{
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
uint64_t Src::next()
{
    return splitmix(_s);
}
uint64_t Src::record(uint64_t v)
{
    if (_rec->n < Record::MAX)
        _rec->v[_rec->n++] = v;
    else
        throw Discard{};
    return v;
}
uint64_t Src::below(uint64_t n)
{
    if (n == 0)
        n = 1;
    if (_random)
        return record((uint64_t)(((unsigned __int128)next() * n) >> 64));
    uint64_t v = _pos < _in.size() ? _in[_pos++] : 0;
    if (v >= n)
        v %= n;
    return record(v);
}
uint64_t Src::bits64()
{
    if (_random)
        return record(next());
    return record(_pos < _in.size() ? _in[_pos++] : 0);
}
int64_t Src::range(int64_t lo, int64_t hi)
{
    uint64_t span = (uint64_t)hi - (uint64_t)lo;
    uint64_t r = span == UINT64_MAX ? bits64() : below(span + 1);
    if (lo <= 0 && hi >= 0)
    {
        // 0, -1, 1, -2, 2 ... while both sides last, so that small choices are small magnitudes
        uint64_t neg = (uint64_t)0 - (uint64_t)lo, pos = (uint64_t)hi;
        uint64_t both = neg < pos ? neg : pos;
        if (r <= 2 * both)
            return (r & 1) ? -(int64_t)((r + 1) / 2) : (int64_t)(r / 2);
        uint64_t rest = r - 2 * both;
        return neg < pos ? (int64_t)(both + rest) : -(int64_t)(both + rest - 1) - 1;
    }
    if (lo > 0)
        return (int64_t)((uint64_t)lo + r);
    return (int64_t)((uint64_t)hi - r);
}
int64_t Src::spread(int64_t lo, int64_t hi)
{
    auto clampi = [&](int64_t x) { return x < lo ? lo : x > hi ? hi : x; };
    switch (weighted({4, 3, 2, 2, 1}))
    {
    case 0:
        return clampi(range(-8, 8));
    case 1:
        return clampi(range(-1000, 1000));
    case 2: {
        int e = (int)below(63);
        int64_t d = range(-2, 2);
        bool neg = coin();
        int64_t p = (int64_t)1 << e;
        __int128 x = (neg ? -(__int128)p : (__int128)p) + d;
        return x < lo ? lo : x > hi ? hi : (int64_t)x;
    }
    case 3:
        return range(lo, hi);
    default: {
        int64_t d = (int64_t)below(4);
        bool roomy = (uint64_t)hi - (uint64_t)lo >= 4;
        if (coin())
        {
            return roomy ? hi - d : hi;
        }
        return roomy ? lo + d : lo;
    }
    }
}

static Record* g_rec = nullptr;
static bool g_in_child = false;

void Ctx::note(const std::string& s)
{
    size_t room = sizeof(_rec->note) - 1 - _rec->note_len;
    size_t k = s.size() < room ? s.size() : room;
    memcpy(_rec->note + _rec->note_len, s.data(), k);
    _rec->note_len += k;
    _rec->note[_rec->note_len] = 0;
}
static void set_msg(const std::string& m)
{
    size_t k = m.size() < sizeof(g_rec->msg) - 1 ? m.size() : sizeof(g_rec->msg) - 1;
    memcpy(g_rec->msg, m.data(), k);
    g_rec->msg[k] = 0;
    g_rec->failed = 1;
}
void fail(const std::string& msg)
{
    throw Failure{msg};
}
// A failure observed where no exception can be thrown (another thread, a deadlock, a handler).
[[noreturn]] void fail_now(const std::string& msg)
{
    set_msg(msg);
#ifdef PBT_FUZZ
    abort();
#endif
    _exit(10);
}

static uint64_t fnv(const void* p, size_t n)
{
    uint64_t h = 1469598103934665603ull;
    auto* c = (const unsigned char*)p;
    for (size_t i = 0; i < n; ++i)
        h = (h ^ c[i]) * 1099511628211ull;
    return h;
}
static uint64_t case_hash(Record* r)
{
    return r->note_len ? fnv(r->note, r->note_len) : fnv(r->v, r->n * 8);
}

struct Stats
{
    uint64_t evals = 0, discards = 0;
    std::unordered_set<uint64_t> hashes;
    std::map<std::string, uint64_t> labels;
    std::vector<std::string> samples;
};

static void account(Stats& st, Ctx& ctx, Record* rec)
{
    st.evals++;
    for (auto l : ctx.labels)
        st.labels[l]++;
    if (ctx.is_nontrivial())
    {
        if (st.hashes.insert(case_hash(rec)).second && st.samples.size() < 3 && rec->note_len < 1500)
            st.samples.push_back(std::string(rec->note, rec->note_len));
    }
}

static std::string jstr(const std::string& s)
{
    std::string o = "\"";
    char b[8];
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\')
        {
            o += '\\';
            o += (char)c;
        }
        else if (c < 32 || c >= 127)
        {
            snprintf(b, sizeof b, "\\u%04x", c);
            o += b;
        }
        else
            o += (char)c;
    }
    return o + "\"";
}
}

using namespace pbt;

#ifdef PBT_FUZZ
// ---------------------------------------------------------------------------------------- libFuzzer entry
static Stats* g_fst;
static void fuzz_dump()
{
    const char* p = getenv("PBT_FUZZ_STATS");
    if (!p)
        return;
    FILE* f = fopen(p, "w");
    fprintf(f, "{\"evaluations\": %llu, \"distinct_nontrivial\": %llu}\n", (unsigned long long)g_fst->evals,
            (unsigned long long)g_fst->hashes.size());
    fclose(f);
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size)
{
    if (!g_rec)
    {
        const char* p = getenv("PBT_FUZZ_REC");
        int fd = p ? open(p, O_RDWR | O_CREAT | O_TRUNC, 0600) : -1;
        if (fd >= 0 && ftruncate(fd, sizeof(Record)) == 0)
            g_rec = (Record*)mmap(nullptr, sizeof(Record), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        else
            g_rec = (Record*)mmap(nullptr, sizeof(Record), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        g_fst = new Stats;
        atexit(fuzz_dump);
    }
    g_rec->failed = 0;
    // bytes -> choices: one length byte class per choice (1, 2, 4 or 8 bytes), low values stay cheap
    std::vector<uint64_t> ch;
    size_t i = 0;
    while (i < size)
    {
        uint8_t b = data[i++];
        unsigned w = b < 0xE0 ? 0 : b < 0xF0 ? 2 : b < 0xF8 ? 4 : 8;
        if (w == 0)
        {
            ch.push_back(b);
            continue;
        }
        uint64_t v = 0;
        for (unsigned k = 0; k < w && i < size; ++k)
            v = v << 8 | data[i++];
        ch.push_back(v);
    }
    Src src(ch, g_rec);
    Ctx ctx(g_rec);
    try
    {
        property_case(src, ctx);
        account(*g_fst, ctx, g_rec);
    }
    catch (const Discard&)
    {
    }
    catch (const Failure& f)
    {
        set_msg(f.msg);
        fuzz_dump();
        abort();
    }
    return 0;
}
#else
// ------------------------------------------------------------------------------------------- batch runner
static double now_s()
{
    timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}

struct Slot
{
    Record rec;
    volatile uint64_t cur;       // index of the case being run
    volatile uint64_t done;      // cases finished in this batch
    volatile double started;     // wall time the current case started
};

struct Out
{
    enum K
    {
        OK,
        FAIL,
        CRASH,
        HANG
    } k = OK;
    std::string msg;
    std::vector<uint64_t> choices;
    std::string note;
    static const char* name(K k)
    {
        static const char* n[] = {"ok", "check failed", "crash", "hang"};
        return n[k];
    }
};

static std::string g_tmp;
static std::string tail(const std::string& path, size_t n)
{
    FILE* f = fopen(path.c_str(), "r");
    if (!f)
        return "";
    std::string s;
    char b[4096];
    size_t k;
    while ((k = fread(b, 1, sizeof b, f)) > 0)
    {
        s.append(b, k);
        if (s.size() > 65536)
            s.erase(0, s.size() - 32768);
    }
    fclose(f);
    // sanitizer reports: keep the beginning (error line and the top of the stack)
    auto p = s.find("ERROR: AddressSanitizer");
    if (p == std::string::npos)
        p = s.find("runtime error:");
    if (p != std::string::npos)
    {
        auto b0 = s.rfind('\n', p);
        s = s.substr(b0 == std::string::npos ? 0 : b0 + 1);
        return s.substr(0, n);
    }
    return s.size() > n ? s.substr(s.size() - n) : s;
}

static void child_setup(const std::string& err)
{
    g_in_child = true;
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    int fd = open(err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (fd >= 0)
    {
        dup2(fd, 2);
        dup2(fd, 1);
        close(fd);
    }
    signal(SIGPIPE, SIG_IGN);
}

static uint64_t seed_of(uint64_t seed, uint64_t idx)
{
    uint64_t s = seed * 0xD1B54A32D192ED03ull + idx;
    splitmix(s);
    return splitmix(s);
}

// runs `body` on rec; throws nothing
static int guarded(Src& src, Record* rec, Stats* st)
{
    rec->failed = 0;
    rec->msg[0] = 0;
    Ctx ctx(rec);
    try
    {
        property_case(src, ctx);
        if (st)
            account(*st, ctx, rec);
    }
    catch (const Discard&)
    {
        if (st)
            st->discards++;
    }
    catch (const Failure& f)
    {
        set_msg(f.msg);
        return 10;
    }
    catch (const std::exception& e)
    {
        set_msg(std::string("unexpected exception escaped: ") + e.what());
        return 10;
    }
    catch (...)
    {
        set_msg("unexpected exception escaped (not a std::exception)");
        return 10;
    }
    return 0;
}

static void classify(Out& o, int status, bool killed, Record* rec, const std::string& err)
{
    o.choices.assign(rec->v, rec->v + rec->n);
    o.note.assign(rec->note, rec->note_len);
    if (killed)
    {
        o.k = Out::HANG;
        o.msg = "the case did not finish";
    }
    else if (WIFEXITED(status) && WEXITSTATUS(status) == 0)
        o.k = Out::OK;
    else if (WIFEXITED(status) && WEXITSTATUS(status) == 10)
    {
        o.k = Out::FAIL;
        o.msg = rec->msg;
    }
    else
    {
        o.k = Out::CRASH;
        o.msg = cat("process died: ", WIFSIGNALED(status) ? "signal " : "exit code ",
                    WIFSIGNALED(status) ? WTERMSIG(status) : WEXITSTATUS(status), "\n", rec->failed ? rec->msg : "",
                    tail(err, 3000));
    }
}

static Slot* g_single;
static Out run_child(const std::function<int(Record*)>& fn, double timeout)
{
    std::string err = g_tmp + "/single.err";
    g_rec = &g_single->rec;
    g_rec->n = 0;
    g_rec->failed = 0;
    g_rec->note_len = 0;
    g_rec->msg[0] = 0;
    pid_t pid = fork();
    if (pid == 0)
    {
        child_setup(err);
        int rc = fn(g_rec);
        _exit(rc);
    }
    double t0 = now_s();
    int status = 0;
    bool killed = false;
    for (unsigned spin = 0;; ++spin)
    {
        pid_t r = waitpid(pid, &status, WNOHANG);
        if (r == pid)
            break;
        if (now_s() - t0 > timeout)
        {
            kill(pid, SIGKILL);
            waitpid(pid, &status, 0);
            killed = true;
            break;
        }
        usleep(spin < 200 ? 100 : 1000);
    }
    Out o;
    classify(o, status, killed, &g_single->rec, err);
    return o;
}
static Out run_choices(const std::vector<uint64_t>& ch, double timeout = 2 * PBT_CASE_TIMEOUT)
{
    return run_child(
        [&](Record* r) {
            Src s(ch, r);
            return guarded(s, r, nullptr);
        },
        timeout);
}
static Out run_index(uint64_t seed, uint64_t idx)
{
    return run_child(
        [&](Record* r) {
            Src s(seed_of(seed, idx), r);
            return guarded(s, r, nullptr);
        },
        2 * PBT_CASE_TIMEOUT);
}
static Out run_batch_range(uint64_t seed, uint64_t a, uint64_t b)
{
    return run_child(
        [&](Record* r) {
            for (uint64_t i = a; i <= b; ++i)
            {
                Src s(seed_of(seed, i), r);
                if (int rc = guarded(s, r, nullptr))
                    return rc;
            }
            return 0;
        },
        4 * PBT_CASE_TIMEOUT);
}

static bool simpler(const std::vector<uint64_t>& a, const std::vector<uint64_t>& b)
{
    if (a.size() != b.size())
        return a.size() < b.size();
    return a < b;
}

static Out shrink(Out best, double budget)
{
    double t0 = now_s();
    int tries = 0;
    auto attempt = [&](std::vector<uint64_t> ch) {
        if (now_s() - t0 > budget || ++tries > 3000)
            return false;
        Out o = run_choices(ch, 10);
        if (o.k == best.k && simpler(o.choices, best.choices))
        {
            best = o;
            return true;
        }
        return false;
    };
    bool progress = true;
    while (progress && now_s() - t0 < budget)
    {
        progress = false;
        for (size_t len : {64, 32, 16, 8, 4, 3, 2, 1})
        {
            for (size_t i = 0; i + len <= best.choices.size();)
            {
                auto c = best.choices;
                c.erase(c.begin() + (long)i, c.begin() + (long)(i + len));
                if (attempt(c))
                    progress = true;
                else
                    i += len > 4 ? len / 2 : 1;
                if (now_s() - t0 > budget)
                    return best;
            }
        }
        for (size_t i = 0; i < best.choices.size(); ++i)
        {
            if (best.choices[i] == 0)
                continue;
            auto c = best.choices;
            c[i] = 0;
            if (attempt(c))
            {
                progress = true;
                continue;
            }
            uint64_t lo = 0, hi = best.choices[i];
            while (hi - lo > 1 && now_s() - t0 < budget)
            {
                uint64_t mid = lo + (hi - lo) / 2;
                c = best.choices;
                if (i >= c.size())
                    break;
                c[i] = mid;
                if (attempt(c))
                {
                    progress = true;
                    if (i >= best.choices.size())
                        break;
                    hi = best.choices[i];
                }
                else
                    lo = mid;
            }
        }
    }
    return best;
}

static std::string comment(const std::string& s)
{
    std::string o = "# ";
    for (char c : s)
    {
        o += c;
        if (c == '\n')
            o += "# ";
    }
    return o + "\n";
}
static void write_replay(const std::string& path, const Out& o, const char* extra)
{
    FILE* f = fopen(path.c_str(), "w");
    if (!f)
        return;
    fprintf(f, "%s\n", extra);
    if (!*extra || extra[0] == '#')
    {
        fprintf(f, "choices");
        for (auto v : o.choices)
            fprintf(f, " %llu", (unsigned long long)v);
        fprintf(f, "\n");
    }
    fprintf(f, "# outcome: %s\n%s# --- case ---\n%s", Out::name(o.k), comment(o.msg).c_str(), comment(o.note).c_str());
    fclose(f);
}

static int cmd_replay(const char* path)
{
    FILE* f = fopen(path, "r");
    if (!f)
    {
        fprintf(stderr, "cannot open %s\n", path);
        return 2;
    }
    std::string s;
    char b[65536];
    size_t k;
    while ((k = fread(b, 1, sizeof b, f)) > 0)
        s.append(b, k);
    fclose(f);
    std::istringstream is(s);
    std::string line;
    Out o;
    bool ran = false;
    while (std::getline(is, line))
    {
        if (line.rfind("choices", 0) == 0)
        {
            std::istringstream ls(line.substr(7));
            std::vector<uint64_t> ch;
            uint64_t v;
            while (ls >> v)
                ch.push_back(v);
            o = run_choices(ch);
            ran = true;
            break;
        }
        if (line.rfind("batch", 0) == 0)
        {
            std::istringstream ls(line.substr(5));
            uint64_t seed, a, e;
            ls >> seed >> a >> e;
            o = run_batch_range(seed, a, e);
            ran = true;
            break;
        }
    }
    if (!ran)
    {
        fprintf(stderr, "no choices in %s\n", path);
        return 2;
    }
    printf("case:\n%s\n", o.note.c_str());
    printf("outcome: %s\n%s\n", Out::name(o.k), o.msg.c_str());
    return o.k == Out::OK ? 0 : 1;
}

int main(int argc, char** argv)
{
    uint64_t seed = 1, cases = 1000, jobs = 8;
    double budget = 600, shrink_budget = 40;
    std::string out = "/dev/null", replay_out = "/dev/null";
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        auto val = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--seed")
            seed = strtoull(val().c_str(), 0, 10);
        else if (a == "--cases")
            cases = strtoull(val().c_str(), 0, 10);
        else if (a == "--jobs")
            jobs = strtoull(val().c_str(), 0, 10);
        else if (a == "--budget")
            budget = atof(val().c_str());
        else if (a == "--shrink-budget")
            shrink_budget = atof(val().c_str());
        else if (a == "--out")
            out = val();
        else if (a == "--replay-out")
            replay_out = val();
    }
    char tmpl[] = "/tmp/pbt.XXXXXX";
    if (!mkdtemp(tmpl))
        return 2;
    g_tmp = tmpl;
    auto cleanup = [&] {
        std::string c = "rm -rf " + g_tmp;
        if (system(c.c_str()))
        {
        }
    };
    size_t bytes = sizeof(Slot) * (jobs + 1);
    Slot* slots = (Slot*)mmap(nullptr, bytes, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    g_single = &slots[jobs];

    if (argc >= 3 && std::string(argv[1]) == "replay")
    {
        int rc = cmd_replay(argv[2]);
        cleanup();
        return rc;
    }

    double t0 = now_s();
    uint64_t nb = (cases + PBT_BATCH - 1) / PBT_BATCH, next_b = 0;
    std::vector<pid_t> pid(jobs, 0);
    std::vector<uint64_t> batch(jobs, 0);
    bool stop = false, failed = false, inconclusive = false, timed_out = false;
    Out fo;
    uint64_t fidx = 0, fstart = 0;
    std::string fmsg;

    auto merge = [&](Stats& tot, const std::string& p) {
        FILE* f = fopen(p.c_str(), "r");
        if (!f)
            return;
        uint64_t h[4];
        if (fread(h, 8, 4, f) == 4)
        {
            tot.evals += h[0];
            tot.discards += h[1];
            for (uint64_t i = 0; i < h[2]; ++i)
            {
                uint64_t x;
                if (fread(&x, 8, 1, f) != 1)
                    break;
                tot.hashes.insert(x);
            }
            auto rdstr = [&](std::string& s) {
                uint32_t n;
                if (fread(&n, 4, 1, f) != 1)
                    return false;
                s.resize(n);
                return n == 0 || fread(s.data(), 1, n, f) == n;
            };
            for (uint64_t i = 0; i < h[3]; ++i)
            {
                std::string s;
                uint64_t c;
                if (!rdstr(s) || fread(&c, 8, 1, f) != 1)
                    break;
                tot.labels[s] += c;
            }
            std::string s;
            while (rdstr(s))
                if (tot.samples.size() < 6)
                    tot.samples.push_back(s);
        }
        fclose(f);
        unlink(p.c_str());
    };
    Stats tot;
    auto spawn = [&](size_t w) {
        batch[w] = next_b++;
        Slot& s = slots[w];
        s.done = 0;
        s.cur = batch[w] * PBT_BATCH;
        s.started = now_s();
        pid_t p = fork();
        if (p == 0)
        {
            child_setup(g_tmp + "/err." + std::to_string(w));
            cpu_set_t cs;
            CPU_ZERO(&cs);
            // keep one worker's threads on one core: hand-offs between serialised threads stay cheap
            long nc = sysconf(_SC_NPROCESSORS_ONLN);
            CPU_SET((int)(w % (size_t)(nc > 0 ? nc : 1)), &cs);
#ifdef PBT_PIN
            sched_setaffinity(0, sizeof cs, &cs);
#endif
            g_rec = &s.rec;
            Stats st;
            int rc = 0;
            uint64_t a = batch[w] * PBT_BATCH, b = std::min<uint64_t>(cases, a + PBT_BATCH);
            for (uint64_t i = a; i < b && !rc; ++i)
            {
                s.cur = i;
                s.started = now_s();
                Src src(seed_of(seed, i), &s.rec);
                rc = guarded(src, &s.rec, &st);
                s.done = s.done + 1;
            }
            FILE* f = fopen((g_tmp + "/st." + std::to_string(w)).c_str(), "w");
            if (f)
            {
                uint64_t h[4] = {st.evals, st.discards, st.hashes.size(), st.labels.size()};
                fwrite(h, 8, 4, f);
                for (auto x : st.hashes)
                    fwrite(&x, 8, 1, f);
                auto wr = [&](const std::string& t) {
                    uint32_t n = (uint32_t)t.size();
                    fwrite(&n, 4, 1, f);
                    fwrite(t.data(), 1, n, f);
                };
                for (auto& [l, c] : st.labels)
                {
                    wr(l);
                    fwrite(&c, 8, 1, f);
                }
                for (auto& t : st.samples)
                    wr(t);
                fclose(f);
            }
            _exit(rc);
        }
        pid[w] = p;
    };
    size_t live = 0;
    for (size_t w = 0; w < jobs && next_b < nb; ++w)
    {
        spawn(w);
        ++live;
    }
    std::vector<double> seen_start(jobs, -1), cpu_start(jobs, 0);
    auto cpu_of = [](pid_t p) {
        clockid_t id;
        timespec ts{};
        if (clock_getcpuclockid(p, &id) != 0 || clock_gettime(id, &ts) != 0)
            return 0.0;
        return (double)ts.tv_sec + 1e-9 * (double)ts.tv_nsec;
    };
    while (live)
    {
        bool any = false;
        for (size_t w = 0; w < jobs; ++w)
        {
            if (!pid[w])
                continue;
            int status = 0;
            bool killed = false;
            pid_t r = waitpid(pid[w], &status, WNOHANG);
            if (r != pid[w])
            {
                // A hang spends the time itself or waits for ever: a loaded machine is no hang.
                if (seen_start[w] != slots[w].started)
                {
                    seen_start[w] = slots[w].started;
                    cpu_start[w] = cpu_of(pid[w]);
                }
                const double wall = now_s() - slots[w].started;
                if (wall > 5 * PBT_CASE_TIMEOUT || (wall > PBT_CASE_TIMEOUT && cpu_of(pid[w]) - cpu_start[w] > PBT_CASE_TIMEOUT))
                {
                    kill(pid[w], SIGKILL);
                    waitpid(pid[w], &status, 0);
                    killed = true;
                }
                else
                    continue;
            }
            any = true;
            pid[w] = 0;
            --live;
            const uint64_t before = tot.evals;
            merge(tot, g_tmp + "/st." + std::to_string(w));
            if (tot.evals == before)
                tot.evals += slots[w].done;
            if (!killed && WIFEXITED(status) && WEXITSTATUS(status) == 0)
            {
                if (!stop && next_b < nb)
                {
                    if (now_s() - t0 > budget)
                    {
                        timed_out = true;
                        stop = true;
                    }
                    else
                    {
                        spawn(w);
                        ++live;
                    }
                }
                continue;
            }
            if (!failed)
            {
                failed = true;
                stop = true;
                fidx = slots[w].cur;
                fstart = batch[w] * PBT_BATCH;
                classify(fo, status, killed, &slots[w].rec, g_tmp + "/err." + std::to_string(w));
                for (size_t k = 0; k < jobs; ++k)
                    if (pid[k])
                    {
                        kill(pid[k], SIGKILL);
                        int stt;
                        waitpid(pid[k], &stt, 0);
                        pid[k] = 0;
                        --live;
                        tot.evals += slots[k].done;
                    }
            }
        }
        if (!any)
            usleep(500);
    }
    double gen_wall = now_s() - t0;
    if (failed)
    {
        // replay: alone 3x; else the batch prefix 3x; else many times
        int rep = 0;
        Out last;
        for (int i = 0; i < 3; ++i)
        {
            Out o = run_index(seed, fidx);
            if (o.k != Out::OK)
            {
                ++rep;
                last = o;
            }
        }
        if (rep == 3)
        {
            fo = last.k == Out::HANG ? last : shrink(last, shrink_budget);
            write_replay(replay_out, fo, cat("# seed ", seed, " index ", fidx, " (shrunk)").c_str());
        }
        else
        {
            int brep = 0;
            Out bl;
            for (int i = 0; i < 3; ++i)
            {
                Out o = run_batch_range(seed, fstart, fidx);
                if (o.k != Out::OK)
                {
                    ++brep;
                    bl = o;
                }
            }
            if (brep == 3)
            {
                fo = bl;
                write_replay(replay_out, fo, cat("batch ", seed, " ", fstart, " ", fidx).c_str());
            }
            else if (rep + brep > 0)
            {
                // not every replay fails, but the failure was seen again: still a witnessed violation
                fo = rep ? last : bl;
                write_replay(replay_out, fo,
                             rep ? cat("# seed ", seed, " index ", fidx, " (fails ", rep, " of 3 replays)").c_str()
                                 : cat("batch ", seed, " ", fstart, " ", fidx).c_str());
            }
            else
            {
                inconclusive = true;
                failed = false;
                fmsg = cat(Out::name(fo.k), ": ", fo.msg);
            }
        }
    }
    FILE* f = fopen(out.c_str(), "w");
    if (!f)
        return 2;
    fprintf(f, "{\"evaluations\": %llu, \"discarded\": %llu, \"distinct_nontrivial\": %llu, \"rule\": %s,\n",
            (unsigned long long)tot.evals, (unsigned long long)tot.discards, (unsigned long long)tot.hashes.size(),
            jstr(rule).c_str());
    fprintf(f, " \"timed_out\": %s, \"failed\": %s, \"inconclusive\": %s, \"message\": %s, \"outcome\": %s, \"gen_wall\": %.2f,\n",
            timed_out ? "true" : "false", failed ? "true" : "false", inconclusive ? "true" : "false",
            jstr(failed ? fo.msg : fmsg).c_str(), jstr(Out::name(fo.k)).c_str(), gen_wall);
    fprintf(f, " \"labels\": {");
    bool first = true;
    for (auto& [l, c] : tot.labels)
    {
        fprintf(f, "%s%s: %llu", first ? "" : ", ", jstr(l).c_str(), (unsigned long long)c);
        first = false;
    }
    fprintf(f, "},\n \"samples\": [");
    first = true;
    for (auto& s : tot.samples)
    {
        fprintf(f, "%s%s", first ? "" : ", ", jstr(s).c_str());
        first = false;
    }
    fprintf(f, "]}\n");
    fclose(f);
    cleanup();
    return failed ? 1 : inconclusive ? 3 : 0;
}
#endif
