// C18: created uuids are version 4 / RFC variant, every free bit is random, and no two are equal -- in one sequence,
// through copies of the generator, and across processes that start at the same time.
#include "pbt.hpp"

#include <bitset>
#include <fcntl.h>
#include <set>
#include <spawn.h>
#include <string>
#include <sys/wait.h>
#include <teiacare/sdk/uuid.hpp>
#include <teiacare/sdk/uuid_generator.hpp>
#include <unistd.h>
#include <vector>

extern char** environ;
namespace
{
// a freshly started process that creates uuids and prints them
struct Fresh
{
    Fresh()
    {
        const char* n = getenv("PBT_UUID_CHILD");
        if (!n)
            return;
        std::string out;
        for (int i = atoi(n); i > 0; --i)
            out += tc::sdk::uuid_generator::instance().create().to_string() + "\n";
        (void)!write(1, out.data(), out.size());
        _exit(0);
    }
} fresh;
}

namespace pbt
{
const char* const rule = "2-400 uuids created in a generated mix of instance() and copies of the generator, or by 2-6 processes started together; "
                         "non-trivial = at least 64 uuids, or more than one generator or process involved";

static void well_formed(const std::string& t)
{
    CHECK(t.size() == 36 && t[8] == '-' && t[13] == '-' && t[18] == '-' && t[23] == '-', "created uuid has the text ", q(t));
    CHECK(t[14] == '4', "version nibble of ", t);
    CHECK(t[19] == '8' || t[19] == '9' || t[19] == 'a' || t[19] == 'b', "variant bits of ", t);
}
static std::set<std::string>& all_of_process()
{
    static std::set<std::string> s;
    return s;
}

void property_case(Src& src, Ctx& ctx)
{
    if (src.chance(1, 150))
    {
        const int np = 2 + (int)src.below(5), n = 1 + (int)src.below(20);
        ctx.notef("%d processes create %d uuids each", np, n);
        std::vector<std::string> env;
        for (char** e = environ; *e; ++e)
            if (strncmp(*e, "PBT_UUID_CHILD=", 15))
                env.push_back(*e);
        env.push_back("PBT_UUID_CHILD=" + std::to_string(n));
        std::vector<char*> envp;
        for (auto& e : env)
            envp.push_back(e.data());
        envp.push_back(nullptr);
        char self[] = "uuid-child";
        char* argv[] = {self, nullptr};
        std::vector<std::pair<pid_t, int>> ps;
        for (int i = 0; i < np; ++i)
        {
            int fd[2];
            if (pipe2(fd, O_CLOEXEC))
                throw Discard{};
            posix_spawn_file_actions_t fa;
            posix_spawn_file_actions_init(&fa);
            posix_spawn_file_actions_adddup2(&fa, fd[1], 1);
            pid_t pid;
            const int rc = posix_spawn(&pid, "/proc/self/exe", &fa, nullptr, argv, envp.data());
            posix_spawn_file_actions_destroy(&fa);
            close(fd[1]);
            if (rc)
                throw Discard{};
            ps.emplace_back(pid, fd[0]);
        }
        std::vector<std::string> outs;
        for (auto& [pid, fd] : ps)
        {
            std::string o;
            char b[4096];
            for (ssize_t k; (k = read(fd, b, sizeof b)) > 0;)
                o.append(b, (size_t)k);
            close(fd);
            int st = 0;
            waitpid(pid, &st, 0);
            CHECK(st == 0 && o.size() == (size_t)n * 37, "a process that creates ", n, " uuids ended with status ", st, " and the output ", q(o));
            outs.push_back(o);
        }
        std::set<std::string> seen;
        for (auto& o : outs)
            for (int i = 0; i < n; ++i)
            {
                const std::string t = o.substr((size_t)i * 37, 36);
                well_formed(t);
                CHECK(seen.insert(t).second, "two processes created the same uuid ", t);
            }
        ctx.label("processes");
        ctx.nontrivial();
        return;
    }
    auto& g = tc::sdk::uuid_generator::instance();
    const bool stat = src.chance(1, 4);
    const int n = stat ? 300 : 2 + (int)src.below(src.coin() ? 40 : 400);
    const int copies = (int)src.below(4);
    std::vector<tc::sdk::uuid_generator> gs;
    std::vector<std::string> made;
    const uint64_t mix = src.below(1000);
    const bool batch_copies = src.coin();
    ctx.notef("%d uuids, %d copies of the generator, mix %llu, %s", n, copies, (unsigned long long)mix, batch_copies ? "copied up front" : "copied as it goes");
    for (int i = 0; i < copies && batch_copies; ++i)
        gs.push_back(g);
    uint64_t r = mix * 2654435761u + 1;
    std::set<std::string> seen;
    std::vector<std::string> bytes;
    for (int i = 0; i < n; ++i)
    {
        r = r * 6364136223846793005ull + 1442695040888963407ull;
        if (!batch_copies && (int)gs.size() < copies && (r >> 40) % 8 == 0)
        {
            tc::sdk::uuid_generator c(i % 2 && !gs.empty() ? gs.back() : g);
            gs.push_back(c);
        }
        const size_t who = (r >> 33) % (gs.size() + 1);
        tc::sdk::uuid u = who ? gs[who - 1].create() : tc::sdk::uuid_generator::instance().create();
        const std::string t = u.to_string();
        well_formed(t);
        CHECK(seen.insert(t).second, "uuid ", t, " was created twice");
        if (all_of_process().size() < 200000)
            CHECK(all_of_process().insert(t).second, "uuid ", t, " was created twice in this process");
        CHECK(g.is_valid(t) && g.from_string(t) == u, "created uuid ", t, " does not read back");
        if (stat)
        {
            std::string hex;
            for (char c : t)
                if (c != '-')
                    hex += c;
            bytes.push_back(hex);
        }
    }
    if (stat)
    {
        // 122 free bits: every one takes both values, no two are always equal or always opposite
        std::vector<std::bitset<300>> col;
        for (int b = 0; b < 128; ++b)
        {
            if ((b >= 48 && b < 52) || (b >= 64 && b < 66))
                continue;
            std::bitset<300> v;
            size_t at = 0;
            for (auto& hex : bytes)
            {
                const int nib = hex[(size_t)b / 4] <= '9' ? hex[(size_t)b / 4] - '0' : hex[(size_t)b / 4] - 'a' + 10;
                v[at++] = nib >> (3 - b % 4) & 1;
            }
            const size_t ones = v.count();
            CHECK(ones > 75 && ones < 225, "bit ", b, " is one in ", ones, " of 300 created uuids");
            col.push_back(v);
        }
        for (size_t i = 0; i < col.size(); ++i)
            for (size_t j = 0; j < i; ++j)
            {
                const size_t eq = (~(col[i] ^ col[j])).count();
                CHECK(eq > 70 && eq < 230, "two free bits of created uuids agree in ", eq, " of 300");
            }
        // consecutive uuids are unrelated too
        ctx.label("bit statistics");
    }
    else
        ctx.label(copies ? "with copies" : "one generator");
    ctx.nontrivial(n >= 64 || copies);
}
}
