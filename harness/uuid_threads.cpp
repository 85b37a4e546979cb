// C18 (concurrent): threads creating uuids at the same time, through the instance and through copies, under generated schedules.
#include "simcase.hpp"

#include <set>
#include <teiacare/sdk/uuid.hpp>
#include <teiacare/sdk/uuid_generator.hpp>
#include <thread>
#include <vector>

namespace pbt
{
const char* const rule = "2-5 threads creating 1-12 uuids each under a generated schedule; non-trivial = the threads were interleaved";

void property_case(Src& src, Ctx& ctx)
{
    const int nt = 2 + (int)src.below(4);
    std::vector<int> n, mode;
    for (int i = 0; i < nt; ++i)
    {
        n.push_back(1 + (int)src.below(12));
        mode.push_back((int)src.below(3));
    }
    sim::Config cfg = draw_schedule(src, ctx, true);
    if (!cfg.access_den && src.coin())
        cfg.access_den = 20;
    for (int i = 0; i < nt; ++i)
        ctx.notef(" T%d: %d uuids via %s\n", i + 1, n[(size_t)i], mode[(size_t)i] == 0 ? "instance()" : mode[(size_t)i] == 1 ? "own copy" : "shared copy");
    std::vector<std::vector<tc::sdk::uuid>> got((size_t)nt);
    for (int i = 0; i < nt; ++i)
        got[(size_t)i].reserve(16);
    uint64_t sw = 0;
    sim::run(cfg, [&] {
        tc::sdk::uuid_generator shared = tc::sdk::uuid_generator::instance();
        std::vector<std::thread> ts;
        for (int i = 0; i < nt; ++i)
            ts.emplace_back([&, i] {
                tc::sdk::uuid_generator own = tc::sdk::uuid_generator::instance();
                for (int k = 0; k < n[(size_t)i]; ++k)
                {
                    tc::sdk::uuid u = mode[(size_t)i] == 0 ? tc::sdk::uuid_generator::instance().create() : mode[(size_t)i] == 1 ? own.create() : shared.create();
                    got[(size_t)i].push_back(u);
                }
            });
        for (auto& t : ts)
            t.join();
        sw = sim::switches();
    });
    std::set<std::string> seen;
    for (auto& v : got)
        for (auto& u : v)
        {
            const std::string t = u.to_string();
            CHECK(t[14] == '4' && (t[19] == '8' || t[19] == '9' || t[19] == 'a' || t[19] == 'b'), "uuid created concurrently is not version 4: ", t);
            CHECK(seen.insert(t).second, "uuid ", t, " was created twice");
        }
    ctx.nontrivial(sw > (uint64_t)nt * 2);
}
}
