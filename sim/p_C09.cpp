// C09: tasks on separate values, or on values they only read, do not interfere.
#include "job.hpp"

const char* const sim::property = "C09";

using namespace real;

void sim::run()
{
    using configor::json;
    using configor::wjson;
    model::Gen g;
    g.budget = 14;
    MV sm = model::gen_container(g);
    json::value sn;
    wjson::value sw;
    {
        LibScope l;
        sn = val<json::value>::build(sm);
        sw = val<wjson::value>::build(sm);
    }
    const uint32_t tasks = 2 + draw(sim::thorough() ? 4 : 3), per = 1 + draw(3);
    const uint32_t weight = draw(3) * 3;
    // tasks may all be busy with the same kind of operation
    const Focus focus = Focus::gen();
    std::vector<std::vector<std::unique_ptr<Job>>> jobs(tasks);
    for (uint32_t t = 0; t < tasks; ++t)
        for (uint32_t k = 0; k < per; ++k) jobs[t].emplace_back(gen_job(&sn, &sw, weight, focus));
    std::vector<std::vector<std::string>> alone(tasks), got(tasks);
    // sometimes the first use of everything happens concurrently
    const bool late = draw(2) != 0;
    auto solo = [&] {
        for (uint32_t t = 0; t < tasks; ++t)
            for (auto& j : jobs[t]) alone[t].push_back(j->run());
    };
    if (!late) solo();
    std::vector<std::function<void()>> fns;
    // an allocation that fails somewhere disturbs at most the operation it hits
    const bool arm = chance(1, 4);
    if (arm) sim::alloc_arm(draw(1u << (2 + draw(9))), 1);
    for (uint32_t t = 0; t < tasks; ++t)
        fns.push_back([&, t] {
            for (auto& j : jobs[t])
            {
                std::string r = run_job(*j);
                UserScope u;
                got[t].push_back(r);
            }
        });
    const uint64_t before = sim::switches();
    sim::run_tasks(fns, sim::thorough() ? 4000 : 600);
    const uint64_t sw_count = sim::switches() - before;
    bool fired = false;
    if (arm) { fired = sim::alloc_fired() > 0; sim::alloc_disarm(); }
    if (late) solo();
    if (sw_count >= tasks) sim::nontrivial();
    int hit = 0;
    for (uint32_t t = 0; t < tasks; ++t)
        for (uint32_t k = 0; k < per; ++k)
        {
            ev("task %u job %u %s => %s", t, k, jobs[t][k]->title().c_str(), got[t][k].c_str());
            if (got[t][k] == alone[t][k]) continue;
            if (fired && hit++ == 0) { sim::probe("operation-hit-by-allocation-failure"); continue; }
            sim::violate("interference", "task %u, %s: alone \"%s\", beside %u other tasks \"%s\"", t, jobs[t][k]->title().c_str(), alone[t][k].c_str(), tasks - 1, got[t][k].c_str());
        }
    if (!model::same(sm, val<json::value>::lift(sn), 0) || !model::same(sm, val<wjson::value>::lift(sw), 0))
        sim::violate("shared-value-modified", "a value that was only read is now %s, was %s", model::show(val<json::value>::lift(sn)).c_str(), model::show(sm).c_str());
    jobs.clear();
    LibScope l;
    sn = nullptr;
    sw = nullptr;
}
