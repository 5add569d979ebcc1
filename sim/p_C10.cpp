// C10: callbacks re-enter the library without disturbing the outer operation.
#include "job.hpp"

const char* const sim::property = "C10";

using namespace real;

namespace
{
struct Counter : Hook
{
    uint64_t n;
    std::vector<std::pair<std::string, std::vector<uint64_t>>> kinds;  // where the callbacks were
    Counter() : n(0) {}
    void at(const char* w) override
    {
        UserScope u;
        size_t i = 0;
        while (i < kinds.size() && kinds[i].first != w) ++i;
        if (i == kinds.size()) kinds.emplace_back(w, std::vector<uint64_t>());
        if (kinds[i].second.size() < 64) kinds[i].second.push_back(n);
        ++n;
    }
};

bool armed;  // an operation further out may be hit by an allocation failure

struct Inner { std::unique_ptr<Job> job; std::string alone; };

// runs other operations at chosen callbacks, and again inside those
struct Nest : Hook
{
    std::vector<Inner>*   inner;
    std::vector<uint64_t> when;   // sorted
    uint64_t every;               // or at every n-th
    uint64_t n, done, limit;
    uint32_t next;
    uint32_t storm;               // a nested operation is repeated so many times
    bool     alloc;               // the nested operation may hit an allocation failure
    Nest*    deeper;
    const char* where;
    Nest() : inner(nullptr), every(0), n(0), done(0), limit(0), next(0), storm(0), alloc(false), deeper(nullptr), where("") {}

    void at(const char* w) override
    {
        UserScope u;
        const uint64_t i = n++;
        bool now = every && i % every == 0;
        for (uint64_t k : when) now = now || k == i;
        if (!now || done >= limit) return;
        ++done;
        Inner& x = (*inner)[next++ % inner->size()];
        bool fired = false;
        const bool arm = alloc && !armed && draw(2);
        std::string r;
        {
            HookScope h(deeper);
            if (arm) sim::alloc_arm(draw(1u << draw(6)), draw(3) ? 1 : 1000000);
            if (arm) armed = true;
            r = run_job(*x.job);
            if (armed) fired = sim::alloc_fired() > 0;
            if (arm) { sim::alloc_disarm(); armed = false; }
        }
        ev("at callback %llu (%s): %s => %s%s", (unsigned long long)i, w, x.job->title().c_str(), r.c_str(), fired ? " (allocation failed)" : "");
        sim::nontrivial();
        sim::probe("nested-operation");
        if (std::string(w) == "error_handler") sim::probe("nested-in-error-handler");
        if (std::string(w).compare(0, 8, "to_value") == 0 || std::string(w).compare(0, 10, "from_value") == 0) sim::probe("nested-in-conversion-hook");
        if (fired) { sim::probe("nested-operation-with-allocation-failure"); return; }
        for (uint32_t k = 0; k < storm && r == x.alone; ++k)
        {
            HookScope h(nullptr);
            r = run_job(*x.job);
        }
        if (storm) sim::probe("nested-operation-many-times");
        if (r != x.alone) sim::violate("nested-differs", "inside callback %s: %s: alone \"%s\", nested \"%s\"", w, x.job->title().c_str(), x.alone.c_str(), r.c_str());
    }
};
}  // namespace

void sim::run()
{
    using configor::json;
    using configor::wjson;
    armed = false;
    model::Gen g;
    g.budget = 12;
    MV sm = model::gen_container(g);
    json::value sn;
    wjson::value sw;
    {
        LibScope l;
        sn = val<json::value>::build(sm);
        sw = val<wjson::value>::build(sm);
    }
    std::vector<Inner> inner(1 + draw(3));
    // often an operation of the outer one's kind, on other data
    Focus f = Focus::gen();
    if (f.kind >= 0 && draw(2)) f.kind = 10 + (int)draw(3);
    if (f.kind >= 10 && f.kind <= 12) f.type = (int)draw(TYPES);
    for (Inner& x : inner)
    {
        if (draw(6) != 0) x.job.reset(gen_job(&sn, &sw, draw(2) * 4, draw(4) ? f : Focus()));
    }
    Counter c;
    std::string alone;
    std::unique_ptr<Job> outer, twin;
    for (int t = 0; t < 5 && !c.n; ++t)  // one that calls back
    {
        const uint32_t shared = draw(2) * 2, mark = sim::tape_mark();
        outer.reset(gen_job(&sn, &sw, shared, f));
        if (!inner[0].job)  // the very same operation
        {
            sim::tape_rewind(mark);
            twin.reset(gen_job(&sn, &sw, shared, f));
        }
        HookScope h(&c);
        alone = run_job(*outer);
    }
    inner.front().job = inner.front().job ? std::move(inner.front().job) : std::move(twin);
    for (Inner& x : inner)
        if (x.job) x.alone = run_job(*x.job);
    Nest deep, nest;
    std::vector<Inner> all;
    for (Inner& x : inner) if (x.job) all.push_back(std::move(x));
    if (all.empty()) { Inner x; x.job.reset(gen_job(&sn, &sw, 0)); x.alone = run_job(*x.job); all.push_back(std::move(x)); }
    nest.inner = deep.inner = &all;
    nest.alloc = draw(2) != 0;
    if (draw(3) == 0) nest.every = 1 + draw(6);
    else
        for (uint32_t k = 1 + draw(4); k; --k)
        {
            const uint64_t at = draw((uint32_t)c.n + 1);
            if (c.kinds.empty() || draw(2)) { nest.when.push_back(at); continue; }
            const std::vector<uint64_t>& w = c.kinds[draw((uint32_t)c.kinds.size())].second;  // rare callbacks as often as frequent ones
            nest.when.push_back(w[draw((uint32_t)w.size())]);
        }
    nest.limit = sim::thorough() ? 200 : 40;
    if (chance(1, 60)) { nest.storm = 200 + draw(1200); nest.limit = 1; nest.alloc = false; }
    if (draw(2)) { nest.deeper = &deep; deep.limit = 20; deep.every = 1 + draw(20); }
    std::string r;
    {
        HookScope h(&nest);
        r = run_job(*outer);
    }
    ev("outer (%llu callbacks): %s => %s", (unsigned long long)c.n, outer->title().c_str(), r.c_str());
    if (r != alone) sim::violate("outer-differs", "%s: alone \"%s\", with operations nested in its callbacks \"%s\"", outer->title().c_str(), alone.c_str(), r.c_str());
    if (!model::same(sm, val<json::value>::lift(sn), 0) || !model::same(sm, val<wjson::value>::lift(sw), 0))
        sim::violate("shared-value-modified", "a value that was only read is now %s, was %s", model::show(val<json::value>::lift(sn)).c_str(), model::show(sm).c_str());
    outer.reset();
    twin.reset();
    all.clear();
    inner.clear();
    LibScope l;
    sn = nullptr;
    sw = nullptr;
}
