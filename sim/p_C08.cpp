// C08: over any history, with failures, a value behaves as a plain container model.
#include "history.hpp"

const char* const sim::property = "C08";

using namespace history;

namespace
{
struct sim_tplargs : configor::value_tplargs
{
    template <class T> using allocator_type = SimAllocator<T>;
};
typedef configor::basic_value<sim_tplargs> SV;
}  // namespace

void sim::run()
{
    const uint32_t which = draw(5), n = 6 + draw(sim::thorough() ? 60 : 24);
    switch (which)
    {
    case 0: case 1: Test<configor::json::value>::history(n); break;
    case 2: case 3: Test<configor::wjson::value>::history(n); break;
    default: Test<SV>::history(n); break;
    }
}
