// C17: value types with replaced template arguments keep the API and its meaning,
// over any history and through failures.
#include "simcore.hpp"

const char* const sim::property = "C17";

// replaced.cpp, once for each set of template arguments
void replaced0(bool io, uint32_t n);
void replaced1(bool io, uint32_t n);
void replaced2(bool io, uint32_t n);
void replaced3(bool io, uint32_t n);
void replaced4(bool io, uint32_t n);

static void body(uint32_t which, bool io, uint32_t n)
{
    switch (which)
    {
    case 0: replaced0(io, n); break;
    case 1: replaced1(io, n); break;
    case 2: replaced2(io, n); break;
    case 3: replaced3(io, n); break;
    default: replaced4(io, n); break;
    }
}

void sim::run()
{
    const uint32_t which = sim::draw(5), n = 6 + sim::draw(sim::thorough() ? 50 : 20);
    const bool io = sim::draw(2) != 0;
    const uint32_t mark = sim::tape_mark();
    int64_t live = sim::lib_live(), bytes = sim::lib_live_bytes();
    body(which, io, n);
    if (sim::lib_live() == live && sim::lib_live_bytes() == bytes) return;
    // a one-time initialisation is not repeated by a second execution of the same choices
    for (int again = 0; again < 2; ++again)
    {
        sim::tape_rewind(mark);
        live = sim::lib_live();
        bytes = sim::lib_live_bytes();
        body(which, io, n);
    }
    if (sim::lib_live() != live)
        sim::violate("leak", "%lld allocations (%lld bytes) remain after all values are destroyed", (long long)(sim::lib_live() - live), (long long)(sim::lib_live_bytes() - bytes));
    sim::probe("one-time-allocation");
}
