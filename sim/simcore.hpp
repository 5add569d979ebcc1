// Deterministic simulator core: choice tape, event log, fault bookkeeping,
// allocation seam, cooperative scheduler of real threads.  See DESIGN.md.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdarg>
#include <functional>
#include <vector>

namespace sim
{

// ---- choices -------------------------------------------------------------
uint32_t draw(uint32_t n);                       // uniform in [0,n); 0 once the tape is exhausted
inline bool chance(uint32_t num, uint32_t den) { return draw(den) >= den - num; }  // 0 on tape => false
inline uint32_t range(uint32_t lo, uint32_t hi) { return lo + draw(hi - lo + 1); } // inclusive
uint64_t draw64();
uint32_t tape_mark();                            // run the same choices again:
void     tape_rewind(uint32_t mark);             // later draws repeat those made since the mark

// ---- log, verdicts, measurements -----------------------------------------
void ev(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void ev_bytes(const char* what, const void* p, size_t n);
void note(uint64_t h);                           // hashed into the event log without text
[[noreturn]] void violate(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
void fault(const char* kind);                    // a fault of this kind actually fired
void probe(const char* name, uint64_t n = 1);    // a condition of interest was reached
void nontrivial();                               // the run met the property's non-triviality rule
uint64_t steps();                                // executed instrumented edges of this run
void set_step_budget(uint64_t n);                // more than this many edges from now on => "hang"
uint64_t step_budget_left();
bool thorough();

// ---- allocation seam ------------------------------------------------------
// Allocations made inside a LibScope and outside a UserScope belong to the
// library; only those are counted, may fail, and must be released.
int  lib_scope_enter(int v);                     // returns the previous state
struct LibScope  { int p; LibScope()  : p(lib_scope_enter(1)) {} ~LibScope()  { lib_scope_enter(p); } };
struct UserScope { int p; UserScope() : p(lib_scope_enter(0)) {} ~UserScope() { lib_scope_enter(p); } };
void     alloc_arm(uint64_t nth, uint64_t burst); // library allocation number nth (0-based) and the burst-1 next ones fail
uint64_t alloc_disarm();                          // returns the number of library allocations since arming
uint64_t alloc_fired();                           // failures since arming
bool     alloc_is_lib();                          // inside a LibScope
void*    lib_alloc(size_t n);                     // seam of SimAllocator: as operator new, remembers n
void     lib_free(void* p, size_t n);             // n must match
int64_t  lib_live();                              // live library allocations (count)
int64_t  lib_live_bytes();

// ---- scheduler -------------------------------------------------------------
// Runs the tasks as real threads, one at a time; at every instrumented edge,
// library allocation and explicit point the tape may hand over to another.
void run_tasks(const std::vector<std::function<void()>>& tasks, uint32_t max_switches);
int  self();                                     // task index, -1 outside
void point();                                    // explicit preemption point
uint64_t switches();
struct NoPreempt { NoPreempt(); ~NoPreempt(); };

// ---- the property program ---------------------------------------------------
extern const char* const property;               // "C01"
void run();                                      // one simulated run

}  // namespace sim
