// Built without sanitizer instrumentation.
#include "simcore.hpp"

#include <algorithm>
#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <exception>
#include <fcntl.h>
#include <map>
#include <new>
#include <pthread.h>
#include <semaphore.h>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <typeinfo>
#include <unistd.h>

namespace
{
const uint32_t TAPE_CAP  = 1u << 16;
const uint32_t TRACE_CAP = 1u << 16;
const int      NAMES     = 96;
const uint32_t COV_CAP   = 1u << 18;

enum State { IDLE, RUNNING, DONE, VIOLATED };

struct Named { char name[40]; uint64_t n; };

// one run, written by the child, read by its parent
struct Slot
{
    volatile int state;
    char         cls[64];
    char         msg[2048];
    uint32_t     tape_len;   // recorded choices
    uint32_t     tape_pos;   // consumed choices
    uint32_t     tape_max;   // the furthest position reached (see tape_rewind)
    uint32_t     tape[TAPE_CAP];
    uint64_t     hash;
    uint64_t     nevents;
    uint64_t     steps;
    uint64_t     switches;
    uint64_t     allocs;
    int          nontrivial;
    uint32_t     trace_len;
    char         trace[TRACE_CAP];
    Named        faults[NAMES];
    Named        probes[NAMES];
};

Slot*    slot = nullptr;
uint8_t* cov  = nullptr;  // edges reached, shared by all runs of a worker
uint32_t nguards = 0;

bool     replaying = false;
uint64_t rng_s[4];
bool     is_thorough = false;
uint64_t budget_end  = ~0ull;

uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
uint64_t rng_next()
{
    const uint64_t r = rotl(rng_s[1] * 5, 7) * 9, t = rng_s[1] << 17;
    rng_s[2] ^= rng_s[0]; rng_s[3] ^= rng_s[1]; rng_s[1] ^= rng_s[2]; rng_s[0] ^= rng_s[3];
    rng_s[2] ^= t; rng_s[3] = rotl(rng_s[3], 45);
    return r;
}
uint64_t splitmix(uint64_t& x)
{
    uint64_t z = (x += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
uint64_t fnv(uint64_t h, const void* p, size_t n)
{
    const unsigned char* c = static_cast<const unsigned char*>(p);
    for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; }
    return h;
}

void count_named(Named* t, const char* name, uint64_t n)
{
    for (int i = 0; i < NAMES; ++i)
    {
        if (!t[i].name[0]) { strncpy(t[i].name, name, sizeof t[i].name - 1); }
        if (!strncmp(t[i].name, name, sizeof t[i].name - 1)) { t[i].n += n; return; }
    }
}

[[noreturn]] void stop_run(const char* cls, const char* msg)
{
    static std::atomic<int> once{ 0 };
    if (once.exchange(1) == 0 && slot && slot->state == RUNNING)
    {
        strncpy(slot->cls, cls, sizeof slot->cls - 1);
        strncpy(slot->msg, msg, sizeof slot->msg - 1);
        slot->state = VIOLATED;
    }
    _exit(77);
}

// ---- allocation ------------------------------------------------------------
struct Header { uint32_t magic; uint32_t lib; uint64_t size; };
const uint32_t LIVE = 0x51a11ce5u, SIZED = 0x51a11ce6u, FREED = 0xdeadf4eeu;
thread_local int lib_scope = 0;
int64_t  live_n = 0, live_b = 0, all_b = 0;
bool     armed = false;
uint64_t arm_nth = 0, arm_burst = 0, arm_seen = 0, arm_fired = 0;

void maybe_switch_alloc();

void* do_alloc(size_t n, uint32_t magic, bool may_throw)
{
    const bool lib = lib_scope != 0;
    if (lib)
    {
        maybe_switch_alloc();
        if (slot) ++slot->allocs;
        if (armed)
        {
            const uint64_t i = arm_seen++;
            if (i >= arm_nth && i - arm_nth < arm_burst)
            {
                ++arm_fired;
                sim::fault("alloc-fail");
                sim::ev("fault alloc-fail #%llu size=%zu", (unsigned long long)i, n);
                if (may_throw) throw std::bad_alloc();
                return nullptr;
            }
        }
    }
    if (n > (1ull << 30) || all_b > (1ll << 30))
    {
        if (slot && slot->state == RUNNING && lib) stop_run("memory-blowup", "the library asked for more than 1 GiB");
        if (may_throw) throw std::bad_alloc();
        return nullptr;
    }
    Header* h = static_cast<Header*>(malloc(sizeof(Header) + n));
    if (!h) { if (may_throw) throw std::bad_alloc(); return nullptr; }
    h->magic = magic; h->lib = lib; h->size = n;
    all_b += (int64_t)n;
    if (lib) { ++live_n; live_b += (int64_t)n; }
    return h + 1;
}

void do_free(void* p, uint32_t magic, size_t n, bool check_n)
{
    if (!p) return;
    Header* h = static_cast<Header*>(p) - 1;
    if (h->magic == FREED) stop_run("double-free", "memory released twice");
    if (h->magic != magic) stop_run("bad-free", "memory released that was not allocated (that way)");
    if (check_n && h->size != n) stop_run("bad-free-size", "deallocate() called with a size other than allocate()");
    h->magic = FREED;
    all_b -= (int64_t)h->size;
    if (h->lib) { --live_n; live_b -= (int64_t)h->size; }
    free(h);
}

// ---- scheduler --------------------------------------------------------------
struct Task { pthread_t th; sem_t sem; bool done; const std::function<void()>* fn; int idx; };
std::vector<Task*>* tasks = nullptr;
thread_local int    my_task     = -1;
int                 current     = -1;
bool                preempting  = false;
int64_t             quantum     = 0;
uint32_t            switches_left = 0;
uint32_t            quantum_max = 0;
uint32_t            sched_mode  = 0;      // 0 random quanta, 1 bursts of short quanta, 2 rendezvous
uint32_t            burst_left  = 0;      // short quanta to come
uint32_t            meet        = 0;      // the edge at which the running task meets a suspended one
int                 no_preempt  = 0;
thread_local int    held_mutexes = 0;
sem_t               main_sem;

void new_quantum()
{
    if (switches_left == 0) { quantum = INT64_MAX; return; }
    if (burst_left)
    {
        --burst_left;
        quantum = 1 + (int64_t)sim::draw(24);
        return;
    }
    if (sched_mode == 1 && sim::draw(3) == 0) burst_left = 2 + sim::draw(30);
    // 0 means: run on undisturbed
    uint32_t q = sim::draw(quantum_max);
    quantum = q == 0 ? INT64_MAX : (int64_t)q;
}

void hand_to(int j)
{
    Task* me = (*tasks)[(size_t)my_task];
    Task* to = (*tasks)[(size_t)j];
    if (to == me) return;
    ++slot->switches;
    current = j;
    sem_post(&to->sem);
    while (sem_wait(&me->sem) != 0) {}
}

int pick_other()
{
    int n = 0, cand[16];
    for (size_t i = 0; i < tasks->size(); ++i)
        if (!(*tasks)[i]->done && (int)i != my_task) cand[n++] = (int)i;
    return n ? cand[sim::draw((uint32_t)n)] : -1;
}

bool in_tasks() { return preempting && my_task >= 0 && my_task == current; }

void do_switch(uint32_t edge = 0)
{
    if (!in_tasks() || no_preempt || held_mutexes) { quantum = 1; return; }
    if (switches_left) --switches_left;
    int j = pick_other();
    if (j < 0) { quantum = INT64_MAX; return; }
    sim::ev("switch %d->%d", my_task, j);
    if (meet)
    {
        // two tasks are at the same place, or never will be: now they alternate quickly
        if (meet == edge) { burst_left = 2 + sim::draw(20); sim::probe("rendezvous"); }
        meet = 0;
        new_quantum();
    }
    else if (sched_mode == 2 && edge && !burst_left && switches_left && sim::draw(4))
    {
        meet    = edge;
        quantum = 30000;
    }
    else new_quantum();
    int me_scope = lib_scope;
    hand_to(j);
    lib_scope = me_scope;
}

void maybe_switch_alloc()
{
    if (preempting && in_tasks() && quantum < 64 && !no_preempt && !held_mutexes && switches_left) do_switch();
}

void* task_main(void* p)
{
    Task* t = static_cast<Task*>(p);
    my_task = t->idx;
    while (sem_wait(&t->sem) != 0) {}
    (*t->fn)();
    t->done = true;
    int j = pick_other();
    sim::ev("task %d done -> %d", t->idx, j);
    my_task = -1;
    meet = 0;
    if (j >= 0) { new_quantum(); current = j; sem_post(&(*tasks)[(size_t)j]->sem); }
    else sem_post(&main_sem);
    return nullptr;
}

}  // namespace

// ---- operator new/delete ------------------------------------------------------
void* operator new(size_t n) { return do_alloc(n, LIVE, true); }
void* operator new[](size_t n) { return do_alloc(n, LIVE, true); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return do_alloc(n, LIVE, false); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return do_alloc(n, LIVE, false); }
void operator delete(void* p) noexcept { do_free(p, LIVE, 0, false); }
void operator delete[](void* p) noexcept { do_free(p, LIVE, 0, false); }
void operator delete(void* p, size_t) noexcept { do_free(p, LIVE, 0, false); }
void operator delete[](void* p, size_t) noexcept { do_free(p, LIVE, 0, false); }
void operator delete(void* p, const std::nothrow_t&) noexcept { do_free(p, LIVE, 0, false); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { do_free(p, LIVE, 0, false); }

// ---- instrumentation ------------------------------------------------------------
extern "C" void __sanitizer_cov_trace_pc_guard_init(uint32_t* a, uint32_t* b)
{
    for (; a < b; ++a)
        if (!*a) *a = ++nguards;
}

extern "C" void __sanitizer_cov_trace_pc_guard(uint32_t* g)
{
    if (!slot) return;
    if (++slot->steps > budget_end) stop_run("hang", "step budget exhausted");
    if (*g < COV_CAP) cov[*g] = 1;
    if (preempting && (--quantum <= 0 || *g == meet)) do_switch(*g);
}

// ---- interposed synchronisation ----------------------------------------------------
// A task suspended while it initialises a static makes others wait: they hand over.
namespace __cxxabiv1
{
extern "C" int __cxa_guard_acquire(__guard* g)
{
    volatile char* b = reinterpret_cast<volatile char*>(g);
    for (int spin = 0;; ++spin)
    {
        if (b[0]) return 0;
        if (!b[1]) { b[1] = 1; b[2] = (char)(my_task + 2); return 1; }
        if (b[2] == (char)(my_task + 2)) stop_run("static-init-recursion", "recursive initialisation of a static");
        if (!in_tasks() || spin > 100000) stop_run("static-init-deadlock", "static initialisation never finishes");
        quantum = 1;
        int j = pick_other();
        if (j >= 0) hand_to(j);
    }
}
extern "C" void __cxa_guard_release(__guard* g) noexcept
{
    char* b = reinterpret_cast<char*>(g);
    b[1] = 0; b[0] = 1;
}
extern "C" void __cxa_guard_abort(__guard* g) noexcept { reinterpret_cast<char*>(g)[1] = 0; }
}

// ---- API -----------------------------------------------------------------------------
namespace sim
{

uint32_t draw(uint32_t n)
{
    if (n == 0) n = 1;
    Slot* s = slot;
    uint32_t v;
    if (replaying || s->tape_pos < s->tape_len)
    {
        v = s->tape_pos < s->tape_len ? s->tape[s->tape_pos] % n : 0;
    }
    else
    {
        if (s->tape_len >= TAPE_CAP) return 0;
        v = n == 1 ? 0 : (uint32_t)(rng_next() % n);
        s->tape[s->tape_len++] = v;
    }
    if (++s->tape_pos > s->tape_max) s->tape_max = s->tape_pos;
    return v;
}

uint32_t tape_mark() { return slot->tape_pos; }
void     tape_rewind(uint32_t mark) { slot->tape_pos = mark; }

uint64_t draw64()
{
    uint64_t a = draw(1u << 16), b = draw(1u << 16), c = draw(1u << 16), d = draw(1u << 16);
    return a | (b << 16) | (c << 32) | (d << 48);
}

void ev(const char* fmt, ...)
{
    char buf[400];
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    if (n < 0) return;
    if (n >= (int)sizeof buf) n = sizeof buf - 1;
    slot->hash = fnv(slot->hash, buf, (size_t)n + 1);
    ++slot->nevents;
    if (slot->trace_len + (uint32_t)n + 2 < TRACE_CAP)
    {
        memcpy(slot->trace + slot->trace_len, buf, (size_t)n);
        slot->trace_len += (uint32_t)n;
        slot->trace[slot->trace_len++] = '\n';
    }
}

void ev_bytes(const char* what, const void* p, size_t n)
{
    char buf[300];
    size_t o = 0;
    const unsigned char* c = static_cast<const unsigned char*>(p);
    for (size_t i = 0; i < n && o + 5 < sizeof buf; ++i)
    {
        if (c[i] >= 0x20 && c[i] < 0x7f && c[i] != '\\') buf[o++] = (char)c[i];
        else o += (size_t)snprintf(buf + o, 5, "\\x%02x", c[i]);
    }
    buf[o] = 0;
    ev("%s[%zu] %s #%llx", what, n, buf, (unsigned long long)fnv(14695981039346656037ull, p, n));
}

void note(uint64_t h) { slot->hash = fnv(slot->hash, &h, sizeof h); }

void violate(const char* cls, const char* fmt, ...)
{
    char buf[2000];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    ev("VIOLATION %s: %s", cls, buf);
    stop_run(cls, buf);
}

void     fault(const char* kind) { count_named(slot->faults, kind, 1); }
void     probe(const char* name, uint64_t n) { count_named(slot->probes, name, n); }
void     nontrivial() { slot->nontrivial = 1; }
uint64_t steps() { return slot->steps; }
void     set_step_budget(uint64_t n) { budget_end = slot->steps + n; }
uint64_t step_budget_left() { return budget_end > slot->steps ? budget_end - slot->steps : 0; }
bool     thorough() { return is_thorough; }

int lib_scope_enter(int v) { int p = lib_scope; lib_scope = v; return p; }
bool alloc_is_lib() { return lib_scope != 0; }
void alloc_arm(uint64_t nth, uint64_t burst) { armed = true; arm_nth = nth; arm_burst = burst; arm_seen = arm_fired = 0; }
uint64_t alloc_disarm() { armed = false; return arm_seen; }
uint64_t alloc_fired() { return arm_fired; }
void* lib_alloc(size_t n) { return do_alloc(n, SIZED, true); }
void lib_free(void* p, size_t n) { do_free(p, SIZED, n, true); }
int64_t lib_live() { return live_n; }
int64_t lib_live_bytes() { return live_b; }

int      self() { return my_task; }
uint64_t switches() { return slot->switches; }
void     point() { if (preempting && in_tasks()) { quantum -= 16; if (quantum <= 0) do_switch(); } }
NoPreempt::NoPreempt() { ++no_preempt; }
NoPreempt::~NoPreempt() { --no_preempt; }

void run_tasks(const std::vector<std::function<void()>>& fns, uint32_t max_switches)
{
    std::vector<Task*> ts;
    sem_init(&main_sem, 0, 0);
    for (size_t i = 0; i < fns.size(); ++i)
    {
        Task* t = new Task;
        sem_init(&t->sem, 0, 0);
        t->done = false; t->fn = &fns[i]; t->idx = (int)i;
        ts.push_back(t);
    }
    tasks = &ts;
    static const uint32_t qs[] = { 9, 33, 257, 1025, 8193 };
    quantum_max   = qs[draw(5)];
    sched_mode    = draw(4) % 3;
    burst_left    = 0;
    meet          = 0;
    switches_left = max_switches;
    int first = (int)draw((uint32_t)fns.size());
    for (Task* t : ts)
    {
        pthread_attr_t at;
        pthread_attr_init(&at);
        pthread_attr_setstacksize(&at, 4u << 20);
        if (pthread_create(&t->th, &at, task_main, t) != 0) { fprintf(stderr, "pthread_create failed\n"); _exit(3); }
        pthread_attr_destroy(&at);
    }
    ev("tasks=%zu mode=%u quantum<%u first=%d", fns.size(), sched_mode, quantum_max, first);
    current = first;
    new_quantum();
    preempting = true;
    sem_post(&ts[(size_t)first]->sem);
    while (sem_wait(&main_sem) != 0) {}
    preempting = false;
    current = -1;
    for (Task* t : ts) { pthread_join(t->th, nullptr); sem_destroy(&t->sem); delete t; }
    tasks = nullptr;
    sem_destroy(&main_sem);
}

}  // namespace sim

// a libstdc++ critical section is never interrupted
#include <dlfcn.h>
extern "C" int __pthread_mutex_lock(pthread_mutex_t*);
typedef int (*mutex_fn)(pthread_mutex_t*);
static mutex_fn real_lock = nullptr, real_unlock = nullptr;
static void resolve_mutex()
{
    real_lock   = (mutex_fn)dlsym(RTLD_NEXT, "pthread_mutex_lock");
    real_unlock = (mutex_fn)dlsym(RTLD_NEXT, "pthread_mutex_unlock");
}
extern "C" int pthread_mutex_lock(pthread_mutex_t* m) noexcept
{
    if (!real_lock) resolve_mutex();
    ++held_mutexes;
    return real_lock(m);
}
extern "C" int pthread_mutex_unlock(pthread_mutex_t* m) noexcept
{
    if (!real_unlock) resolve_mutex();
    --held_mutexes;
    return real_unlock(m);
}

// ---- driver ---------------------------------------------------------------------------
extern "C" void __asan_set_error_report_callback(void (*)(const char*)) __attribute__((weak));
extern "C" const char* __asan_default_options()
{
    return "exitcode=77:detect_leaks=0:abort_on_error=0:alloc_dealloc_mismatch=0:handle_abort=0:"
           "detect_stack_use_after_return=0:allocator_may_return_null=1:print_legend=0:symbolize=0:"
           "quarantine_size_mb=8:malloc_context_size=6:max_allocation_size_mb=4096:detect_odr_violation=0";
}

namespace
{
void asan_report(const char* rep)
{
    if (!slot || slot->state != RUNNING) return;
    char cls[64] = "memory-error";
    const char* p = strstr(rep, "AddressSanitizer: ");
    if (p)
    {
        p += 18;
        int n = 0;
        while (p[n] && p[n] != ' ' && p[n] != '\n' && n < 40) ++n;
        snprintf(cls, sizeof cls, "asan-%.*s", n, p);
    }
    char msg[1500];
    snprintf(msg, sizeof msg, "%.1400s", rep);
    // addresses differ between the build hosts: keep the first line only
    char* nl = strchr(msg, '\n');
    while (nl && nl == msg) { memmove(msg, msg + 1, strlen(msg)); nl = strchr(msg, '\n'); }
    stop_run(cls, msg);
}
void on_terminate()
{
    const std::type_info* t = abi::__cxa_current_exception_type();
    char msg[200];
    snprintf(msg, sizeof msg, "std::terminate, exception in flight: %s", t ? t->name() : "none");
    stop_run("terminate", msg);
}
void on_cpu_limit(int) { stop_run("hang", "processor time limit of one run"); }
void on_alarm(int) { _exit(3); }
void on_signal(int s)
{
    char msg[80];
    snprintf(msg, sizeof msg, "signal %d", s);
    stop_run(s == SIGABRT ? "abort" : "signal", msg);
}

double now()
{
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec;
}

void seed_run(uint64_t seed, uint64_t idx)
{
    uint64_t x = fnv(14695981039346656037ull, sim::property, strlen(sim::property)) ^ (seed * 0x9e3779b97f4a7c15ull) ^ (idx * 0xd1342543de82ef95ull);
    for (int i = 0; i < 4; ++i) rng_s[i] = splitmix(x);
}

void reset_slot(Slot* s)
{
    s->state = IDLE;
    memset(s->cls, 0, sizeof s->cls);
    s->msg[0] = 0;
    memset(s->msg, 0, sizeof s->msg);
    s->tape_len = s->tape_pos = s->tape_max = 0;
    s->hash = 14695981039346656037ull;
    s->nevents = s->steps = s->switches = s->allocs = 0;
    s->nontrivial = 0;
    s->trace_len = 0;
    memset(s->faults, 0, sizeof s->faults);
    memset(s->probes, 0, sizeof s->probes);
}

bool quiet_child = true;

// runs one simulated run in a forked child; the tape is in slot when replay is set
void execute(bool replay)
{
    slot->tape_pos = slot->tape_max = 0;
    slot->state = RUNNING;
    fflush(stdout);
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); _exit(3); }
    if (pid == 0)
    {
        replaying = replay;
        if (quiet_child)
        {
            int fd = open("/dev/null", O_WRONLY);
            if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); }
        }
        std::set_terminate(on_terminate);
        signal(SIGALRM, on_alarm);
        signal(SIGPROF, on_cpu_limit);
        signal(SIGABRT, on_signal);
        signal(SIGFPE, on_signal);
        signal(SIGPIPE, SIG_IGN);
        itimerval it{};
        it.it_value.tv_sec = 60;
        setitimer(ITIMER_PROF, &it, nullptr);
        it.it_value.tv_sec = 240;
        setitimer(ITIMER_REAL, &it, nullptr);
        if (__asan_set_error_report_callback) __asan_set_error_report_callback(asan_report);
        budget_end = 400000000ull;
        sim::run();
        if (slot->state == RUNNING) slot->state = DONE;
        _exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (slot->state == RUNNING)
    {
        snprintf(slot->cls, sizeof slot->cls, "crash");
        if (WIFSIGNALED(st)) snprintf(slot->msg, sizeof slot->msg, "killed by signal %d", WTERMSIG(st));
        else snprintf(slot->msg, sizeof slot->msg, "exited with status %d", WEXITSTATUS(st));
        slot->state = (WIFEXITED(st) && WEXITSTATUS(st) == 3) ? IDLE : VIOLATED;
    }
}

void* shared(size_t n)
{
    void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); _exit(3); }
    return p;
}

const int MAX_HASH = 1 << 21;

struct Worker
{
    uint64_t runs, nontrivial, steps, switches, allocs, events, determinism_checked, determinism_bad, known;
    uint64_t tape_total;
    uint64_t digest;    // of all event logs, whatever the number of workers
    int      broken;
    uint64_t viol_idx;
    uint64_t bad_idx;
    Named    faults[NAMES], probes[NAMES];
    uint64_t nhash;
    uint64_t hashes[MAX_HASH];  // of the non-trivial runs
    uint64_t nsamples;
    struct { uint64_t idx; char trace[1200]; } samples[2];
    char     known_msg[600];
};

struct Global { volatile uint64_t min_viol; };

std::string jstr(const char* s, size_t n)
{
    std::string o = "\"";
    char b[8];
    for (size_t i = 0; i < n; ++i)
    {
        unsigned char c = (unsigned char)s[i];
        if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if (c < 0x20 || c >= 0x7f) { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += (char)c;
    }
    return o + "\"";
}
std::string jstr(const std::string& s) { return jstr(s.data(), s.size()); }

std::string trace_json(const char* t, size_t n)
{
    std::string o = "[";
    size_t i = 0;
    bool first = true;
    while (i < n)
    {
        size_t j = i;
        while (j < n && t[j] != '\n') ++j;
        if (!first) o += ",\n  ";
        first = false;
        o += jstr(t + i, j - i);
        i = j + 1;
    }
    return o + "]";
}

bool known_class(const std::string& known, const char* cls)
{
    std::string k = "," + known + ",", c = std::string(",") + cls + ",";
    return k.find(c) != std::string::npos;
}

struct Tape { std::vector<uint32_t> v; };

// does this tape still show the class?  leaves the run in slot
bool tries(const std::vector<uint32_t>& t, const std::string& cls)
{
    reset_slot(slot);
    slot->tape_len = (uint32_t)t.size();
    if (!t.empty()) memcpy(slot->tape, t.data(), t.size() * 4);
    execute(true);
    return slot->state == VIOLATED && cls == slot->cls;
}

std::vector<uint32_t> shrink(std::vector<uint32_t> t, const std::string& cls, double seconds, int& attempts)
{
    const double end = now() + seconds;
    attempts = 0;
    auto ok = [&](const std::vector<uint32_t>& c) {
        ++attempts;
        if (!tries(c, cls)) return false;
        return true;
    };
    // drop what was never consumed
    if (ok(t)) { if (slot->tape_max < t.size()) t.resize(slot->tape_max); }
    bool progress = true;
    while (progress && now() < end)
    {
        progress = false;
        // truncate
        size_t lo = 0;
        for (size_t cut = t.size() / 2; cut >= 1 && now() < end; cut /= 2)
        {
            while (t.size() > cut && now() < end)
            {
                std::vector<uint32_t> c(t.begin(), t.end() - (long)cut);
                if (!ok(c)) break;
                t = c; progress = true;
            }
        }
        (void)lo;
        // delete chunks
        for (size_t len = std::min<size_t>(t.size() / 2, 64); len >= 1 && now() < end; len /= 2)
            for (size_t i = 0; i + len <= t.size() && now() < end;)
            {
                std::vector<uint32_t> c = t;
                c.erase(c.begin() + (long)i, c.begin() + (long)(i + len));
                if (ok(c)) { t = c; progress = true; }
                else i += len;
            }
        // zero chunks, then lower single values
        for (size_t len = std::min<size_t>(t.size(), 32); len >= 1 && now() < end; len /= 2)
            for (size_t i = 0; i + len <= t.size() && now() < end; i += len)
            {
                bool z = true;
                for (size_t k = i; k < i + len; ++k) z = z && t[k] == 0;
                if (z) continue;
                std::vector<uint32_t> c = t;
                std::fill(c.begin() + (long)i, c.begin() + (long)(i + len), 0u);
                if (ok(c)) { t = c; progress = true; }
            }
        for (size_t i = 0; i < t.size() && now() < end; ++i)
            for (uint32_t v = t[i] / 2; v >= 1 && v < t[i] && now() < end; v = v / 2)
            {
                std::vector<uint32_t> c = t;
                c[i] = v;
                if (ok(c)) { t = c; progress = true; break; }
            }
    }
    while (!t.empty() && t.back() == 0)
    {
        std::vector<uint32_t> c(t.begin(), t.end() - 1);
        if (!ok(c)) break;
        t = c;
    }
    return t;
}

void write_replay(const char* path, uint64_t seed, uint64_t idx, const std::vector<uint32_t>& t, int attempts, size_t orig)
{
    FILE* f = fopen(path, "w");
    if (!f) { perror(path); _exit(3); }
    fprintf(f, "{\"property\": \"%s\",\n \"class\": \"%s\",\n \"message\": %s,\n \"seed\": %llu, \"run\": %llu,\n \"hash\": \"%016llx\",\n",
            sim::property, slot->cls, jstr(slot->msg, strlen(slot->msg)).c_str(), (unsigned long long)seed,
            (unsigned long long)idx, (unsigned long long)slot->hash);
    fprintf(f, " \"tape_before_minimisation\": %zu, \"minimisation_runs\": %d,\n \"tape\": [", orig, attempts);
    for (size_t i = 0; i < t.size(); ++i) fprintf(f, "%s%u", i ? "," : "", t[i]);
    fprintf(f, "],\n \"trace\": %s}\n", trace_json(slot->trace, slot->trace_len).c_str());
    fclose(f);
}

std::string slurp(const char* path)
{
    FILE* f = fopen(path, "r");
    if (!f) { perror(path); _exit(3); }
    std::string s;
    char b[65536];
    size_t n;
    while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n);
    fclose(f);
    return s;
}

std::string named_json(const std::map<std::string, uint64_t>& m)
{
    std::string o = "{";
    for (auto& p : m) { if (o.size() > 1) o += ", "; o += jstr(p.first) + ": " + std::to_string(p.second); }
    return o + "}";
}

}  // namespace

int main(int argc, char** argv)
{
    // the same addresses in every process
    int pers = personality(0xffffffff);
    if (pers >= 0 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_REEXEC"))
    {
        setenv("SIM_REEXEC", "1", 1);
        if (personality((unsigned long)pers | ADDR_NO_RANDOMIZE) >= 0) execv("/proc/self/exe", argv);
    }
    uint64_t seed = 1, nruns = 1000, first = 0;
    int workers = 8, det_every = 50;
    double cap = 600, shrink_s = 25;
    const char *out = nullptr, *replay = nullptr, *replay_out = nullptr;
    std::string known;
    bool one = false;
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        auto val = [&]() { return ++i < argc ? argv[i] : (char*)""; };
        if (a == "--seed") seed = strtoull(val(), nullptr, 10);
        else if (a == "--runs") nruns = strtoull(val(), nullptr, 10);
        else if (a == "--first") first = strtoull(val(), nullptr, 10);
        else if (a == "--workers") workers = atoi(val());
        else if (a == "--cap") cap = atof(val());
        else if (a == "--shrink") shrink_s = atof(val());
        else if (a == "--det-every") det_every = atoi(val());
        else if (a == "--out") out = val();
        else if (a == "--replay") replay = val();
        else if (a == "--replay-out") replay_out = val();
        else if (a == "--known") known = val();
        else if (a == "--thorough") is_thorough = true;
        else if (a == "--one") { one = true; first = strtoull(val(), nullptr, 10); }
        else if (a == "--loud") quiet_child = false;
        else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 3; }
    }
    const double t0 = now();
    slot = static_cast<Slot*>(shared(sizeof(Slot)));
    cov  = static_cast<uint8_t*>(shared(COV_CAP));
    reset_slot(slot);

    if (replay)
    {
        std::string s = slurp(replay);
        size_t p = s.find("\"tape\": [");
        if (p == std::string::npos) { fprintf(stderr, "no tape in %s\n", replay); return 3; }
        p += 9;
        std::vector<uint32_t> t;
        while (p < s.size() && s[p] != ']')
        {
            t.push_back((uint32_t)strtoul(s.c_str() + p, nullptr, 10));
            while (p < s.size() && s[p] != ',' && s[p] != ']') ++p;
            if (s[p] == ',') ++p;
        }
        if (t.size() == 1 && s.find("\"tape\": []") != std::string::npos) t.clear();
        tries(t, "");
        printf("class=%s hash=%016llx\nmessage=%s\n%.*s", slot->state == VIOLATED ? slot->cls : "none",
               (unsigned long long)slot->hash, slot->msg, (int)slot->trace_len, slot->trace);
        return slot->state == VIOLATED ? 1 : slot->state == DONE ? 0 : 3;
    }
    if (one)
    {
        seed_run(seed, first);
        execute(false);
        printf("%.*sstate=%d class=%s hash=%016llx steps=%llu switches=%llu tape=%u\nmessage=%s\n", (int)slot->trace_len,
               slot->trace, slot->state, slot->cls, (unsigned long long)slot->hash, (unsigned long long)slot->steps,
               (unsigned long long)slot->switches, slot->tape_len, slot->msg);
        for (int i = 0; i < NAMES && slot->faults[i].name[0]; ++i) printf("fault %s %llu\n", slot->faults[i].name, (unsigned long long)slot->faults[i].n);
        for (int i = 0; i < NAMES && slot->probes[i].name[0]; ++i) printf("probe %s %llu\n", slot->probes[i].name, (unsigned long long)slot->probes[i].n);
        return slot->state == VIOLATED ? 1 : 0;
    }

    Global* g = static_cast<Global*>(shared(sizeof(Global)));
    g->min_viol = ~0ull;
    std::vector<Worker*> ws;
    std::vector<uint8_t*> covs;
    std::vector<pid_t> pids;
    for (int w = 0; w < workers; ++w)
    {
        Worker* wk = static_cast<Worker*>(shared(sizeof(Worker)));
        wk->viol_idx = wk->bad_idx = ~0ull;
        uint8_t* cv = static_cast<uint8_t*>(shared(COV_CAP));
        Slot* sl = static_cast<Slot*>(shared(sizeof(Slot)));
        ws.push_back(wk);
        covs.push_back(cv);
        pid_t pid = fork();
        if (pid < 0) { perror("fork"); return 3; }
        if (pid) { pids.push_back(pid); continue; }
        slot = sl; cov = cv;
        uint64_t mine = 0;
        for (uint64_t idx = first + (uint64_t)w; idx < first + nruns; idx += (uint64_t)workers)
        {
            if (idx > g->min_viol || now() - t0 > cap) break;
            reset_slot(slot);
            seed_run(seed, idx);
            execute(false);
            if (slot->state == IDLE) { wk->broken = 1; break; }
            ++wk->runs;
            {
                uint64_t x = slot->hash ^ (idx * 0x9e3779b97f4a7c15ull) ^ (slot->steps << 1);
                wk->digest += splitmix(x);
            }
            if (slot->state == VIOLATED)
            {
                if (known_class(known, slot->cls))
                {
                    ++wk->known;
                    if (!wk->known_msg[0]) snprintf(wk->known_msg, sizeof wk->known_msg, "%s: %.400s", slot->cls, slot->msg);
                    continue;
                }
                wk->viol_idx = idx;
                uint64_t cur = g->min_viol;
                while (idx < cur && !__sync_bool_compare_and_swap(&g->min_viol, cur, idx)) cur = g->min_viol;
                break;
            }
            wk->steps += slot->steps; wk->switches += slot->switches; wk->allocs += slot->allocs;
            wk->events += slot->nevents; wk->tape_total += slot->tape_len;
            for (int i = 0; i < NAMES; ++i)
            {
                if (slot->faults[i].name[0]) count_named(wk->faults, slot->faults[i].name, slot->faults[i].n);
                if (slot->probes[i].name[0]) count_named(wk->probes, slot->probes[i].name, slot->probes[i].n);
            }
            if (slot->nontrivial)
            {
                ++wk->nontrivial;
                if (wk->nhash < MAX_HASH) wk->hashes[wk->nhash++] = slot->hash;
                if (wk->nsamples < 2)
                {
                    wk->samples[wk->nsamples].idx = idx;
                    uint32_t n = std::min<uint32_t>(slot->trace_len, 1100);
                    memcpy(wk->samples[wk->nsamples].trace, slot->trace, n);
                    ++wk->nsamples;
                }
            }
            if (det_every && mine++ % (uint64_t)det_every == 0)
            {
                uint64_t h = slot->hash, st = slot->steps;
                // once from the seed, once from the recorded tape
                std::vector<uint32_t> t(slot->tape, slot->tape + slot->tape_len);
                reset_slot(slot);
                seed_run(seed, idx);
                execute(false);
                ++wk->determinism_checked;
                bool bad = slot->hash != h || slot->steps != st;
                if (!bad && !t.empty() && t.size() < TAPE_CAP) { tries(t, ""); bad = slot->hash != h || slot->steps != st; }
                if (bad) { ++wk->determinism_bad; wk->bad_idx = idx; }
            }
        }
        _exit(0);
    }
    for (pid_t p : pids) { int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} if (!WIFEXITED(st) || WEXITSTATUS(st)) { fprintf(stderr, "worker died: %d\n", st); return 3; } }
    const double t1 = now();

    Worker sum{};
    std::map<std::string, uint64_t> faults, probes;
    std::set<uint64_t> hashes;
    uint64_t viol = ~0ull, bad_idx = ~0ull;
    std::string samples, known_msg;
    int nsamp = 0;
    for (Worker* w : ws)
    {
        if (w->broken) { fprintf(stderr, "a run could not be executed\n"); return 3; }
        sum.runs += w->runs; sum.nontrivial += w->nontrivial; sum.steps += w->steps; sum.switches += w->switches;
        sum.allocs += w->allocs; sum.events += w->events; sum.tape_total += w->tape_total; sum.known += w->known;
        sum.digest += w->digest;
        sum.determinism_checked += w->determinism_checked; sum.determinism_bad += w->determinism_bad;
        for (int i = 0; i < NAMES; ++i)
        {
            if (w->faults[i].name[0]) faults[w->faults[i].name] += w->faults[i].n;
            if (w->probes[i].name[0]) probes[w->probes[i].name] += w->probes[i].n;
        }
        hashes.insert(w->hashes, w->hashes + w->nhash);
        if (w->viol_idx < viol) viol = w->viol_idx;
        if (w->bad_idx < bad_idx) bad_idx = w->bad_idx;
        if (w->known_msg[0]) known_msg = w->known_msg;
        for (uint64_t i = 0; i < w->nsamples && nsamp < 4; ++i, ++nsamp)
        {
            if (!samples.empty()) samples += ",\n";
            samples += "{\"run\": " + std::to_string(w->samples[i].idx) + ", \"events\": " + trace_json(w->samples[i].trace, strlen(w->samples[i].trace)) + "}";
        }
    }
    uint64_t edges = 0;
    for (uint32_t i = 0; i < COV_CAP; ++i)
    {
        bool hit = false;
        for (uint8_t* c : covs) hit = hit || c[i];
        edges += hit;
    }
    std::string vjson = "null";
    if (viol != ~0ull)
    {
        reset_slot(slot);
        seed_run(seed, viol);
        execute(false);
        if (slot->state != VIOLATED) { fprintf(stderr, "run %llu violated once but not again\n", (unsigned long long)viol); return 4; }
        std::string cls = slot->cls;
        std::vector<uint32_t> t(slot->tape, slot->tape + slot->tape_len);
        size_t orig = t.size();
        int attempts = 0;
        std::vector<uint32_t> m = shrink(t, cls, shrink_s, attempts);
        if (!tries(m, cls)) { m = t; if (!tries(m, cls)) { fprintf(stderr, "tape does not reproduce\n"); return 4; } }
        vjson = "{\"class\": " + jstr(cls) + ", \"message\": " + jstr(slot->msg, strlen(slot->msg)) + ", \"run\": " + std::to_string(viol)
                + ", \"hash\": \"";
        char hb[20];
        snprintf(hb, sizeof hb, "%016llx", (unsigned long long)slot->hash);
        vjson += hb;
        vjson += "\", \"tape\": " + std::to_string(m.size()) + "}";
        if (replay_out) write_replay(replay_out, seed, viol, m, attempts, orig);
    }
    std::string js = "{\"runs\": " + std::to_string(sum.runs) + ", \"nontrivial\": " + std::to_string(sum.nontrivial)
        + ", \"distinct\": " + std::to_string(hashes.size()) + ", \"steps\": " + std::to_string(sum.steps)
        + ", \"switches\": " + std::to_string(sum.switches) + ", \"lib_allocs\": " + std::to_string(sum.allocs)
        + ", \"events\": " + std::to_string(sum.events) + ", \"choices\": " + std::to_string(sum.tape_total)
        + ", \"known\": " + std::to_string(sum.known) + ", \"known_msg\": " + jstr(known_msg)
        + ", \"edges\": " + std::to_string(edges) + ", \"edges_total\": " + std::to_string(nguards)
        + ", \"determinism_checked\": " + std::to_string(sum.determinism_checked)
        + ", \"determinism_bad\": " + std::to_string(sum.determinism_bad)
        + ", \"bad_idx\": " + (bad_idx == ~0ull ? std::string("null") : std::to_string(bad_idx))
        + ", \"log_digest\": \"" + std::to_string(sum.digest) + "\""
        + ", \"run_s\": " + std::to_string(t1 - t0) + ", \"total_s\": " + std::to_string(now() - t0)
        + ",\n\"faults\": " + named_json(faults) + ",\n\"probes\": " + named_json(probes)
        + ",\n\"violation\": " + vjson + ",\n\"samples\": [" + samples + "]}\n";
    if (out) { FILE* f = fopen(out, "w"); if (!f) { perror(out); return 3; } fputs(js.c_str(), f); fclose(f); }
    else fputs(js.c_str(), stdout);
    return viol != ~0ull ? 1 : 0;
}
