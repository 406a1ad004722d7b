// Deterministic simulation runtime: token-passing scheduler for real threads,
// simulated clock, deterministic heap, fault points and event log.
#ifndef SIM_RT_H
#define SIM_RT_H

#include <cstddef>
#include <cstdint>
#include <string>
#include <utility>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- PRNG
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s{seed * 0x9E3779B97F4A7C15ULL + 0xD1B54A32D192ED03ULL} { next(); next(); }
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n == 0 ? 0 : next() % n; }
    int64_t range(int64_t a, int64_t b) { return a + static_cast<int64_t>(below(static_cast<uint64_t>(b - a + 1))); }
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
    template <class C> auto pick(C const &c) -> decltype(c[0]) { return c[below(c.size())]; }
};

// ---------------------------------------------------------------- kinds
enum class Ctx : uint8_t { Host = 0, Lib = 1, Harness = 2 };

enum Yield : uint8_t {
    Y_BLOCK,
    Y_ALLOC,
    Y_API,
    Y_CALLBACK,
    Y_LOCK,
    Y_UNLOCK,
    Y_COND,
    Y_YIELD,
    Y_SLEEP,
    Y_CREATE,
    Y_EXIT,
    Y_JOIN,
    Y_CLOCK,
    Y_HOST,
    Y_COUNT
};

enum Cb : uint8_t { CB_NONE, CB_INIT, CB_PROPAGATE, CB_UNDO, CB_CHECK, CB_DECIDE, CB_MODEL, CB_STATS, CB_API, CB_COUNT };

enum Fault : uint8_t {
    F_INTERRUPT,   // clingo_control_interrupt at a scheduling step
    F_CANCEL,      // solve handle cancelled
    F_MODELSTOP,   // on_model returns false
    F_ABANDON,     // handle closed after some models
    F_OOM,         // allocation failure inside the library
    F_USERFAIL,    // user callback fails
    F_CLOCKJUMP,   // clock jumps
    F_STALL,       // a thread is stalled
    F_SPURIOUS,    // spurious wakeup
    F_BADINPUT,    // malformed or overflowing statement
    F_SIGNAL,      // signal delivered (CLI)
    F_TIMELIMIT,   // time limit fires (CLI)
    F_RECONF,      // thread count / configuration change between solves
    F_PREEMPT,     // forced context switch
    F_COUNT
};
extern char const *const fault_names[F_COUNT];

struct Decision {
    uint64_t tick;
    char kind; // 's' switch to thread, 'c' waiter woken by a signal, 'j' clock jump in ms
    int64_t value;
};

struct SchedConfig {
    uint64_t seed = 1;
    int strategy = 0;          // 0 default, 1 random, 2 priorities, 3 round robin, 4 starve one
    unsigned sync_num = 0;     // probability of a switch at sync points (per 1000)
    uint64_t block_mean = 0;   // mean distance of preemptions in basic blocks / api points
    unsigned alloc_num = 0;    // per 1000 at allocations
    unsigned spurious = 0;     // per 1000 spurious wake-ups
    int layout = 0;            // heap layout: 0 ascending, 1 descending, 2 shuffled
    bool quarantine = false;   // delay reuse of freed memory
    uint64_t tick_ns = 100;    // simulated nanoseconds per tick
    unsigned clockjump = 0;    // per 1000 clock reads
    uint64_t tick_limit = 400000000;
    bool explicit_decisions = false;
    std::vector<Decision> decisions; // explicit schedule
};

struct Stats {
    uint64_t ticks, blocks, yields, switches, clock_reads, api_calls, allocs;
    uint64_t faults[F_COUNT];
    uint64_t callbacks[CB_COUNT];
    uint64_t hash;       // everything
    uint64_t sched_hash; // interleaving only
    uint64_t sim_ns;
    uint64_t threads;
    uint64_t cov_blocks;
};
extern Stats g_stats;

// ---------------------------------------------------------------- heap
enum Arena { A_BOOT, A_RUN, A_HARNESS };
extern thread_local int t_arena_override; // -1 none
bool heap_corrupt(char const **what);

// ---------------------------------------------------------------- control
struct Thread;
extern bool g_on;
using OnTick = void (*)();

//! Start simulation: run f(arg) as simulated thread 0. Returns when it is done.
void run(SchedConfig const &cfg, void (*f)(void *), void *arg);
int self_id();
int root_id();
void set_root();
uint64_t tick();
uint64_t now_ns();
void advance_ns(uint64_t ns);
void point(Yield kind, uint64_t info = 0); // yield point from harness
void sleep_ns(uint64_t ns);
void mix(uint64_t v);
std::vector<Decision> taken_decisions();

Ctx &ctx();
Cb &cb();

//! Violation / result reporting (terminates the process for fatal ones).
void set_fatal(void (*fatal)(char const *cls, char const *msg));
[[noreturn]] void fatal(char const *cls, char const *msg);
bool handler_crashed(void const *addr);

//! Allocation failure: fail the n-th (0 based) library allocation from now.
void arm_oom(int64_t n);
bool oom_fired();
void disarm_oom();
//! The library returned: memory is available again after a failure.
void settle_oom();
//! While set, failures are restricted to allocations of clingcon itself.
void oom_rewriting(bool on);

//! Block the calling simulated thread until the given tick is reached (or wake_tick is called).
//! Returns false if woken early.
bool wait_tick(uint64_t target);
void wake_tick(int tid);

//! signals (CLI)
void arm_signal(uint64_t after_ticks, int sig);
extern bool g_virtual_signals;
//! Called when the simulated program calls _exit.
void set_exit(void (*hook)(int));
//! Really end the process.
[[noreturn]] void quit();
void clear_alarm();
//! Signals are held back while not accepted.
void accept_signals(bool on);

void coverage_reset();

struct CtxScope {
    Ctx old;
    explicit CtxScope(Ctx c) : old{ctx()} { ctx() = c; }
    ~CtxScope() { ctx() = old; }
};
struct CbScope {
    Cb old;
    explicit CbScope(Cb c) : old{cb()} { cb() = c; ++g_stats.callbacks[c]; }
    ~CbScope() { cb() = old; }
};
struct HarnessScope {
    Ctx old;
    int olda;
    HarnessScope() : old{ctx()}, olda{t_arena_override} { ctx() = Ctx::Harness; t_arena_override = A_HARNESS; }
    ~HarnessScope() { ctx() = old; t_arena_override = olda; }
};

} // namespace sim
#endif
